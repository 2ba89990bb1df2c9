"""R19: a tensor that is absent is never touched."""
import itertools
import multiprocessing

from .. import build
from ..engine import Engine, Monitor, AnalysisBroken, NULL, INF

NN = (-INF, INF, frozenset((0,)))
# exported C routine -> positions of pointer arguments that a caller may leave out
TOLERANT = {
    "omTensorCreate": [0], "omTensorCreateWithOwnership": [0], "omTensorDestroy": [0],
    "omTensorGetDataPtr": [0], "omTensorSetDataPtr": [0, 2, 3], "omTensorGetShape": [0], "omTensorSetShape": [0, 1],
    "omTensorGetStrides": [0], "omTensorSetStrides": [0, 1], "omTensorSetStridesWithPyArrayStrides": [0, 1],
    "omTensorGetDataType": [0], "omTensorSetDataType": [0], "omTensorGetBufferSize": [0], "omTensorGetRank": [0],
    "omTensorGetNumElems": [0], "omTensorGetOwning": [0], "omTensorSetOwning": [0], "omTensorGetAllocatedPtr": [0],
    "omTensorPrint": [1], "omTensorListDestroy": [0], "omTensorListDestroyShallow": [0], "omTensorListGetOmtArray": [0],
    "omTensorListGetSize": [0], "omTensorListGetOmtByIndex": [0], "omTensorSort": [0, 1], "omTensorTopK": [0, 1],
    "omTensorUnique": [1, 2, 3, 4, 5], "omTensorUniqueCount": [1], "Resize_Scales": [0, 1], "Resize_Size": [0, 1],
    "run_uniform_random": [0], "run_uniform_random_f32": [0], "run_uniform_random_f64": [0],
    "omGetExternalConstantAddr": [0, 1], "omUnloadConstantData": [0], "omLoadConstantData": [0],
}
# arguments that can be left out independently of each other
OPTIONAL = {"omTensorUnique": [1, 2, 3, 4], "omTensorSetDataPtr": [2, 3]}


class Null(Monitor):
    def nullderef(self, eng, st, i, ptr):
        eng.report("absent", i, "", st)


_m = None


def one(job):
    name, combo = job
    f = next(x for x in _m.fns.values() if x.q == name and x.blocks)
    sig = f.d["sig"][1:]
    e = Engine(f, Null(), arg_vals={k: NULL for k in combo},
               arg_facts={j: NN for j, t in enumerate(sig) if j not in combo and t.endswith("*")})
    e.run()
    return (name, combo, e.derefs, e.exits, [(r.loc, r.path) for r in e.reports.values() if r.rule == "absent"])


def absent(ctx, tier):
    global _m
    ctx.rule("absent", "with the argument null and every other pointer argument valid, no path through the routine reads, writes or "
                       "hands on memory through a null pointer")
    for group in ("crt", "rtxx"):
        _m = build.load(group, keep=["omTensorDestroy"])
        ctx.units |= set(_m.units)
        have = {f.q: f for f in _m.fns.values() if not f.decl and f.blocks and f.repo and not f.d.get("static")}
        jobs = []
        for name, ks in TOLERANT.items():
            f = have.get(name)
            if f is None:
                continue
            sig = f.d["sig"][1:]
            for k in ks:
                if k < len(sig) and sig[k].endswith("*"):
                    jobs.append((name, (k,)))
            if name in OPTIONAL:
                for n in range(2, len(OPTIONAL[name]) + 1):
                    jobs += [(name, c) for c in itertools.combinations(OPTIONAL[name], n)]
        jobs.sort(key=lambda j: j[0] != "omTensorUnique")
        with multiprocessing.get_context("fork").Pool(6) as pool:
            res = pool.map(one, jobs, chunksize=1)
        for name, combo, derefs, exits, bad in res:
            f = have[name]
            what = "argument%s %s of %s" % ("s" if len(combo) > 1 else "", " and ".join(str(k + 1) for k in combo), name)
            ctx.ok("absent arguments", "%s (%s)" % (what, f.file.replace(build.REPO + "/", "")))
            ctx.ok("exit paths", n=exits)
            ctx.ok("pointer uses", n=derefs)
            for loc, path in bad:
                ctx.violation("absent", loc, "with %s null, a null pointer is dereferenced here" % what,
                              key="absent|%s|%d" % (name, combo[0]), path=path)
    ctx.need("absent arguments", 60)
    # positive example: the rule must fire where an argument is required
    _m = build.load("crt", keep=["omTensorDestroy"])
    if not one(("omTensorCreateEmpty", (0,)))[4]:
        raise AnalysisBroken("a dereference of a required argument is no longer recognised")
    return ("Path-sensitive abstract interpretation of each routine with the argument fixed to null: nullness is followed through "
            "helpers, phis and stored copies to every load, store and library call.")

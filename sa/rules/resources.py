"""R01 leaks, R02 release discipline, R03 failed acquisitions."""
import re

from .. import build, summary
from ..engine import Engine, Monitor, KINDS, ACQUIRE, TENSOR_ACQ, AnalysisBroken, HEAP

GROUPS = ["crt", "pyrt", "pycompile", "decoder", "option", "options", "elements"]

ALLREL = {r for k in KINDS.values() for r in k.release}


def throwers(m):
    """Repository functions that can leave by an explicit throw."""
    fns = {f.name: f for f in m.fns.values() if not f.decl and f.repo}
    thr = set()
    changed = True
    while changed:
        changed = False
        for f in fns.values():
            if f.name in thr:
                continue
            f.prep()
            out = False
            for b, i in f.calls():
                c = i.get("callee")
                if c == "__cxa_throw" or c == "__cxa_rethrow" or c in thr:
                    if i["op"] == "call":
                        out = not i.get("nt")
                    else:
                        # does the landing pad reach a resume?
                        seen, work = set(), [i["unwind"]]
                        while work:
                            x = work.pop()
                            if x in seen:
                                continue
                            seen.add(x)
                            if f.blocks[x][-1]["op"] == "resume":
                                out = True
                            work.extend(f.succ[x])
                    if out:
                        break
            if out:
                thr.add(f.name)
                changed = True
    return thr


def roots(m):
    for f in m.fns.values():
        if f.decl or not f.repo or not f.blocks:
            continue
        if f.d.get("static") and not f.d.get("used") and not f.d.get("addr"):
            continue
        yield f


class Borrow(Monitor):
    """A routine that creates a tensor or list only borrows its arguments until
    it has succeeded: it never releases them."""
    def release(self, eng, st, i, callee, val):
        if val[0] == "sym" and val[1][0] == "arg":
            eng.report("wrong-release", i, "%s releases memory that still belongs to its caller" % eng.fn.q, st)


def analyse(ctx, rules, groups=GROUPS):
    done = set()
    for g in groups:
        acq, _ = summary.allocators(g)
        m = build.load(g, keep=summary.KEEP + list(acq), inline_std=summary.STD, relevant=summary.RELEVANT)
        ctx.units |= set(m.units)
        thr = throwers(m)
        names = set(ACQUIRE) | set(TENSOR_ACQ) | set(acq) | ALLREL | {"realloc", "posix_memalign"}
        for f in roots(m):
            if (f.name, f.file) in done:
                continue
            f.prep()
            cs = [i.get("callee") for _, i in f.calls()]
            if not any(c in names and (not str(c).startswith("_Z") or c in acq) for c in cs):
                continue
            done.add((f.name, f.file))
            mon = Borrow() if f.name in TENSOR_ACQ else None
            e = Engine(f, mon, throws=lambda c: c in thr)
            e.acq.update(acq)
            e.run()
            ctx.ok("functions", f.q + " (" + f.file.replace(build.REPO + "/", "") + ")")
            for k, site, q in e.sites:
                ctx.ok("acquisition sites", "%s at %s in %s" % (k, site.replace(build.REPO + "/", ""), q))
            ctx.ok("exit paths", n=e.exits)
            ctx.ok("pointer uses", n=e.derefs)
            ctx.ok("abstract states", n=e.nstates)
            for r in e.reports.values():
                if r.rule in rules:
                    ctx.violation(r.rule, r.loc, "%s: %s" % (r.fn, r.msg), key=stable(r), path=r.path)
    ctx.need("functions", 30)
    ctx.need("acquisition sites", 40)


def handles(ctx, rule):
    """Tensors kept by handles that own them and listed for a call: the list
    is given up without them exactly when the handles keep them."""
    m = build.load("pyrt", keep=summary.KEEP, relevant=summary.RELEVANT + ["std::unique_ptr<OMTensor"])
    for f in m.fns.values():
        if f.decl or not f.repo or not f.blocks:
            continue
        cs = list(f.calls())
        dem = lambda c: m.fns[c].d.get("dem", "") if c in m.fns else c or ""
        own = [dem(i.get("callee")).split("unique_ptr<OMTensor, ", 1)[1] for _, i in cs
               if re.match(r"(\S+ )?std::unique_ptr<OMTensor, ", dem(i.get("callee")))]
        get, rel = any(">::get(" in x for x in own), any(">::release(" in x for x in own)
        wrap = any(re.search(r">::(unique_ptr(<.*>)?|reset)\(OMTensor\*", x) for x in own)
        made = {i["i"] for _, i in cs if i.get("callee") == "omTensorListCreate" and "i" in i}
        got = {i["i"] for _, i in cs if i.get("callee") is None and "i" in i and i.get("ty") == "ptr"}
        deep = {i["args"][0][1]: i for _, i in cs if i.get("callee") == "omTensorListDestroy" and i["args"][0][0] == "v"}
        flat = {i["args"][0][1]: i for _, i in cs if i.get("callee") == "omTensorListDestroyShallow" and i["args"][0][0] == "v"}
        if not own or not (made | got) & (set(deep) | set(flat)):
            continue
        ctx.ok("lists of tensors kept by handles", f.q)
        for x, i in deep.items():
            if x in made and get and not rel and "double-release" in rule:
                ctx.violation("double-release", f.loc(i), "%s: the input list is destroyed with tensors that are owned by the caller's "
                              "handles" % f.q, key="handles|in|" + f.q)
            if x in got and wrap and "double-release" in rule:
                ctx.violation("double-release", f.loc(i), "%s: the output list is destroyed with tensors that were handed out" % f.q,
                              key="handles|out|" + f.q)
        for x, i in flat.items():
            if x in made and rel and not get and x not in deep and "leak" in rule and \
                    not any(i.get("callee") == "omTensorDestroy" for _, i in cs):
                ctx.violation("leak", f.loc(i), "%s: the input tensors are taken out of their handles and never released" % f.q,
                              key="handles|in|" + f.q)


def stable(r):
    """Identity without line numbers."""
    import re
    msg = re.sub(r"(\.\w+):\d+", r"\1", r.msg)
    return "%s|%s|%s|%s" % (r.rule, r.fn, r.loc.rsplit(":", 1)[0], msg)


EXPL = ("Path-sensitive typestate analysis (abstract interpretation of the LLVM IR clang emits for every built runtime, "
        "session, driver and support unit, helpers inlined, all branches taken both ways unless decided by interval facts). ")


def leak(ctx, tier):
    ctx.rule("leak", "a resource acquired on a path (heap block, FILE, descriptor, mapping, pipe, library handle, "
                     "tensor, tensor list) is at every return or exception exit either released, stored where it "
                     "outlives the call, owned by something that is, or returned")
    analyse(ctx, {"leak"})
    handles(ctx, {"leak"})
    return EXPL + "Every acquisition is followed to every exit."


def release(ctx, tier):
    ctx.rule("double-release", "no path releases the same resource twice, or releases one whose ownership was handed over")
    ctx.rule("use-after-release", "no path reads, writes or passes on a released resource")
    ctx.rule("wrong-release", "a resource is released only by its own release function, through its own address")
    analyse(ctx, {"double-release", "use-after-release", "wrong-release"})
    handles(ctx, {"double-release"})
    return EXPL + "Every release and every later use is checked against the resource's state on that path."


def checked(ctx, tier):
    ctx.rule("unchecked-failure", "on the path where an acquisition fails its result is never dereferenced nor handed "
                                  "to a routine that dereferences it")
    analyse(ctx, {"unchecked-failure"})
    return EXPL + "Every acquisition is split into a success and a failure outcome; the failure outcome is followed."

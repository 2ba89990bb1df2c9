"""R13: the order by which Sort, TopK and Unique rank elements."""
from .. import build
from ..engine import AnalysisBroken
from ..ordering import Order, Bad, ONNX, flat, sign
from ..paths import Walker, find

SORTED = [1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 12, 13]
UNIQUE = [1, 2, 3, 4, 5, 6, 7, 9, 11, 12, 13]
ACC = ["omTensorGetDataType", "omTensorGetShape", "omTensorGetStrides", "omTensorGetRank", "omTensorGetDataPtr",
       "getDataTypeSize"]
SORTFN = {"qsort_r": (1, 2, 3), "quick_sort_custom": (1, 2, 3)}


def fns(m):
    return {f.name: f for f in m.fns.values() if not f.decl and f.blocks}


def chooser(m0):
    """The function that maps (ascending, element type) to a comparator."""
    c = [f for f in m0.fns.values() if not f.decl and f.repo and (f.d.get("sig") or [""])[0].startswith("compareFunctionType")]
    c = c or [f for f in m0.fns.values() if f.name == "getCompareFunction" and not f.decl]
    pub = [f for f in c if not f.d.get("static")] or c
    if len(pub) != 1:
        raise AnalysisBroken("the comparator chooser cannot be identified: %s" % [f.name for f in c])
    return pub[0].name


def returned(f):
    out = set()
    for b in f.blocks:
        for i in b:
            if i["op"] == "ret" and i.get("o"):
                resolve(f, i["o"][0], out, set())
    return out


def resolve(f, v, out, seen):
    """Function constants or calls a pointer value can come from."""
    if v[0] == "g":
        out.add(("fn", v[1]))
        return
    if v[0] == "v":
        if v[1] in seen:
            return
        seen.add(v[1])
        i = f.ins_of(v)
        if i is None:
            out.add(("arg", v[1]))
        elif i["op"] == "phi":
            for x, _ in i["phi"]:
                resolve(f, x, out, seen)
        elif i["op"] == "select":
            resolve(f, i["o"][1], out, seen)
            resolve(f, i["o"][2], out, seen)
        elif i["op"] in ("bitcast", "freeze"):
            resolve(f, i["o"][0], out, seen)
        else:
            out.add(("ins", i["i"]))
        return
    out.add(("other", str(v)))


def compare_function(ctx, f, d, asc):
    what = "%s %s" % (ONNX[d][0], "ascending" if asc else "descending")
    ctx.ok("comparators", "%s: %s" % (what, f.q))
    for v in (-1, 0, 1):
        for x in (-1, 1):
            try:
                o = Order(f, "index", d, v, x).run()
            except Bad as e:
                ctx.violation("element", f.loc(e.i), "%s: ranking %s: %s" % (f.q, what, e.msg),
                              key="element|%s|%s" % (what, e.msg))
                return
            ctx.ok("orderings decided", n=1)
            want = (v if asc else -v) if v else x
            got = set()
            for r in o.outs:
                flat(r, got)
            sg = {sign(r) for r in got}
            if not sg or None in sg:
                raise AnalysisBroken("%s: result not decided by the ordering of elements and positions" % f.q)
            if o.elems != {1, 2} and v:
                ctx.violation("order", f.loc(f.blocks[0][0]), "%s: ranking %s ignores an element" % (f.q, what),
                              key="order|%s|ignores" % what)
                return
            if sg != {want}:
                rel = {-1: "smaller", 0: "equal", 1: "larger"}[v]
                ctx.violation("order", "%s:%s" % (f.file, f.d.get("line")),
                              "%s: ranking %s, a %s element at %s position is not ranked %s" % (
                                  f.q, what, rel, "an earlier" if x < 0 else "a later", "first" if want < 0 else "last"),
                              key="order|%s|%d|%d" % (what, v, x))
                return


def use(ctx, f, name, asc, ch, tensor, k=None):
    f.prep()
    where = "%s (%s)" % (name, "ascending" if asc else "descending")
    comp = {}
    for _, i in f.calls():
        if i.get("callee") == ch:
            a = i["args"]
            if a[0][0] != "c":
                raise AnalysisBroken("%s: direction of a comparator is not a function of the requested one" % where)
            ty = f.ins_of(a[1])
            if ty is None or ty.get("callee") != "omTensorGetDataType" or ty["args"][0] != ["v", tensor]:
                ctx.violation("type", f.loc(i), "%s: the comparator is not chosen by the element type of the input" % where)
            comp[i["i"]] = bool(a[0][1])
    if not comp:
        raise AnalysisBroken("%s: obtains no comparator" % where)

    def dirs(v):
        out = set()
        resolve(f, v, out, set())
        r = set()
        for kind, x in out:
            if kind != "ins" or x not in comp:
                return None
            r.add(comp[x])
        return r
    sorts = 0
    for _, i in f.calls():
        c = i.get("callee")
        if c in ("omTensorSort", "omTensorTopK"):
            if i["args"][3] != ["c", 1 if asc else 0, 64] and i["args"][3][:2] != ["c", 1 if asc else 0]:
                ctx.violation("direction", f.loc(i), "%s: sorts in the direction that was not requested" % where)
            ctx.ok("comparator uses", "%s: full sort" % where)
            continue
        if c in (None,) and "indirect" in i:
            d = dirs(i["indirect"])
            if d is None:
                # a sort routine through a function pointer
                cs = [dirs(a) for a in i["args"]]
                cs = [x for x in cs if x is not None]
                if not cs:
                    raise AnalysisBroken("%s: call through an unknown pointer" % where)
                d = cs[0]
                site_sort(ctx, f, i, where, d, asc)
                sorts += 1
                continue
            if len(d) != 1:
                raise AnalysisBroken("%s: ambiguous comparator" % where)
            site_compare(ctx, f, i, where, next(iter(d)) == bool(asc), k)
            continue
        for a in i.get("args", []):
            d = dirs(a) if a[0] == "v" else None
            if d is not None:
                site_sort(ctx, f, i, where, d, asc)
                sorts += 1
                if k is not None and c in SORTFN and i["args"][1] != ["v", k]:
                    ctx.violation("direction", f.loc(i), "%s: the final order covers something other than the first k" % where)
                break
    return sorts


def site_sort(ctx, f, i, where, d, asc):
    ctx.ok("comparator uses", "%s: sort at line %s" % (where, i.get("l")))
    if d != {bool(asc)}:
        ctx.violation("direction", f.loc(i), "%s: the result is put in the direction that was not requested" % where)


def site_compare(ctx, f, i, where, same, k):
    """A comparison of two slots outside the sort routine."""
    a, b = i["args"][0], i["args"][1]
    cand = [candidate(f, x, k) for x in (a, b)]
    ctx.ok("comparator uses", "%s: comparison at line %s" % (where, i.get("l")))
    tests = []
    for _, u in f.insts():
        if u["op"] == "icmp" and u["o"][0] == ["v", i["i"]] and u["o"][1][0] == "c" and u["o"][1][1] == 0:
            tests.append((u, u["pred"]))
    if not tests:
        return
    u, p = tests[0]
    neg = {"slt": True, "sle": True, "sgt": False, "sge": False, "ult": None}.get(p)
    if neg is None:
        return
    # on the true edge: does the first argument rank before the second?
    first_before = neg
    if cand[0] != cand[1]:
        # replacing the worst kept element: only by one that ranks before it, as requested
        e = mutating_edge(f, i, u)
        if e is None:
            return
        new_before = first_before if cand[0] else not first_before
        if not e:
            new_before = not new_before
        if not same:
            new_before = not new_before
        if not new_before:
            ctx.violation("direction", f.loc(i), "%s: a kept element is replaced by one that ranks after it" % where,
                          key="direction|%s|replace" % where)
        return
    ch = chosen(f, i, u)
    if ch is None:
        return
    # chosen: which operand moves up on the true edge
    up_first = ch == 0
    ranks_first = up_first == first_before          # the one moved up ranks first in the comparator's order
    if not same:
        ctx.violation("direction", f.loc(i), "%s: the elements kept so far are arranged by the comparator of the other direction, "
                      "which does not rank equal elements in reverse, so the wrong one is given up" % where,
                      key="direction|%s|heap" % where)
    elif ranks_first:
        ctx.violation("direction", f.loc(i), "%s: the elements kept so far are not arranged so that the one ranked last is given up "
                      "first" % where, key="direction|%s|heap" % where)


def gepidx(f, v):
    i = f.ins_of(v)
    if i is not None and i["op"] == "getelementptr" and len(i["o"]) == 2:
        return i["o"][0], i["o"][1]
    return v, ["c", 0, 64]


def candidate(f, v, k):
    """The slot index is a loop variable that starts at k."""
    if k is None:
        return False
    _, x = gepidx(f, v)
    i = f.ins_of(x)
    while i is not None and i["op"] in ("zext", "sext"):
        i = f.ins_of(i["o"][0])
    if i is None or i["op"] != "phi":
        return False
    return any(y == ["v", k] for y, _ in i["phi"])


def mutating_edge(f, call, test):
    """True when the true edge of the test leads to a store before the next comparison of this site, False for
    the false edge, None when undecided."""
    br = [i for _, i in f.insts() if i["op"] == "br" and i.get("cond") == ["v", test["i"]]]
    if len(br) != 1:
        return None
    home = next(n for n, b in enumerate(f.blocks) if call in b)

    def reach(b):
        seen, work = set(), [b]
        while work:
            x = work.pop()
            if x in seen or x == home:
                continue
            seen.add(x)
            st = [i for i in f.blocks[x] if i["op"] == "store"]
            if st:
                return True
            # stop at a loop back to the candidate's own loop
            if any(i["op"] == "call" and "indirect" in i for i in f.blocks[x]):
                continue
            work.extend(s for s in f.succ[x] if not back(f, s, home))
        return False
    t, e = reach(br[0]["succ"][0]), reach(br[0]["succ"][1])
    if t == e:
        return None
    return t


def back(f, s, home):
    """s is a loop header whose loop contains home."""
    return s in f.headers and home in f.loops.get(s, ())


def chosen(f, call, test):
    a, b = (gepidx(f, x)[1] for x in call["args"][:2])
    for _, u in f.insts():
        if u["op"] == "select" and u["o"][0] == ["v", test["i"]]:
            if u["o"][1] == b and u["o"][2] == a:
                return 1
            if u["o"][1] == a and u["o"][2] == b:
                return 0
    return None


def less_functions(m0):
    """Functions that tell whether one element is less than another of a given type."""
    for f in m0.fns.values():
        s = f.d.get("sig") or []
        if f.decl or not f.repo or not f.blocks:
            continue
        if len(s) >= 4 and s[0] in ("int", "bool", "_Bool") and s[1].endswith("*") and s[2].endswith("*") and \
                s[1] == s[2] == "void*" and "OM_DATA_TYPE" in s[3:]:
            yield f, s[1:].index("OM_DATA_TYPE")


def less(ctx, f, d, name):
    ctx.ok("comparators", "%s less-than: %s" % (ONNX[d][0], name))
    for v in (-1, 0, 1):
        try:
            o = Order(f, "direct", d, v).run()
        except Bad as e:
            ctx.violation("element", f.loc(e.i), "%s: %s: %s" % (name, ONNX[d][0], e.msg),
                          key="element|%s|%s|%s" % (name, ONNX[d][0], e.msg))
            return
        ctx.ok("orderings decided")
        got = set()
        for r in o.outs:
            flat(r, got)
        if any(r is None or r[0] not in ("c",) for r in got):
            raise AnalysisBroken("%s: result not decided by the ordering of the elements" % name)
        truths = {bool(r[1]) for r in got}
        if o.compares == 0 and v and o.outs:
            ctx.violation("order", "%s:%s" % (f.file, f.d.get("line")), "%s: %s elements are not compared" % (name, ONNX[d][0]),
                          key="order|%s|%s|none" % (name, ONNX[d][0]))
            return
        if not o.outs:
            ctx.violation("order", "%s:%s" % (f.file, f.d.get("line")), "%s: %s elements are not supported" % (name, ONNX[d][0]),
                          key="order|%s|%s|unsupported" % (name, ONNX[d][0]))
            return
        if (v < 0 and True not in truths) or (v >= 0 and True in truths):
            ctx.violation("order", "%s:%s" % (f.file, f.d.get("line")), "%s: %s: a %s element is %s less" % (
                name, ONNX[d][0], {-1: "smaller", 0: "equal", 1: "larger"}[v], "not" if v < 0 else "called"),
                key="order|%s|%s|%d" % (name, ONNX[d][0], v))
            return


def swapped(t):
    if t == ("arg", 0):
        return ("arg", 1)
    if t == ("arg", 1):
        return ("arg", 0)
    return tuple(map(swapped, t)) if isinstance(t, tuple) else t


def slices(ctx, m0, names):
    """Slices are ranked by the first elements that differ: the next ones are
    looked at only once these are known to be equal."""
    for f in m0.fns.values():
        s = f.d.get("sig") or []
        if f.decl or not f.repo or not f.blocks or f.name in names or len(s) < 3 or s[1] != "void*" or s[2] != "void*" or \
                s[0] not in ("int", "bool", "_Bool") or not any(i.get("callee") in names for _, i in f.calls()):
            continue
        try:
            w = Walker(m0, f)
            w.run()
        except AnalysisBroken:
            ctx.notes.append("%s: not followed" % f.q)
            continue
        where = "%s:%s" % (f.file, f.d.get("line"))
        for p in w.paths:
            pairs = []
            for e in p.events:
                if e[0] != "call" or not (e[3] in names or e[3] in ("memcmp", "bcmp")):
                    continue
                x, y = e[4][0], e[4][1]
                if x[0] != "at" and x[0] != "arg" or x == swapped(x):
                    continue
                if swapped(x) != y:
                    ctx.violation("slices", where, "%s: elements at different places are compared" % f.q, key="slices|%s|place" % f.q)
                    continue
                k = x if find(x, lambda t: t == ("arg", 0)) else y
                if not pairs or pairs[-1][0] != k:
                    pairs.append((k, []))
                v = [b for c, b in p.dec.items() if c == ("nz", e[6])]
                pairs[-1][1].append((e[3], x == k, v[0] if v else None))
            for n, (k, tests) in enumerate(pairs):
                same = any(t[0] not in names and t[2] is False for t in tests) or \
                    {t[1] for t in tests if t[0] in names and t[2] is False} == {True, False}
                if n + 1 < len(pairs):
                    ctx.ok("elements of slices")
                    if not same:
                        ctx.violation("slices", where, "%s: goes on to the next elements although these may differ" % f.q,
                                      key="slices|%s|next" % f.q)
                elif p.ret and p.ret[0] == "call" and p.ret[1] in names and find(p.ret[2][0], lambda t: t == ("arg", 1)):
                    ctx.violation("slices", where, "%s: slices are ranked the other way round" % f.q, key="slices|%s|reversed" % f.q)


def order(ctx, tier):
    ctx.rule("order", "for each element type and direction the comparator ranks the smaller (larger) element first and equal "
                      "elements by position, strictly, for every pair")
    ctx.rule("element", "elements are read with the width, signedness and kind of their type, addressed by the two positions")
    ctx.rule("direction", "results are put in the requested direction; the candidates of top-k are arranged with the one ranked last given up first "
                          "and a kept element is replaced only by one that ranks before it")
    ctx.rule("type", "the comparator is chosen by the input tensor's element type")
    m0 = build.load("crt", keepall=True)
    ch = chooser(m0)
    sp = [{"as": "choose@%d@%d" % (d, a), "fn": ch, "args": {"0": a, "1": d}} for d in SORTED for a in (0, 1)]
    for n, k in (("omTensorSort", None), ("omTensorTopK", 4)):
        for a in (0, 1):
            for so in (1, 0):
                sp.append({"as": "%s@%d@%d" % (n, a, so), "fn": n, "args": {"3": a} if k is None else {"3": a, "5": so}})
    less_fs = list(less_functions(m0))
    for f, k in less_fs:
        for d in UNIQUE:
            sp.append({"as": "%s@%d" % (f.name, d), "fn": f.name, "args": {str(k): d}})
    m = build.load("crt", keep=[ch, "omTensorSort", "omTensorTopK", "om_f16_to_f32"] + ACC, specs=sp)
    ctx.units |= set(m.units)
    F = fns(m)
    for d in SORTED:
        for a in (0, 1):
            g = F.get("choose@%d@%d" % (d, a))
            if g is None:
                raise AnalysisBroken("specialisation of %s is missing" % ch)
            g.prep()
            r = returned(g)
            what = "%s %s" % (ONNX[d][0], "ascending" if a else "descending")
            if not r or r == {("other", "['n']")}:
                ctx.violation("order", "%s:%s" % (g.file, g.d.get("line")), "%s elements cannot be ranked" % what,
                              key="order|%s|none" % what)
                continue
            for kind, x in r:
                if kind != "fn" or x not in F:
                    raise AnalysisBroken("comparator for %s cannot be resolved: %s" % (what, r))
                compare_function(ctx, F[x], d, a)
    for n, k in (("omTensorSort", None), ("omTensorTopK", 4)):
        for a in (0, 1):
            for so in (1, 0):
                g = F["%s@%d@%d" % (n, a, so)]
                s = use(ctx, g, n, a, ch, 1, k)
                if not s and (so or k is None):
                    ctx.violation("direction", "%s:%s" % (g.file, g.d.get("line")), "%s: the result is never put in order" % n,
                                  key="direction|%s|unsorted" % n)
    for f, k in less_fs:
        for d in UNIQUE:
            less(ctx, F["%s@%d" % (f.name, d)], d, f.q)
    ctx.rule("slices", "two slices are ranked by the first of their elements that differ")
    all_less = {f.name for f, _ in less_fs}
    slices(ctx, m0, {f.name for f, _ in less_fs if not any(i.get("callee") in all_less - {f.name} for _, i in f.calls())})
    ctx.need("comparators", 2 * len(SORTED) + len(UNIQUE))
    ctx.need("comparator uses", 6)
    return ("Each (element type, direction) pair is resolved to its comparator by partial evaluation of the chooser; each "
            "comparator is interpreted over the finite domain of orderings of two elements and two positions, on every path. "
            "Uses of comparators in sort and top-k are resolved by data flow.")

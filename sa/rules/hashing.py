"""R17: the compiler's perfect-hash tables and the runtime lookup agree."""
import os

from .. import build
from ..engine import AnalysisBroken
from ..expr import Ex, Lin, add, scale, subst, contains, atoms, show

H, C, S = ("name", "h"), ("name", "c"), ("name", "seed")


class HashLoop:
    pass


def byte_call(f, a):
    """text[i] through an access function that returns the character."""
    if a[0] != "call" or len(a[2]) != 2 or not str(a[1]).endswith("ixEm"):
        return False
    i = f.ins_of(["v", a[3]])
    return i is not None and i.get("ty") == "i8"


def hash_loops(f):
    """Loops that fold the bytes of a text into a 32-bit value."""
    ex = Ex(f)
    res = []
    for h, body in f.loops.items():
        # innermost only
        if any(o != h and o in body for o in f.loops):
            continue
        for p in f.blocks[h]:
            if p["op"] != "phi" or p.get("ty") != "i32":
                continue
            inits = [v for v, b in p["phi"] if b not in body]
            upds = [v for v, b in p["phi"] if b in body]
            if not inits or not upds:
                continue
            us = {ex.of(v) for v in upds}
            me = ("phi", p["i"])
            loads = {a for u in us for a in atoms(u, []) if a[0] == "load" and a[2] == "i8" or byte_call(f, a)}
            if not loads or not any(contains(u, lambda e: e == me) for u in us):
                continue
            r = HashLoop()
            r.f, r.ex, r.h, r.body, r.phi, r.ins = f, ex, h, body, p["i"], p
            r.loads = loads
            m = {me: H}
            for l in loads:
                m[l] = C
            r.step = {subst(u, m) for u in us}
            es = {ex.of(v) for v in inits}
            r.init = es.pop() if len(es) == 1 else None
            res.append(r)
    return ex, res


def coverage(r):
    """Which part of the text the loop reads: ('all', base) | ('bad', why) | ('?', why)."""
    f, ex = r.f, r.ex
    if len(r.loads) != 1:
        return "?", "several loads"
    (ld,) = r.loads
    addr = ld[1] if ld[0] == "load" else ("gep", ld[2][0], ld[2][1])
    if addr[0] == "call" and len(addr[2]) == 2 and str(addr[1]).endswith("ixEm"):
        addr = ("gep", addr[2][0], addr[2][1])
    # the induction variable in the address
    iv = [a for a in atoms(addr, []) if a[0] == "phi" and f.defs[a[1]][0] == r.h]
    if len(set(iv)) != 1:
        return "?", "no induction variable"
    iv = iv[0]
    p = f.ins_of(["v", iv[1]])
    init = {ex.of(v) for v, b in p["phi"] if b not in r.body}
    upd = {ex.of(v) for v, b in p["phi"] if b in r.body}
    if len(init) != 1 or len(upd) != 1:
        return "?", "induction"
    init, upd = init.pop(), upd.pop()
    ptr = p.get("ty") == "ptr"
    if ptr:
        if addr != iv:
            if addr[0] == "gep" and addr[1] == iv:
                return "bad", "it does not start at the first character"
            return "?", "address"
        base = init
        if upd != ("gep", iv, ("int", 1, 64)):
            return ("bad" if upd[0] == "gep" and upd[1] == iv else "?"), "it does not advance by one character"
    else:
        if addr[0] != "gep":
            return "?", "address"
        base = addr[1]
        c, d = Lin.parts(addr[2])
        ats = list(d)
        if len(ats) != 1 or d[ats[0]] != 1:
            return "?", "index"
        a = ats[0]
        while a[0] in ("sext", "zext"):
            a = a[2]
        if a != iv:
            return "?", "index"
        if init[0] != "int":
            return "?", "first index"
        if init[1] + c != 0:
            return "bad", "it starts at character %d" % (init[1] + c)
        cu, du = Lin.parts(upd)
        if du != {iv: 1}:
            return "?", "step"
        if cu != 1:
            return "bad", "it advances by %d characters" % cu
    # exits
    exits = []
    for b in r.body:
        t = f.blocks[b][-1]
        if t["op"] == "br" and "cond" in t and any(s not in r.body for s in t["succ"]):
            stay = t["succ"][0] in r.body
            exits.append((ex.of(t["cond"]), stay))
    if not exits:
        return "?", "no exit"
    lens = 0
    for c, stay in exits:
        if c[0] != "cmp":
            return "?", "exit condition"
        pr, x, y = c[1:]
        both = [x, y]
        if ("int", 0, 8) in both or ("int", 0, 32) in both:
            o = both[0] if both[1][0] == "int" else both[1]
            if contains(o, lambda e: e == ld) and pr == "eq" and not stay or contains(o, lambda e: e == ld) and pr == "ne" and stay:
                lens += 1
                continue
        if x == iv or y == iv or any(z[0] in ("sext", "zext") and z[2] == iv for z in both):
            lim = y if x == iv or (x[0] in ("sext", "zext") and x[2] == iv) else x
            strict = pr in ("slt", "ult", "ne", "eq")
            raw = lim
            while raw[0] in ("sext", "zext", "trunc"):
                raw = raw[2]
            if ptr:
                # one past the last character: end(...) of the same text, or base + its length
                if raw[0] == "call":
                    lens += 1
                    continue
                if raw[0] == "gep" and raw[1] == base:
                    n = raw[2]
                    while n[0] in ("sext", "zext", "trunc"):
                        n = n[2]
                    if n[0] in ("call", "load", "extract", "arg"):
                        lens += 1
                        continue
                    if contains(n, lambda e: e[0] in ("call", "load")):
                        return "bad", "it ends at character %s" % show(n)
                if raw[0] == "gep" and raw[1][0] == "call" and raw[2][0] == "int":
                    return "bad", "it leaves out or adds %d characters at the end" % raw[2][1]
                return "?", "end"
            if not strict:
                return "bad", "it also reads the terminator" if raw[0] == "call" else "its end is off by one"
            if raw[0] == "call" and raw[1] == "strlen":
                if raw[2][0] != base:
                    return "?", "length of another text"
                lens += 1
                continue
            if raw[0] == "call" and raw[1] == "strnlen":
                return "bad", "it stops after at most %s characters" % show(raw[2][1])
            if raw[0] in ("call", "load", "extract", "arg"):
                lens += 1
                continue
            if contains(raw, lambda e: e[0] in ("call", "load", "extract", "arg")):
                return "bad", "it stops at %s instead of the end of the text" % show(raw)
            if raw[0] == "int":
                return "bad", "it stops after %d characters" % raw[1]
            return "?", "bound"
        if contains(c, lambda e: e == iv) or contains(c, lambda e: e[0] == "int"):
            cs = [z for z in both if z[0] == "int"]
            if cs:
                return "bad", "it may stop at %s before the end of the text" % show(c)
        return "?", "exit"
    if lens:
        return "all", base
    return "?", "no end"


def generic(r):
    """Initial value as a function of the seed."""
    e = r.init
    if e is None:
        return None
    if e[0] == "int":
        return e
    if e[0] == "select" and e[1][0] == "cmp":
        xs = [x for x in e[1][2:] if x[0] != "int"]
        if len(xs) == 1:
            return subst(e, {xs[0]: S})
    return subst(e, {e: S}) if e[0] not in ("lin",) else None


def at_zero(e):
    """The generic initial value for seed 0."""
    z = ("int", 0, 32)
    e = subst(e, {S: z})
    if e[0] == "select" and e[1][0] == "cmp" and e[1][2][0] == "int" and e[1][3][0] == "int":
        a, b = e[1][2][1], e[1][3][1]
        t = {"eq": a == b, "ne": a != b, "slt": a < b, "sle": a <= b}.get(e[1][1])
        if t is not None:
            return e[2] if t else e[3]
    return e


def collect(ctx, fns, side):
    out = []
    for f in fns:
        ex, ls = hash_loops(f)
        for r in ls:
            out.append(r)
            ctx.ok("hash loops", "%s (%s)" % (f.q, side))
    return out


def unmod(e):
    """(hash phi, divisor) of the index expression hash % size."""
    while e[0] in ("zext", "sext", "trunc"):
        e = e[2]
    if e[0] in ("urem", "srem"):
        a = e[2]
        sg = e[0] == "srem"
        while a[0] in ("zext", "trunc", "sext"):
            if a[0] == "sext":
                sg = True
            a = a[2]
        return a, sg
    return None, None


def lookup(ctx, tier):
    ctx.rule("hash", "table construction and lookup start from the same value for every seed and apply the same step to every "
                     "character of the whole text")
    ctx.rule("key-text", "an integer key is hashed through its complete signed decimal rendering on both sides")
    ctx.rule("slot", "indices are the unsigned remainder of the hash, a direct slot is decoded as it was encoded, and only a "
                     "negative table entry means a direct slot")
    src = os.path.join(build.REPO, "src/Conversion/ONNXToKrnl/PerfectHash.cpp")
    if not os.path.exists(src):
        raise AnalysisBroken("no PerfectHash.cpp")
    mc = build.load(None, extra_src=[src])
    mr = build.load("crt")
    ctx.units |= {"src/Conversion/ONNXToKrnl/PerfectHash.cpp", "src/Runtime/OMIndexLookup.c"}
    comp = [f for f in mc.fns.values() if not f.decl and f.repo and f.q.endswith("::createPerfectHash")]
    run = {n: mr.find(n)[0] for n in ("find_index_str", "find_index_i64")}
    if len(comp) != 2:
        raise AnalysisBroken("table construction not found")
    cl = collect(ctx, comp, "compiler")
    rl = collect(ctx, run.values(), "runtime")
    if len(cl) < 2 or len(rl) < 2:
        raise AnalysisBroken("hash loops not recognised")
    for f in comp:
        for _, i in f.calls(r"_ZNK?4llvm9StringRef(\d+)(drop_|take_|substr|slice|trim|ltrim|rtrim|lower|upper).*"):
            ctx.violation("hash", f.loc(i), "%s hashes a part or variant of the key" % f.q, key="hash|part|%s" % f.q)
    # one step
    ref = None
    for r in rl + cl:
        for s in r.step:
            if ref is None:
                ref = s
            elif s != ref:
                ctx.violation("hash", r.f.loc(r.f.blocks[r.h][-1]), "%s mixes a character in as %s, elsewhere it is %s" %
                              (r.f.q, show(s), show(ref)), key="hash|step")
        cov, why = coverage(r)
        if cov == "bad":
            ctx.violation("hash", r.f.loc(r.ins), "%s does not hash the whole text: %s" % (r.f.q, why),
                          key="hash|cover|%s" % r.f.q)
        elif cov == "all":
            r.base = why
            ctx.ok("loops shown to read the whole text", r.f.q)
        else:
            ctx.notes.append("%s: coverage of a hash loop not decided (%s)" % (r.f.q, why))
        r.base = why if cov == "all" else None
        ctx.ok("steps compared")
    # seeds
    gen = {}
    for r in rl + cl:
        g = generic(r)
        if g is None:
            continue
        gen.setdefault(g, r)
        ctx.ok("initial values")
    consts = {g: r for g, r in gen.items() if g[0] == "int"}
    forms = {g: r for g, r in gen.items() if g[0] != "int"}
    if len(consts) > 1 or len(forms) > 1:
        a = list((consts if len(consts) > 1 else forms).items())
        ctx.violation("hash", a[-1][1].f.loc(a[-1][1].ins), "%s starts from %s, %s from %s" %
                      (a[-1][1].f.q, show(a[-1][0]), a[0][1].f.q, show(a[0][0])), key="hash|init")
    elif consts and forms:
        c, f = list(consts)[0], list(forms)[0]
        if at_zero(f) != c:
            ctx.violation("hash", forms[f].f.loc(forms[f].ins), "for seed 0 the hash starts from %s in one place and from %s in "
                          "another" % (show(c), show(at_zero(f))), key="hash|init")
    keytext(ctx, run["find_index_i64"], [r for r in rl if r.f is run["find_index_i64"]])
    for f in comp:
        construct(ctx, f, mc, [r for r in cl if r.f is f])
        ends(ctx, f, [r for r in cl if r.f is f])
    for f in run.values():
        decode(ctx, f, [r for r in rl if r.f is f])
    ctx.rule("ends", "the search for a seed is bounded unless the hash lets high bits reach low ones")
    ctx.need("slots", 4)
    return ("Canonical-expression comparison: initial value, per-character step and extent of every hash loop on both sides, "
            "rendering of integer keys, slot encoding against decoding.")


def keytext(ctx, f, ls):
    ex = Ex(f)
    n = 0
    for _, i in f.calls():
        c = i.get("callee") or ""
        if c not in ("snprintf", "sprintf"):
            continue
        n += 1
        ctx.ok("renderings of integer keys", f.loc(i))
        a = i["args"]
        k = 2 if c == "snprintf" else 1
        fmt = f.mod.gstring(a[k])
        dst = ex.of(a[0])
        cap = None
        d = f.ins_of(a[0])
        while d is not None and d["op"] in ("getelementptr", "bitcast"):
            d = f.ins_of(d["o"][0])
        if d is not None and d["op"] == "alloca":
            cap = d.get("asz")
            if cap is not None and d["o"][0][0] == "c" and d["o"][0][1] > 1:
                cap *= d["o"][0][1]
        if c == "snprintf":
            s = ex.of(a[1])
            if s[0] == "int":
                if cap is not None and s[1] > cap:
                    ctx.violation("key-text", f.loc(i), "the text of the key may be written beyond its buffer of %d bytes" % cap,
                                  key="key-text|overflow")
                cap = s[1] if cap is None else min(cap, s[1])
        if cap is not None and cap < 21:
            ctx.violation("key-text", f.loc(i), "a 64-bit key of up to 20 characters is cut to %d" % (cap - 1), key="key-text|cut")
        if fmt is not None and fmt not in ("%lld", "%ld", "%li", "%lli", "%jd"):
            ctx.violation("key-text", f.loc(i), "integer keys are rendered as \"%s\"" % fmt, key="key-text|format")
        v = ex.of(a[k + 1]) if len(a) > k + 1 else None
        if v is not None and v != ("arg", 0) and contains(v, lambda e: e == ("arg", 0)):
            ctx.violation("key-text", f.loc(i), "not the key itself but %s is rendered" % show(v), key="key-text|value")
        for r in ls:
            if r.base is not None and r.base[0] == "alloca" and dst[0] == "alloca" and r.base != dst:
                pass
            if r.base is not None and r.base[0] == "gep":
                ctx.violation("key-text", f.loc(r.ins), "the hash starts inside the text of the key", key="key-text|start")
    if not n:
        ctx.notes.append("rendering of integer keys in the runtime not recognised")


def field(mc, f, name):
    """Offset of the vector returned by getG/getV."""
    g = [x for x in mc.fns.values() if not x.decl and x.q == f.q.rsplit("::", 1)[0] + "::" + name]
    if not g:
        return None
    ex = Ex(g[0])
    for b, i in g[0].insts():
        if i["op"] == "ret" and i["o"]:
            e = ex.of(i["o"][0])
            if e == ("arg", 0):
                return 0
            if e[0] == "gep" and e[1] == ("arg", 0) and e[2][0] == "int":
                return e[2][1]
    return None


def construct(ctx, f, mc, ls):
    ex = Ex(f)
    go, vo = field(mc, f, "getG"), field(mc, f, "getV")
    if go is None or vo is None:
        ctx.notes.append("table members not recognised in " + f.q)
        return
    mk = lambda o: ("arg", 0) if o == 0 else ("gep", ("arg", 0), ("int", o, 64))
    G, V = mk(go), mk(vo)
    zero = {("phi", r.phi) for r in ls if r.init is not None and r.init[0] == "int"}
    seeded = {("phi", r.phi) for r in ls if r.init is not None and r.init[0] != "int"}
    # integer keys
    for _, i in f.calls():
        c = i.get("callee") or ""
        if "to_string" in c and c.startswith("_ZNSt"):
            ctx.ok("renderings of integer keys", f.loc(i))
            if not c.endswith(("El", "Ex")):
                ctx.violation("key-text", f.loc(i), "integer keys are rendered through a narrower or unsigned type",
                              key="key-text|compiler")
            else:
                v = ex.of(i["args"][1])
                if v[0] in ("lin", "sext", "zext", "select"):
                    ctx.violation("key-text", f.loc(i), "not the key itself but %s is rendered" % show(v),
                                  key="key-text|compiler-value")
    gs, vs = [], []
    for b, i in f.insts():
        if i["op"] == "store" and i.get("sty") == "i32":
            a = ex.of(i["o"][1])
            base, idx = None, None
            if a[0] == "call" and len(a[2]) == 2:
                base, idx = a[2]
            if base == G:
                gs.append((b, i, idx, ex.of(i["o"][0])))
            elif base == V:
                vs.append((b, i, idx, ex.of(i["o"][0])))
        # reads of a table entry by hash
        for a in ([ex.of(i["o"][0])] if i["op"] == "load" and i.get("ty") == "i32" else []):
            if a[0] == "call" and len(a[2]) == 2 and a[2][0] in (G, V):
                h, sg = unmod(a[2][1])
                if h is not None and sg:
                    ctx.violation("slot", f.loc(i), "%s takes a signed remainder of the hash" % f.q, key="slot|signed")
    direct = 0
    for b, i, idx, val in gs:
        h, sg = unmod(idx)
        ctx.ok("slots", "%s at %s" % (f.q, f.loc(i).replace(build.REPO + "/", "")))
        if h in seeded:
            ctx.violation("slot", f.loc(i), "the first-level index is computed with a seed, the lookup uses none",
                          key="slot|seeded-first")
        if sg:
            ctx.violation("slot", f.loc(i), "%s takes a signed remainder of the hash" % f.q, key="slot|signed")
        # direct slot: the value names the index V is written at in the same step
        c, d = Lin.parts(val)
        for b2, j, idx2, _ in vs:
            if b2 != b and not (b in ex.dom()[b2] or b2 in ex.dom()[b]):
                continue
            slot = idx2
            while slot[0] in ("zext", "sext", "trunc"):
                slot = slot[2]
            if slot in d and len(d) == 1:
                direct += 1
                f.mod.direct = getattr(f.mod, "direct", set()) | {(d[slot], c)}
                if (d[slot], c) != (-1, -1):
                    ctx.violation("slot", f.loc(i), "slot s is recorded as %d*s%+d, the lookup decodes -s-1" % (d[slot], c),
                                  key="slot|encode")
    if not direct:
        # maybe recorded by another expression; the encode form cannot be read
        ctx.notes.append("direct slot encoding not recognised in " + f.q)
    # placement: an index chosen by a seeded hash is only taken when the entry is free
    for b, i in f.insts():
        if i["op"] in ("call", "invoke") and "push_back" in (i.get("callee") or "") and len(i["args"]) == 2:
            a = ex.of(i["args"][1])
            if a[0] == "load" and a[1][0] == "alloca":
                sv = {ex.of(s["o"][0]) for _, s in f.insts() if s["op"] == "store" and ex.of(s["o"][1]) == a[1]}
                a = sv.pop() if len(sv) == 1 else a
            h, sg = unmod(a)
            if h is None or h not in seeded:
                continue
            ctx.ok("placements", f.loc(i))
            ok = False
            for c, t in ex.conds(b):
                if c[0] == "cmp" and c[1] in ("eq", "ne"):
                    for x in c[2:]:
                        if x[0] == "load" and contains(x, lambda e: e == V) and contains(x, lambda e: e == h):
                            ok = True
                            if (c[1] == "ne") == t and ("int", -1, 32) in c[2:]:
                                ctx.violation("slot", f.loc(i), "an entry that is taken is used for another key",
                                              key="slot|taken")
            retry(ctx, f, ex, i, b, ls, h)
            if not ok:
                ctx.violation("slot", f.loc(i), "a slot is chosen for a key without a test that it is free", key="slot|free")


def retry(ctx, f, ex, push, b, ls, h):
    """Within one bucket: a slot is compared with those chosen before, and a new seed starts over."""
    loops = [(hd, body) for hd, body in f.loops.items() if b in body]
    if not loops:
        return
    hd, body = min(loops, key=lambda x: len(x[1]))
    vec = ex.of(push["args"][0])
    seen, cleared = False, False
    for x in body:
        for j in f.blocks[x]:
            if j["op"] not in ("call", "invoke") or j is push:
                continue
            c = j.get("callee") or ""
            if not any(ex.of(a) == vec for a in j.get("args", [])):
                continue
            if any(w in c for w in ("clear", "assign", "resize", "truncate", "set_size", "C2E", "C1E", "D2E", "D1E", "aSE")):
                cleared = True
            elif "push_back" not in c and "emplace" not in c:
                seen = True
    ctx.ok("retries", f.loc(push))
    if not seen:
        ctx.violation("slot", f.loc(push), "a slot is not compared with those already chosen for keys of the same bucket",
                      key="slot|same-bucket")
    if not cleared:
        ctx.violation("slot", f.loc(push), "slots chosen with an earlier seed are kept for the next one", key="slot|stale")
    for x in body:
        for j in f.blocks[x]:
            if j["op"] in ("call", "invoke") and (j.get("callee") or "").endswith("ixEm") and len(j["args"]) == 2:
                k = ex.of(j["args"][1])
                if k[0] == "phi" and f.defs[k[1]][0] == hd:
                    p = f.ins_of(["v", k[1]])
                    us = set()
                    for v, q in p["phi"]:
                        if q in body:
                            u = ex.of(v)
                            us |= set(u[2:]) if u[0] in ("join", "select") else {u}
                    us.discard(k)
                    if us and all(u == ("lin", 64, 1, ((k, 1),)) or u == ("lin", 32, 1, ((k, 1),)) for u in us):
                        ctx.violation("slot", f.loc(j), "with a new seed the keys before the one that collided keep their slots",
                                      key="slot|restart")


TFUN = {"lin", "int", "xor", "and", "or", "mul", "shl", "sext", "zext", "trunc", "name"}


def low_bits_only(e):
    """Every bit of e depends on equal or lower bits of the characters and the seed only."""
    if e[0] in ("int", "name"):
        return True
    if e[0] not in TFUN:
        return False
    if e[0] == "lin":
        return all(low_bits_only(a) for a, _ in e[3])
    return all(low_bits_only(x) for x in e[1:] if isinstance(x, tuple))


def ends(ctx, f, ls):
    """The search for a seed ends: with such a hash some keys share their slot for every seed."""
    ex = Ex(f)
    for r in ls:
        if r.init is None or r.init[0] == "int":
            continue
        g = [a for a in atoms(r.init, []) if a[0] == "phi"]
        if not g or not all(low_bits_only(x) for x in r.step):
            continue
        ctx.ok("seed searches", f.q)
        seeds = set(g)
        hs = {f.defs[a[1]][0] for a in g}
        body = set().union(*(f.loops.get(h, set()) for h in hs))
        if not body:
            continue
        bounded = False
        for b in body:
            t = f.blocks[b][-1]
            if t["op"] != "br" or "cond" not in t:
                continue
            c = ex.of(t["cond"])
            # a branch on the seed (or how often it was changed) that can leave the search
            def counts(a):
                """Never set back within the search."""
                p = f.ins_of(["v", a[1]])
                us = [ex.of(v) for v, q in p["phi"] if q in body]
                return not any(u[0] == "int" or u[0] in ("join", "select") and any(isinstance(x, tuple) and x[0] == "int" for x in u)
                               for u in us)
            if c[0] == "cmp" and c[1] in ("slt", "sle", "ult", "ule", "eq", "ne") and b not in r.body:
                for x in c[2:]:
                    k, d = Lin.parts(x)
                    if d and all(a[0] == "phi" and (a in seeds or f.defs[a[1]][0] in hs) and counts(a) for a in d) and \
                            not (c[1] in ("eq", "ne") and ("int", 0, 32) in c[2:]):
                        inner = [y for y in c[2:] if y is not x]
                        if inner and inner[0][0] in ("int", "arg", "call", "load", "phi", "lin", "zext", "sext"):
                            out = [s for s in t["succ"] if s not in body or leads_out(f, s, body, hs)]
                            if out:
                                bounded = True
        if not bounded:
            ctx.violation("ends", f.loc(r.ins), "the search for a seed may never end: keys that agree in their low bits share a "
                          "slot for every seed when the number of slots is a power of two", key="slot|endless|%s" % f.q)


def leads_out(f, s, body, hs):
    """From s control leaves the body without passing the loop's header."""
    seen, work = set(), [s]
    while work:
        x = work.pop()
        if x in seen or x in hs:
            continue
        seen.add(x)
        if x not in body:
            # not through an exception handler
            if f.blocks[x][0]["op"] == "landingpad":
                continue
            return True
        work.extend(f.succ[x])
    return False


def decode(ctx, f, ls):
    """V[-d-1] when d = G[hash(0)%size] is negative, V[hash(d)%size] otherwise."""
    ex = Ex(f)
    gk, vk = ("arg", 1), ("arg", 2)
    zero = {("phi", r.phi) for r in ls if r.init is not None and r.init[0] == "int"}
    seeded = {("phi", r.phi): r for r in ls if r.init is not None and r.init[0] != "int"}
    for b, i in f.insts():
        if i["op"] != "load" or i.get("ty") != "i32":
            continue
        a = ex.of(i["o"][0])
        if a[0] != "gep" or a[1] not in (gk, vk):
            continue
        idx = a[2]
        ctx.ok("slots", "%s at %s" % (f.q, f.loc(i).replace(build.REPO + "/", "")))
        c, d = Lin.parts(idx)
        if len(d) != 1:
            continue
        (x, k), = d.items()
        if a[1] == gk:
            h, sg = unmod(x)
            if sg:
                ctx.violation("slot", f.loc(i), "%s takes a signed remainder of the hash" % f.q, key="slot|signed-lookup")
            if h in seeded:
                ctx.violation("slot", f.loc(i), "the first-level index is computed with a seed", key="slot|seeded-lookup")
            continue
        # second level
        inner = x
        while inner[0] in ("sext", "zext", "trunc"):
            inner = inner[2]
        h, sg = unmod(inner)
        conds = ex.conds(b)
        if h is not None:
            if sg:
                ctx.violation("slot", f.loc(i), "%s takes a signed remainder of the hash" % f.q, key="slot|signed-lookup")
            if h in zero:
                ctx.violation("slot", f.loc(i), "the second-level index ignores the seed found in the table",
                              key="slot|unseeded-lookup")
            neg = False
        else:
            cc, dd = Lin.parts(inner)
            g = [z for z in dd if z[0] == "load" and contains(z, lambda e: e == gk)]
            if len(dd) != 1 or not g:
                continue
            if x[0] == "zext" or k != 4:
                continue
            kk = dd[g[0]]
            if (kk, cc + c // 4) != (-1, -1):
                ctx.violation("slot", f.loc(i), "a direct slot recorded as d is decoded as %d*d%+d, it was recorded as -slot-1" %
                              (kk, cc + c // 4), key="slot|decode")
            neg = True
        # the condition under which this form is used
        for cnd, t in conds:
            if cnd[0] != "cmp" or not contains(cnd, lambda e: e[0] == "load" and contains(e, lambda y: y == gk)):
                continue
            p, l, r = cnd[1:]
            if r[0] == "int" and l[0] == "load":
                lt = {"slt": (r[1],), "sle": (r[1] + 1,)}.get(p)
            elif l[0] == "int" and r[0] == "load":
                # k < d  ==  not d < k+1
                lt = {"slt": (l[1] + 1,), "sle": (l[1],)}.get(p)
                t = not t
            else:
                continue
            if lt is None:
                ctx.violation("slot", f.loc(i), "entries are told apart by %s instead of their sign" % show(cnd), key="slot|sign")
                continue
            if lt[0] not in (0, 1) or t != neg or (lt[0] == 1):
                # d <= 0 counts as direct only if 0 never is a seed: 0 marks no bucket at all
                if lt[0] == 1 and t == neg:
                    continue
                ctx.violation("slot", f.loc(i), "entries are told apart by %s instead of their sign" % show(cnd), key="slot|sign")

"""D04 names derived from flags, D05 splitting a flag string."""
import re

from .. import build, summary
from ..engine import AnalysisBroken, NULL, TOP, INF
from ..terms import TermEngine, Terms, EMPTY, cat, contains, subterms, replace, show, fname, VEC0

NS = "onnx_mlir::"
EXT_IN = (".mlir", ".onnx", ".onnxtext")
SUFFIX = {".o": "Obj", ".so": "Lib", ".jar": "JNI", ".onnx.mlir": None}


def has_u(t):
    return any(x[:1] == ("u",) for x in subterms(t) if isinstance(x, tuple))


def lin(v):
    """A value as (base, constant)."""
    if v[0] == "v":
        v = v[1:]
    if v[0] == "int":
        return None, v[1]
    if v[0] == "sym" and v[1][:2] == ("arg", "plus"):
        return v[1][2], v[1][3]
    return v, 0


class NameEngine(TermEngine):
    def incoming(self, b, frm, st):
        return {p["i"]: self.ev(st, v) for p in self.fn.phis[b] for v, pb in p["phi"] if pb == frm}

    def arith(self, st, i, op):
        a, b = self.ev(st, i["o"][0]), self.ev(st, i["o"][1])
        if op in ("add", "sub") and b[0] == "int" and a[0] == "sym":
            base, c = lin(a)
            c += b[1] if op == "add" else -b[1]
            if c == 0:
                return base
            k = ("arg", "plus", base, c)
            lo, hi, ne = self.rng(st, base)
            st.facts[k] = (lo + c if lo > -INF else -INF, hi + c if hi < INF else INF, frozenset(x + c for x in ne))
            return ("sym", k)
        return super().arith(st, i, op)

    def load(self, st, i, ptr):
        o, off = self.obj_of(ptr)
        if o is not None and o[0] == "T" and o[1][0] == "char":
            k = ("arg",) + o[1]
            st.facts.setdefault(k, (-128, 127, frozenset()))
            return ("sym", k)
        return super().load(st, i, ptr)

    def clobber_shared(self, st):
        pass

    def enter(self, b, frm, st):
        back = (frm, b) in self.fn.back
        inc = self.incoming(b, frm, st) if back else {}
        if back:
            self.mon.backs.append((b, st.copy(), inc))
        if frm is not None and not any(i["op"] == "landingpad" for i in self.fn.blocks[b]):
            for h, body in self.fn.loops.items():
                if frm in body and b not in body:
                    self.mon.leaves.append((h, frm, st.copy()))
        if b in self.fn.headers and not back:
            self.mon.starts.append((b, self.incoming(b, frm, st)))
        old = st
        st = super().enter(b, frm, st)
        if not back:
            for k, v in old.bools.items():
                if k[0] == "cmp" and k not in st.bools and any(x[:2] == ("arg", "plus") or x[:2] == ("arg", "len")
                                                               for x in subterms(k) if isinstance(x, tuple)):
                    st.bools[k] = v
        if not back and any(h == b for _, h in self.fn.back):
            self.mon.settle(self, st)
        if back:
            for p in self.fn.phis[b]:
                v = st.env.get(p["i"], TOP)
                if v[0] == "sym" and v[1][:2] == ("arg", "plus"):
                    st.env[p["i"]] = self.define(st, {"i": p["i"]})
            keys = {("i", p["i"]) for p in self.fn.phis[b]}
            ended = []
            for p in self.fn.phis[b]:
                # the next index is the size already
                new = st.env.get(p["i"], TOP)
                v = inc.get(p["i"], TOP)
                for k in [k[2] for k in st.facts if k[:2] == ("arg", "len") and k[2][0] == "init"]:
                    L = ("sym", ("arg", "len", k))
                    if new == ("sym", ("i", p["i"])) and v[0] in ("int", "sym"):
                        base, c = lin(v)
                        q = ("int", c - 1) if base is None else ("v", "sym", ("arg", "plus", base, c - 1))
                        if (base is not None or c > 0) and not can_follow(self, old, k, q):
                            ended.append(("cmp", "uge", new, L))

            def stale(t):
                return any(isinstance(x, tuple) and (x in keys or x[:1] == ("elem",)) for x in subterms(t))
            st.mon = tuple(a for a in st.mon if a[0] != "opaque")
            st.facts = {k: v for k, v in st.facts.items() if not stale(k) or k[0] != "arg"}
            st.bools = {k: v for k, v in st.bools.items() if not stale(k)}
            st.bools.update((k, True) for k in ended)
            for k in [k for k, x in st.mem.items() if stale(k) or stale(x)]:
                st.mem[k] = ("term", ("u", "old")) if k[0][0] == "S" else TOP
        return st


class Names(Terms):
    init = ()

    def __init__(self, ctx):
        self.ctx = ctx
        self.exits = []
        self.backs = []
        self.leaves = []
        self.starts = []
        self.reads = []

    collapse = None

    def settle(self, eng, st):
        """Entering a loop: what is known of the flags a loop before it looked
        at is put into the target it found, and forgotten."""
        if self.collapse is None:
            return
        t = targets(st, self.collapse)
        if t is not None:
            st.mon = st.mon + (("target", t),)

        def about(k):
            return any(isinstance(x, tuple) and x[:2] == ("elem", self.collapse) for x in subterms(k))
        st.facts = {k: v for k, v in st.facts.items() if not about(k)}
        st.bools = {k: v for k, v in st.bools.items() if not about(k)}

    def set(self, eng, st, v, t):
        if self.collapse is not None:
            n = self.named(eng, st, t)
            if n != t:
                t = n
                st.mon = tuple(a for a in st.mon if a[0] != "outname") + (n,)
        super().set(eng, st, v, t)

    def length(self, eng, st, t):
        if t == ("outname", "eq"):
            st.facts.setdefault(("arg", "len", t), (1, INF, frozenset()))
        return super().length(eng, st, t)

    def named(self, eng, st, t):
        """The name an -o option gives, as a term that carries its proof."""
        F = self.collapse
        if t[:2] == ("fn", "substr") and t[2][:2] == ("elem", F) and t[3:] == (("int", 3), ("int", -1)) and \
                prefix(st, t[2], "-o=") is True and length(st, t[2])[0] > 3:
            return ("outname", "eq")
        if t[:2] == ("elem", F) and t[2] not in ("it", "first"):
            k = preceding(t[2])
            if k is not None and equal(st, ("elem", F, k), "-o") is True:
                return ("outname", "next")
        return t

    def exit(self, eng, st, kind, i, val):
        if kind == "ret":
            self.exits.append((i, st.copy(), val))

    def call(self, eng, st, i, callee, args):
        r = super().call(eng, st, i, callee, args)
        if r is None and i.get("ty") not in (None, "void") and not (callee or "").startswith("llvm."):
            es = set()
            for a in args:
                o, off = eng.obj_of(a)
                t = self.get(eng, st, a) if o is not None else a[1] if a[0] == "sym" else ()
                es |= {x for x in subterms(t) if isinstance(x, tuple) and x[:1] == ("elem",)}
            for E in es:
                if ("opaque", E) not in st.mon:
                    st.mon = st.mon + (("opaque", E),)
        return r

    def event(self, eng, st, i, callee, dem, args):
        if re.match(r"^(.* )?string::", dem):
            n = fname(dem)
            if n in ("find", "rfind") and len(args) >= 2:
                E = self.get(eng, st, args[0])
                char = "::" + n + "(char," in dem or "::" + n + "(char)" in dem
                x = self.chars(eng, st, args[1]) if "char const*" in dem else \
                    ("lit", chr(args[1][1] & 255)) if char and args[1][0] == "int" else self.get(eng, st, args[1])
                pos = args[2] if len(args) > 2 else (NULL if n == "find" else ("int", -1))
                if len(args) > 3 and args[3][0] == "int" and x[0] == "lit":
                    x = ("lit", x[1][:args[3][1]])
                if x[0] == "lit" and pos == NULL:
                    if n == "rfind":
                        return self.prefixed(eng, st, E, x[1], ("int", -1))
                    return self.found(eng, st, ("find", E, x))
                if x[0] == "lit" and pos == ("int", -1) and n == "rfind":
                    return self.found(eng, st, ("last", E, x))
            if n in ("find_last_of", "find_first_of") and len(args) >= 2:
                E = self.get(eng, st, args[0])
                x = self.chars(eng, st, args[1]) if "char const*" in dem else \
                    ("lit", chr(args[1][1] & 255)) if args[1][0] == "int" else ("u", "x")
                if x[0] == "lit" and len(x[1]) == 1:
                    return self.found(eng, st, ("last" if n == "find_last_of" else "find", E, x))
            if n == "compare" and len(args) >= 4 and args[1] == NULL and args[2][0] == "int":
                E = self.get(eng, st, args[0])
                x = self.chars(eng, st, args[3]) if "char const*" in dem else self.get(eng, st, args[3])
                if x[0] == "lit" and len(x[1]) == args[2][1]:
                    return self.prefixed(eng, st, E, x[1], ("int", 1))
            if n == "compare" and len(args) >= 4:
                E = self.get(eng, st, args[0])
                x = self.chars(eng, st, args[3]) if "char const*" in dem else self.get(eng, st, args[3])
                if x[0] == "lit" and position(self.val(args[1]), E) == -len(x[1]) and (
                        args[2] == ("int", len(x[1])) or args[2] == ("int", -1)):
                    k = ("arg", "eq") + tuple(sorted((("fn", "substr", E, self.val(args[1]), ("int", -1)), x), key=repr))
                    out = []
                    for v, r in ((1, NULL), (0, ("int", 1))):
                        lo, hi, _ = st.facts.get(k, (0, 1, 0))
                        if lo <= v <= hi:
                            s = st.copy()
                            s.facts[k] = (v, v, frozenset())
                            out.append((s, r))
                    return out
            if n == "compare" and len(args) == 2:
                E = self.get(eng, st, args[0])
                x = self.chars(eng, st, args[1]) if "char const*" in dem else self.get(eng, st, args[1])
                k = ("arg", "eq") + tuple(sorted((E, x), key=repr))
                out = []
                for v, r in ((1, NULL), (0, ("int", 1))):
                    lo, hi, _ = st.facts.get(k, (0, 1, 0))
                    if lo <= v <= hi:
                        s = st.copy()
                        s.facts[k] = (v, v, frozenset())
                        out.append((s, r))
                return out
            if n in ("operator[]", "at", "front", "back") and "i" in i:
                E = self.get(eng, st, args[0])
                idx = self.val(args[1]) if len(args) > 1 else ("int", 0) if n == "front" else ("last",)
                return [(st, ("ptr", ("T", ("char", E, idx)), 0))]
            if n == "operator=" and len(args) == 2:
                o, off = eng.obj_of(args[0])
                if o is not None and o[0] == "T" and o[1][0] in ("elem", "begin"):
                    E = self.get(eng, st, args[0])
                    t = self.chars(eng, st, args[1]) if "char const*" in dem else self.get(eng, st, args[1])
                    st.mon = st.mon + (("set", E, t),)
                    return [(st, args[0])]
        if dem.startswith("path::is_relative") or dem.startswith("path::is_absolute"):
            k = ("arg", "relative", self.get(eng, st, args[0]))
            out = []
            for v in (0, 1):
                lo, hi, _ = st.facts.get(k, (0, 1, 0))
                if lo <= v <= hi:
                    s = st.copy()
                    s.facts[k] = (v, v, frozenset())
                    out.append((s, ("int", v if "relative" in dem else 1 - v)))
            return out
        if re.match(r"^(std::filesystem::)?current_path\(", dem) and len(args) >= 1:
            self.set(eng, st, args[0], ("fn", "current_path"))
            return [(st, TOP)]
        if re.match(r"^(std::filesystem::)?absolute\(", dem) and len(args) >= 2:
            self.set(eng, st, args[0], ("fn", "absolute", self.get(eng, st, args[1])))
            return [(st, TOP)]
        if re.match(r"^([^(]* )?vector<string>::", dem):
            n = fname(dem)
            if n in ("operator[]", "at") and len(args) == 2:
                self.reads.append((i, self.get(eng, st, args[0]), self.val(args[1]), st.copy()))
            if n in ("push_back", "emplace_back") and st.mem.get(self.cell(eng, args[0])) is None:
                v = self.get(eng, st, args[0])
                if v[0] == "init":
                    ch = "char const" in dem
                    t = self.chars(eng, st, args[1]) if ch else self.get(eng, st, args[1])
                    st.mon = st.mon + (("push", v, t),)
                    return [(st, TOP)]
        return None

    def found(self, eng, st, k):
        h = ("arg", "has") + k
        out = []
        lo, hi, _ = st.facts.get(h, (0, 1, 0))
        if lo == 0:
            s = st.copy()
            s.facts[h] = (0, 0, frozenset())
            out.append((s, ("int", -1)))
        if hi == 1:
            s = st.copy()
            s.facts[h] = (1, 1, frozenset())
            s.facts.setdefault(("arg",) + k, (0, INF, frozenset()))
            out.append((s, ("sym", ("arg",) + k)))
        return out

    def prefixed(self, eng, st, E, x, other):
        k = ("arg", "pre", E, ("lit", x))
        out = []
        p = prefix(st, E, x)
        for v, r in ((1, NULL), (0, other)):
            if p is None or p == bool(v):
                s = st.copy()
                s.facts[k] = (v, v, frozenset())
                out.append((s, r))
        return out


# ---------------------------------------------------------------- what a state says about a string
def facts_about(st, E):
    for k, f in st.facts.items():
        if k[0] == "arg" and len(k) > 2 and contains(k[2:], E):
            yield k, f


def equal(st, E, x):
    """E == x: True, False or None."""
    pos = None
    for k, f in facts_about(st, E):
        if k[1] == "eq" and E in k[2:4]:
            o = k[3] if k[2] == E else k[2]
            if o[0] == "lit":
                if f[0] == 1:
                    return o[1] == x
                if f[1] == 0 and o[1] == x:
                    return False
        if k[1] == "len" and k[2] == E and not f[0] <= len(x) <= f[1]:
            return False
        if k[1] == "char" and k[2] == E and k[3] == ("int", 0) and f[0] == f[1]:
            if not x or ord(x[0]) != f[0] & 255:
                return False
        if k[1] == "char" and k[2] == E and k[3] == ("int", 0) and x and any(y & 255 == ord(x[0]) for y in f[2]):
            return False
    for y, v in prefixes(st, E):
        if v and not x.startswith(y) or not v and x.startswith(y):
            return False
    return None


def prefixes(st, E):
    for k, f in facts_about(st, E):
        if k[1] == "pre" and k[2] == E and f[0] == f[1]:
            yield k[3][1], bool(f[0])
        elif k[1] == "find" and k[2] == E:
            if f[:2] == (0, 0):
                yield k[3][1], True
            elif f[0] > 0 or 0 in f[2]:
                yield k[3][1], False
        elif k[1] == "has" and k[2:4] == ("find", E) and f[1] == 0:
            yield k[4][1], False
        elif k[1] == "eq" and f[0] == f[1]:
            for a, b in ((k[2], k[3]), (k[3], k[2])):
                if b[0] == "lit" and a[:2] == ("fn", "substr") and len(a) == 5 and a[2] == E and a[3] == ("int", 0) and \
                        a[4] == ("int", len(b[1])):
                    yield b[1], bool(f[0])
        elif k[1] == "char" and k[2] == E and k[3] == ("int", 0):
            if f[0] == f[1]:
                yield chr(f[0] & 255), True
            for y in f[2]:
                yield chr(y & 255), False


def prefix(st, E, x):
    for k, f in facts_about(st, E):
        if k[1] == "eq" and E in k[2:4]:
            o = k[3] if k[2] == E else k[2]
            if o[0] == "lit" and f[0] == 1:
                return o[1].startswith(x)
        if k[1] == "len" and k[2] == E and f[1] < len(x):
            return False
    for y, v in prefixes(st, E):
        if v and y.startswith(x):
            return True
        if v and not x.startswith(y):
            return False
        if not v and x.startswith(y):
            return False
    return None


def length(st, E):
    f = st.facts.get(("arg", "len", E), (0, INF, frozenset()))
    lo, hi = f[0], f[1]
    for x, v in prefixes(st, E):
        if v:
            lo = max(lo, len(x))
    for k, g in st.facts.items():
        if k[:2] == ("arg", "plus") and k[2] == ("sym", ("arg", "len", E)):
            lo = max(lo, g[0] - k[3])
            hi = min(hi, g[1] - k[3])
    if lo == 0 and 0 in f[2]:
        lo = 1
    return lo, hi


def position(v, E):
    """v as an offset from the end of E, or None."""
    base, c = lin(v)
    if base == ("sym", ("arg", "len", E)):
        return c
    return None


def ends(st, E, x):
    if length(st, E)[1] < len(x):
        return False
    e = [(k, f) for k, f in facts_about(st, E) if k[1] == "eq"]
    for k, f in e:
        for a, b in ((k[2], k[3]), (k[3], k[2])):
            if b[0] != "lit":
                continue
            if a == E and f[0] == 1:
                return b[1].endswith(x)
            if a[:2] == ("fn", "substr") and a[2] == E and position(a[3], E) == -len(b[1]):
                if f[0] == 1:
                    if b[1].endswith(x):
                        return True
                    if not x.endswith(b[1]):
                        return False
                elif f[1] == 0 and x.endswith(b[1]):
                    return False
    return None


def in_bounds(eng, st, v, k):
    """index k < size of v?  True / None"""
    base, c = lin(k)
    L = ("sym", ("arg", "len", v))
    if base is None:
        return True if c < length(st, v)[0] else None
    for b, t in st.bools.items():
        if b[0] != "cmp":
            continue
        op, x, y = b[1], b[2], b[3]
        if not t:
            op = {"slt": "sge", "sge": "slt", "ult": "uge", "uge": "ult", "sgt": "sle", "sle": "sgt", "ugt": "ule",
                  "ule": "ugt"}.get(op)
        if op in ("sgt", "ugt", "sge", "uge"):
            x, y = y, x
            op = {"g": "l"}[op[1]] and op[0] + "l" + op[2]
        if op not in ("slt", "ult", "sle", "ule"):
            continue
        bx, cx = lin(x)
        by, cy = lin(y)
        if bx == base and by == L and (cy - cx + (1 if op[2] == "e" else 0)) <= -c:
            return True
    for b, t in st.bools.items():
        # an index that stepped by one and is not the size
        if b[0] == "cmp" and b[1] in ("eq", "ne") and (b[1] == "ne") == bool(t):
            for x, y in ((b[2], b[3]), (b[3], b[2])):
                if lin(x) == (base, 0) and lin(y) == (L, 0) and c == 0:
                    return True
    return None


def following(F, k):
    base, c = lin(k)
    if base is None:
        return ("int", c + 1)
    return ("v", "sym", ("arg", "plus", base, c + 1)) if c + 1 else ("v",) + base


def preceding(k):
    base, c = lin(k)
    if base is None:
        return ("int", c - 1) if c else None
    return ("v", "sym", ("arg", "plus", base, c - 1)) if c - 1 else ("v",) + base


def targets(st, F):
    """Targets the -Emit option examined on this path may stand for."""
    es = {t for k in st.facts for t in subterms(k) if isinstance(t, tuple) and t[:2] == ("elem", F)}
    for E in sorted(es, key=repr):
        n = 5 if prefix(st, E, "-Emit") is True else 6 if prefix(st, E, "--Emit") is True else 0
        if not n:
            continue
        pre = "-" * (n - 4) + "Emit"
        may = set()
        for w in ("Lib", "JNI", "Obj"):
            h = st.facts.get(("arg", "has", "find", E, ("lit", w)), (0, 1))
            f = st.facts.get(("arg", "find", E, ("lit", w)), (0, INF, frozenset()))
            if h[0] == 1 and f[1] <= 6 or equal(st, E, pre + w) is True or prefix(st, E, pre + w) is True:
                return frozenset([w])
            if h[1] == 1 and f[0] <= n and equal(st, E, pre + w) is not False and prefix(st, E, pre + w) is not False:
                may.add(w)
        return frozenset(may | {None})
    return None


# ---------------------------------------------------------------- checks
class Check:
    def __init__(self, ctx, m, name, nargs, collapse=None):
        self.ctx = ctx
        fs = [f for f in m.fns.values() if f.q == NS + name and not f.decl]
        if len(fs) != 1:
            raise AnalysisBroken("expected one %s, found %d" % (name, len(fs)))
        self.f = f = fs[0]
        f.prep()
        n = len(f.d.get("sig", [])) - 1
        if n != nargs:
            raise AnalysisBroken("%s does not take %d arguments" % (name, nargs))
        first = len(f.params) - n
        self.first = first
        self.p = [("init", ("arg", first + k), 0) for k in range(n)]
        self.mon = Names(ctx)
        self.mon.collapse = self.p[collapse] if collapse is not None else None
        self.e = NameEngine(f, self.mon, leak=False, nullcheck=False, per_block=30000)
        self.e.run()
        if not self.mon.exits:
            raise AnalysisBroken("%s never returns" % name)
        self.body = {}
        for b, st, inc in self.mon.backs:
            self.body.setdefault(b, []).append((st, inc))
        ctx.ok("functions", f.q)
        ctx.ok("paths returning", n=len(self.mon.exits))

    def v(self, i, rule, msg):
        self.ctx.violation(rule, self.f.loc(i), "%s: %s" % (self.f.q, msg), key="%s|%s|%s" % (self.f.q, rule, msg))

    def note(self, i, msg):
        t = "%s at %s" % (msg, self.f.loc(i))
        if t not in self.ctx.notes:
            self.ctx.notes.append(t)

    def ret(self, st):
        return self.mon.get(self.e, st, ("ptr", ("U", ("arg", 0)), 0))

    def elems(self, st, F):
        """Elements of F the state speaks about."""
        out = set()
        for k in list(st.facts) + list(st.bools):
            for t in subterms(k):
                if isinstance(t, tuple) and t[:1] == ("elem",) and t[1] == F:
                    out.add(t)
        return out

    def bounds(self, F):
        for i, v, k, st in self.mon.reads:
            if v != F:
                continue
            self.ctx.ok("flag reads", self.f.loc(i))
            if in_bounds(self.e, st, v, k) is None:
                self.v(i, "bounds", "may read a flag beyond the last one")

    def search(self, F, lits, match, what):
        """A loop that looks through F for `what`: `match` tells whether an
        element is one (True, False, or None when the path does not say)."""
        loops = [h for h, sts in self.body.items() if any(
            isinstance(t, tuple) and t[:1] == ("lit",) and t[1] in lits for st, _ in sts for k in st.facts
            for t in subterms(k))]
        for h in loops:
            at = self.f.blocks[h][-1]
            idx = {lin(k)[0][1][1] for _, v, k, _ in self.mon.reads if v == F and lin(k)[0] is not None and
                   lin(k)[0][0] == "sym" and lin(k)[0][1][0] == "i"} & {p["i"] for p in self.f.phis[h]}
            for st, inc in self.body[h]:
                for E in self.current(st, F, h, idx):
                    self.ctx.ok("flags passed over", self.f.loc(at))
                    r = match(st, E)
                    if r is not False and self.opaque(st, E, at):
                        continue
                    if r is not False:
                        self.v(at, "skip", "%s over %s" % ("passes" if r else "may pass", what))
                    if E[2] not in ("it", "first") and not any(
                            self.mon.val(x) == following(F, E[2]) for x in inc.values()):
                        self.v(at, "skip", "does not go on with the next flag")
            for b, inc in self.mon.starts:
                for p in idx if b == h else ():
                    self.ctx.ok("searches", self.f.loc(at))
                    if inc[p] != NULL:
                        self.v(at, "skip", "does not begin with the first flag")
            for g, frm, st in self.mon.leaves:
                if g != h:
                    continue
                cur = self.current(st, F, h, idx)
                for E in cur:
                    if match(st, E) is not True and not self.opaque(st, E, self.f.blocks[frm][-1]):
                        self.v(self.f.blocks[frm][-1], "skip", "stops looking for %s" % what)
                for p in idx if not cur else ():
                    base, c = lin(st.env.get(p, TOP))
                    if can_follow(self.e, st, F, ("int", c - 1) if base is None else
                                  ("v", "sym", ("arg", "plus", base, c - 1))):
                        self.v(self.f.blocks[frm][-1], "skip", "may stop before the last flag when looking for %s" % what)
        if not loops:
            self.note(self.mon.exits[0][0], "no loop found that looks for %s" % what)
            self.ctx.notes.append("%s: search for %s not followed" % (self.f.q, what))

    def opaque(self, st, E, i):
        if ("opaque", E) in st.mon:
            self.note(i, "test of a flag not understood")
            return True
        return False

    def current(self, st, F, h, idx):
        """Elements this iteration of the loop has looked at."""
        out = set()
        for E in self.elems(st, F):
            base, c = lin(E[2]) if E[2] not in ("it", "first") else (None, 0)
            if base is None or base[0] == "sym" and base[1][0] == "i" and base[1][1] in idx:
                out.add(E)
        return {E for E in out if E[2] in ("it", "first") or ("elem", F, preceding(E[2])) not in out}


def out_match(st, c, F, E):
    """(kind, name term) if E is, on this path, certainly an output option
    that names the output; None if certainly not; "?" otherwise."""
    p = prefix(st, E, "-o=")
    lo, hi = length(st, E)
    if p is True and lo > 3:
        return "eq"
    q = equal(st, E, "-o")
    if q is True and in_bounds(c.e, st, F, following(F, E[2])):
        return "next"
    if p is not False and hi > 3:
        return "?="
    if q is not False:
        # there may be no flag after it
        if q is True and not can_follow(c.e, st, F, E[2]):
            return None
        return "?o"
    return None


def can_follow(eng, st, F, k):
    base, c = lin(k)
    L = ("sym", ("arg", "len", F))
    if base is None:
        return length(st, F)[1] > c + 1
    for b, t in st.bools.items():
        if b[0] != "cmp":
            continue
        op, x, y = b[1], b[2], b[3]
        if op in ("eq", "ne") and (op == "eq") == bool(t):
            for x, y in ((x, y), (y, x)):
                # an index that steps by one is the size
                if lin(y) == (L, 0) and lin(x)[0] == base and lin(x)[1] <= c + 1:
                    return False
            continue
        if not t:
            op = {"slt": "sge", "sge": "slt", "ult": "uge", "uge": "ult", "sgt": "sle", "sle": "sgt", "ugt": "ule",
                  "ule": "ugt"}.get(op)
        if op in ("sle", "ule", "slt", "ult"):
            x, y = y, x
            op = op[0] + "g" + op[2]
        if op not in ("sge", "uge", "sgt", "ugt"):
            continue
        bx, cx = lin(x)
        by, cy = lin(y)
        # base + cx >= len + cy   ->  base + c + 1 >= len
        if bx == base and by == L and cx - cy <= c + 1:
            return False
    return True


def is_out(c, F):
    def match(st, E):
        return {"eq": True, "next": True, None: False}.get(out_match(st, c, F, E))
    return match


def begins(*xs):
    def match(st, E):
        r = [prefix(st, E, x) for x in xs]
        return True if True in r else False if all(x is False for x in r) else None
    return match


def is_model(st, E):
    if prefix(st, E, "-") is True or length(st, E)[1] == 0:
        return False
    r = [ends(st, E, x) for x in EXT_IN]
    if True in r and prefix(st, E, "-") is False:
        return True
    return False if all(x is False for x in r) else None


def names(ctx, tier):
    ctx.rule("target", "the suffix of the output follows from the target: .o for objects, .so for libraries, .jar for JNI, "
                       ".onnx.mlir for everything else")
    ctx.rule("output", "the output's base name is the one of the first -o option, or else the input's without its extension")
    ctx.rule("input", "the input is the model passed separately or else the first flag, not an option, that ends like a model file")
    ctx.rule("tag", "the tag is what follows the first --tag= or -tag=")
    ctx.rule("path", "an output directory is put before an output name that has none, or added with the input's base name if no "
                     "name is given; other flags, and names that have a directory, are left alone")
    ctx.rule("abs", "a relative name becomes absolute with the current directory; an absolute or empty one stays")
    ctx.rule("skip", "no flag that matters is passed over")
    ctx.rule("bounds", "no flag beyond the last is read")
    m = build.load("driver", inline_std=summary.STD, keep=[NS + "getInputFilename", NS + "parseFlags"])
    ctx.units |= set(m.units)
    # --- suffix by target
    c = Check(ctx, m, "getTargetFilename", 2)
    want = {4: ".o", 5: ".so", 6: ".jar"}
    for i, st, _ in c.mon.exits:
        t = c.ret(st)
        if foreign(t):
            c.note(i, "name not understood")
            continue
        lo, hi, ne = st.facts.get(("arg", c.first + 1), (-INF, INF, frozenset()))
        ok = {v for v in range(-1, 9) if lo <= v <= hi and v not in ne}
        for v in ok:
            w = cat(c.p[0], ("lit", want.get(v, ".onnx.mlir")))
            ctx.ok("targets", "%d" % v)
            if t != w:
                c.v(i, "target", "the output for target %d is named %s" % (v, show(t)))
    # --- output name
    c = Check(ctx, m, "getOutputFilename", 2, 1)
    M, F = c.p
    c.bounds(F)
    inp = ("fn", "getInputFilename", M, F)
    kinds = set()
    for i, st, _ in c.mon.exits:
        t = c.ret(st)
        if foreign(t):
            c.note(i, "output name not understood")
            continue
        suf = None
        if t[0] == "cat" and t[-1][0] == "lit" and t[-1][1] in SUFFIX:
            suf, base = t[-1][1], cat(*t[1:-1])
        elif t[0] == "lit" and t[1] in SUFFIX:
            suf, base = t[1], EMPTY
        if suf is None:
            c.v(i, "output", "the output is named %s" % show(t)[:80])
            continue
        ctx.ok("output names", c.f.loc(i))
        why = bad_base(c, st, F, M, inp, base)
        kinds.add((suf, base[0]))
        if why:
            c.v(i, "output", why)
        T = targets(st, F)
        for x in st.mon:
            if x[0] == "target" and T is None:
                T = x[1]
        if T is None:
            T = frozenset(["Lib"])
        if T != {SUFFIX[suf]}:
            c.v(i, "target", "an output named %s although the target may be %s" % (
                suf, ", ".join(sorted("another" if w is None else w for w in T - {SUFFIX[suf]}))) if T - {SUFFIX[suf]} else
                "an output named %s for another target" % suf)
    for s in SUFFIX:
        if not any(k[0] == s for k in kinds):
            ctx.violation("target", c.f.loc(c.mon.exits[0][0]), "%s: no output is ever named %s" % (c.f.q, s), key="target|" + s)
    c.search(F, {"-o", "-o="}, is_out(c, F), "an option that names the output")
    c.search(F, {"-Emit", "--Emit"}, begins("-Emit", "--Emit"), "an option that names the target")
    # --- input name
    m2 = build.load("driver", inline_std=summary.STD, keep=[NS + "parseFlags"])
    c = Check(ctx, m2, "getInputFilename", 2)
    M, F = c.p
    c.bounds(F)
    acc = set()
    for i, st, _ in c.mon.exits:
        t = c.ret(st)
        ctx.ok("input names", c.f.loc(i))
        me = c.mon.known_empty(c.e, st, M)
        if foreign(t):
            c.note(i, "input name not understood")
            continue
        if me is False or me is None:
            if t != M and not (me is None and t == M):
                c.v(i, "input", "a model passed separately is not the input")
            continue
        if t == EMPTY or t == M:
            continue
        if t[:1] != ("elem",) or t[1] != F:
            c.v(i, "input", "the input is %s" % show(t)[:60])
            continue
        got = [x for x in EXT_IN if ends(st, t, x) is True]
        acc |= set(got)
        if not got:
            c.v(i, "input", "takes a flag for the input that does not end like a model file")
        if prefix(st, t, "-") is not False:
            c.v(i, "input", "takes an option for the input")
    c.search(F, set(EXT_IN), is_model, "a flag that names the input")
    # --- tag
    c = Check(ctx, m, "getModelTag", 1)
    F = c.p[0]
    c.bounds(F)
    for i, st, _ in c.mon.exits:
        t = c.ret(st)
        ctx.ok("tags", c.f.loc(i))
        if foreign(t):
            c.note(i, "tag not understood")
        elif t == EMPTY:
            pass
        elif t[:2] == ("fn", "substr") and t[2][:1] == ("elem",) and t[2][1] == F and t[3][0] == "int":
            n = t[3][1]
            if not any(prefix(st, t[2], x) is True and n == len(x) for x in ("--tag=", "-tag=")):
                c.v(i, "tag", "takes the tag from position %d of a flag that may not be a tag option of that length" % n)
            if t[4] != ("int", -1) and not (len(t) > 4 and t[4][0] == "int" and t[4][1] < 0):
                c.v(i, "tag", "cuts the tag off")
        else:
            c.v(i, "tag", "the tag is %s" % show(t)[:60])
    c.search(F, {"--tag=", "-tag="}, begins("--tag=", "-tag="), "a tag option")
    # --- output path
    c = Check(ctx, m, "applyOutputPath", 3)
    F, O, X = c.p
    c.bounds(F)
    done = set()
    for i, st, _ in c.mon.exits:
        ctx.ok("applied output paths", c.f.loc(i))
        oe = c.mon.known_empty(c.e, st, O)
        acts = st.mon
        if any(foreign(a) for a in acts):
            c.note(i, "change of the flags not understood")
            continue
        if oe is not False:
            if acts or oe is None:
                c.v(i, "path", "changes the flags although there is no output path")
            continue
        why = bad_apply(c, st, F, O, X, acts, done)
        if why:
            c.v(i, "path", why)
    for k in ("-o=", "-o", "push", "keep"):
        if k not in done:
            ctx.violation("path", c.f.loc(c.mon.exits[0][0]), "%s: never %s" % (c.f.q, {
                "-o=": "puts the path before the name in -o=name", "-o": "puts the path before the name after -o",
                "push": "adds an output name", "keep": "leaves a name that has a directory"}[k]), key="path|" + k)
    c.search(F, {"-o", "-o="}, is_out(c, F), "an option that names the output")
    # --- absolute
    c = Check(ctx, m, "getAbsolutePathUsingCurrentDir", 1)
    P = c.p[0]
    for i, st, _ in c.mon.exits:
        t = c.ret(st)
        ctx.ok("absolute names", c.f.loc(i))
        if foreign(t):
            c.note(i, "absolute name not understood")
            continue
        empty = c.mon.known_empty(c.e, st, P)
        r = st.facts.get(("arg", "relative", P), (0, 1))[:2]
        full = t in (("fn", "operator/", ("fn", "current_path"), P), ("fn", "absolute", P))
        if empty is True:
            if t not in (P, EMPTY):
                c.v(i, "abs", "an empty name does not stay empty")
        elif t == P:
            if r != (0, 0):
                c.v(i, "abs", "a name that may be relative stays relative")
        elif not full:
            c.v(i, "abs", "a name becomes %s" % show(t)[:80])
    for k in ("targets", "output names", "input names", "tags", "applied output paths", "flags passed over", "flag reads"):
        ctx.need(k, 2)
    return ("Each name helper is interpreted with strings as terms; what its path says about each flag (equal to, begins with, "
            "ends with, length, position in the list) decides whether the name it builds, or the flag it passes over, is right.")


KNOWN_FN = {"substr", "operator/", "filename", "parent_path", "stem", "replace_extension", "extension", "getInputFilename",
            "current_path", "absolute"}


def foreign(t):
    return has_u(t) or any(isinstance(x, tuple) and x[:1] == ("fn",) and x[1] not in KNOWN_FN for x in subterms(t))


def bad_base(c, st, F, M, inp, base):
    if base[:1] == ("outname",):
        return None
    if any(a[0] == "outname" and c.mon.known_empty(c.e, st, a) is not True for a in st.mon):
        return "drops the name an -o option gives"
    def last_dot(v, X):
        b, k = lin(v)
        return b == ("sym", ("arg", "last", X, ("lit", "."))) and k == 0 or v == ("int", -1)
    if base[:2] == ("fn", "substr") and base[2][:1] == ("elem",) and base[2][1] == F:
        E = base[2]
        if base[3] != ("int", 3) or base[4] != ("int", -1):
            return "takes another part of the -o= option than the name"
        if prefix(st, E, "-o=") is not True or length(st, E)[0] < 4:
            return "takes the name from a flag that may not be -o=name"
        return None
    if base[:1] == ("elem",) and base[1] == F:
        if base[2] in ("it", "first"):
            return None
        k = preceding(base[2])
        if k is None or equal(st, ("elem", F, k), "-o") is not True:
            return "takes for the output a flag that may not follow -o"
        return None
    for X in (inp, M):
        if X == M and c.mon.known_empty(c.e, st, M) is not False:
            continue
        if base[:2] == ("fn", "substr") and base[2] == X and base[3] == ("int", 0) and last_dot(base[4], X):
            return None
        if base in (("fn", "replace_extension", X, EMPTY),) or base == X and st.facts.get(
                ("arg", "has", "last", X, ("lit", ".")), (0, 1))[1] == 0:
            return None
    return "the base name is %s" % show(base)[:80]


def bad_apply(c, st, F, O, X, acts, done):
    sets = [a for a in acts if a[0] == "set" and a[1] != a[2]]
    push = [a for a in acts if a[0] == "push"]
    def named(E, p):
        """directory of the name p known empty / not empty"""
        d = ("fn", "parent_path", p)
        return c.mon.known_empty(c.e, st, d)

    def joined(t, p):
        return t in (("fn", "operator/", O, ("fn", "filename", p)), ("fn", "operator/", O, p))
    if sets and push or len(sets) > 1:
        return "changes more than one flag"
    if sets:
        E, t = sets[0][1], sets[0][2]
        if E[:1] != ("elem",) or E[1] != F:
            return "changes something other than a flag"
        if t[0] == "cat" and t[1] == ("lit", "-o=") and len(t) == 3:
            p = ("fn", "substr", E, ("int", 3), ("int", -1))
            if not joined(t[2], p):
                return "the name in -o=name becomes something other than the path and the name"
            if prefix(st, E, "-o=") is not True or length(st, E)[0] < 4:
                return "changes a flag that may not be -o=name"
            if named(E, p) is not True:
                return "changes an output name that may have a directory"
            done.add("-o=")
            return None
        if not joined(t, E):
            return "a flag becomes something other than the path and the name"
        k = preceding(E[2]) if E[2] not in ("it", "first") else None
        if k is None or equal(st, ("elem", F, k), "-o") is not True:
            return "changes a flag that may not follow -o"
        if named(E, E) is not True:
            return "changes an output name that may have a directory"
        done.add("-o")
        return None
    if push:
        ts = [a[2] for a in push]
        stem = ("fn", "stem", X)
        if ts == [("lit", "-o"), ("fn", "operator/", O, stem)] or ts == [cat(("lit", "-o="), ("fn", "operator/", O, stem))]:
            for E in c.elems(st, F):
                if out_match(st, c, F, E) in ("eq", "next"):
                    return "adds an output name although there is one"
            done.add("push")
            return None
        return "adds something other than -o and the path with the input's base name"
    for E in c.elems(st, F):
        k = out_match(st, c, F, E)
        p = ("fn", "substr", E, ("int", 3), ("int", -1)) if k == "eq" else \
            ("elem", F, following(F, E[2])) if k == "next" and E[2] not in ("it", "first") else None
        if p and named(E, p) is False:
            done.add("keep")
            return None
    return "leaves the flags alone although no output name with a directory was found"


# ---------------------------------------------------------------- D05 splitting a flag string
SPACES = {9, 10, 11, 12, 13, 32}
START = (False, False, False, False)      # escaped, in "", in '', current word has characters


def split_spec(c, s):
    """(what happens, next state) for character c in state s."""
    esc, dq, sq, ne = s
    if esc:
        return "append", (False, dq, sq, True)
    if c == 92:
        return "none", (True, dq, sq, ne)
    if c == 34 and not sq:
        return "none", (False, not dq, sq, ne)
    if c == 39 and not dq:
        return "none", (False, dq, not sq, ne)
    if c in SPACES and not dq and not sq:
        return "split", (False, dq, sq, False)
    return "append", (False, dq, sq, True)


def state_name(s):
    return ("after a backslash" if s[0] else "between double quotes" if s[1] else "between single quotes" if s[2] else
            "outside quotes") + ("" if s[3] else ", before a word")


def char_name(c):
    return {92: "a backslash", 34: "a double quote", 39: "a single quote", 32: "a space", 9: "a tab", 10: "a newline"}.get(
        c, "the character %r" % chr(c & 255))


class SplitEngine(NameEngine):
    def enter(self, b, frm, st):
        back = (frm, b) in self.fn.back
        inc = self.incoming(b, frm, st) if back else {}
        if back:
            st = st.copy()
            old = dict(st.facts)
            self.mon.step(self, st, self.fn.blocks[frm][-1], inc)
        ops = {p["i"]: v for p in self.fn.phis[b] for v, pb in p["phi"] if pb == frm}
        st = super().enter(b, frm, st)
        for n, v in inc.items():
            if v[0] in ("cmp", "and", "or", "not"):
                t = self.truth(st, v)
                v = ("int", int(t)) if t is not None else v
            if v[0] == "sym" and v[1][:2] == ("arg", "char"):
                lo, hi, _ = old.get(v[1], (0, 1, 0))
                v = ("int", lo) if lo == hi else v
            if v[0] == "int" and not self.stepped(ops[n]):
                st.env[n] = v
        return st

    def stepped(self, o, seen=None):
        """Does this operand count up or down?"""
        seen = seen if seen is not None else set()
        if o[0] != "v" or o[1] in seen:
            return False
        seen.add(o[1])
        d = self.mon.defs.get(o[1])
        if d is None:
            return False
        if d["op"] in ("add", "sub", "getelementptr"):
            return True
        if d["op"] == "phi":
            return any(self.stepped(v, seen) for v, _ in d["phi"])
        if d["op"] in ("zext", "sext", "trunc", "freeze"):
            return self.stepped(d["o"][0], seen)
        return False

    def load(self, st, i, ptr):
        o, off = self.obj_of(ptr)
        S = self.mon.text
        if o is not None and o[0] == "T" and o[1][0] in ("char", "begin") and o[1][1] == S:
            idx = o[1][2] if o[1][0] == "char" else "first" if off == 0 else "it"
            k = ("arg", "char", S, idx)
            return self.mon.read(self, st, i, k)
        return super().load(st, i, ptr)


class Split(Names):
    def __init__(self, ctx, f, text):
        super().__init__(ctx)
        self.f = f
        self.text = text
        self.defs = {i["i"]: i for b in f.blocks for i in b if "i" in i}
        self.bad = []
        self.unclear = []
        self.chars_read = []
        self.nsteps = set()

    # ---- the specification's state, the character being treated, the words added
    def spec(self, st):
        for a in st.mon:
            if a[0] == "spec":
                return a[1]
        return START

    def pend(self, st):
        for a in st.mon:
            if a[0] == "pend":
                return a[1]

    def put(self, st, kind, v):
        st.mon = tuple(a for a in st.mon if a[0] != kind) + (((kind, v),) if v is not None else ())

    def words(self, st):
        return [a[1] for a in st.mon if a[0] == "word"]

    def read(self, eng, st, i, k):
        st.facts.setdefault(k, (-128, 127, frozenset()))
        p = self.pend(st)
        if p is not None and p != k:
            if k[3] not in ("it", "first") and k[3] != following(None, p[3]):
                self.bad.append((i, "skips a character"))
            self.step(eng, st, i, None)
        if p != k:
            self.put(st, "pend", k)
        self.chars_read.append((i, k[3], st.copy()))
        return ("sym", k)

    def codes(self, st, k):
        lo, hi, ne = st.facts.get(k, (-128, 127, frozenset()))
        f = st.facts.get(("arg", "space", k), (0, 1))
        codes = []
        for c in range(-128, 256):
            # signed or widened as unsigned
            if not lo <= c <= hi or c in ne or c > 127 and hi <= 127:
                continue
            if f[0] == 1 and c not in SPACES or f[1] == 0 and c in SPACES:
                continue
            codes.append(c)
        return codes

    def step(self, eng, st, i, inc):
        """The character read last has been dealt with."""
        k = self.pend(st)
        if k is None:
            if inc is not None and self.words(st):
                self.bad.append((i, "adds a word without looking at a character"))
            return
        s = self.spec(st)
        codes = self.codes(st, k)
        words = self.words(st)
        res = {}
        for c in codes:
            res.setdefault(split_spec(c, s), c)
        self.nsteps.add((s, tuple(sorted(a for a, _ in res))))
        if len(res) > 1:
            cs = sorted(res.values(), key=lambda c: (c not in (92, 34, 39, 32, 9), c))[:2]
            self.bad.append((i, "treats %s like %s %s" % (char_name(cs[0]), char_name(cs[1]), state_name(s))))
            # go on with the commonest meaning
        if not res:
            self.put(st, "pend", None)
            return
        (act, nxt), c = sorted(res.items(), key=lambda x: x[0][0])[0]
        want = [("acc", "W")] if act == "split" and s[3] else []
        if words != want and len(res) == 1:
            if any(w[0] != "acc" and w != EMPTY for w in words):
                self.unclear.append(i)
            elif not words:
                self.bad.append((i, "does not end the word at %s %s" % (char_name(c), state_name(s))))
            elif not want and act != "split":
                self.bad.append((i, "ends the word at %s %s" % (char_name(c), state_name(s))))
            elif not want:
                self.bad.append((i, "adds an empty or already added word at %s %s" % (char_name(c), state_name(s))))
            else:
                self.bad.append((i, "adds a word that is not made of the characters since the word began"))
        ren = {"append": {"Wc": "W", "W": "old"}, "none": {"Wc": "old", "W": "W"}, "split": {"W": "old", "Wc": "old"}}[act]
        for kk, x in list(st.mem.items()):
            if kk[0][0] == "S" and x[0] == "term" and x[1][0] == "acc":
                st.mem[kk] = ("term", ("acc", ren.get(x[1][1], "old")))
        st.facts = {kk: v for kk, v in st.facts.items() if not contains(kk, k) and not (kk[:2] == ("arg", "len") and kk[2][:1] == ("acc",))}
        st.mon = tuple(a for a in st.mon if a[0] != "word")
        self.put(st, "spec", nxt)
        self.put(st, "pend", None)
        if inc is not None and k[3] not in ("it", "first") and not any(self.val(v) == following(None, k[3]) for v in inc.values()):
            self.bad.append((i, "does not go on with the next character"))

    def length(self, eng, st, t):
        if t[:1] == ("acc",) and t[1] != "old":
            st.facts.setdefault(("arg", "len", t), (1, INF, frozenset()))
        return super().length(eng, st, t)

    def append(self, eng, st, dst, c):
        t = self.get(eng, st, dst)
        p = self.pend(st)
        n = "old"
        if p is not None and c == ("sym", p):
            if t == EMPTY and not self.spec(st)[3] or t == ("acc", "W"):
                n = "Wc"
        self.set(eng, st, dst, ("acc", n))
        return [(st, dst)]

    def event(self, eng, st, i, callee, dem, args):
        if callee in ("isspace", "std::isspace") or re.match(r"^(std::)?isspace\(int\)", dem):
            k = args[0][1] if args and args[0][0] == "sym" else None
            if k is None or k[:3] != ("arg", "char", self.text):
                return None
            out = []
            for v in (0, 1):
                lo, hi, _ = st.facts.get(("arg", "space", k), (0, 1, 0))
                if lo <= v <= hi:
                    s = st.copy()
                    s.facts[("arg", "space", k)] = (v, v, frozenset())
                    if self.codes(s, k):
                        out.append((s, ("int", v)))
            return out
        if re.match(r"^(.* )?string::", dem):
            n = fname(dem)
            loc = eng.obj_of(args[0])[0] if args else None
            mine = loc is not None and loc[0] in ("A", "U") and loc != ("U", ("arg", 1))
            if mine and n in ("operator+=", "push_back") and len(args) == 2 and re.search(r"(operator\+=|push_back)\(char\)", dem):
                return self.append(eng, st, args[0], args[1])
            if mine and n == "append" and re.search(r"append\(unsigned long, char\)", dem) and args[1] == ("int", 1):
                return self.append(eng, st, args[0], args[2])
            if n in ("operator[]", "at", "front", "back") and self.get(eng, st, args[0]) == self.text and "i" in i:
                idx = self.val(args[1]) if len(args) > 1 else ("int", 0) if n == "front" else ("last",)
                return [(st, ("ptr", ("T", ("char", self.text, idx)), 0))]
        if re.match(r"^([^(]* )?string::c?(begin|end)\(", dem) and args and self.get(eng, st, args[0]) == self.text:
            return [(st, ("ptr", ("T", ("begin" if "begin" in fname(dem) else "end", self.text)), 0))]
        if re.match(r"^([^(]* )?vector<string>::", dem) and fname(dem) in ("push_back", "emplace_back") and len(args) == 2:
            t = self.chars(eng, st, args[1]) if "char const" in dem else self.get(eng, st, args[1])
            if len(self.words(st)) < 3:
                st.mon = st.mon + (("word", t),)
            if "&&" in dem:
                self.set(eng, st, args[1], ("u", "moved"))
            return [(st, ("ptr", ("T", ("word",)), 0))]
        return super().event(eng, st, i, callee, dem, args)

    def exit(self, eng, st, kind, i, val):
        super().exit(eng, st, kind, i, val)
        if kind != "ret":
            return
        k = self.pend(st)
        words = self.words(st)
        if k is not None:
            self.bad.append((i, "may stop before the end of the text"))
            return
        want = [("acc", "W")] if self.spec(st)[3] else []
        if any(w[0] != "acc" and w != EMPTY for w in words):
            self.unclear.append(i)
        elif words != want:
            self.bad.append((i, "does not add the last word" if not words else "adds an empty word, or one again, at the end"
                             if not want else "adds a last word that is not made of the characters since the word began"))


def split(ctx, tier):
    ctx.rule("split", "read one character at a time, the text is split as the automaton over (escaped, in double quotes, in single "
                      "quotes, word has characters) says: the words added are exactly the characters between unquoted, unescaped "
                      "whitespace, with the quoting characters removed and no empty word")
    ctx.rule("whole", "every character from the first to the last is read, and none beyond")
    m = build.load("driver", inline_std=summary.STD)
    ctx.units |= set(m.units)
    fs = [f for f in m.fns.values() if f.q == NS + "parseFlags" and not f.decl]
    if len(fs) != 1:
        raise AnalysisBroken("expected one parseFlags, found %d" % len(fs))
    f = fs[0]
    f.prep()
    S = ("init", ("arg", 1), 0)
    mon = Split(ctx, f, S)
    e = SplitEngine(f, mon, leak=False, nullcheck=False, per_block=8000)
    try:
        e.run()
    except AnalysisBroken as x:
        if "budget" not in str(x):
            raise
        ctx.notes.append("%s: not followed (%s)" % (f.q, x))
        ctx.ok("functions", f.q)
        return "The function that splits flags could not be followed."
    ctx.ok("functions", f.q)
    ctx.ok("paths returning", n=len(mon.exits))
    for s, a in mon.nsteps:
        ctx.ok("transitions compared", "%s: %s" % (state_name(s), "/".join(a)))
    bad = list(mon.bad)
    if not mon.exits:
        raise AnalysisBroken("parseFlags never returns")
    # whole
    idx = {lin(k)[0][1][1] for _, k, _ in mon.chars_read if k not in ("it", "first") and lin(k)[0] is not None and
           lin(k)[0][0] == "sym" and lin(k)[0][1][0] == "i"}
    for i, k, st in mon.chars_read:
        if k in ("it", "first"):
            continue
        ctx.ok("character reads", f.loc(i))
        if in_bounds(e, st, S, k) is None:
            bad.append((i, "may read a character beyond the end"))
    for b, inc in mon.starts:
        for p in idx & set(inc):
            ctx.ok("searches", f.loc(f.blocks[b][-1]))
            if inc[p] != NULL:
                bad.append((f.blocks[b][-1], "does not begin with the first character"))

    class C:
        pass
    for h, frm, st in mon.leaves:
        for p in idx & {x["i"] for x in f.phis[h]}:
            if mon.pend(st) is not None or p not in st.env:
                continue
            base, c = lin(st.env[p])
            if can_follow(e, st, S, ("int", c - 1) if base is None else ("v", "sym", ("arg", "plus", base, c - 1))):
                bad.append((f.blocks[frm][-1], "may stop before the last character"))
    if mon.unclear or not mon.nsteps:
        ctx.notes.append("%s: the way words are built is not followed; %d observations not used" % (f.q, len(bad)))
        bad = []
        ctx.ok("transitions compared", n=0)
    else:
        ctx.need("transitions compared", 12)
    for i, msg in dict.fromkeys((id(i), m) for i, m in bad):
        ins = next(x for x, y in bad if id(x) == i)
        ctx.violation("split" if "beyond" not in msg and "last char" not in msg else "whole", f.loc(ins), "%s: %s" % (f.q, msg),
                      key="%s|%s" % (f.q, msg))
    return ("The function that splits flags is interpreted one character at a time, in lockstep with the automaton of the "
            "specification; a character is the set of all codes the path's tests leave possible.")

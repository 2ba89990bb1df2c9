"""Canonical expressions over one function's SSA values (no execution: terms
are only rewritten to a normal form and compared)."""
import itertools

COMM = {"add", "mul", "and", "or", "xor", "fadd", "fmul"}
SWAP = {"eq": "eq", "ne": "ne", "slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle", "ult": "ugt", "ugt": "ult",
        "ule": "uge", "uge": "ule"}
NEG = {"eq": "ne", "ne": "eq", "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt", "ult": "uge", "uge": "ult",
       "ugt": "ule", "ule": "ugt"}
EQUAL = object()


def bits_of(ty):
    if ty and ty.startswith("i") and ty[1:].isdigit():
        return int(ty[1:])
    return 64 if ty == "ptr" else None


def wrap(n, bits):
    if bits is None:
        return n
    n &= (1 << bits) - 1
    return n - (1 << bits) if bits > 1 and n >> (bits - 1) else n


class Lin:
    """c + sum k*atom, modulo 2^bits."""

    @staticmethod
    def parts(e):
        if e[0] == "int":
            return e[1], {}
        if e[0] == "lin":
            return e[2], dict(e[3])
        return 0, {e: 1}

    @staticmethod
    def make(c, d, bits):
        d = {a: wrap(k, bits) for a, k in d.items() if wrap(k, bits)}
        c = wrap(c, bits)
        if not d:
            return ("int", c, bits)
        if c == 0 and len(d) == 1 and list(d.values())[0] == 1:
            return list(d)[0]
        return ("lin", bits, c, tuple(sorted(d.items(), key=repr)))


def add(a, b, bits, kb=1):
    ca, da = Lin.parts(a)
    cb, db = Lin.parts(b)
    d = dict(da)
    for x, k in db.items():
        d[x] = d.get(x, 0) + kb * k
    return Lin.make(ca + kb * cb, d, bits)


def scale(a, k, bits):
    c, d = Lin.parts(a)
    return Lin.make(c * k, {x: y * k for x, y in d.items()}, bits)


class Ex:
    def __init__(self, fn):
        fn.prep()
        self.f = fn
        self.memo = {}
        self._dom = None

    # ---- dominators
    def dom(self):
        if self._dom is None:
            f = self.f
            n = len(f.blocks)
            allb = set(range(n))
            d = [allb] * n
            if n:
                d[0] = {0}
            ch = True
            while ch:
                ch = False
                for b in range(1, n):
                    ps = [d[p] for p in f.pred[b]]
                    x = set.intersection(*ps) | {b} if ps else {b}
                    if x != d[b]:
                        d[b] = x
                        ch = True
            self._dom = d
        return self._dom

    def conds(self, b):
        """Branch conditions that hold whenever block b is entered: [(expr, truth)]."""
        f = self.f
        d = self.dom()
        r = []
        for x in d[b]:
            t = f.blocks[x][-1]
            if t["op"] != "br" or "cond" not in t:
                continue
            s0, s1 = t["succ"][0], t["succ"][1]
            if s0 == s1:
                continue
            for s, v in ((s0, True), (s1, False)):
                if s in d[b] and f.pred[s] == [x]:
                    r.append((self.of(t["cond"]), v))
        return r

    def of(self, o):
        if o[0] == "c":
            return ("int", wrap(o[1], o[2]), o[2])
        if o[0] == "n":
            return ("null",)
        if o[0] == "g":
            return ("glob", o[1])
        if o[0] == "ce":
            if o[1] in ("getelementptr",):
                return ("gep", self.of(o[3]), tuple(map(str, o[4:])))
            return ("ce",) + tuple(map(str, o[1:]))
        if o[0] != "v":
            return ("k",) + tuple(map(str, o))
        n = o[1]
        if n < len(self.f.params):
            return ("arg", n)
        if n in self.memo:
            return self.memo[n]
        self.memo[n] = ("phi", n)
        i = self.f.ins_of(o)
        e = self.build(i, n) if i is not None else ("v", n)
        self.memo[n] = e
        return e

    def build(self, i, n):
        op, ty = i["op"], i.get("ty", "")
        bits = bits_of(ty)
        if op == "phi":
            return self.phi(i, n)
        if op in ("freeze",):
            return self.of(i["o"][0])
        if op in ("bitcast", "ptrtoint", "inttoptr", "addrspacecast"):
            return self.of(i["o"][0])
        if op in ("add", "sub") and bits:
            return add(self.of(i["o"][0]), self.of(i["o"][1]), bits, 1 if op == "add" else -1)
        if op == "mul" and bits:
            a, b = self.of(i["o"][0]), self.of(i["o"][1])
            if a[0] == "int":
                return scale(b, a[1], bits)
            if b[0] == "int":
                return scale(a, b[1], bits)
        if op == "shl" and bits:
            b = self.of(i["o"][1])
            if b[0] == "int" and 0 <= b[1] < bits:
                return scale(self.of(i["o"][0]), 1 << b[1], bits)
        if op in ("sext", "zext", "trunc"):
            a = self.of(i["o"][0])
            fb = bits_of(i.get("from", ""))
            if a[0] == "int":
                v = a[1] if op != "zext" else a[1] & ((1 << fb) - 1)
                return ("int", wrap(v, bits), bits)
            return (op, bits, a)
        if op == "icmp":
            return self.cmp(i["pred"], self.of(i["o"][0]), self.of(i["o"][1]))
        if op == "select":
            return self.select(self.of(i["o"][0]), self.of(i["o"][1]), self.of(i["o"][2]))
        if op == "getelementptr":
            base = self.of(i["o"][0])
            if i.get("off") is not None:
                off = ("int", i["off"], 64)
            elif len(i["o"]) == 2 and i.get("esz") is not None:
                off = scale(self.of(i["o"][1]), i["esz"], 64)
            else:
                return ("gepx", base, i.get("src"), tuple(self.of(x) for x in i["o"][1:]))
            if base[0] == "gep":
                return self.mkgep(base[1], add(base[2], off, 64))
            return self.mkgep(base, off)
        if op == "load":
            return ("load", self.of(i["o"][0]), ty, n)
        if op in ("call", "invoke"):
            return ("call", i.get("callee"), tuple(self.of(a) for a in i.get("args", [])), n)
        if op == "alloca":
            return ("alloca", n)
        if op == "extractvalue":
            return ("extract", self.of(i["o"][0]), str(i.get("idx")))
        if "o" in i:
            a = [self.of(x) for x in i["o"]]
            if op in COMM:
                a.sort(key=repr)
                if op == "xor" and a and a[-1][0] == "int" and a[-1][1] == -1 and bits == 1 and a[0][0] == "cmp":
                    return ("cmp", NEG[a[0][1]], a[0][2], a[0][3])
            return (op, bits) + tuple(a)
        return ("v", n)

    @staticmethod
    def mkgep(base, off):
        if off[0] == "int" and off[1] == 0:
            return base
        return ("gep", base, off)

    @staticmethod
    def cmp(p, a, b):
        if p in ("sge", "uge", "sgt", "ugt") or (p in ("eq", "ne") and repr(a) > repr(b)):
            p, a, b = SWAP[p], b, a
        return ("cmp", p, a, b)

    def select(self, c, a, b):
        if a == b:
            return a
        if c[0] == "int":
            return a if c[1] else b
        if c[0] == "cmp" and c[1] in ("ne", "sle", "ule"):
            c = self.cmp(NEG[c[1]], c[2], c[3])
            a, b = b, a
        # where x == k is known the two arms may use either
        if c[0] == "cmp" and c[1] == "eq":
            for x, k in ((c[2], c[3]), (c[3], c[2])):
                if k[0] == "int" and a == x:
                    a = k
        return ("select", c, a, b)

    def phi(self, i, n):
        f = self.f
        b = f.defs[n][0]
        if b in f.headers:
            return ("phi", n)
        inc = [(self.of(v), p) for v, p in i["phi"]]
        if all(e == inc[0][0] for e, _ in inc):
            return inc[0][0]
        if len(inc) == 2:
            (e1, p1), (e2, p2) = inc
            c = self.split(p1, p2, b)
            if c is not None:
                return self.select(c[0], e1, e2) if c[1] else self.select(c[0], e2, e1)
        return ("join", n) + tuple(e for e, _ in inc)

    def split(self, p1, p2, b):
        """Condition of the branch that decides between two predecessors: (cond, p1 is the true side)."""
        f = self.f
        d = self.dom()
        common = d[p1] & d[p2]
        # nearest common dominator
        h = max(common, key=lambda x: len(d[x]))
        t = f.blocks[h][-1]
        if t["op"] != "br" or "cond" not in t or len(set(t["succ"])) != 2:
            return None

        def side(p):
            if p == h:
                return [k for k, s in enumerate(t["succ"]) if s == b]
            return [k for k, s in enumerate(t["succ"]) if s in d[p] and f.pred[s] == [h]]
        s1, s2 = side(p1), side(p2)
        if len(s1) == 1 and len(s2) == 1 and s1 != s2:
            return self.of(t["cond"]), s1[0] == 0
        return None


def subst(e, m):
    if not isinstance(e, tuple):
        return e
    if e in m:
        return m[e]
    return tuple(subst(x, m) if isinstance(x, tuple) else x for x in e)


def contains(e, pred):
    if not isinstance(e, tuple):
        return False
    if e and isinstance(e[0], str) and pred(e):
        return True
    return any(contains(x, pred) for x in e if isinstance(x, tuple))


def atoms(e, out):
    if isinstance(e, tuple):
        if e and e[0] in ("load", "call", "arg", "alloca", "glob", "phi", "v", "join"):
            out.append(e)
        for x in e:
            if isinstance(x, tuple):
                atoms(x, out)
    return out


def show(e):
    if not isinstance(e, tuple):
        return str(e)
    h = e[0]
    if h == "int":
        return str(e[1])
    if h == "lin":
        t = ["%s%s" % ("" if k == 1 else "%d*" % k, show(a)) for a, k in e[3]]
        if e[2]:
            t.append(str(e[2]))
        return "(" + " + ".join(t) + ")"
    if h in ("xor", "and", "or", "mul", "urem", "srem", "udiv", "sdiv", "shl", "lshr", "ashr"):
        return "(" + (" %s " % h).join(show(x) for x in e[2:]) + ")"
    if h in ("sext", "zext", "trunc"):
        return "%s%s(%s)" % (h, e[1], show(e[2]))
    if h == "cmp":
        return "%s %s %s" % (show(e[2]), e[1], show(e[3]))
    if h == "select":
        return "(%s ? %s : %s)" % tuple(show(x) for x in e[1:])
    if h == "load":
        return "*%s" % show(e[1])
    if h == "call":
        return "%s(%s)" % (e[1], ", ".join(show(x) for x in e[2]))
    if h == "name":
        return e[1]
    return h + "(" + ",".join(show(x) for x in e[1:]) + ")"

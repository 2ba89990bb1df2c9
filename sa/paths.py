"""Bounded path enumeration over call-level IR with symbolic object contents.

Every path through a function is followed with each block entered at most
`visits` times (two passes over a loop body are enough to see an element, the
step to the next one and the exit).  Values are uninterpreted terms, memory maps
addresses to terms, and each path yields the ordered list of events -- calls,
accesses to memory the function does not own, locks -- together with the branch
decisions taken.  Exceptional edges are not followed.  Decisions are by term
identity only: no solver is asked, infeasible paths are merely kept."""
import re

from .engine import AnalysisBroken
from .terms import short, params, fname

LOCKC = re.compile(r"std::(lock_guard|unique_lock|scoped_lock)<std::mutex>::(lock_guard|unique_lock|scoped_lock)\(")
LOCKD = re.compile(r"std::(lock_guard|unique_lock|scoped_lock)<std::mutex>::~")


class Path:
    def __init__(self, events, ret, mem, dec):
        self.events, self.ret, self.mem, self.dec = events, ret, mem, dec


class S:
    __slots__ = ("env", "mem", "dec", "ev", "locks", "cnt", "seq")

    def copy(self):
        s = S()
        s.env, s.mem, s.dec = dict(self.env), dict(self.mem), dict(self.dec)
        s.ev, s.locks, s.cnt, s.seq = list(self.ev), dict(self.locks), dict(self.cnt), self.seq
        return s


class Walker:
    def __init__(self, mod, f, visits=3, limit=6000):
        self.m, self.f, self.visits, self.limit = mod, f, visits, limit
        f.prep()
        self.paths = []
        self.sizes = {}

    # -- values --
    def val(self, st, o):
        k = o[0]
        if k == "v":
            if o[1] in st.env:
                return st.env[o[1]]
            if o[1] < len(self.f.params):
                return ("arg", o[1])
            return ("?", o[1])
        if k == "c":
            return ("c", o[1])
        if k == "n":
            return ("c", 0)
        if k == "g":
            return ("glob", o[1])
        return ("?",) + tuple(map(str, o))

    @staticmethod
    def addr(v):
        return (v[1], v[2]) if v[0] == "at" else (v, 0)

    @staticmethod
    def off(v, n):
        if v[0] == "at":
            return ("at", v[1], v[2] + n) if isinstance(n, int) else ("at", v, n)
        return ("at", v, n) if n != 0 else v

    def local(self, a):
        return a[0][0] == "loc"

    def load(self, st, v, i):
        a = self.addr(v)
        if a in st.mem:
            return st.mem[a]
        r = ("ld", a[0], a[1])
        return r

    def content(self, st, v):
        """What an argument stands for: the object it points to, if known."""
        a = self.addr(v)
        if self.local(a):
            if a in st.mem:
                return st.mem[a]
            return v
        if a in st.mem:
            return st.mem[a]
        return v

    def event(self, st, i, kind, *x):
        st.ev.append((kind, i.get("l", 0), tuple(sorted(map(repr, st.locks.values()))),) + x)

    # -- instructions --
    def run(self):
        st = S()
        st.env, st.mem, st.dec, st.ev, st.locks, st.cnt, st.seq = {}, {}, {}, [], {}, {}, 0
        work = [(0, None, st)]
        n = 0
        while work:
            b, prev, st = work.pop()
            n += 1
            if n > self.limit:
                raise AnalysisBroken("too many paths in " + self.f.q)
            st.cnt[b] = st.cnt.get(b, 0) + 1
            if st.cnt[b] > self.visits:
                continue
            self.block(b, prev, st, work)
        return self.paths

    def block(self, b, prev, st, work):
        f = self.f
        new = {}
        for i in f.blocks[b]:
            if "phi" in i:
                for v, p in i["phi"]:
                    if p == prev:
                        new[i["i"]] = self.val(st, v)
        st.env.update(new)
        for i in f.blocks[b]:
            op = i["op"]
            if "phi" in i:
                continue
            if "i" in i:
                r = self.fold(st, i)
                if r is not None:
                    st.env[i["i"]] = r
                    continue
            if op == "alloca":
                st.env[i["i"]] = ("loc", i["i"])
                st.mem = {k: v for k, v in st.mem.items() if k[0] != ("loc", i["i"])} if st.cnt[b] > 1 else st.mem
            elif op == "getelementptr":
                base = self.val(st, i["o"][0])
                if i.get("off") is not None:
                    st.env[i["i"]] = self.off(base, i["off"])
                else:
                    idx = tuple(self.val(st, x) for x in i["o"][1:])
                    st.env[i["i"]] = ("at", base, ("idx",) + idx)
                if i.get("src", "").endswith(self.watch or "\0") and i.get("off"):
                    self.watched(st, i, base, i["off"])
            elif op == "load":
                p = self.val(st, i["o"][0])
                a = self.addr(p)
                v = self.load(st, p, i)
                st.env[i["i"]] = v
                if not self.local(a):
                    self.event(st, i, "read", a)
            elif op == "store":
                v, p = self.val(st, i["o"][0]), self.val(st, i["o"][1])
                self.write(st, i, p, v)
            elif op in ("call", "invoke"):
                r = self.call(st, i)
                if "i" in i:
                    st.env[i["i"]] = r
                if op == "invoke":
                    work.append((i["normal"], b, st))
                    return
            elif op == "br":
                if "cond" not in i:
                    work.append((i["succ"][0], b, st))
                    return
                for s2, t in self.decide(st, i, self.val(st, i["cond"])):
                    work.append((i["succ"][0 if t else 1], b, s2))
                return
            elif op == "switch":
                v = self.val(st, i["cond"])
                eqs = [self.norm(("eq", v, ("c", c)))[0] for c, _ in i["cases"]]
                if v[0] == "c":
                    t = [t for c, t in i["cases"] if c == v[1]]
                    work.append((t[0] if t else i["default"], b, st))
                    return
                known = [k for k, e in enumerate(eqs) if st.dec.get(e) is True]
                for k, (c, t) in enumerate(i["cases"]):
                    if known and k not in known or st.dec.get(eqs[k]) is False:
                        continue
                    s2 = st.copy()
                    for e in eqs:
                        s2.dec[e] = e == eqs[k]
                    self.event(s2, i, "if", ("eq", v, ("c", c)), True)
                    work.append((t, b, s2))
                if not known:
                    for e in eqs:
                        st.dec[e] = False
                    work.append((i["default"], b, st))
                return
            elif op == "ret":
                self.paths.append(Path(st.ev, self.val(st, i["o"][0]) if i["o"] else None, st.mem, st.dec))
                return
            elif op in ("resume", "unreachable"):
                return
            elif op == "landingpad":
                st.env[i["i"]] = ("?",)
            elif op in ("trunc", "zext", "sext", "bitcast", "freeze"):
                st.env[i["i"]] = self.val(st, i["o"][0])
            elif op == "extractvalue":
                v = self.val(st, i["o"][0])
                st.env[i["i"]] = self.extract(v, i["idx"][0])
            elif op == "insertvalue":
                a, v = self.val(st, i["o"][0]), self.val(st, i["o"][1])
                st.env[i["i"]] = ("ins", a, i["idx"][0], v)
            elif op == "select":
                c, a, v = [self.val(st, x) for x in i["o"]]
                if c[0] == "c":
                    st.env[i["i"]] = a if c[1] else v
                else:
                    st.env[i["i"]] = ("sel", c, a, v)
            elif op == "icmp":
                a, v = [self.val(st, x) for x in i["o"]]
                st.env[i["i"]] = self.icmp(i["pred"], a, v)
            elif "i" in i:
                st.env[i["i"]] = (op,) + tuple(self.val(st, x) for x in i.get("o", []))

    def fold(self, st, i):
        """A subclass's own value for an instruction."""
        return None

    def isbool(self, t):
        return t[0] in ("nz", "not", "eq", "ult", "ule", "ugt", "uge", "slt", "sle", "sgt", "sge") or t in (("c", 0), ("c", 1)) or \
            t[0] in ("or", "and", "xor") and all(self.isbool(x) for x in t[1:]) or t[0] == "sel" and all(self.isbool(x) for x in t[2:]) or \
            t[0] == "arg" and self.f.params[t[1]][1].startswith("i1 ") or t[0] == "arg" and self.f.params[t[1]][1] == "i1" or self.boolish(t)

    def decide(self, st, i, v):
        """The states in which a condition is true and false: compound ones are
        decided one operand after the other."""
        c, neg = self.norm(v)
        if c[0] == "c":
            return [(st, bool(c[1]) != neg)]
        if c in st.dec:
            return [(st, st.dec[c] != neg)]
        e = c[1] if c[0] == "nz" else ()
        if e and e[0] in ("or", "and") and len(e) == 3 and (e[0] == "or" or self.isbool(e[1]) and self.isbool(e[2])):
            out = []
            for s2, t in self.decide(st, i, e[1]):
                if t == (e[0] == "or"):
                    out.append((s2, t != neg))
                else:
                    out += [(s3, u != neg) for s3, u in self.decide(s2, i, e[2])]
            return out
        if e and e[0] == "sel" and len(e) == 4:
            out = []
            for s2, t in self.decide(st, i, e[1]):
                out += [(s3, u != neg) for s3, u in self.decide(s2, i, e[2] if t else e[3])]
            return out
        if e and e[0] == "xor" and len(e) == 3 and self.isbool(e[1]) and self.isbool(e[2]):
            out = []
            for s2, t in self.decide(st, i, e[1]):
                out += [(s3, (t != u) != neg) for s3, u in self.decide(s2, i, e[2])]
            return out
        s2 = st.copy()
        st.dec[c], s2.dec[c] = True, False
        self.event(st, i, "if", c, True)
        self.event(s2, i, "if", c, False)
        return [(st, not neg), (s2, neg)]

    watch = None

    def watched(self, st, i, base, off):
        pass

    def write(self, st, i, p, v):
        a = self.addr(p)
        st.mem[a] = v
        if not self.local(a):
            self.event(st, i, "write", a, v)

    @staticmethod
    def extract(v, k):
        while v[0] == "ins":
            if v[2] == k:
                return v[3]
            v = v[1]
        return ("ex", v, k)

    def icmp(self, pred, a, b):
        if a[0] == "c" and b[0] == "c":
            x, y = a[1], b[1]
            if pred[0] == "u":
                x, y = x & (1 << 64) - 1, y & (1 << 64) - 1
            r = {"eq": x == y, "ne": x != y, "ult": x < y, "ule": x <= y, "ugt": x > y, "uge": x >= y,
                 "slt": x < y, "sle": x <= y, "sgt": x > y, "sge": x >= y}[pred]
            return ("c", int(r))
        if a[0] == "c":
            a, b = b, a
            pred = {"ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule", "slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle"}.get(pred, pred)
        if b == ("c", 0):
            if pred in ("ne", "ugt"):
                return ("nz", a)
            if pred in ("eq", "ule"):
                return ("not", ("nz", a))
            if pred == "uge":
                return ("c", 1)
            if pred == "ult":
                return ("c", 0)
        if b == ("c", 1) and pred in ("eq", "ne") and self.boolish(a):
            return ("nz", a) if pred == "eq" else ("not", ("nz", a))
        if pred == "ne":
            return ("not", ("eq", a, b))
        return (pred, a, b)

    def boolish(self, a):
        return False

    def norm(self, c):
        neg = False
        while True:
            if c[0] == "not":
                c, neg = c[1], not neg
            elif c[0] == "xor" and c[2] in (("c", 1), ("c", -1)):
                c, neg = c[1], not neg
            elif c[0] == "sel" and c[3] == ("c", 0) and c[1] == c[2]:
                c = c[1]
            elif c[0] == "nz":
                if c[1][0] in ("not", "nz", "eq"):
                    c = c[1]
                else:
                    return c, neg
            elif c[0] == "c":
                return c, neg
            elif c[0] == "eq":
                return c, neg
            else:
                return ("nz", c), neg

    # -- calls --
    def call(self, st, i):
        args = [self.val(st, a) for a in i.get("args", [])]
        c = i.get("callee")
        f = self.m.fns.get(c) if c else None
        dem = f.dem if f is not None else (c or "")
        if c is None:
            dem = "<indirect>"
        if c and c.startswith("llvm."):
            return self.intrinsic(st, i, c, args)
        if LOCKC.search(dem):
            if len(args) >= 2:
                if len(args) == 2:
                    st.locks[args[0]] = args[1]
                    self.event(st, i, "lock", args[1])
                else:
                    self.event(st, i, "call", dem, tuple(args), tuple(self.content(st, a) for a in args), ("?",))
            return ("?",)
        if LOCKD.search(dem) or re.search(r"std::unique_lock<std::mutex>::unlock\(", dem):
            if args[0] in st.locks:
                self.event(st, i, "unlock", st.locks[args[0]])
                del st.locks[args[0]]
            return ("?",)
        if dem.startswith("std::unique_lock<std::mutex>::lock("):
            return ("?",)
        if dem == "std::mutex::lock()":
            st.locks[("m", args[0])] = args[0]
            self.event(st, i, "lock", args[0])
            return ("?",)
        if dem == "std::mutex::unlock()":
            st.locks.pop(("m", args[0]), None)
            self.event(st, i, "unlock", args[0])
            return ("?",)
        cont = [self.content(st, a) for a in args]
        r = self.model(st, i, dem, args, cont)
        if r is None:
            st.seq += 1
            r = ("call", short(dem), tuple(cont), st.seq)
            for a in args:
                self.clobber(st, a, dem)
        self.event(st, i, "call", dem, tuple(args), tuple(cont), r)
        return r

    def clobber(self, st, a, dem):
        pass

    def intrinsic(self, st, i, c, args):
        if c.startswith(("llvm.memcpy", "llvm.memmove")):
            n = args[2][1] if args[2][0] == "c" else None
            d, s = self.addr(args[0]), self.addr(args[1])
            if not self.local(s):
                self.event(st, i, "read", s)
            if n is not None and isinstance(d[1], int) and isinstance(s[1], int):
                got = {}
                for k in range(0, n, 8):
                    got[k] = st.mem.get((s[0], s[1] + k), ("ld", s[0], s[1] + k))
                for k, v in got.items():
                    st.mem[(d[0], d[1] + k)] = v
                if not self.local(d):
                    self.event(st, i, "write", d, got.get(0))
            elif n is not None and n <= 8:
                v = st.mem[d] = st.mem.get(s, ("ld",) + s)
                if not self.local(d):
                    self.event(st, i, "write", d, v)
            else:
                if not self.local(d):
                    self.event(st, i, "write", d, ("?",))
            return ("?",)
        if c.startswith("llvm.memset"):
            d = self.addr(args[0])
            if args[2][0] == "c" and isinstance(d[1], int):
                for k in range(0, args[2][1], 8):
                    st.mem[(d[0], d[1] + k)] = ("c", 0) if args[1] == ("c", 0) else ("?",)
            if not self.local(d):
                self.event(st, i, "write", d, ("?",))
            return ("?",)
        if c.startswith("llvm.expect"):
            return args[0]
        return ("?",)

    def model(self, st, i, dem, args, cont):
        return None


def has(t, x):
    """Does term t contain x?"""
    if t == x:
        return True
    if isinstance(t, tuple):
        return any(has(y, x) for y in t)
    return False


def find(t, pred, out=None):
    out = [] if out is None else out
    if isinstance(t, tuple):
        if t and pred(t):
            out.append(t)
        for y in t:
            find(y, pred, out)
    return out

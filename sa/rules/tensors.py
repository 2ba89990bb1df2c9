"""R12: tensors and lists hold and report what they were given.

Ranks and element types are enumerated; everything else (pointers, extents,
strides, flags) stays a term.  Attributes are known by what their getter reads,
so that neither the layout nor the names of the fields matter."""
import re

from .. import build
from ..paths import Walker, find
from ..expr import wrap

RANKS = range(0, 5)
# The ONNX element types: number -> bytes and how a value is read.
TYPES = {1: (4, "f"), 2: (1, "u"), 3: (1, "s"), 4: (2, "u"), 5: (2, "s"), 6: (4, "s"), 7: (8, "s"), 8: (8, "p"), 9: (1, "b"),
         10: (2, "h"), 11: (8, "f"), 12: (4, "u"), 13: (8, "u"), 14: (8, "c"), 15: (16, "c"), 16: (2, "bf"), 17: (1, "f8"),
         18: (1, "f8"), 19: (1, "f8"), 20: (1, "f8")}
PRINTED = (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13)
UNKNOWN = (0, 99, -1)
ARITH = {"add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b, "shl": lambda a, b: a << b if 0 <= b < 64 else 0,
         "and": lambda a, b: a & b, "or": lambda a, b: a | b, "xor": lambda a, b: a ^ b}
BITS = {"i1": 1, "i8": 8, "i16": 16, "i32": 32, "i64": 64}


class Tens(Walker):
    """Walks with some arguments and memory pinned to given values."""

    def __init__(self, mod, f, pin=None, mem=None, visits=40, limit=20000):
        super().__init__(mod, f, visits, limit)
        self.pin, self.init = pin or {}, mem or {}

    def run(self):
        self.first = True
        return super().run()

    def block(self, b, prev, st, work):
        if self.first:
            st.mem.update(self.init)
            self.first = False
        return super().block(b, prev, st, work)

    def val(self, st, o):
        if o[0] == "v" and o[1] not in st.env and o[1] in self.pin:
            return self.pin[o[1]]
        return super().val(st, o)

    def fold(self, st, i):
        """Folds what the plain walk leaves as terms; None when it does not apply."""
        op = i["op"]
        if op in ARITH:
            a, b = [self.val(st, x) for x in i["o"]]
            n = BITS.get(i.get("ty"), 64)
            if a[0] == "c" and b[0] == "c":
                return ("c", wrap(ARITH[op](a[1], b[1]), n) if n > 1 else ARITH[op](a[1], b[1]) & 1)
            if op == "mul" and n == 64 or op == "add" and n == 64:
                one = ("c", 1) if op == "mul" else ("c", 0)
                if a == one:
                    return b
                if b == one:
                    return a
            return (op,) + ((n,) if n not in (1, 64) else ()) + (a, b)
        if op in ("sdiv", "udiv", "srem", "urem"):
            a, b = [self.val(st, x) for x in i["o"]]
            if a[0] == "c" and b[0] == "c" and b[1]:
                q = abs(a[1]) // abs(b[1]) * (1 if a[1] * b[1] >= 0 else -1)
                return ("c", q if "div" in op else a[1] - q * b[1])
            if b == ("c", 1) and "div" in op:
                return a
            return (op, a, b)
        if op in ("trunc", "sext", "zext"):
            v = self.val(st, i["o"][0])
            n = BITS.get(i.get("ty"), 64)
            if v[0] == "c":
                return ("c", wrap(v[1], n)) if n > 1 else ("c", v[1] & 1)
            if op == "trunc" and n > 1:
                return ("trunc", n, v)
            return v
        if op == "getelementptr" and i.get("off") is None:
            base = self.val(st, i["o"][0])
            idx = [self.val(st, x) for x in i["o"][1:]]
            if all(x == ("c", 0) for x in idx[:-1]) and idx[-1][0] == "c" and i.get("esz"):
                return self.off(base, idx[-1][1] * i["esz"]) if idx[-1][1] else base
            if i.get("esz") and all(x == ("c", 0) for x in idx[:-1]):
                return ("at", base, ("mul", idx[-1], ("c", i["esz"])))
        return None

    @staticmethod
    def off(v, n):
        if isinstance(n, int) and v[0] == "at" and isinstance(v[2], int):
            return ("at", v[1], v[2] + n) if v[2] + n else v[1]
        if isinstance(n, int) and v[0] == "at":
            return ("at", v, n) if n else v
        return Walker.off(v, n)

    def load(self, st, v, i):
        a = self.addr(v)
        if a not in st.mem and a[0][0] == "glob" and isinstance(a[1], int):
            c = self.m.globals.get(a[0][1], {}).get("init")
            if c and c[0] == "a" and i.get("ty") in ("i32", "i64", "ptr"):
                n = {"i32": 4, "i64": 8, "ptr": 8}[i["ty"]]
                if a[1] % n == 0 and 0 <= a[1] // n < len(c) - 1:
                    x = c[1 + a[1] // n]
                    return ("c", x[1]) if x[0] == "c" else ("glob", x[1]) if x[0] == "g" else ("ld",) + a
        return super().load(st, v, i)

    def model(self, st, i, dem, args, cont):
        if dem in ("malloc", "malloc(unsigned long)"):
            st.seq += 1
            return ("mem", st.seq, args[0])
        if dem == "calloc" or dem.startswith("calloc("):
            st.seq += 1
            n = ("c", args[0][1] * args[1][1]) if args[0][0] == args[1][0] == "c" else ("mul",) + tuple(args)
            return ("mem", st.seq, n)
        if dem.split("(")[0] in ("memcpy", "memmove") and len(args) == 3:
            return self.moved(st, i, args)
        if dem.startswith("free"):
            return ("void",)
        return None

    def moved(self, st, i, a):
        """Words copied from one place to another."""
        d, s = self.addr(a[0]), self.addr(a[1])
        if a[2][0] != "c" or a[2][1] % 8 or not isinstance(d[1], int) or not isinstance(s[1], int) or a[2][1] > 512:
            self.intrinsic(st, i, "llvm.memcpy", a)
            return a[0]
        vals = [st.mem.get((s[0], s[1] + k), ("ld", s[0], s[1] + k)) for k in range(0, a[2][1], 8)]
        for k, v in enumerate(vals):
            st.mem[(d[0], d[1] + 8 * k)] = v
            if not self.local(d):
                self.event(st, i, "write", (d[0], d[1] + 8 * k), v)
        return a[0]

    def intrinsic(self, st, i, c, args):
        if c.startswith(("llvm.memcpy", "llvm.memmove")) and args[2][0] == "c" and args[2][1] % 8 == 0 and args[2][1] <= 512 and \
                isinstance(self.addr(args[0])[1], int) and isinstance(self.addr(args[1])[1], int):
            return self.moved(st, i, args)
        return super().intrinsic(st, i, c, args)

    def icmp(self, pred, a, b):
        x, y = self.addr(a), self.addr(b)
        if (a[0] == "at" or b[0] == "at") and x[0] == y[0] and isinstance(x[1], int) and isinstance(y[1], int):
            return super().icmp(pred, ("c", x[1]), ("c", y[1]))
        if a == b and a[0] in ("vbuf", "ents", "mem", "arg", "ld") and pred in ("eq", "ne"):
            return ("c", int(pred == "eq"))
        return super().icmp(pred, a, b)


def poly(t, k=1, out=None):
    """The polynomial an integer term is: products of atoms -> factor."""
    if t[0] == "c":
        return {(): t[1]} if t[1] else {}
    if t[0] in ("add", "sub") and len(t) == 3:
        r = dict(poly(t[1]))
        for m, c in poly(t[2]).items():
            r[m] = r.get(m, 0) + (c if t[0] == "add" else -c)
        return {m: c for m, c in r.items() if c}
    if t[0] == "mul" and len(t) == 3:
        r = {}
        for m, c in poly(t[1]).items():
            for m2, c2 in poly(t[2]).items():
                x = tuple(sorted(m + m2, key=repr))
                r[x] = r.get(x, 0) + c * c2
        return {m: c for m, c in r.items() if c}
    if t[0] == "shl" and len(t) == 3 and t[2][0] == "c":
        return {m: c << t[2][1] for m, c in poly(t[1]).items()}
    return {(t,): 1}


def product(ts, k=1):
    return {tuple(sorted(ts, key=repr)): k}


def cell(base, off):
    return ("ld", base, off)


A = ("arg", 0)


def show(t):
    """A short reading of a term for a message."""
    if t is None:
        return "nothing"
    r = re.sub(r"\s+", " ", str(t))
    return r if len(r) < 90 else r[:87] + "..."


class Unit:
    """The tensor routines as one compiled unit has them."""

    def __init__(self, ctx, mod, name):
        self.ctx, self.m, self.name = ctx, mod, name
        self.off = {}

    def fn(self, q):
        f = [f for f in self.m.fns.values() if f.q == q and f.blocks]
        if not f:
            self.ctx.notes.append("%s: no routine %s" % (self.name, q))
            return None
        return f[0]

    def bad(self, rule, f, msg):
        self.ctx.violation(rule, "%s:%d" % (f.file, f.line), "%s %s" % (f.q, msg), key="%s|%s|%s" % (rule, f.q, msg))

    # -- attributes --
    GET = {"data": "omTensorGetDataPtr", "allocated": "omTensorGetAllocatedPtr", "shape": "omTensorGetShape",
           "strides": "omTensorGetStrides", "type": "omTensorGetDataType", "rank": "omTensorGetRank",
           "owning": "omTensorGetOwning"}

    def attributes(self, gets, what):
        off = {}
        for a, q in gets.items():
            f = self.fn(q)
            if f is None:
                return None
            got = {p.ret for p in Tens(self.m, f).run() if p.dec.get(("nz", A)) is not False}
            r = got.pop() if len(got) == 1 else None
            if r is None or r[0] != "ld" or r[1] != A or not isinstance(r[2], int):
                self.bad("attributes", f, "does not report one attribute of the %s it is given" % what)
                return None
            same = [b for b, o in off.items() if o == r[2]]
            if same:
                self.bad("attributes", f, "reports the attribute that %s does" % gets[same[0]])
                return None
            off[a] = r[2]
            self.ctx.ok("attributes", self.name + " " + q)
        return off

    def tensor(self, rank, dtype=None):
        """The memory of a tensor of a given rank (and type)."""
        m = {(A, self.off["rank"]): ("c", rank)}
        if dtype is not None:
            m[(A, self.off["type"])] = ("c", dtype)
        return m

    def att(self, a):
        return cell(A, self.off[a])

    # -- creation --
    def create(self, q, args, dtypes, owning, buffer):
        """args: names of the parameters; a routine creates a tensor that has them."""
        f = self.fn(q)
        if f is None:
            return
        pos = {a: k for k, a in enumerate(args)}
        for rank in RANKS:
            for dt in dtypes:
                pin = {pos["rank"]: ("c", rank)}
                if "type" in pos:
                    pin[pos["type"]] = ("c", dt)
                made = 0
                for p in Tens(self.m, f, pin).run():
                    r = p.ret
                    if r is None or r == ("c", 0):
                        continue
                    if p.dec.get(("nz", r)) is False:
                        continue
                    made += 1
                    self.created(f, p, r, pos, rank, dt, owning, buffer)
                width = TYPES.get(dt, (0,))[0]
                if not made and not (buffer and not width):
                    self.bad("create", f, "never creates a tensor of rank %d" % rank)
                if made and buffer and not width:
                    self.bad("create", f, "creates a tensor of a type without a size")
                self.ctx.ok("create", "%s %s" % (self.name, q))

    def created(self, f, p, r, pos, rank, dt, owning, buffer):
        def get(a):
            return p.mem.get((r, self.off[a]))
        size = max(self.off.values()) + 4
        if r[0] != "mem" or r[2][0] == "c" and r[2][1] < size:
            self.bad("create", f, "returns something else than a new tensor")
            return
        arg = lambda a: ("arg", pos[a])
        if get("rank") != ("c", rank):
            self.bad("create", f, "gives the tensor another rank than the one asked for")
        if "type" in pos and get("type") != ("c", dt):
            self.bad("create", f, "gives the tensor another element type than the one asked for")
        own = get("owning")
        if own is None or own[0] == "c" and owning is not arg and own != owning and not (
                owning == ("c", 1) and own[1]) or own[0] != "c" and own != owning:
            self.bad("create", f, "does not set the ownership asked for")
        arrays = [get("shape"), get("strides")]
        if any(a is None or a[0] != "mem" or a == r for a in arrays) or arrays[0] == arrays[1]:
            self.bad("create", f, "does not give the tensor a shape and strides of its own")
            return
        for a, n in zip(arrays, ("shape", "strides")):
            if a[2][0] == "c" and a[2][1] < 8 * rank:
                self.bad("create", f, "makes room for fewer %s than the rank" % n)
        if "shape" in pos:
            ext = [cell(arg("shape"), 8 * k) if k else cell(arg("shape"), 0) for k in range(rank)]
            for k in range(rank):
                s = p.mem.get((arrays[0], 8 * k))
                if s != ext[k]:
                    self.bad("create", f, "does not copy the shape it is given (extent %d of %d is %s)" % (k, rank, show(s) if s else "not set"))
                    return
            for k in range(rank):
                t = p.mem.get((arrays[1], 8 * k))
                if t is None or poly(t) != product(ext[k + 1:]):
                    self.bad("create", f, "does not give the dense row-major strides (stride %d of %d)" % (k, rank))
                    return
        if buffer:
            d = get("data")
            if d is None or d[0] != "mem" or d in arrays or d == r or get("allocated") != d:
                self.bad("create", f, "does not give the tensor a buffer of its own")
            elif poly(d[2]) != product(ext, TYPES[dt][0]):
                self.bad("create", f, "does not make a buffer of as many bytes as the elements take")
        else:
            want = arg("data") if "data" in pos else ("c", 0)
            if get("data") != want or get("allocated") != want:
                self.bad("create", f, "does not refer to the data it is given" if "data" in pos else "does not leave the data unset")

    # -- setters --
    def setter(self, q, rank, dtype, extra, check, allowed, pin=None, must=True):
        """Every path that has a tensor (and the argument) has `check` satisfied and writes only `allowed`."""
        f = self.fn(q)
        if f is None:
            return
        mem = self.tensor(rank, dtype)
        n = 0
        for p in Tens(self.m, f, pin, mem).run():
            if p.dec.get(("nz", A)) is False or extra and p.dec.get(("nz", ("arg", 1))) is False:
                if any(e[0] == "write" for e in p.events):
                    self.bad("set", f, "writes although it was not given both a tensor and what to set")
                continue
            n += 1
            for e in p.events:
                if e[0] == "write" and not allowed(e[3]):
                    self.bad("set", f, "changes another part of the tensor than the attribute it sets")
                    break
            msg = check(p)
            if msg:
                self.bad("set", f, msg)
        if not n and must:
            self.bad("set", f, "never sets anything")
        self.ctx.ok("set", "%s %s" % (self.name, q))

    def setters(self):
        o = self.off
        one = lambda a, v: lambda p: None if p.mem.get((A, o[a])) == v else "does not set the attribute to the value given"
        only = lambda *names: lambda a: a[0] == A and a[1] in [o[n] for n in names]
        self.setter("omTensorSetDataType", 2, None, False, one("type", ("arg", 1)), only("type"))
        self.setter("omTensorSetOwning", 2, None, False, one("owning", ("arg", 1)), only("owning"))

        def data(p):
            own, al, ali = ("arg", 1), ("arg", 2), ("arg", 3)
            given = p.dec.get(("nz", ali))
            want = {True: (ali,), False: (al,), None: (("sel", ("nz", ali), ali, al),)}[given]
            if p.mem.get((A, o["owning"])) != own or p.mem.get((A, o["allocated"])) != al:
                return "does not set the ownership and the buffer it is given"
            if p.mem.get((A, o["data"])) not in want:
                return "does not set the data to the aligned pointer, or the buffer when there is none"
        self.setter("omTensorSetDataPtr", 2, None, False, data, only("data", "allocated", "owning"))
        for q, at in (("omTensorSetShape", "shape"), ("omTensorSetStrides", "strides")):
            for rank in RANKS:
                base = self.att(at)

                def entries(p, rank=rank, base=base):
                    for k in range(rank):
                        if p.mem.get((base, 8 * k)) != cell(("arg", 1), 8 * k):
                            return "does not set entry %d of %d to the one given" % (k, rank)
                self.setter(q, rank, None, True, entries, lambda a, base=base, rank=rank: a[0] == base and a[1] in range(0, 8 * rank, 8))
        for dt in TYPES:
            w = TYPES[dt][0]
            for rank in RANKS:
                base = self.att("strides")

                def bytes_(p, rank=rank, base=base, w=w):
                    for k in range(rank):
                        b = cell(("arg", 1), 8 * k)
                        ok = [("sdiv", b, ("c", w))] + ([b] if w == 1 else []) + (
                            [("ashr", b, ("c", w.bit_length() - 1))])
                        if p.mem.get((base, 8 * k)) not in ok:
                            return "does not set stride %d of %d to the bytes given over the width of an element" % (k, rank)
                self.setter("omTensorSetStridesWithPyArrayStrides", rank, dt, True, bytes_,
                            lambda a, base=base, rank=rank: a[0] == base and a[1] in range(0, 8 * rank, 8))
        for dt in UNKNOWN:
            self.setter("omTensorSetStridesWithPyArrayStrides", 2, dt, True, lambda p: None, lambda a: False, must=False)

    # -- sizes --
    def sizes(self):
        for q, width in (("omTensorGetNumElems", False), ("omTensorGetBufferSize", True)):
            f = self.fn(q)
            if f is None:
                continue
            for rank in RANKS:
                for dt in list(TYPES) + list(UNKNOWN) if width else [1, 14]:
                    ext = [cell(self.att("shape"), 8 * k) for k in range(rank)]
                    w = TYPES.get(dt, (0,))[0] if width else 1
                    n = 0
                    for p in Tens(self.m, f, None, self.tensor(rank, dt)).run():
                        if p.dec.get(("nz", A)) is False:
                            continue
                        n += 1
                        if poly(p.ret) != (product(ext, w) if w else {}):
                            self.bad("sizes", f, "is not the product of the extents" + (" times the width of an element" if width else ""))
                            break
                    if not n:
                        self.bad("sizes", f, "gives no size to a tensor of rank %d" % rank)
                    self.ctx.ok("sizes", "%s %s" % (self.name, q))

    # -- lists --
    def lists(self):
        off = self.attributes({"array": "omTensorListGetOmtArray", "size": "omTensorListGetSize"}, "list")
        f = self.fn("omTensorListCreate")
        if off is None or f is None:
            return
        for n in RANKS:
            made = 0
            for p in Tens(self.m, f, {1: ("c", n)}).run():
                r = p.ret
                if r is None or r == ("c", 0) or p.dec.get(("nz", r)) is False:
                    continue
                made += 1
                if r[0] != "mem":
                    self.bad("lists", f, "returns something else than a new list")
                    continue
                if p.mem.get((r, off["size"])) != ("c", n):
                    self.bad("lists", f, "gives the list another size than the number of tensors")
                arr = p.mem.get((r, off["array"]))
                if n == 0:
                    if arr is None or arr != ("c", 0) and arr[0] != "mem":
                        self.bad("lists", f, "leaves the array of an empty list unset")
                    continue
                if arr is None or arr[0] != "mem" or arr[2][0] == "c" and arr[2][1] < 8 * n:
                    self.bad("lists", f, "does not give the list an array of its own with room for the tensors")
                    continue
                for k in range(n):
                    if p.mem.get((arr, 8 * k)) != cell(A, 8 * k):
                        self.bad("lists", f, "does not keep the tensors in their order")
                        break
            if not made:
                self.bad("lists", f, "never creates a list of %d" % n)
            self.ctx.ok("lists", "%s %s" % (self.name, f.q))
        f = self.fn("omTensorListGetOmtByIndex")
        if f is None:
            return
        for size in RANKS:
            for k in (-2 ** 63, -1, 0, 1, 2, 3, 4, 5, 2 ** 32, 2 ** 63 - 1):
                for p in Tens(self.m, f, {1: ("c", k)}, {(A, off["size"]): ("c", size)}).run():
                    if p.dec.get(("nz", A)) is False:
                        continue
                    want = cell(cell(A, off["array"]), 8 * k) if 0 <= k < size else ("c", 0)
                    if p.ret != want:
                        self.bad("lists", f, "does not give the tensor at an index of the list" if 0 <= k < size
                                 else "gives a tensor for an index outside the list")
                self.ctx.ok("lists", "%s %s" % (self.name, f.q))


class Print(Tens):
    """As above, with the widths of what is read kept and printed text collected."""
    ext = {}

    def text(self, name):
        c = self.m.globals.get(name, {}).get("init")
        return c[1].rstrip("\0") if c and c[0] == "s" else None

    def cstr(self, t):
        if t[0] == "str":
            return t[1]
        if t[0] == "at" and t[1][0] == "str" and isinstance(t[2], int):
            return t[1][1][t[2]:]
        if t[0] == "glob":
            return self.text(t[1])
        return None

    def load(self, st, v, i):
        a = self.addr(v)
        if a not in st.mem and a[0][0] == "str" and isinstance(a[1], int):
            s = a[0][1] + "\0"
            return ("c", ord(s[a[1]])) if 0 <= a[1] < len(s) else ("?",)
        r = super().load(st, v, i)
        if r == ("ld",) + a and not self.known(a):
            return ("ldw", i.get("ty"), a[0], a[1])
        return r

    def known(self, a):
        return a[0] == A or a[0][0] in ("loc", "glob") or a[0][0] == "ld"and a[0][1] == A and isinstance(a[1], int) and a[0] != self.data

    def fold(self, st, i):
        if i["op"] in ("sext", "zext", "trunc"):
            v = self.val(st, i["o"][0])
            if v[0] in ("ldw", "sx", "zx", "tr"):
                return ({"sext": "sx", "zext": "zx", "trunc": "tr"}[i["op"]], BITS.get(i.get("ty"), 64), v)
        return super().fold(st, i)

    def model(self, st, i, dem, args, cont):
        n = dem.split("(")[0]
        if n == "strlen":
            s = self.cstr(args[0])
            return ("c", len(s)) if s is not None else None
        if n in ("fprintf", "fputs", "fputc", "putc", "fwrite", "printf", "puts", "putchar"):
            self.event(st, i, "out", n, tuple(args))
            return ("?",)
        return super().model(st, i, dem, args, cont)


SPEC = re.compile(r"%([-+ #0]*)(\d*)(?:\.\d+)?(hh|h|ll|l|z|j|t|L)?([a-zA-Z%])")


def output(w, p):
    """What a path prints: a list of (stream, text or (conversion, length, term))."""
    out = []
    for e in p.events:
        if e[0] != "out":
            continue
        n, a = e[3], e[4]
        if n == "fprintf":
            f, fmt, rest = a[0], w.cstr(a[1]), list(a[2:])
        elif n == "fputs":
            out.append((a[1], w.cstr(a[0]) if w.cstr(a[0]) is not None else ("s", "", a[0])))
            continue
        elif n in ("fputc", "putc"):
            out.append((a[1], chr(a[0][1] & 255) if a[0][0] == "c" else ("c", "", a[0])))
            continue
        elif n == "fwrite":
            s = w.cstr(a[0])
            out.append((a[3], s[:a[1][1] * a[2][1]] if s is not None and a[1][0] == a[2][0] == "c" else ("s", "", a[0])))
            continue
        else:
            out.append((("stdout",), ("?", "", ("?",))))
            continue
        if fmt is None:
            out.append((f, ("?", "", ("?",))))
            continue
        k = 0
        for g in SPEC.finditer(fmt):
            if g.start() > k:
                out.append((f, fmt[k:g.start()]))
            k = g.end()
            c = g.group(4)
            if c == "%":
                out.append((f, "%"))
                continue
            v = rest.pop(0) if rest else ("?",)
            if v[0] == "c" and c in "di":
                out.append((f, str(v[1])))
            elif v[0] == "c" and c == "c":
                out.append((f, chr(v[1] & 255)))
            elif c == "s" and w.cstr(v) is not None:
                out.append((f, w.cstr(v)))
            else:
                out.append((f, (c, g.group(3) or "", v)))
        if k < len(fmt):
            out.append((f, fmt[k:]))
    return out


def reading(dt, tok):
    """None if the printed token reads an element of type dt as what it is, and the element's address."""
    c, ln, v = tok
    w, cl = TYPES[dt]
    steps = []
    while True:
        if v[0] in ("sx", "zx", "tr"):
            steps.append((v[0], v[1]))
            v = v[2]
        elif v[0] == "sel" and v[2:] == (("c", 1), ("c", 0)) and dt == 9:
            v = v[1]
            while v[0] == "nz":
                v = v[1]
        elif v[0] in ("fpext",):
            steps.append((v[0], 64))
            v = v[1]
        elif v[0] == "call" and "om_f16_to_f32" in v[1]:
            steps.append(("f16", 32))
            v = v[2][0]
        else:
            break
    if v[0] != "ldw":
        return "something else than an element is printed", None
    ty, addr = v[1], (v[2], v[3])
    bits = {"float": 32, "double": 64, "ptr": 64}.get(ty) or BITS.get(ty, 0)
    if bits != 8 * w:
        return "%d bits are read for an element of %d" % (bits, 8 * w), addr
    kinds = [s[0] for s in steps]
    if cl == "f":
        good = c in "fFgGeEaA" and ty == ("float" if w == 4 else "double") and kinds == (["fpext"] if w == 4 else [])
    elif cl == "h":
        good = c in "fFgGeEaA" and [x for x in kinds if x != "zx"] == ["fpext", "f16"]
    elif cl == "p":
        good = c == "s" and ty == "ptr" and not steps
    elif cl == "b":
        good = c in "diu" and "sx" not in kinds
    else:
        if c not in ("di" if cl == "s" else "u") and not (cl == "u" and c in "di" and w < 4):
            good = False
        elif w == 8:
            good = ln in ("ll", "l", "j", "z", "t") and not steps
        elif w == 4:
            good = ln == "" and not [s for s in steps if s[1] < 32] or ln in ("ll", "l") and kinds == ["sx" if cl == "s" else "zx"]
        else:
            narrow = {1: "hh", 2: "h"}[w]
            good = ln == narrow or kinds and all(k == ("sx" if cl == "s" else "zx") for k in kinds)
            good = good and "tr" not in [s[0] for s in steps if s[1] < 8 * w]
    return None if good else "an element is printed as another type than its own", addr


def nested(ext, tok):
    """The text of nested brackets over row-major elements."""
    def rec(k, idx):
        if k == len(ext):
            return [tuple(idx)]
        out = ["["]
        for j in range(ext[k]):
            if j:
                out.append(",")
            out += rec(k + 1, idx + [j])
        return out + ["]"]
    return rec(0, [])


def squeeze(toks):
    """Texts joined without blanks, one character per item, elements kept."""
    out = []
    for t in toks:
        if isinstance(t, str):
            out += [c for c in t if c not in " \t\n"]
        else:
            out.append(t)
    return out


def printing(u):
    f = u.fn("omTensorPrint")
    if f is None:
        return
    ctx = u.ctx
    names = [u.m.globals.get(x[1], {}).get("init", ["", ""])[1].rstrip("\0")
             for x in u.m.globals.get("OM_DATA_TYPE_NAME", {}).get("init", ["a"])[1:] if x[0] == "g"]
    Print.data = u.att("data")

    def run(msg, ext, dt):
        mem = u.tensor(len(ext), dt)
        for k, e in enumerate(ext):
            mem[(u.att("shape"), 8 * k)] = ("c", e)
        w = Print(u.m, f, {0: ("str", msg), 1: ("arg", 0)}, mem, visits=60)
        ps = w.run()
        return [(output(w, p), p) for p in ps]

    def at(b, o, x, dt):
        """Is this the address of the element with indexes x?"""
        o = o if isinstance(o, tuple) else ("c", o)
        while b[0] == "at":
            o, b = ("add", b[2] if isinstance(b[2], tuple) else ("c", b[2]), o), b[1]
        exp = {(cell(u.att("strides"), 8 * k),): j * TYPES[dt][0] for k, j in enumerate(x) if j}
        return b == u.att("data") and poly(o) == exp

    def truth(p, g, x):
        """A truth value printed as its digit on a path that knows it."""
        for c, v in p.dec.items():
            t = c[1] if c[0] == "nz" else ()
            while t and t[0] in ("sx", "zx", "tr"):
                t = t[2]
            if t and t[0] == "ldw" and v == (g == "1"):
                yield "u", "", t

    def elements(toks, ext, dt, p):
        """Match the nested text; None or what is wrong."""
        want = nested(ext, None)
        got = squeeze(toks)
        if len(got) != len(want):
            return "does not print the elements of a tensor of rank %d once each, nested by its dimensions" % len(ext)
        for g, x in zip(got, want):
            if dt == 9 and not isinstance(x, str) and g in ("0", "1"):
                w = [t for t in truth(p, g, x) if at(t[2][2], t[2][3], x, dt)]
                if not w:
                    return "does not print a truth value as the element has it"
                continue
            if isinstance(x, str) or isinstance(g, str):
                if g != x:
                    return "does not print the elements of a tensor of rank %d in order, nested by its dimensions" % len(ext)
                continue
            m, addr = reading(dt, g)
            if m:
                return m
            if not at(addr[0], addr[1], x, dt):
                return "does not take an element at its position by the strides"
        return None

    shapes = [(), (3,), (2, 2), (2, 1, 2), (1, 2, 1, 2), (1, 2, 1, 1, 2), (2, 1, 1, 1, 1, 2)]
    cases = [(s, 1) for s in shapes] + [((2,), t) for t in PRINTED] + [((0,), 1), ((2, 0), 7)]
    for ext, dt in cases:
        rs = run("%d", ext, dt)
        if not rs:
            u.bad("print", f, "prints no tensor of rank %d" % len(ext))
        for out, p in rs:
            toks = [t for _, t in out]
            s = squeeze(toks)
            a = s.index("(") if "(" in s else -1
            e = len(s) - 1 - s[::-1].index(")") if ")" in s else -1
            if a < 0 or e < a:
                u.bad("print", f, "does not print the data when asked to")
                continue
            m = elements(s[a + 1:e], ext, dt, p)
            if m:
                u.bad("print", f, m)
            ctx.ok("print", "%s data rank %d type %d" % (u.name, len(ext), dt))

    def strings(out):
        return "".join(t if isinstance(t, str) else "\1" for _, t in out)

    for ext in ((), (1,), (2, 3), (4, 1, 5)):
        for dt in (1, 7, 16):
            ty = "x".join([str(e) for e in ext] + [names[dt] if dt < len(names) else "?"])
            for out, p in run("%t", ext, dt):
                if strings(out) != ty:
                    u.bad("print", f, "does not print the type of a tensor as its extents and element type")
                ctx.ok("print", "%s type" % u.name)
            for out, p in run("%s", ext, dt):
                t = strings(out)
                n = 1
                for e in ext:
                    n *= e
                st = [x for _, x in out if not isinstance(x, str)]
                if [x[2] for x in st] != [cell(u.att("strides"), 8 * k) for k in range(len(ext))]:
                    u.bad("print", f, "does not print the strides of a tensor in its signature")
                t = re.sub(r"\s", "", t)
                want = ["rank=%d" % len(ext), "numElems=%d" % n, "shape:" + "".join("[%d]" % e for e in ext) + "strides:", "type:" + ty]
                if dt < len(names):
                    want.append("dataType=" + names[dt])
                if not all(x in t for x in want):
                    u.bad("print", f, "does not print rank, type, number of elements and shape in a signature")
                ctx.ok("print", "%s signature" % u.name)
    # messages
    T = "2x3x" + names[1] if len(names) > 1 else ""
    for msg, want in (("%t", T), ("a%tb", "a" + T + "b"), ("%t%t", T + T), ("x%t%ey%t", "x" + T), ("%e%t", "")):
        for out, p in run(msg, (2, 3), 1):
            if strings(out) != want:
                u.bad("print", f, "does not print a message with its text and formats in order, up to the end mark")
            ctx.ok("print", "%s messages" % u.name)
    for msg in ("", "ab"):
        for out, p in run(msg, (2,), 1):
            t = re.sub(r"\s", "", strings(out))
            if not t.startswith(msg) or "rank=1" not in t or "([" not in t:
                u.bad("print", f, "does not print signature and data for a message without formats")
            ctx.ok("print", "%s messages" % u.name)
    # streams
    for msg, inst in (("a%t", False), ("%ia%t", True)):
        for out, p in run(msg, (2, 3), 1):
            if inst and u.name == "C":
                ok = all(s[0] == "call" and "getInstrumentFile" in s[1] for s, _ in out)
            else:
                ok = all(s[0] == "ld" and s[1] == ("glob", "stdout") for s, _ in out)
            if not ok or strings(out) != "a" + T:
                u.bad("print", f, "does not print an instrumentation message to the instrumentation file" if inst else
                      "does not print to the standard output")
            ctx.ok("print", "%s streams" % u.name)


VEC = r"std::vector<long, std::allocator<long>>::"


class Vecs(Tens):
    """With vectors of integers (as their begin and end pointers) and the numeric algorithms over them."""

    def ptr(self, st, v, k=0):
        a = self.addr(v)
        a = (a[0], a[1] + k)
        return st.mem.get(a, ("ld",) + a)

    def entry(self, st, p, k):
        a = self.addr(self.off(p, 8 * k) if k else p)
        return st.mem.get(a, ("ld",) + a)

    def setentry(self, st, p, k, v):
        st.mem[self.addr(self.off(p, 8 * k) if k else p)] = v

    def span(self, b, e):
        b, e = self.addr(b), self.addr(e)
        if b[0] == e[0] and isinstance(b[1], int) and isinstance(e[1], int) and (e[1] - b[1]) % 8 == 0:
            return (e[1] - b[1]) // 8
        return None

    def make(self, st, v, vals):
        st.seq += 1
        b = ("vbuf", st.seq)
        a = self.addr(v)
        st.mem[a], st.mem[(a[0], a[1] + 8)] = b, self.off(b, 8 * len(vals))
        for k, x in enumerate(vals):
            self.setentry(st, b, k, x)

    def vals(self, st, v):
        b, e = self.ptr(st, v), self.ptr(st, v, 8)
        n = self.span(b, e)
        return None if n is None or n < 0 else [self.entry(st, b, k) for k in range(n)]

    def one(self, st, v):
        return st.mem.get(self.addr(v), ("ld",) + self.addr(v))

    def fail(self, st, i):
        self.event(st, i, "throws")
        st.dec[("throws",)] = True
        return ("?",)

    def model(self, st, i, dem, args, cont):
        a = args
        if dem.startswith(VEC):
            n = dem[len(VEC):]
            if n.startswith("vector<") and "*" in n:
                c = self.span(a[1], a[2])
                if c is None:
                    return None
                if c < 0:
                    return self.fail(st, i)
                self.make(st, a[0], [self.entry(st, a[1], k) for k in range(c)])
                return ("void",)
            if n.startswith("vector(unsigned long"):
                if a[1][0] != "c":
                    return None
                if not 0 <= a[1][1] < 1 << 59:
                    return self.fail(st, i)
                v = self.one(st, a[2]) if "long const&" in n else ("c", 0)
                self.make(st, a[0], [v] * min(a[1][1], 64))
                return ("void",)
            if n.startswith("vector()"):
                self.make(st, a[0], [])
                return ("void",)
            if n.startswith(("vector(std::vector", "vector(std::initializer_list")) and "initializer" not in n:
                v = self.vals(st, a[1])
                if v is None:
                    return None
                self.make(st, a[0], v)
                return ("void",)
            if n.startswith(("push_back(", "emplace_back<")):
                v = self.vals(st, a[0])
                if v is None:
                    return None
                self.make(st, a[0], v + [self.one(st, a[1])])
                return ("void",)
            if n.startswith(("begin()", "cbegin()", "data()")):
                return self.ptr(st, a[0])
            if n.startswith(("end()", "cend()")):
                return self.ptr(st, a[0], 8)
            if n.startswith(("rbegin()", "rend()")):
                st.mem[self.addr(a[0])] = self.ptr(st, a[1], 8 if n.startswith("rbegin") else 0)
                return ("void",)
            if n.startswith(("size()", "empty()")):
                v = self.vals(st, a[0])
                if v is None:
                    return None
                return ("c", len(v)) if n.startswith("size") else ("c", int(not v))
            if n.startswith(("operator[]", "at(")):
                return self.off(self.ptr(st, a[0]), 8 * a[1][1]) if a[1][0] == "c" and a[1][1] else \
                    self.ptr(st, a[0]) if a[1] == ("c", 0) else None
            if n.startswith("~"):
                return ("void",)
            return None
        if "__normal_iterator<" in dem:
            if re.match(r"(bool )?__gnu_cxx::operator[!=]=<", dem) and len(a) == 2:
                r = self.icmp("eq", self.one(st, a[0]), self.one(st, a[1]))
                return r if "operator==" in dem.split("<")[0] else ("c", 1 - r[1]) if r[0] == "c" else ("not", r)
            if dem.startswith("__gnu_cxx::__normal_iterator<"):
                if "::operator*()" in dem:
                    return self.one(st, a[0])
                if "::operator++()" in dem or "::operator--()" in dem:
                    st.mem[self.addr(a[0])] = self.off(self.one(st, a[0]), 8 if "++" in dem else -8)
                    return a[0]
        if re.search(r"\bstd::(copy|partial_sum|inner_product|accumulate)<", dem):
            return self.algorithm(st, i, dem, a)
        if "reverse_iterator<" in dem and "::reverse_iterator(" in dem and len(a) == 2:
            st.mem[self.addr(a[0])] = self.one(st, a[1])
            return ("void",)
        if dem.startswith("std::type_info::name"):
            return ("tname", a[0])
        if re.match(r"std::__cxx11::basic_string<char, .*::basic_string<", dem) and len(a) >= 2:
            st.mem[self.addr(a[0])] = ("strof", a[1])
            return ("void",)
        if re.match(r"std::map<.*OM_DATA_TYPE.*>::at\(", dem):
            return ("typeof", self.one(st, a[1]))
        return super().model(st, i, dem, args, cont)

    def algorithm(self, st, i, dem, a):
        rev = "reverse_iterator" in dem.split("(")[0]
        r = re.search(r"std::(copy|partial_sum|inner_product|accumulate)<", dem).group(1)
        name = dem.split(">(")[0]
        if rev and r not in ("partial_sum", "copy"):
            return None
        if rev:
            sret = len(a) > 3  # the result is an iterator object; the functors are empty and not passed
            its = [self.one(st, x) for x in (a[1:] if sret else a)[:3]]
        else:
            its = list(a[:3])
        n = self.span(its[1], its[0]) if rev else self.span(its[0], its[1])
        if n is None:
            return None
        if n < 0:
            return self.fail(st, i)
        at = lambda p, k: self.entry(st, p, -1 - k if rev else k)
        if r == "copy":
            vals = [at(its[0], k) for k in range(n)]
            for k, v in enumerate(vals):
                self.setentry(st, its[2], -1 - k if rev else k, v)
            return self.off(its[2], 8 * n) if n else its[2]
        if r == "partial_sum":
            op = "mul" if "std::multiplies" in name else "add"
            acc = None
            for k in range(n):
                acc = at(its[0], k) if acc is None else (op, acc, at(its[0], k))
                self.setentry(st, its[2], -1 - k if rev else k, acc)
            return ("void",)
        ty = name.rsplit(", ", 1)[-1] if "std::multiplies" not in name and "std::plus" not in name else name.rsplit(", ", 2)[-2]
        acc = a[3] if r == "inner_product" else a[2]
        for k in range(n):
            acc = ("add", acc, ("mul", self.entry(st, its[0], k), self.entry(st, its[2], k))) if r == "inner_product" else \
                ("mul" if "multiplies" in name else "add", acc, self.entry(st, its[0], k))
        return acc if ty.strip() in ("long", "unsigned long", "long long", "unsigned long long") else ("trunc", 32, acc)


def shaped(u):
    """The C++ routines over vectors."""
    ctx = u.ctx
    S = ("vec", "shape")

    def run(f, pin, mem, n, base=S):
        m = dict(mem)
        m[(base, 0)] = ("ents",)
        m[(base, 8)] = ("at", ("ents",), 8 * n) if n else ("ents",)
        return Vecs(u.m, f, pin, m).run()

    widths = {"bool": (1, "b"), "signed char": (1, "a"), "unsigned char": (1, "h"), "short": (2, "s"), "unsigned short": (2, "t"),
              "int": (4, "i"), "unsigned int": (4, "j"), "long": (8, "l"), "unsigned long": (8, "m"), "float": (4, "f"), "double": (8, "d")}
    fs = [f for f in u.m.fns.values() if f.blocks and re.match(r"OMTensor\* omTensorCreateWithShape<", f.dem)]
    for f in fs:
        t = re.search(r"omTensorCreateWithShape<([\w ]+)>", f.dem).group(1)
        if t not in widths:
            continue
        for rank in RANKS:
            ext = [cell(("ents",), 8 * k) for k in range(rank)]
            made = 0
            for p in run(f, {0: S}, {}, rank):
                r = p.ret
                if p.dec.get(("throws",)):
                    u.bad("create", f, "fails for a tensor of rank %d" % rank)
                    break
                if r is None or r == ("c", 0) or p.dec.get(("nz", r)) is False:
                    continue
                made += 1
                get = lambda a: p.mem.get((r, u.off[a]))
                arr = [get("shape"), get("strides")]
                if any(a is None or a[0] != "mem" for a in arr) or arr[0] == arr[1]:
                    u.bad("create", f, "does not give the tensor a shape and strides of its own")
                    continue
                if get("rank") != ("c", rank):
                    u.bad("create", f, "gives the tensor another rank than that of its shape")
                if get("owning") is None or get("owning")[0] != "c" or not get("owning")[1]:
                    u.bad("create", f, "makes a tensor that does not own its buffer")
                d = get("data")
                if d is None or d[0] != "mem" or d in arr or get("allocated") != d:
                    u.bad("create", f, "does not give the tensor a buffer of its own")
                elif poly(d[2]) != product(ext, widths[t][0]) and poly(d[2]) != product(
                        [p.mem.get((arr[0], 8 * k), ("?",)) for k in range(rank)], widths[t][0]):
                    u.bad("create", f, "does not make a buffer of as many bytes as the elements take")
                for k in range(rank):
                    if p.mem.get((arr[0], 8 * k)) != ext[k]:
                        u.bad("create", f, "does not copy the shape it is given")
                        break
                for k in range(rank):
                    v = p.mem.get((arr[1], 8 * k))
                    if v is None or poly(v) != product(ext[k + 1:]):
                        u.bad("create", f, "does not give the dense row-major strides (stride %d of %d)" % (k, rank))
                        break
                ty = get("type")
                if ty != cell(("typeof", ("strof", ("tname", ("glob", "_ZTI" + widths[t][1])))), 0) and ty != ("c", 0):
                    u.bad("create", f, "does not take the element type from that of the template")
            if not made:
                u.bad("create", f, "never creates a tensor of rank %d" % rank)
            ctx.ok("create", "%s %s<%s>" % (u.name, f.q, t))
    I = ("vec", "indexes")

    def offset(rank):
        return {x: 1 for k in range(rank) for x in [tuple(sorted((cell(u.att("strides"), 8 * k), cell(("ents",), 8 * k)), key=repr))]}
    for f in u.m.fns.values():
        g = re.match(r"(?:[\w ]+& )?omTensorGetElem<([\w ]+)>\(|omTensorComputeElemOffset\(", f.dem) if f.blocks else None
        if not g or g.group(1) and g.group(1) not in widths:
            continue
        for rank in RANKS:
            n = 0
            for p in run(f, {1: I}, u.tensor(rank), rank, I):
                if p.dec.get(("nz", A)) is False:
                    continue
                n += 1
                r = p.ret
                want = offset(rank)
                if g.group(1):
                    w = widths[g.group(1)][0]
                    base, o = r, ("c", 0)
                    while base[0] == "at":
                        o, base = ("add", base[2] if isinstance(base[2], tuple) else ("c", base[2]), o), base[1]
                    ok = base == u.att("data") and poly(o) == {m: c * w for m, c in want.items()}
                else:
                    ok = r is not None and poly(r) == want
                if p.dec.get(("throws",)) or not ok:
                    u.bad("position", f, "does not take the element at the sum of the indexes times the strides")
                    break
            if not n:
                u.bad("position", f, "gives no position in a tensor of rank %d" % rank)
            ctx.ok("position", "%s %s" % (u.name, f.q))
    for f in u.m.fns.values():
        if not f.blocks or not f.dem.startswith("omTensorComputeStridesFromShape("):
            continue
        u2 = Unit(ctx, u.m, u.name)
        u2.off = u.off
        B = ("arg", 1)
        for rank in RANKS:
            m = {(B, u.off["rank"]): ("c", rank)}
            shp = cell(B, u.off["shape"])
            for p in Vecs(u.m, f, {}, m).run():
                if p.dec.get(("nz", B)) is False:
                    continue
                b, e = p.mem.get((A, 0)), p.mem.get((A, 8))
                if p.dec.get(("throws",)):
                    u.bad("position", f, "fails for a tensor of rank %d" % rank)
                    break
                if b is None or e is None or Vecs(u.m, f).span(b, e) != rank:
                    u.bad("position", f, "does not give one stride per dimension")
                    break
                for k in range(rank):
                    a = Walker.addr(Tens.off(b, 8 * k) if k else b)
                    v = p.mem.get(a)
                    if v is None or poly(v) != product([cell(shp, 8 * j) for j in range(k + 1, rank)]):
                        u.bad("position", f, "does not give the dense row-major strides")
                        break
            ctx.ok("position", "%s %s" % (u.name, f.q))


def tensors(ctx, tier):
    ctx.rule("attributes", "each getter reads one attribute of its own")
    ctx.rule("create", "a created tensor has the data, shape, dense strides, rank, type and ownership asked for")
    ctx.rule("set", "a setter writes its attribute, entry by entry, and nothing else")
    ctx.rule("sizes", "sizes are the product of the extents, times the width for bytes")
    ctx.rule("lists", "a list keeps its tensors in order and gives them by index within its bounds")
    ctx.rule("position", "an element is taken at the sum of its indexes times the strides")
    ctx.rule("print", "printing shows each element once, in order, at its position, as its type; text and formats in order")
    for name, group, only in (("C", "crt", ["OMTensor.c", "OMTensorList.c", "OnnxDataType.c"]),
                              ("C++", "rtxx", ["OMTensor.cpp", "OMTensorList.cpp", "OnnxDataType.cpp"])):
        m = build.load(group, only=only, asserts=True)
        ctx.units.update(m.units)
        u = Unit(ctx, m, name)
        u.off = u.attributes(Unit.GET, "tensor")
        u.lists()
        if not u.off:
            continue
        both = [1, 7, 2, 10]
        u.create("omTensorCreate", ["data", "shape", "rank", "type"], both, ("c", 0), False)
        u.create("omTensorCreateWithOwnership", ["data", "shape", "rank", "type", "owning"], both, ("arg", 4), False)
        u.create("omTensorCreateUntyped", ["rank"], [0], ("c", 0), False)
        u.create("omTensorCreateEmpty", ["shape", "rank", "type"], list(TYPES) + list(UNKNOWN), ("c", 1), True)
        u.setters()
        u.sizes()
        printing(u)
        if name == "C++":
            shaped(u)
    for k, n in (("attributes", 9), ("create", 20), ("set", 20), ("sizes", 20), ("lists", 10), ("print", 20), ("position", 20)):
        ctx.need(k, n) if not ctx.viol else None
    return "Every routine that creates, reads, sets, sizes, lists or prints tensors is followed on every path, once per rank " \
           "and element type, with all other values as terms; what the tensor then holds is compared with what was asked for."

"""E06: a constant reads the same through every view."""
import os
import re

from .. import build
from ..engine import AnalysisBroken
from ..paths import Walker, has, find
from . import builder
from .pool import qualified, method

SRC = "src/Dialect/ONNX/ElementsAttr/DisposableElementsAttr.cpp"
HPP = "src/Dialect/ONNX/ElementsAttr/DisposableElementsAttr.hpp"
BSRC = "src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp"
ATTR = "mlir::DisposableElementsAttr"
WIDTH = {1: 4, 2: 1, 3: 1, 4: 2, 5: 2, 6: 4, 7: 8, 9: 1, 10: 2, 11: 8, 12: 4, 13: 8, 16: 2, 17: 1, 18: 1, 19: 1, 20: 1}
FIELDS = ("type", "strides", "bufferBType", "btype", "isContiguous", "id", "buffer", "transformer")
REF = re.compile(r"llvm::(Mutable)?ArrayRef<.*>::")


def fold(t):
    if t[0] == "udiv" and t[2] == ("c", 1) or t[0] == "mul" and t[2] == ("c", 1):
        return t[1]
    if t[0] == "mul" and t[1] == ("c", 1):
        return t[2]
    if t[0] == "mul" and t[1][0] == "udiv" and t[1][2] == t[2]:
        return t[1][1]
    if t[0] == "udiv" and t[1][0] == "mul" and t[2] in t[1][1:]:
        return t[1][2] if t[1][1] == t[2] else t[1][1]
    if t[0] in ("add", "sub") and t[2] == ("c", 0):
        return t[1]
    return t


class Rep:
    """What a region of memory holds: its order, its encoding, and how often the
    recorded transformation has been applied."""
    __slots__ = ("order", "enc", "done", "size")

    def __init__(self, order, enc, done, size=None):
        self.order, self.enc, self.done, self.size = order, enc, done, size

    def __repr__(self):
        return "(%s, %s, %s)" % (self.order, self.enc, self.done)


class View(Walker):
    """`args`: what the memory the arguments point to holds on entry."""

    def __init__(self, m, f, fields, args=None, kept=None, **k):
        super().__init__(m, f, **k)
        self.kept = kept or {}
        self.fields, self.args = fields, args or {}
        self.off2 = dict(fields)
        self.bad = []
        self.undef = []

    # -- state: the contents of regions are kept in st.mem under ("rep", base) --
    def rep(self, st, base):
        r = st.mem.get((("rep",), base))
        if r is not None:
            return r
        if base[0] == "bufptr":
            return Rep("buf", "B", 0, ("bufsize", base[1]))
        if base[0] == "slice":
            r = self.rep(st, base[1])
            return r and Rep(("at", r.order, base[2], base[3]), r.enc, r.done, base[3])
        if base in self.args:
            return self.args[base]
        return None

    def setrep(self, st, base, r):
        st.mem[(("rep",), base)] = r

    def boolish(self, a):
        return a[0] in ("T", "splat", "isint1", "same") or a[0] == "ld"

    def norm(self, c):
        c, neg = super().norm(c)
        if c[0] == "eq" or c[0] == "nz" and c[1][0] == "eq":
            e = c if c[0] == "eq" else c[1]
            if e[1] == e[2]:
                return ("c", 1), neg
            return ("eq",) + tuple(sorted(e[1:], key=repr)), neg
        return c, neg

    def val(self, st, o):
        return fold(super().val(st, o))

    def fld(self, t):
        """The field of the constant's storage a term reads."""
        if t[0] == "ld" and t[1][0] == "impl":
            return self.off2.get(t[2])
        return None

    def obj(self, st, p):
        a = self.addr(p)
        return st.mem.get(a, ("ld",) + a)

    def put(self, st, p, *vs):
        a = self.addr(p)
        for k, v in enumerate(vs):
            st.mem[(a[0], a[1] + 8 * k)] = v

    def pair(self, st, p):
        a = self.addr(p)
        return tuple(st.mem.get((a[0], a[1] + k), ("ld", a[0], a[1] + k)) for k in (0, 8))

    # facts
    def facts(self, st):
        f = {}
        for c, v in st.dec.items():
            e = c[1] if c[0] == "nz" else c
            if e[0] == "T":
                f["T"] = v
            elif e[0] == "ld" and self.fld(e) == "isContiguous":
                f["C"] = v
            elif e[0] == "splat":
                f["S"] = v
            elif c[0] == "eq":
                a, b = c[1], c[2]
                for x, y in ((a, b), (b, a)):
                    if self.fld(x) == "bufferBType" and self.fld(y) == "btype":
                        f["K"] = v
                    if y == ("c", 8) and x[0] == "bw":
                        g = self.fld(x[1])
                        if g in ("bufferBType", "btype"):
                            f["W" if g == "bufferBType" else "E8"] = v
                    if self.fld(x) in ("bufferBType", "btype") and y[0] == "c" and v:
                        f["code " + self.fld(x)] = y[1]
        for e in st.ev:
            if e[0] == "if" and e[3][0] == "eq" and e[4] and e[3][2][0] == "c" and self.fld(e[3][1]) in ("bufferBType", "btype"):
                f["code " + self.fld(e[3][1])] = e[3][2][1]
        for n, k in (("bufferBType", "W"), ("btype", "E8")):
            c = f.get("code " + n)
            if c in WIDTH:
                f.setdefault(k, WIDTH[c] == 8)
        a, b = f.get("code bufferBType"), f.get("code btype")
        if a is not None and b is not None:
            f.setdefault("K", a == b)
        if f.get("K"):
            for x, y in (("W", "E8"), ("E8", "W")):
                if x in f:
                    f.setdefault(y, f[x])
        return f

    def same_enc(self, f, a, b):
        """True, False or None (cannot tell): is what is encoded as a also encoded as b?"""
        if a == b:
            return True
        s = {a, b}
        if s == {"B", "E"}:
            # an untransformed buffer has the element type's wide type
            return bool(f.get("K")) or f.get("T") is False and bool(f.get("W")) and bool(f.get("E8"))
        if s == {"B", "W"}:
            return bool(f.get("W"))
        if s == {"E", "W"}:
            return bool(f.get("E8"))
        return None

    def infeasible(self, st, f):
        a, b = f.get("code bufferBType"), f.get("code btype")
        if a in WIDTH and f.get("W") is not None and (WIDTH[a] == 8) != f["W"]:
            return True
        if b in WIDTH and f.get("E8") is not None and (WIDTH[b] == 8) != f["E8"]:
            return True
        if a is not None and b is not None and f.get("K") is not None and (a == b) != f["K"]:
            return True
        if f.get("K") and (f.get("W"), f.get("E8")) in ((True, False), (False, True)):
            return True
        if f.get("C") and f.get("S") and False:
            return True
        return False

    def is_order(self, f, a, b):
        return a == b or f.get("C") is True

    def is_done(self, f, r):
        return r.done in (1, "ok") or r.done == 0 and f.get("T") is False

    def fail(self, st, i, rule, text):
        if not self.infeasible(st, self.facts(st)):
            self.bad.append((rule, i.get("l", 0), text))

    def unknown(self, text):
        if text not in self.undef:
            self.undef.append(text)

    # -- calls --
    def model(self, st, i, dem, args, cont):
        a = args
        q, n = qualified(dem), method(dem)
        if q in ("std::move", "std::forward", "std::addressof") and len(a) == 1:
            return a[0]
        if re.search(r"StorageUserBase<mlir::DisposableElementsAttr, .*::getImpl\(\)", dem):
            o = self.obj(st, a[0])
            return ("impl", o if self.local(self.addr(a[0])) else a[0])
        if n.startswith("~"):
            return ("void",)
        if q in self.kept:
            order, enc, off = self.kept[q]
            st.seq += 1
            if off is None:
                return ("flat", a[-1])
            if isinstance(off, str):
                self.setrep(st, a[1], Rep(order, enc, "ok"))
                return ("void",)
            b = self.addr(a[0])
            st.mem[(b[0], b[1] + off)] = ("kept", q, st.seq)
            st.mem[(b[0], b[1] + off + 8)] = ("keptsize", q, st.seq)
            self.setrep(st, ("kept", q, st.seq), Rep(order, enc, "ok"))
            return ("void",)
        # ranges
        g = re.search(r"llvm::(Mutable)?ArrayRef<((?:[^<>()]|<[^<>]*>)*)>::(\w+)(?:<\w+>)?\(", dem)
        if dem.startswith("llvm::StringRef::StringRef(") and len(a) == 3:
            self.put(st, a[0], a[1], a[2])
            return ("void",)
        if g and q.endswith(g.group(3)) or q.startswith("llvm::StringRef::") and n in ("data", "size", "begin", "end", "bytes_begin"):
            if n in ("ArrayRef", "MutableArrayRef", "OwningArrayRef"):
                if len(a) == 3:
                    if re.search(r"\([^()]*\*, unsigned long\)$", dem):
                        self.put(st, a[0], a[1], a[2])
                    else:
                        self.put(st, a[0], a[1], ("sub", a[2], a[1]))
                    return ("void",)
                if len(a) == 2 and "llvm::SmallVector" in dem.split("ArrayRef(")[-1].split("ArrayRef<void>(")[-1]:
                    self.put(st, a[0], self.vdata(st, a[1]), self.vsize(st, a[1]))
                    return ("void",)
                if len(a) == 2 and re.search(r"\((\w|[:<>, ])*(&)\)$", dem):
                    # one element
                    self.put(st, a[0], a[1], ("c", 1))
                    return ("void",)
                return None
            if q.startswith("llvm::StringRef") or REF.match(q):
                p = self.pair(st, a[0])
                if n in ("data", "begin", "bytes_begin"):
                    return p[0]
                if n == "size":
                    return p[1]
                if n == "end":
                    return ("end", p[0], p[1])
                if n == "empty":
                    return ("not", ("nz", p[1]))
                if n in ("slice",) and len(a) == 3:
                    return ("ins", ("ins", ("?",), 0, ("slice", p[0], a[1], a[2])), 1, a[2])
                if n in ("operator[]",):
                    return ("elem", p[0], a[1])
        # small vectors
        if re.match(r"llvm::SmallVector(Impl|Base|TemplateCommon|TemplateBase)?<", q):
            if n == "SmallVector":
                if len(a) == 1:
                    self.put(st, a[0], ("vec0", self.addr(a[0]), st.seq))
                    st.seq += 1
                    return ("void",)
                if len(a) == 2 and re.search(r"SmallVector.*(&&|const&)\)$", dem):
                    self.put(st, a[0], self.obj(st, a[1]))
                    return ("void",)
                if len(a) == 2 and "ArrayRef" in dem or len(a) >= 2:
                    st.seq += 1
                    self.put(st, a[0], ("vecof", tuple(self.pair(st, a[1]) if False else a[1:]), st.seq))
                    return ("void",)
            if n in ("resize_for_overwrite", "resize"):
                st.seq += 1
                self.put(st, a[0], ("vec", a[1], st.seq))
                return ("void",)
            if n in ("data", "begin"):
                return self.vdata(st, a[0])
            if n == "size":
                return self.vsize(st, a[0])
            if n == "end":
                return ("end", self.vdata(st, a[0]), self.vsize(st, a[0]))
            if n == "empty":
                return ("not", ("nz", self.vsize(st, a[0])))
            if n == "operator[]":
                return ("elem", self.vdata(st, a[0]), a[1])
            if n == "operator=" and len(a) == 2:
                self.put(st, a[0], self.obj(st, a[1]))
                return a[0]
            return None
        # storage
        if q.startswith("std::__shared_ptr") or q.startswith("std::shared_ptr"):
            if n in ("operator->", "get", "operator*"):
                b = self.addr(a[0])
                return ("membuf",) + b
            if n in ("operator", "operator bool") or "operator bool" in dem:
                return ("c", 1)
            if n == "operator=":
                self.event(st, i, "set", self.addr(a[0]), a[1])
                return a[0]
        if q == "llvm::MemoryBuffer::getBuffer" or n == "getBufferStart":
            b = a[0][1] if a[0][0] == "membuf" else a[0]
            if a[0][0] == "membuf" and self.off2.get(a[0][2]) != "buffer":
                return None
            return ("ins", ("ins", ("?",), 0, ("bufptr", b)), 1, ("bufsize", b)) if n == "getBuffer" else ("bufptr", b)
        if q == "llvm::MemoryBuffer::getBufferSize":
            return ("bufsize", a[0][1] if a[0][0] == "membuf" else a[0])
        if q.startswith("std::function<") or "std::function<void (llvm::MutableArrayRef<onnx_mlir::WideNum>)> const&, std::nul" in dem or \
                "std::nullptr_t, std::function<" in dem:
            w = self.addr(a[0])
            tr = w[0][0] == "impl" and self.off2.get(w[1]) == "transformer"
            if "operator!=" in dem or "::operator bool" in dem:
                return ("T", w[0]) if tr else ("fn", self.obj(st, a[0]))
            if "operator==" in dem:
                return ("not", ("nz", ("T", w[0]))) if tr else None
            if "operator()" in dem:
                if tr:
                    self.transform(st, i, a[1], a[2] if len(a) > 2 else None)
                    return ("void",)
                self.unknown("a function is applied to the elements")
                return ("void",)
            if n == "operator=":
                self.event(st, i, "set", w, a[1])
                return a[0]
            return None
        if q == "onnx_mlir::bytewidthOfBType":
            return ("bw", a[0])
        # moving elements
        if q == "onnx_mlir::restrideArray" and re.search(r"restrideArray\(unsigned", dem):
            v = list(a[:1])
            for x in a[1:]:
                v += list(self.pair(st, x)) if x[0] == "loc" or self.local(self.addr(x)) else [x]
            if len(v) != 9:
                return None
            self.restride(st, i, v)
            return ("void",)
        if q == "onnx_mlir::unflattenIndex" and len(a) == 4:
            self.put(st, a[0], ("unflatten", a[1], a[3]))
            return ("void",)
        if q == "mlir::ShapedType::getNumElements":
            return ("numelements", self.obj(st, a[0]))
        if q == "mlir::ShapedType::getShape":
            o = self.obj(st, a[0])
            return ("ins", ("ins", ("?",), 0, ("shape", o)), 1, ("rank", o))
        if q == "std::transform" and len(a) == 4:
            self.elementwise(st, i, dem, a)
            return a[2]
        if q in ("std::copy", "std::copy_n") and len(a) == 3:
            src = self.rep(st, a[0])
            if src:
                self.setrep(st, a[2], Rep(src.order, src.enc, src.done, src.size))
            return a[2]
        if q == "llvm::all_of" and "areStridesSplat" in dem:
            p = self.pair(st, a[0])
            return ("splat", p[0])
        if q == "onnx_mlir::areStridesSplat":
            return ("splat", a[0])
        if q in ("mlir::Type::isInteger", "mlir::Type::isSignlessInteger") and len(a) == 2:
            return ("isint1",) if a[1] == ("c", 1) else None
        if q.startswith("onnx_mlir::WideNum::widen") and len(a) == 1:
            g = re.search(r"\(onnx_mlir::BType\)(-?\d+)", dem)
            return ("widen", int(g.group(1)), a[0]) if g else None
        return None

    def vdata(self, st, p):
        o = self.obj(st, p)
        return ("vdata", o)

    def vsize(self, st, p):
        o = self.obj(st, p)
        return o[1] if o[0] == "vec" else ("vsize", o)

    @staticmethod
    def kind(text):
        """widen or narrow, and the element type it is for."""
        import subprocess
        g = re.search(r"(widen|narrow)", text)
        k = re.search(r"BTypeE(\d+)E|\(onnx_mlir::BType\)(\d+)", text)
        return (g.group(1) if g else None), (int(k.group(1) or k.group(2)) if k else None)

    def elementwise(self, st, i, dem, a):
        fn = a[3]
        name = fn[1] if fn[0] == "glob" else ""
        f = self.m.fns.get(name)
        what, code = self.kind(name + " " + (f.dem if f else ""))
        src = self.rep(st, a[0])
        if what is None or code is None:
            self.unknown("an element-wise operation")
            self.setrep(st, a[2], None)
            return
        if src is None:
            self.unknown("the source of an element-wise operation")
            return
        fx = self.facts(st)
        if a[1][0] == "end" and a[1][1] != a[0]:
            self.fail(st, i, "size", "an array is read up to the end of another")
        if what == "widen":
            enc = self.code_enc(fx, code, src.enc)
            if enc is None:
                self.fail(st, i, "type", "elements are widened as another type than they are stored in")
                return
            self.setrep(st, a[2], Rep(src.order, "W", src.done, src.size))
        else:
            ok = self.same_enc(fx, src.enc, "W")
            if not ok:
                self.fail(st, i, "type", "elements that are not wide numbers are narrowed")
                return
            t = [n for n in ("btype", "bufferBType") if fx.get("code " + n) == code]
            if not t:
                self.fail(st, i, "type", "elements are narrowed to a type that is not theirs")
                return
            self.setrep(st, a[2], Rep(src.order, "E" if "btype" in t else "B", src.done, src.size))
        dst = self.size_of(st, a[2])
        self.check_size(st, i, src, a[2])

    def code_enc(self, f, code, enc):
        if enc in ("B", "E"):
            n = "bufferBType" if enc == "B" else "btype"
            o = "btype" if enc == "B" else "bufferBType"
            if f.get("code " + n) == code or f.get("K") and f.get("code " + o) == code:
                return enc
        return None

    def size_of(self, st, base):
        if base[0] == "vdata" and base[1][0] == "vec":
            return base[1][1]
        return None

    def check_size(self, st, i, src, base):
        """The memory written holds as many elements as are put there."""
        n = self.size_of(st, base)
        if n is None or src.order is None:
            return
        order = src.order
        fx = self.facts(st)
        nb = n[0] == "udiv" and n[1][0] == "bufsize" and n[2][0] == "bw" and self.fld(n[2][1]) == "bufferBType"
        ne = has(n, "numelements")
        if order == "buf" and not fx.get("C") and ne:
            self.fail(st, i, "size", "an array for all elements receives the elements of the buffer")
        if order == "row" and not fx.get("C") and nb:
            self.fail(st, i, "size", "an array as large as the buffer receives all elements")

    def transform(self, st, i, base, n):
        r = self.rep(st, base)
        if r is None:
            self.unknown("what is transformed")
            return
        fx = self.facts(st)
        if not self.same_enc(fx, r.enc, "W"):
            self.fail(st, i, "transformed", "the transformation is applied to elements that are not wide numbers")
        elif r.done:
            self.fail(st, i, "transformed", "the transformation is applied twice")
        self.setrep(st, base, Rep(r.order, "W", r.done + 1, r.size))

    def restride(self, st, i, a):
        w, shape, _, strides, _, src, n, dst = a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7]
        r = self.rep(st, src)
        fx = self.facts(st)
        if r is None:
            self.unknown("the source of a copy by strides")
            return
        if self.fld(strides) != "strides":
            if strides[0] == "ld" and strides[1][0] == "impl":
                self.fail(st, i, "order", "elements are read by something other than the constant's strides")
            else:
                self.unknown("the strides of a copy")
                return
        if r.order == "row" and not fx.get("C"):
            self.fail(st, i, "order", "elements already in order are reordered by the strides")
        elif not fx.get("C") and has(shape, "strides"):
            self.fail(st, i, "order", "elements are read in another shape")
        want = {"W": ("c", 8), "B": ("bw", "bufferBType"), "E": ("bw", "btype")}
        got = w if w[0] == "c" else ("bw", self.fld(w[1])) if w[0] == "bw" else None
        if got is None:
            self.unknown("the width of the elements copied")
        else:
            g = {("bw", "bufferBType"): "B", ("bw", "btype"): "E"}.get(got)
            if g is None and got != ("c", 8):
                self.fail(st, i, "type", "elements are copied with a fixed width")
            elif not self.same_enc(fx, r.enc, g or "W"):
                self.fail(st, i, "type", "elements are copied with the width of another type")
        self.setrep(st, dst, Rep("row", r.enc, r.done, r.size))
        self.check_size(st, i, Rep("row", r.enc, r.done), dst)

    def load(self, st, v, i):
        a = self.addr(v)
        if a in st.mem:
            return st.mem[a]
        return ("ld", a[0], a[1])


# -- the constant -----------------------------------------------------------
CREATE = ATTR + "::create"
KEY = re.compile(r"std::get<(\d+)")


class Key(Walker):
    """The storage made from a key: which member holds which part."""

    def model(self, st, i, dem, args, cont):
        g = re.search(r"std::get<(\d+)ul", dem)
        if g and len(args) == 1:
            return ("key", int(g.group(1)))
        if "copyInto<" in dem and len(args) >= 2:
            return ("ins", ("ins", ("?",), 0, args[1]), 1, args[2] if len(args) > 2 else ("?",))
        if "::allocate<" in dem or dem.startswith("operator new"):
            return ("new",)
        return None


def inorder(ctx, w, p, v, shape, strides, here):
    """A constant is only taken to be in order where its strides were found contiguous."""
    told = lambda t: t[0] == "call" and "areStridesContiguous" in str(t[1])
    for x, d in choices(w, v, p.dec):
        while x[0] in ("zext", "trunc") or x[0] == "nz" and told(x[1]):
            x = x[1]
        if x == ("c", 0):
            continue
        c = [x] if told(x) else [q[1] for q, b in d.items() if b and q[0] == "nz" and told(q[1])] if x[0] == "c" or \
            any(q[0] == "nz" and told(q[1]) and not b for q, b in d.items()) else None
        if c is None:
            ctx.notes.append("how a constant's order is established was not recognised")
        elif not c:
            ctx.violation("create", here, "a constant is taken to be in order although its strides were not found contiguous",
                          key="create|contiguous")
        elif c[0][2][0] != shape or c[0][2][2] != strides:
            ctx.violation("create", here, "whether a constant's elements are in order is not told from its shape and strides",
                          key="create|contiguous")
        else:
            ctx.ok("contiguous strides", "create")


def roles(ctx, m):
    """Member offsets of a constant's storage by what the constant's creation puts there."""
    f = [x for x in m.fns.values() if not x.decl and x.blocks and x.q == CREATE]
    c = [x for x in m.fns.values() if not x.decl and x.blocks and x.q.endswith("DisposableElementsAttributeStorage::construct")]
    if len(f) != 1 or len(c) != 1:
        raise AnalysisBroken("the creation of constants was not found")
    f, c = f[0], c[0]
    part = {}
    for p in Key(m, c).run():
        for (b, o), v in p.mem.items():
            if b == ("new",) or p.ret == b:
                v = v[1] if v[0] == "ld" and v[1][0] == "key" and v[2] == 0 else v
                if v[0] == "key":
                    part[o] = v[1]
                elif v[0] == "ex" and v[1][0] == "key" and v[2] == 0:
                    part[o] = v[1][1]
    here = "%s:%d" % (f.file, f.line)
    names = {n: ("arg", k) for k, (n, _) in enumerate(f.params)}

    def arg(n):
        for k in (n, n + ".coerce0"):
            if k in names:
                return names[k]
        raise AnalysisBroken("parameters of the creation of constants: no " + n)
    ty, bt, st_, id_ = arg("type"), arg("bufferBType"), arg("strides"), arg("id")
    w = View(m, f, {})
    out = {}
    for p in w.run():
        g = [e for e in p.events if e[0] == "call" and re.search(r"StorageUserBase<.*>::get<", e[3])]
        if len(g) != 1:
            raise AnalysisBroken("the creation of constants does not make one storage")
        vals = g[0][5][1:]
        own = {}
        for k, v in enumerate(vals):
            if v == ty:
                own["type"] = k
            elif v == st_:
                own["strides"] = k
            elif v == bt:
                own["bufferBType"] = k
            elif v == id_:
                own["id"] = k
            elif v[0] == "call" and "btypeOfMlirType" in v[1]:
                own["btype"] = k
                if not (v[2][0][0] == "call" and "getElementType" in v[2][0][1] and v[2][0][2][0] == ty):
                    ctx.violation("create", here, "a constant's element type is not that of its shaped type", key="create|btype")
        for n in ("type", "strides", "bufferBType", "btype", "id"):
            if n not in own:
                ctx.violation("create", here, "a constant's storage does not keep its %s" % {
                    "type": "type", "strides": "strides", "bufferBType": "buffer's element type", "btype": "element type",
                    "id": "identity"}[n], key="create|" + n)
        left = [k for k in range(len(vals)) if k not in own.values()]
        if len(left) == 1:
            own["isContiguous"] = left[0]
            inorder(ctx, w, p, vals[left[0]], ("shape", ty), st_, here)
        for e in p.events:
            if e[0] == "set":
                n = "buffer" if e[4] == arg("buffer") else "transformer" if e[4] == arg("transformer") else None
                if n:
                    own[n] = ("at", e[3][1])
        for n in ("buffer", "transformer"):
            if n not in own:
                ctx.violation("create", here, "a constant does not keep the %s it is made with" % n, key="create|" + n)
        inv = {v: k for k, v in part.items()}
        for n, k in own.items():
            if isinstance(k, tuple):
                out[k[1]] = n
            elif k in inv:
                out[inv[k]] = n
            else:
                ctx.notes.append("storage member for %s not found" % n)
        ctx.ok("parts of a constant's storage", f.q, n=len(own))
    return out


def readers(m):
    d = {}
    for f in m.fns.values():
        if not f.decl and f.blocks and f.q.startswith(ATTR + "::"):
            d.setdefault(f.q[len(ATTR) + 2:], []).append(f)
    return d


def judge(ctx, w, f, p, base, order, enc, what, sink):
    class St:
        pass
    st = St()
    st.dec, st.ev, st.mem = p.dec, p.events, p.mem
    fx = w.facts(st)
    if w.infeasible(st, fx):
        return
    r = w.rep(st, base) if base else None
    if r is None:
        sink.add("%s: what is returned could not be followed" % f.q)
        return
    here = "%s:%d" % (f.file, f.line)
    n = f.q.rsplit("::", 1)[-1]
    if not w.is_order(fx, r.order, order):
        ctx.violation("order", here, "%s are not in row-major order" % what, key="order|" + n)
    elif not w.same_enc(fx, r.enc, enc):
        ctx.violation("type", here, "%s are encoded as another type" % what, key="type|" + n)
    elif not w.is_done(fx, r):
        ctx.violation("transformed", here, "%s lack the constant's transformation" % what, key="transformed|" + n)
    else:
        ctx.ok("reads on a path", f.q)


def failures(ctx, w, f):
    for rule, line, text in w.bad:
        ctx.violation(rule, "%s:%d" % (f.file, line or f.line), text, key="%s|%s|%s" % (rule, f.q.rsplit("::", 1)[-1], text))
    for t in w.undef:
        ctx.notes.append("%s: %s could not be followed" % (f.q, t))


def result(w, p):
    """The region the returned array refers to, and where in the result that is kept."""
    class St:
        pass
    st = St()
    st.mem = p.mem
    for (b, o), v in sorted(((k, v) for k, v in p.mem.items() if k[0] == ("arg", 0)), key=repr):
        if o != 0 and w.rep(st, v):
            return v, o
    return None, None


def choices(w, t, dec):
    """The values a term may have on the path, with the decisions each needs."""
    t = fold(t)
    if t[0] == "sel":
        c, neg = w.norm(t[1])
        out = []
        for v, x in ((True, t[2]), (False, t[3])):
            if dec.get(c, v != neg) == (v != neg):
                d = dict(dec)
                d[c] = v != neg
                out += choices(w, x, d)
        return out
    return [(t, dec)]


def flat(ctx, w, f, p, sink):
    class St:
        pass
    here = "%s:%d" % (f.file, f.line)
    st = St()
    st.dec, st.ev, st.mem = p.dec, p.events, p.mem
    if w.infeasible(st, w.facts(st)):
        return
    idx = ("arg", this_of(f) + 1)
    v = p.ret
    while v and v[0] in ("ins", "ex"):
        v = v[3] if v[0] == "ins" else v[1]
    r = w.rep(st, v[1]) if v and v[0] == "ld" else None
    if r is None or not (isinstance(r.order, tuple) and r.order[0] == "at" and r.order[1] == "buf"):
        sink.add("%s: the element read could not be followed" % f.q)
        return
    fx = w.facts(st)
    if not w.same_enc(fx, r.enc, "W"):
        ctx.violation("type", here, "an element is not read as a wide number of the buffer's type", key="type|atFlatIndex")
    if not w.is_done(fx, r):
        ctx.violation("transformed", here, "a single element lacks the constant's transformation", key="transformed|atFlatIndex")
    bw = lambda t: t[0] == "bw" and w.fld(t[1]) == "bufferBType"
    off, ln = r.order[2], r.order[3]
    if not bw(ln):
        ctx.violation("order", here, "an element is read with a width that is not its own", key="order|width")
    for o, d in choices(w, off, p.dec):
        pos = None
        if o == ("c", 0):
            pos = o
        elif o[0] == "mul" and bw(o[1]):
            pos = o[2]
        elif o[0] == "mul" and bw(o[2]):
            pos = o[1]
        if pos is None:
            if o[0] in ("mul", "call", "arg", "bw", "c"):
                ctx.violation("order", here, "an element's position in bytes is not its position times the width of the buffer's elements",
                              key="order|bytes")
            else:
                sink.add("%s: the position read could not be followed" % f.q)
            continue
        for x, d2 in choices(w, pos, d):
            s2 = St()
            s2.dec, s2.ev, s2.mem = d2, p.events, p.mem
            f2 = w.facts(s2)
            zero = d2.get(("nz", idx)) is False
            if x == idx:
                good = zero or f2.get("C")
                text = "the index itself is used as the position although the elements may be in another order"
            elif x == ("c", 0):
                good = zero or f2.get("S")
                text = "the first element is read for another index although the elements may differ"
            elif x[0] == "call" and "getStridesPosition" in x[1]:
                a = x[2]
                und = find(x, lambda t: t[0] == "unflatten")
                if not und:
                    sink.add("%s: the indices of an element could not be followed" % f.q)
                    continue
                good = any(w.fld(t) == "strides" for t in a) and und[0][2] == idx and und[0][1][0] == "shape" and \
                    w.fld(und[0][1][1]) == "type"
                text = "an element's position is not computed from its index, the shape and the strides"
            else:
                sink.add("%s: a position could not be followed" % f.q)
                continue
            if good:
                ctx.ok("positions", f.q)
            else:
                ctx.violation("order", here, text, key="order|flat|" + text)


def splat(ctx, w, f, p, sink):
    here = "%s:%d" % (f.file, f.line)
    for v, d in choices(w, p.ret, p.dec):
        if v == ("c", 0):
            continue
        t = [x for x in ([v] + list(v[1:])) if isinstance(x, tuple) and x and x[0] == "splat"] or \
            [c[1] for c, b in d.items() if b and c[0] == "nz" and c[1][0] == "splat"] or find(v, lambda x: x[0] == "splat")
        if not t:
            if v[0] in ("nz", "not", "c") or any(x[0] == "splat" for c in d for x in find(c, lambda y: y[0] == "splat")):
                ctx.violation("splat", here, "a constant is said to have one value although its strides may differ from zero",
                              key="splat|unfounded")
            else:
                sink.add("%s could not be followed" % f.q)
        elif w.fld(t[0][1]) != "strides":
            ctx.violation("splat", here, "whether a constant has one value is told from something other than its strides",
                          key="splat|strides")
        else:
            ctx.ok("splat answers", f.q)


KEPT = ("getRawBytes", "getWideNums", "readWideNums", "readRawBytes", "getBufferAsWideNums", "readBytesAsWideNums", "atFlatIndex",
        "isSplat")


class Whole(View):
    """Callers of the readers: each reader is taken to do what it is checked for."""

    def model(self, st, i, dem, args, cont):
        q = qualified(dem)
        if q == ATTR + "::isSplat":
            return ("splat", ("ld", ("impl", args[0]), 0))
        if q in ("mlir::DenseElementsAttr::get", "mlir::DenseElementsAttr::getFromRawBuffer") or q.startswith("llvm::toHex"):
            self.event(st, i, "use", dem, tuple(self.conv(st, a) for a in args), tuple(self.rep(st, self.conv(st, a)) for a in args))
            return ("made", i.get("l", 0))
        return super().model(st, i, dem, args, cont)

    def conv(self, st, a):
        b = self.addr(a)
        if self.local(b) and b in st.mem and (b[0], b[1] + 8) in st.mem:
            return st.mem[b]
        return a


def whole(ctx, fields, refs, sink):
    m = build.load("elements", only=["DisposableElementsAttr.cpp"], asserts=False, keep=[ATTR + "::" + n for n in KEPT])
    R = readers(m)
    kept = {}
    for n, order, enc in (("getRawBytes", "row", "E"), ("getWideNums", "row", "W"), ("getBufferAsWideNums", "buf", "W")):
        if ATTR + "::" + n in refs:
            kept[ATTR + "::" + n] = (order, enc, refs[ATTR + "::" + n])
    kept[ATTR + "::readWideNums"] = ("row", "W", "dst")
    kept[ATTR + "::readRawBytes"] = ("row", "E", "dst")
    kept[ATTR + "::atFlatIndex"] = (None, None, None)
    for n in ("toDenseElementsAttr", "printWithoutType", "printAsDenseElementsAttr"):
        for f in R.get(n, []):
            w = Whole(m, f, fields, {}, kept, limit=40000)
            ps = w.run()
            failures(ctx, w, f)
            for p in ps:
                for e in p.events:
                    if e[0] == "use":
                        used(ctx, w, f, p, e, sink)


def used(ctx, w, f, p, e, sink):
    where = "%s:%d" % (f.file, e[1] or f.line)

    class St:
        pass
    st = St()
    st.dec, st.ev, st.mem = p.dec, p.events, p.mem
    fx = w.facts(st)
    dem, args, reps = e[3], e[4], e[5]
    one = any(b for c, b in p.dec.items() if c[0] == "nz" and c[1][0] == "splat")
    bit = next((b for c, b in p.dec.items() if c == ("nz", ("isint1",))), None)
    r = next((x for x in reps if x), None)
    q = qualified(dem)
    text = None
    if q.startswith("llvm::toHex"):
        if r is None:
            sink.add("%s: what is printed could not be followed" % f.q)
            return
        if not (r.order == "row" and r.enc == "E"):
            text = "what is printed are not the bytes of the elements in order"
    elif "getFromRawBuffer" in q:
        if bit is not False:
            text = "bytes of one-bit elements are taken as packed bits"
        elif r and not (r.order == "row" and r.enc == "E"):
            text = "what is copied are not the bytes of the elements in order"
    elif re.search(r"get<bool|ArrayRef<bool>", dem):
        if bit is not True:
            text = "elements that are not one bit wide are copied as truth values"
        elif r and not (r.order == "row" and r.enc == "E"):
            text = "what is copied are not the elements in order"
    elif re.search(r"(ArrayRef|initializer_list)<mlir::Attribute>", dem):
        if not one:
            text = "one value is taken for all elements although they may differ"
    else:
        sink.add("%s: a use of elements was not recognised" % f.q)
        return
    if text:
        ctx.violation("copy", where, text, key="copy|%s|%s" % (f.q.rsplit("::", 1)[-1], text))
    else:
        ctx.ok("copies and prints", f.q)



PROBE = """
#include "src/Dialect/ONNX/ElementsAttr/DisposableElementsAttr.hpp"
using namespace mlir;
template onnx_mlir::ArrayBuffer<float> DisposableElementsAttr::getArray<float>() const;
template onnx_mlir::ArrayBuffer<int64_t> DisposableElementsAttr::getArray<int64_t>() const;
template onnx_mlir::ArrayBuffer<int8_t> DisposableElementsAttr::getArray<int8_t>() const;
"""


def this_of(f):
    for k, (n, _) in enumerate(f.params):
        if n == "this":
            return k
    return 0


def constant(ctx):
    ctx.rule("views", "what a function reading elements puts in its result is, on every path, in the order, the encoding and the state "
                      "(transformed or not) the result promises, given what the path knows of the constant")
    ctx.rule("member", "each accessor answers with the part of the constant it is named after")
    src = os.path.join(build.scratch(), "arrays_probe.cpp")
    with open(src, "w") as fh:
        fh.write(PROBE)
    m = build.load("elements", only=["DisposableElementsAttr.cpp"], asserts=False, extra_src=[src])
    ctx.units.update(u for u in m.units if not u.startswith(".."))
    fields = roles(ctx, m)
    R = readers(m)
    sink = set()
    refs = {}

    def walk(f, args=None):
        w = View(m, f, fields, args, limit=40000)
        ps = w.run()
        failures(ctx, w, f)
        return w, ps
    for n, enc, what in (("getRawBytes", "E", "the bytes of the elements"), ("getWideNums", "W", "the wide numbers of the elements"),
                         ("getBufferAsWideNums", "W", "the wide numbers of the buffer"), ("getArray", "E", "the elements of the array")):
        for k in R:
            if k.split("<")[0] != n:
                continue
            for f in R[k]:
                w, ps = walk(f)
                for p in ps:
                    b, o = result(w, p)
                    if o:
                        refs[f.q] = o
                    judge(ctx, w, f, p, b, "buf" if n == "getBufferAsWideNums" else "row", enc, what, sink)
    for n, enc, what in (("readWideNums", "W", "the wide numbers of the elements"), ("readRawBytes", "E", "the bytes of the elements"),
                         ("readBytesAsWideNums", "W", "the wide numbers of some bytes")):
        for f in R.get(n, []):
            t = this_of(f)
            a = {}
            dst = ("arg", t + 1)
            order = "row"
            if n == "readBytesAsWideNums":
                a[("arg", t + 1)] = Rep("x", "B", 0)
                dst, order = ("arg", t + 3), "x"
            w, ps = walk(f, a)
            for p in ps:
                judge(ctx, w, f, p, dst, order, enc, what, sink)
    for f in R.get("atFlatIndex", []):
        w, ps = walk(f)
        for p in ps:
            flat(ctx, w, f, p, sink)
    for f in R.get("isSplat", []):
        w, ps = walk(f)
        for p in ps:
            splat(ctx, w, f, p, sink)
    for n, role in (("getBType", "btype"), ("getType", "type"), ("getId", "id")):
        for f in R.get(n, []):
            w, ps = walk(f)
            for p in ps:
                v = p.ret
                while v and v[0] == "ins":
                    v = w.extract(v, 0)
                g = w.fld(v) if v else None
                if g and g != role:
                    ctx.violation("member", "%s:%d" % (f.file, f.line), "the %s of a constant is answered with its %s" % (role, g),
                                  key="member|" + n)
                else:
                    ctx.ok("members answered", f.q)
    whole(ctx, fields, refs, sink)
    for t in sorted(sink):
        ctx.notes.append(t)
    ctx.need("reads on a path", 50)


def views(ctx, tier):
    constant(ctx)
    builder.derived(ctx)
    return "The member functions of constants that read elements are followed on every path, with what each memory region holds " \
           "(order, encoding, transformation applied or not) and what the path knows about the constant. " \
           "Constants made of others are followed the same way: parts, strides, shape, transformation and operands as terms."

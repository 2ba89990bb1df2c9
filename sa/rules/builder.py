"""E06, second part: constants made from other constants' elements."""
import re

from .. import build
from ..engine import AnalysisBroken
from ..paths import Walker, has, find
from .pool import qualified, method

SRC = "src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp"
NS = "onnx_mlir::"
B = NS + "ElementsAttrBuilder::"
KEEP = ("create", "getElementsProperties", "fromWideNums", "fromRawBytes", "doTransform", "expandAndTransform",
        "createWithDefaultStrides", "getWideNumsAndExpandedStrides", "getElementsWideNums", "getElementsSplatWideNum", "expand")
PARTS = {0: "btype", 8: "strides", 56: "buffer", 72: "transformer"}


class Make(Walker):
    """What constants are made of, as terms."""

    def obj(self, st, p):
        if p[0] == "sel":
            return ("sel", p[1], self.obj(st, p[2]), self.obj(st, p[3]))
        a = self.addr(p)
        return st.mem.get(a, ("ld",) + a)

    def put(self, st, p, v, n=None):
        a = self.addr(p)
        st.mem[a] = v
        if n is not None:
            st.mem[(a[0], a[1] + 8)] = n

    def load(self, st, v, i):
        a = self.addr(v)
        if a[0][0] == "sel" and a not in st.mem:
            one = lambda b: self.load(st, self.off(b, a[1]) if b[0] != "at" else ("at", b[1], b[2] + a[1]), i)
            return ("sel", a[0][1], one(a[0][2]), one(a[0][3]))
        return super().load(st, v, i)

    @staticmethod
    def base(t):
        while t[0] == "as":
            t = t[2]
        return t

    def elms(self, st, p):
        return self.base(self.obj(st, p))

    @staticmethod
    def shape(t):
        """The data of a type's shape."""
        while t[0] == "clone":
            if t[2][0] == "shape":
                return t[2][1]
            t = t[1]
        return ("shape", t)

    @staticmethod
    def elem(t):
        while t[0] == "clone":
            if t[2][0] == "elem":
                return t[2][1]
            t = t[1]
        return ("elemof", t[1]) if t[0] == "typeof" else ("elem", t)

    def two(self, a):
        return ("ins", ("ins", ("?",), 0, a), 1, ("of", a))

    def data(self, st, p):
        return ("vdata", self.obj(st, p))

    def prop(self, t):
        """The constant and part a term of its properties stands for."""
        if t[0] == "props":
            return t[1], t[2]
        return None

    def model(self, st, i, dem, args, cont):
        a = args
        q, n = qualified(dem), method(dem)
        if n.startswith("~"):
            return ("void",)
        if dem.startswith("std::remove_reference<") and len(a) == 1 or q in ("std::move", "std::forward", "std::addressof") and len(a) == 1:
            return a[0]
        if dem.startswith("mlir::Type::operator bool") and len(a) == 1:
            o = self.obj(st, a[0])
            return ("isa", o[1], o[2]) if o[0] == "as" else None
        if re.search(r"\bllvm::(dyn_cast|cast)<", dem) and len(a) == 1:
            g = re.search(r"\bllvm::(?:dyn_cast|cast)<([\w:]+)", dem)
            return ("as", g.group(1), self.elms(st, a[0]))
        if dem.startswith("mlir::Attribute::operator bool"):
            o = self.obj(st, a[0])
            return ("isa", o[1], o[2]) if o[0] == "as" else None
        if re.search(r"bool llvm::isa<", dem) and len(a) == 1:
            g = re.search(r"\bllvm::isa<([\w:]+)", dem)
            return ("isa", g.group(1), self.base(self.obj(st, a[0])))
        if re.search(r"::operator mlir::\w+\(\)", dem) and len(a) == 1:
            return self.two(self.elms(st, a[0]))
        # the builder's own
        if q == B + "getElementsProperties":
            b = self.addr(a[0])
            e = self.base(a[-2])
            for o, w in PARTS.items():
                st.mem[(b[0], b[1] + o)] = ("props", e, w)
            return ("void",)
        if q in (B + "create", B + "createWithDefaultStrides", B + "fromRawBytes", B + "fromWideNums", B + "doTransform",
                 B + "expandAndTransform", B + "expand"):
            vals = []
            for x in a:
                b = self.addr(x)
                vals.append(st.mem[b] if b in st.mem and self.local(b) else x)
            self.event(st, i, "make", n, tuple(vals), tuple(a))
            st.seq += 1
            return self.two(("made", i.get("l", 0), st.seq))
        if q == B + "getWideNumsAndExpandedStrides" and len(a) == 6:
            e = self.base(a[1])
            self.put(st, a[0], ("nums", e))
            self.put(st, a[5], ("numstrides", e, a[3]))
            return ("void",)
        if q == NS + "getElementsWideNums" and len(a) == 3:
            self.put(st, a[0], ("numsof", "all", self.base(a[1])))
            return ("void",)
        if q == NS + "getElementsSplatWideNum":
            return ("splatnum", self.base(a[0]))
        if q == "mlir::ElementsAttr::isSplat" or q == "mlir::DenseElementsAttr::isSplat":
            return ("splat", self.elms(st, a[0]))
        # types
        if n == "getShapedType" or q in ("mlir::DenseElementsAttr::getType", "mlir::DisposableElementsAttr::getType"):
            return self.two(("typeof", self.elms(st, a[0])))
        if q == "mlir::ShapedType::getShape" or q == "mlir::DisposableElementsAttr::getShape":
            t = self.obj(st, a[0])
            return self.two(self.shape(t if q.startswith("mlir::Sh") else ("typeof", self.base(t))))
        if q == "mlir::ShapedType::getElementType":
            return self.elem(self.obj(st, a[0]))
        if n == "getElementType" and q.startswith("mlir::") and len(a) == 1:
            return ("elemof", self.elms(st, a[0]))
        if q == "mlir::ShapedType::clone":
            t = self.obj(st, a[0])
            if "ArrayRef" in dem and len(a) == 3:
                return self.two(("clone", t, ("shape", a[1])))
            if "(mlir::Type)" in dem and len(a) == 2:
                return self.two(("clone", t, ("elem", a[1])))
            if len(a) == 4:
                return self.two(("clone", ("clone", t, ("shape", a[1])), ("elem", a[3])))
            return None
        if q == "mlir::Type::operator==":
            return ("eq",) + tuple(sorted((self.obj(st, a[0]), a[1]), key=repr))
        if n in ("isUnsigned", "isUnsignedInteger", "isFloat") and len(a) == 1:
            return ("is", n, self.base(self.obj(st, a[0])))
        if q == "mlir::Type::isInteger" and len(a) == 2:
            return ("isint", self.obj(st, a[0]), a[1])
        # strides
        if q in (NS + "transposeDims", NS + "untransposeDims"):
            self.put(st, a[0], (n, a[1], a[3]))
            return ("void",)
        if q == NS + "expandStrides":
            self.put(st, a[0], ("expand", a[1], a[3]))
            return ("void",)
        if q == NS + "reshapeStrides":
            if len(a) == 6 or len(a) == 7:
                self.put(st, a[0], ("reshape", a[1], a[3], self.obj(st, a[5]) if self.local(self.addr(a[5])) else a[5]))
                return ("void",)
            return None
        if q in (NS + "getDefaultStrides", NS + "getSplatStrides"):
            self.put(st, a[0], (n, a[1]))
            return ("void",)
        # constants' storage
        if q.startswith("mlir::DisposableElementsAttr::") and len(a) in (1, 2):
            e = self.elms(st, a[-1])
            if n in ("getBufferBType", "getBType", "isTransformed", "isTransformedOrCast", "isContiguous", "getBufferElementBytewidth"):
                return ("own", e, n)
            if n in ("getBufferAsWideNums", "getWideNums") and len(a) == 2:
                self.put(st, a[0], ("numsof", "buffer" if n.startswith("getBuffer") else "all", e))
                return ("void",)
            if n == "getStrides":
                return self.two(("vdata", ("own", e, "strides")))
            if n == "getBuffer":
                return ("own", e, "buffer")
            if n == "getTransformer":
                return ("own", e, "transformer")
            if n == "getBufferBytes":
                return self.two(("own", e, "bytes"))
            return None
        if q == NS + "btypeOfMlirType":
            return ("btypeof", a[0])
        if q == NS + "wideBTypeOfBType":
            return ("wide", a[0])
        if q == NS + "bytewidthOfBType":
            return ("width", a[0])
        if q == "mlir::ShapedType::getNumElements":
            return ("count", self.shape(self.obj(st, a[0]))) if len(a) == 1 else ("count", a[0])
        if q == "llvm::WritableMemoryBuffer::getNewUninitMemBuffer":
            self.put(st, a[0], ("newbuffer", a[1]))
            return ("void",)
        # arrays
        if re.match(r"llvm::(Mutable)?ArrayRef<.*>::", q) or q.startswith("llvm::ArrayRef<"):
            if n in ("ArrayRef", "MutableArrayRef"):
                if len(a) == 2 and "llvm::SmallVector" in dem.split("Ref(")[-1].split("Ref<void>(")[-1]:
                    d = self.data(st, a[1])
                    self.put(st, a[0], d, ("of", d))
                    return ("void",)
                if len(a) == 3:
                    self.put(st, a[0], a[1], a[2])
                    return ("void",)
                return None
            o = self.obj(st, a[0])
            if n in ("data", "begin"):
                return o
            if n == "end":
                return ("end", o)
            if n == "size":
                return ("of", o)
            if n == "operator[]":
                return ("elemat", o, a[1])
            return None
        if re.match(r"(std::optional<)?llvm::SmallVector(Impl|Base|TemplateCommon|TemplateBase)?<", q):
            if q.startswith("std::optional"):
                if re.search(r"::(operator\*|operator->|value)\(\)", dem):
                    return a[0] if a[0][0] == "at" else ("at",) + self.addr(a[0])
                if "operator bool" in dem or n == "has_value":
                    return ("has", self.obj(st, a[0]))
                return None
            if n in ("data", "begin"):
                return self.data(st, a[0])
            if n == "end":
                return ("end", self.data(st, a[0]))
            if n == "size":
                return ("of", self.data(st, a[0]))
            if n == "assign" and len(a) == 2 and "SmallVector" in dem.split("assign(")[-1]:
                self.put(st, a[0], self.obj(st, a[1]))
                return ("void",)
            if n == "SmallVector" or n == "operator=":
                if len(a) == 1:
                    st.seq += 1
                    self.put(st, a[0], ("vec", st.seq))
                    return ("void",)
                if len(a) == 3 and a[2] == ("end", a[1]):
                    self.put(st, a[0], a[1][1] if a[1][0] == "vdata" else ("copyof", a[1]))
                    return ("void",)
                if len(a) == 2 and re.search(r"SmallVector.*(&&|const&)\)$", dem):
                    self.put(st, a[0], self.obj(st, a[1]))
                    return a[0] if n != "SmallVector" else ("void",)
            return None
        # functions applied to elements
        if dem.startswith("std::function<void (llvm::MutableArrayRef<") or "std::nullptr_t, std::function<" in dem or \
                "std::operator==<void, llvm::MutableArrayRef<" in dem or "std::operator!=<void, llvm::MutableArrayRef<" in dem:
            fn = lambda p: self.obj(st, p) if self.addr(p) in st.mem or self.local(self.addr(p)) else p
            if "operator bool" in dem or "operator!=" in dem:
                return ("fnset", fn(a[0]))
            if "operator==" in dem:
                return ("not", ("nz", ("fnset", fn(a[0]))))
            if "operator()" in dem:
                self.event(st, i, "apply", fn(a[0]), a[1:])
                return ("void",)
            if n == "operator=":
                self.put(st, a[0], fn(a[1]))
                return a[0]
            if len(a) == 1 or "nullptr_t" in dem and len(a) == 2:
                self.put(st, a[0], ("nofn",))
                return ("void",)
            g = self.closure(dem)
            if g:
                b = self.addr(a[1])
                caps = tuple(sorted((k[1] - b[1], v) for k, v in st.mem.items()
                                    if k[0] == b[0] and isinstance(k[1], int) and 0 <= k[1] - b[1] < 256))
                self.put(st, a[0], ("fn", g, caps))
                return ("void",)
            if len(a) == 2:
                self.put(st, a[0], fn(a[1]))
                return ("void",)
            return None
        # pointers to memory
        if re.match(r"std::(__)?(shared|unique)_ptr<.*>::(__)?(shared|unique)_ptr", q) and len(a) == 2 or \
                re.match(r"std::(__)?(shared|unique)_ptr<", q) and n in ("shared_ptr", "unique_ptr") and len(a) == 2:
            o = self.obj(st, a[1])
            self.put(st, a[0], a[1] if o[0] == "ld" else o)
            return ("void",)
        if re.match(r"std::(unique|shared)_ptr<", q) and n in ("operator->", "get", "operator*"):
            return ("buf", self.obj(st, a[0]))
        if re.match(r"llvm::(Writable)?MemoryBuffer::getBuffer$", q):
            o = a[-1][1] if a[-1][0] == "buf" else a[-1]
            return self.two(("bytes", o))
        if re.match(r"std::array<.*>::operator\[\]$", q) and len(a) == 2 and a[1][0] == "c":
            w = 16 if "ArrayRef" in q else 8
            return self.off(a[0], w * a[1][1]) if a[0][0] == "at" or self.local(self.addr(a[0])) else ("at", a[0], w * a[1][1])
        return None

    def closure(self, dem):
        """The function object a std::function is made of: the operator() it calls."""
        g = re.match(r"std::function<void \(llvm::MutableArrayRef<[\w:]+>\)>::function<(.*)>\((.*)\)$", dem)
        if not g:
            return None
        t = g.group(2)
        t = re.sub(r"(&&|&)$", "", t)
        return t if "lambda" in t or "$_" in t else None


def bodies(m, name):
    """The call operators of a function object."""
    return [f for f in m.fns.values() if not f.decl and f.blocks and "operator()" in f.dem and f.dem.startswith(name + "::operator()(")]


def here(f, line=0):
    return "%s:%d" % (f.file, line or f.line)


class Ctor:
    """What a function applied to elements amounts to: the constituents in order."""

    def __init__(self, m):
        self.m, self.memo = m, {}

    def calls(self, name):
        """Capture offsets a closure applies to its argument, path by path."""
        if name not in self.memo:
            fs = bodies(self.m, name)
            if len(fs) != 1:
                self.memo[name] = None
            else:
                w = Make(self.m, fs[0])
                out = []
                for p in w.run():
                    seq, other = [], False
                    for e in p.events:
                        if e[0] == "apply":
                            t = e[3]
                            t = ("at", t, 0) if t == ("arg", 0) else t
                            if t[0] == "at" and t[1] == ("arg", 0) and e[4] and e[4][0] == ("arg", 1):
                                seq.append(t[2])
                            else:
                                other = True
                        elif e[0] == "call" and e[3] == "<indirect>" or e[0] == "write":
                            other = True
                    out.append(None if other else seq)
                self.memo[name] = out
        return self.memo[name]

    def seq(self, t, depth=0):
        """Lists of constituents, one per path; None if it cannot be told."""
        if t[0] == "nofn":
            return [[]]
        if t[0] == "fn" and depth < 4:
            cs = self.calls(t[1])
            caps = dict(t[2])
            if cs and all(c is not None for c in cs) and any(cs) and all(o in caps for c in cs for o in c):
                out = []
                for c in cs:
                    acc = [[]]
                    for o in c:
                        s = self.seq(caps[o], depth + 1)
                        acc = [x + y for x in acc for y in s]
                    out += acc
                return out
            return [[t]]
        return [[t]]


def made(ctx, m, w, f, p, e, kit):
    """One constant made of another's properties."""
    vals = e[4]
    where = here(f, e[1])
    fn = f.q.rsplit("::", 1)[-1] if "lambda" not in f.q else f.q.split("::")[2]
    if e[3] != "create" or len(vals) < 8:
        return
    T, bt, S, buf, tr = vals[1], vals[3], vals[4], vals[6], vals[7]
    own = [x for x in (bt, buf, S[1] if S[0] == "vdata" else S, tr) for x in find(x, lambda t: t[0] == "props")]
    if not own:
        if bt[0] == "arg" or buf[0] == "newbuffer":
            X = S[1] if S[0] == "vdata" else S
            sh = w.shape(T)
            if X[0] == "arg":
                return
            if X[0] not in ("getDefaultStrides", "getSplatStrides", "expand"):
                ctx.notes.append("%s: the strides of a constant could not be followed" % f.q)
            elif X != ("getDefaultStrides", sh):
                ctx.violation("strides", where, "newly filled elements are not read in the order they were written", key="strides|new|" + fn)
            elif tr[0] != "nofn":
                ctx.violation("compose", where, "newly filled elements are transformed again", key="compose|new|" + fn)
            else:
                ctx.ok("newly filled constants", f.q)
            return
        ctx.notes.append("%s: a constant is made of something else" % f.q)
        return
    es = {x[1] for x in own}
    if len(es) > 1:
        ctx.violation("parts", where, "a constant is made of parts of two constants", key="parts|" + fn)
        return
    el = es.pop()
    for what, v, part in (("element type of its buffer", bt, "btype"), ("buffer", buf, "buffer")):
        if v == ("props", el, part):
            ctx.ok("parts of constants made of others", f.q)
        elif w.prop(v) or v[0] in ("btypeof", "wide", "c"):
            ctx.violation("parts", where, "a constant made of another does not keep the %s" % what, key="parts|%s|%s" % (fn, part))
        else:
            ctx.notes.append("%s: the %s of a constant could not be followed" % (f.q, what))
    # transformation
    old = ("props", el, "transformer")
    # in the list each constituent is the old one or a new one
    null = any(c == ("nz", ("fnset", old)) and not v for c, v in p.dec.items())
    for s in kit.seq(tr):
        if old in s and s.index(old) != 0:
            ctx.violation("compose", where, "a new transformation is applied before the one already recorded", key="compose|order|" + fn)
        elif s.count(old) > 1:
            ctx.violation("compose", where, "the transformation already recorded is applied twice", key="compose|twice|" + fn)
        elif old not in s and not null:
            ctx.violation("compose", where, "the transformation already recorded is lost", key="compose|lost|" + fn)
        else:
            ctx.ok("transformations kept", f.q)
    # strides
    sh = ("shape", ("typeof", el))
    of = ("vdata", ("props", el, "strides"))
    got = w.shape(T)
    X = S[1] if S[0] == "vdata" else S
    known = lambda t: t == sh or t[0] == "vdata" and t[1][0] in ("transposeDims", "untransposeDims") or t[0] == "arg" or \
        t[0] == "shape" and t[1][0] in ("arg", "typeof")
    text = None
    if X == ("props", el, "strides"):
        if got != sh and known(got):
            text = "another shape is given to elements whose strides are kept"
    elif X[0] in ("transposeDims", "untransposeDims"):
        if X[1] != of:
            text = "what is transposed are not the constant's strides"
        elif got != ("vdata", (X[0], sh, X[2])) and known(got):
            text = "strides and shape are not transposed alike"
    elif X[0] == "expand":
        if X[1] != of:
            text = "what is expanded are not the constant's strides"
        elif got != X[2] and known(got) and known(X[2]):
            text = "strides are expanded to another shape than the constant's"
    elif X[0] == "reshape":
        if X[2] != of:
            text = "what is reshaped are not the constant's strides"
        elif X[1] != sh and known(X[1]):
            text = "strides are reshaped from another shape than the constant's"
        elif got != X[3] and known(got) and known(X[3]):
            text = "strides are reshaped to another shape than the constant's"
        elif ("nz", ("has", X)) in p.dec and not p.dec[("nz", ("has", X))]:
            text = "strides are used although none were found"
    elif X[0] in ("getDefaultStrides", "getSplatStrides"):
        text = "a constant made of another has its elements but not its strides"
    else:
        ctx.notes.append("%s: the strides of a constant could not be followed" % f.q)
        return
    if text:
        ctx.violation("strides", where, text, key="strides|%s|%s" % (fn, text))
    else:
        ctx.ok("strides and shapes together", f.q)
    # element type
    en = w.elem(T)
    if en not in (("elemof", el),) and T[0] == "clone" and T[2][0] == "elem" and all(s == [old] or not s for s in kit.seq(tr)):
        retyped(ctx, f, p, where, el, en)


def retyped(ctx, f, p, where, el, en):
    """A constant given another element type without a transformation: the wide numbers must mean the same."""
    if re.search(r"operator\(\)<(\w| )*double>", f.q):
        ctx.ok("element types changed in place", f.q)
        return
    if p.dec.get(("nz", ("isa", "mlir::FloatType", ("elemof", el)))) is True:
        if any(x[1].endswith("FloatType") for x in find(en, lambda t: t[0] == "as")) or en[0] == "arg" and "mlir::FloatType" in f.dem:
            ctx.ok("element types changed in place", f.q)
        elif any(x[1].endswith("IntegerType") for x in find(en, lambda t: t[0] == "as")):
            ctx.violation("type", where, "floating-point elements are given an integer type without being converted", key="type|int")
        else:
            ctx.notes.append("%s: a change of element type could not be followed" % f.q)
        return
    ints = [c for c, v in p.dec.items() if c[0] == "nz" and c[1][0] == "isa" and c[1][2] == ("elemof", el) and
            (v and c[1][1].endswith("IntegerType") or not v and c[1][1].endswith("FloatType"))]
    same = None
    for c, v in p.dec.items():
        s = find(c, lambda t: t[0] == "is" and t[1].startswith("isUnsigned"))
        if len({x for x in s}) == 2 and c[0] in ("eq",) or len(set(s)) == 2 and c[0] == "nz" and c[1][0] in ("xor", "eq"):
            same = v if c[0] == "eq" or c[1][0] == "eq" else not v
    uns = [(c[1], v) for c, v in p.dec.items() if c[0] == "nz" and c[1][0] == "is" and c[1][1].startswith("isUnsigned")]
    if same is None and len(uns) >= 2:
        same = len({v for _, v in uns}) == 1
    if re.search(r"operator\(\)<", f.q):
        ctx.violation("type", where, "integers are given a floating-point type without being converted", key="type|fp")
    elif not ints:
        if not any(c[0] == "nz" and c[1][0] == "isa" and c[1][1].endswith("FloatType") for c in p.dec):
            ctx.notes.append("%s: a change of element type could not be followed" % f.q)
        else:
            ctx.violation("type", where, "an element type is changed without converting the elements", key="type|int")
    elif same is False:
        ctx.violation("type", where, "signed and unsigned elements are taken for one another", key="type|sign")
    elif same is None:
        ctx.violation("type", where, "an integer type is changed without regard to signedness", key="type|sign")
    else:
        ctx.ok("element types changed in place", f.q)


def named(f):
    d = {}
    for k, (n, _) in enumerate(f.params):
        d[("arg", k)] = d[("ld", ("arg", k), 0)] = n.split(".")[0]
    return d


def combined(ctx, m, w, f, p):
    """combine and where with one value for all elements on one side."""
    names = named(f)
    fn = f.q.rsplit("::", 1)[-1]
    for e in p.events:
        if e[0] != "make":
            continue
        where = here(f, e[1])
        if e[3] == "expandAndTransform":
            el, tr = w.base(e[4][1]), e[4][-1]
            if tr[0] != "fn":
                ctx.notes.append("%s: a transformation could not be followed" % f.q)
                continue
            caps = dict(tr[2])
            inner = re.search(r"(onnx_mlir::ElementsAttrBuilder::%s\(.*?\)::(?:\$_\d+|'lambda\d*'\([^()]*\)))" % fn, tr[1])
            ops = bodies(m, inner.group(1)) if inner else []
            for b in ops:
                lane(ctx, m, w, f, p, b, caps, el, names, where, fn)
            if not ops:
                ctx.notes.append("%s: a transformation's body was not found" % f.q)
        elif e[3] == "expand":
            el = w.base(e[4][1])
            dec = [(c[1][1], v) for c, v in p.dec.items() if c[0] == "nz" and c[1][0] in ("splatnum",) or
                   c[0] == "nz" and c[1][0] == "trunc" and c[1][1][0] == "splatnum"]
            for x, cond in choice(el):
                x = w.base(x)
                c = cond if cond is not None else next((v for _, v in dec), None)
                if names.get(x) not in ("lhs", "rhs") or c is None:
                    ctx.notes.append("%s: a choice could not be followed" % f.q)
                elif (names[x] == "lhs") != c:
                    ctx.violation("operands", where, "the other constant is chosen than the condition says", key="operands|choice")
                else:
                    ctx.ok("operands in place", f.q)


def choice(t):
    if t[0] == "sel":
        neg, c = False, t[1]
        while c[0] == "not":
            neg, c = not neg, c[1]
        return [(t[2], not neg), (t[3], neg)]
    return [(t, None)]


def lane(ctx, m, w, f, p, b, caps, el, names, where, fn):
    """The function applied to each element of one side: captured number and element in their places."""
    wb = Make(m, b)
    for q in wb.run():
        def back(t):
            if t[0] == "ld" and t[1] == ("arg", 0) and t[2] in caps:
                return caps[t[2]]
            if t == ("arg", 1):
                return ("each",)
            return t
        ind = [e for e in q.events if e[0] == "call" and e[3] == "<indirect>"]
        if fn == "combine":
            if len(ind) != 1:
                ctx.notes.append("%s: a combination was not recognised" % f.q)
                continue
            a = [back(x) for x in ind[0][4]]
            side = names.get(el)
            other = {"lhs": "rhs", "rhs": "lhs"}.get(side)
            num = next((names.get(x[1]) for x in a if x[0] == "splatnum"), None)
            if side is None or ("each",) not in a or num is None:
                ctx.notes.append("%s: a combination could not be followed" % f.q)
                continue
            if num != other:
                ctx.violation("operands", where, "an operand is combined with itself", key="operands|same|" + fn)
                continue
            if p.dec.get(("nz", ("splat", next(x[1] for x in a if x[0] == "splatnum")))) is not True:
                ctx.violation("operands", where, "one value is taken for all elements although they may differ", key="operands|splat|" + fn)
            want = [("each",) if side == "lhs" else "n", ("each",) if side == "rhs" else "n"]
            if (a[0] == ("each",)) != (want[0] == ("each",)):
                ctx.violation("operands", where, "the operands of a combination are exchanged", key="operands|order|" + fn)
            else:
                ctx.ok("operands in place", f.q)
        elif fn == "where":
            r = q.ret
            for t, v in choice(r):
                t = back(t)
                c = v if v is not None else next((x for k, x in q.dec.items() if k == ("nz", ("arg", 1))), None)
                if t[0] != "splatnum" or c is None:
                    ctx.notes.append("%s: a choice of elements could not be followed" % f.q)
                    continue
                if (names.get(t[1]) == "lhs") != c:
                    ctx.violation("operands", where, "the other element is chosen than the condition says", key="operands|where")
                elif p.dec.get(("nz", ("splat", t[1]))) is not True:
                    ctx.violation("operands", where, "one value is taken for all elements although they may differ", key="operands|splat|" + fn)
                else:
                    ctx.ok("operands in place", f.q)


def lanes(ctx, m, w, f, p):
    """combine and where element by element: numbers read at their own strides, in the operands' order."""
    names = named(f)
    fn = f.q.rsplit("::", 1)[-1]
    for e in p.events:
        if e[0] != "make" or e[3] != "fromWideNums":
            continue
        where = here(f, e[1])
        tr = e[4][-1]
        if tr[0] != "fn" or len(bodies(m, tr[1])) != 1:
            ctx.notes.append("%s: how elements are filled in could not be followed" % f.q)
            continue
        b = bodies(m, tr[1])[0]
        caps = {}
        for o, v in tr[2]:
            a = w.addr(v)
            x = p.mem.get(a)
            if x is not None:
                caps[o] = x
        wb = Fill(m, b, limit=4000, visits=2)
        wb.caps = caps
        try:
            qs = wb.run()
        except AnalysisBroken:
            ctx.notes.append("%s: too many paths" % f.q)
            continue
        done = False
        for q in qs:
            uses = []
            for x in q.events:
                if x[0] == "call" and qualified(x[3]) == NS + "restrideArray" and len(x[5]) == 7 and \
                        x[5][5][0] == "nums" and x[5][3][0] == "vdata" and x[5][3][1][0] == "numstrides":
                    if x[5][5][1] != x[5][3][1][1]:
                        ctx.violation("operands", here(b, x[1]), "an operand's elements are read at the strides of another",
                                      key="operands|strides|copy|" + fn)
                    else:
                        ctx.ok("operands in place", f.q)
            for x in q.events:
                if x[0] == "call" and x[3] == "<indirect>" and fn == "combine":
                    uses.append((x[1], x[4]))
                if x[0] == "write" and fn == "where":
                    for t, v in choice(x[4]):
                        if not find(t, lambda y: y[0] == "nums"):
                            continue
                        uses.append((x[1], (t, v if v is not None else q.dec.get(("nz", ("ld",) + tuple(x[3]))))))
            for line, u in uses:
                done = True
                if fn == "combine":
                    for k, side in enumerate(("lhs", "rhs")):
                        if k < len(u):
                            numat(ctx, wb, q, f, here(b, line), u[k], side, names, fn)
                else:
                    t, v = u
                    if v is None:
                        ctx.notes.append("%s: a choice of elements could not be followed" % f.q)
                    else:
                        numat(ctx, wb, q, f, here(b, line), t, "lhs" if v else "rhs", names, fn)
        if not done:
            ctx.notes.append("%s: how elements are combined could not be followed" % f.q)


def numat(ctx, wb, q, f, where, t, side, names, fn):
    """One number read: of which operand, at which offsets?"""
    n = find(t, lambda y: y[0] == "nums")
    s = find(t, lambda y: y[0] == "posof")
    if len(set(n)) != 1 or len(set(s)) != 1:
        ctx.notes.append("%s: an element read could not be followed" % f.q)
        return
    got = names.get(n[0][1])
    st = wb.arrays(q.mem).get(s[0][1])
    st = {x[1] for x in st} if st else set()
    if got != side:
        ctx.violation("operands", where, "the operands of a combination are exchanged", key="operands|lanes|" + fn)
    elif any(names.get(x) in ("cond", "lhs", "rhs") and names[x] != side for x in st):
        ctx.violation("operands", where, "an operand's elements are read at the strides of another", key="operands|strides|" + fn)
    elif not st:
        ctx.notes.append("%s: the strides of an operand could not be followed" % f.q)
    else:
        ctx.ok("operands in place", f.q)


def leaves(t):
    return leaves(t[2]) + leaves(t[3]) if t[0] == "sel" else [t]


class Fill(Make):
    """A closure that fills in elements; captured references stand for what the maker put there."""
    caps = {}

    def obj(self, st, p):
        if p[0] == "sel":
            return ("sel", p[1], self.obj(st, p[2]), self.obj(st, p[3]))
        a = self.addr(p)
        if a in st.mem:
            return st.mem[a]
        return self.ref(("ld",) + a)

    def ref(self, t):
        # *(this->capture)
        if t[0] == "ld" and t[1][0] == "ld" and t[1][1] == ("arg", 0) and t[1][2] in self.caps:
            c = self.caps[t[1][2]]
            if t[2] == 0 or c[0] == "nums":
                return c
        return t

    def load(self, st, v, i):
        a = self.addr(v)
        if a in st.mem:
            x = st.mem[a]
        else:
            x = self.ref(("ld",) + a)
        if v[0] == "at" and self.local(a) and x[0] == "vdata" and x[1][0] == "numstrides":
            pass
        return x

    def model(self, st, i, dem, args, cont):
        q = qualified(dem)
        if re.match(r"std::array<long, \d+(ul)?>::operator\[\]$", q) and len(args) == 2 and args[1][0] == "c":
            return ("posof", args[1][1])
        if q.startswith("llvm::ArrayRef<onnx_mlir::WideNum>") and method(dem) in ("data", "begin"):
            return self.obj(st, args[0])
        return super().model(st, i, dem, args, cont)

    def arrays(self, mem):
        """Arrays of strides handed to the iteration, in order."""
        by, out = {}, {}
        for (b, o), v in mem.items():
            if v[0] == "vdata" and isinstance(o, int):
                ls = leaves(v[1])
                if all(x[0] == "numstrides" for x in ls):
                    by.setdefault(b, []).append((o, ls))
        for vs in by.values():
            if len(vs) > 1:
                base = min(o for o, _ in vs)
                for o, v in vs:
                    out.setdefault((o - base) // 16, set()).update(v)
        return out


OPAQUE = ("call", "?", "phi")


def plain(t):
    return not find(t, lambda y: y[0] in OPAQUE)


def sources(ctx, m):
    """Where the parts of a constant are looked up, and where its numbers are with their strides."""
    for f in sorted(m.fns.values(), key=lambda x: x.name):
        if f.decl or not f.blocks:
            continue
        where = here(f)
        if f.q == B + "getElementsProperties":
            w = Make(m, f, limit=20000)
            for p in w.run():
                el = next((c[1][2] for c, v in p.dec.items() if c[0] == "nz" and c[1][0] == "isa" and v), None)
                if el is None:
                    continue
                disp = p.dec.get(("nz", ("isa", "mlir::DisposableElementsAttr", el)))
                sh = ("shape", ("typeof", el))
                if disp:
                    want = {"btype": [("own", el, "getBufferBType")], "strides": [("own", el, "strides")],
                            "buffer": [("own", el, "buffer")], "transformer": [("own", el, "transformer")]}
                else:
                    splat = p.dec.get(("nz", ("splat", el)))
                    want = {"btype": [("btypeof", ("elemof", el))]}
                    if splat is not None:
                        want["strides"] = [("getSplatStrides" if splat else "getDefaultStrides", sh)]
                for o, part in PARTS.items():
                    v = p.mem.get((("arg", 0), o))
                    if v is None or part not in want:
                        if part == "strides" and v is not None and v[0] in ("getSplatStrides", "getDefaultStrides"):
                            ctx.violation("source", where, "strides are chosen without regard to whether all elements are one", key="source|splat")
                        continue
                    if v in want[part]:
                        ctx.ok("parts looked up", f.q)
                    elif plain(v) and v[0] in ("own", "glob", "btypeof", "wide", "getSplatStrides", "getDefaultStrides", "sel", "c"):
                        ctx.violation("source", where, "a constant's %s is looked up wrongly" % part, key="source|" + part)
                    else:
                        ctx.notes.append("%s: the %s could not be followed" % (f.q, part))
        elif f.q == B + "getWideNumsAndExpandedStrides":
            w = Make(m, f, limit=20000)
            for p in w.run():
                S = p.mem.get((("arg", 5), 0))
                num = p.mem.get((("arg", 0), 0))
                one = next((t for e in p.events if e[0] == "call" and len(e[5]) == 3 and e[5][1] == ("c", 1)
                            for t in (e[5][2],) if t[0] == "splatnum"), None)
                if S is None:
                    if any(e[0] == "call" and ("arg", 5) in e[4] or e[0] == "write" and e[3][0] == ("arg", 5) for e in p.events):
                        ctx.notes.append("%s: strides could not be followed" % f.q)
                    elif num is not None and num[0] == "numsof":
                        ctx.violation("source", where, "numbers are returned without their strides", key="source|nostrides")
                    continue
                if num is not None and num[0] == "numsof":
                    el = num[2]
                    strides = ("own", el, "strides") if num[1] == "buffer" else ("getDefaultStrides", ("shape", ("typeof", el)))
                    want = [("expand", ("vdata", strides), ("arg", 3))]
                    if num[1] == "buffer" and p.dec.get(("nz", ("splat", el))):
                        want.append(("getSplatStrides", ("arg", 3)))
                elif one is not None:
                    want = [("getSplatStrides", ("arg", 3))]
                    if p.dec.get(("nz", ("splat", one[1]))) is not True:
                        ctx.violation("source", where, "one number is taken for all elements although they may differ", key="source|one")
                else:
                    ctx.notes.append("%s: numbers could not be followed" % f.q)
                    continue
                if S in want:
                    ctx.ok("numbers with their strides", f.q)
                elif plain(S) and S[0] in ("expand", "getSplatStrides", "getDefaultStrides", "own", "arg"):
                    ctx.violation("source", where, "numbers are returned with strides they are not stored at", key="source|pair")
                else:
                    ctx.notes.append("%s: strides could not be followed" % f.q)
        elif f.q in (B + "fromRawBytes", B + "fromWideNums"):
            w = Make(m, f, limit=20000)
            for p in w.run():
                for e in p.events:
                    if e[0] != "make":
                        continue
                    v = e[4]
                    if e[3] == "createWithDefaultStrides" and v[4][0] == "newbuffer":
                        n = v[4][1]
                        if n in (("mul", ("count", w.shape(v[1])), ("width", v[3])), ("mul", ("width", v[3]), ("count", w.shape(v[1])))):
                            ctx.ok("sizes of new buffers", f.q)
                        elif plain(n):
                            ctx.violation("size", here(f, e[1]), "a new buffer has not the size of its elements", key="size|buffer")
                        if not any(x[0] == "apply" for x in p.events):
                            ctx.violation("size", here(f, e[1]), "a new buffer is not filled in", key="size|fill")
                    if e[3] == "fromRawBytes" and f.q.endswith("fromWideNums"):
                        if v[3] == ("wide", ("btypeof", w.elem(v[1]))):
                            ctx.ok("sizes of new buffers", f.q)
                        elif plain(v[3]):
                            ctx.violation("size", here(f, e[1]), "wide numbers are stored as elements of another kind", key="size|wide")
        elif f.q == B + "allEqual":
            try:
                ps = Make(m, f, limit=20000).run()
            except AnalysisBroken as x:
                ctx.notes.append(str(x))
                continue
            for p in ps:
                for e in p.events:
                    if e[0] == "call" and method(e[3]) == "getBufferBytes":
                        own = [c[1][1] for c in p.dec if c[0] == "nz" and c[1][0] == "own"]
                        if any(p.dec.get(("nz", ("own", x, "isTransformedOrCast"))) is False for x in own):
                            ctx.ok("stored elements compared", f.q)
                        else:
                            ctx.violation("source", here(f, e[1]), "stored elements are compared although the constant's may be others",
                                          key="source|compare")
        elif f.q == B + "reshape":
            w = Make(m, f, limit=20000)
            for p in w.run():
                for e in p.events:
                    if e[0] == "make" and e[3] in ("fromRawBytes", "fromWideNums"):
                        laidout(ctx, m, w, f, p, e)


def opers(j):
    return [o for o in list(j.get("args") or []) + list(j.get("o") or []) if isinstance(o, list)]


def accompanied(ctx, m):
    """Numbers in the order of a buffer: their strides are looked at."""
    for f in sorted(m.fns.values(), key=lambda x: x.name):
        if f.decl or not f.blocks or not f.dem.startswith(B) and B not in f.dem:
            continue
        ins = [i for b in f.blocks for i in b]
        allocas = {i["i"] for i in ins if i["op"] == "alloca"}
        for i in ins:
            if i["op"] not in ("call", "invoke") or i.get("callee") not in m.fns or m.fns[i["callee"]].q != B + "getWideNumsAndExpandedStrides":
                continue
            s = i["args"][-1]
            if s[0] != "v" or s[1] not in allocas:
                continue
            al, used = {s[1]}, False
            more = True
            while more:
                more = False
                for j in ins:
                    if j["op"] in ("getelementptr", "bitcast", "phi", "select") and j.get("i") not in al and \
                            any(o == ["v", x] for x in al for o in opers(j)):
                        al.add(j["i"])
                        more = True
            for j in ins:
                if j is i or not any(o[0] == "v" and o[1] in al for o in opers(j)):
                    continue
                if j["op"] in ("call", "invoke"):
                    d = m.fns[j["callee"]].dem if j.get("callee") in m.fns else str(j.get("callee"))
                    if re.search(r"SmallVector\w*(<.*>)?::~?SmallVector\w*\(", d) or "llvm.lifetime" in d:
                        continue
                    if m.fns.get(j.get("callee")) is not None and m.fns[j["callee"]].q == B + "getWideNumsAndExpandedStrides":
                        continue
                    used = True
                elif j["op"] in ("load", "store"):
                    used = True
            if used:
                ctx.ok("numbers read with their strides", f.q)
            else:
                ctx.violation("source", here(f, i.get("l", 0)), "numbers in the order of a buffer are read without looking at their strides",
                              key="source|unused|" + f.q)


def laidout(ctx, m, w, f, p, e):
    """A constant laid out anew."""
    raw = e[3] == "fromRawBytes"
    fn = e[4][-1]
    where = here(f, e[1])
    bs = bodies(m, fn[1]) if fn[0] == "fn" else []
    if len(bs) != 1:
        ctx.notes.append("%s: how elements are filled in could not be followed" % f.q)
        return
    b = bs[0]
    caps = dict(fn[2])
    el = next((w.base(v) for _, v in fn[2]), None)
    if raw:
        tr = [p.dec.get(("nz", ("own", el, x))) for x in ("isTransformed", "isTransformedOrCast")]
        if False not in tr:
            ctx.violation("layout", where, "elements are copied without their transformation", key="layout|transformed")
            return
        if e[4][3] != ("own", el, "getBufferBType") and not (e[4][3] == ("own", el, "getBType") and tr[1] is False):
            if plain(e[4][3]):
                ctx.violation("layout", where, "elements are copied to a buffer for another kind", key="layout|btype")
                return
    wb = Fill(m, b, limit=4000, visits=2)
    wb.caps = {}
    this = ("ld", ("arg", 0), 0)
    for q in wb.run():
        done = False
        for x in q.events:
            if x[0] != "call":
                continue
            name, a = method(x[3]), x[5]
            if qualified(x[3]) == NS + "restrideArray" and len(a) == 7 and raw:
                done = True
                me = wb.base(a[0][1]) if a[0][0] == "own" else this
                want = (("own", me, "getBufferElementBytewidth"), ("shape", ("typeof", me)), ("vdata", ("own", me, "strides")), ("own", me, "bytes"))
                got = (a[0], a[1], a[3], a[5])
                for g, t, n in zip(got, want, ("width", "shape", "strides", "bytes")):
                    if g == t:
                        ctx.ok("elements laid out anew", b.q)
                    elif plain(g):
                        ctx.violation("layout", here(b, x[1]), "elements are laid out anew from another %s than the constant's" % n, key="layout|" + n)
                    else:
                        ctx.notes.append("%s: the %s could not be followed" % (b.q, n))
            elif name == "readWideNums" and "DisposableElementsAttr" in x[3] or name == "readElementsWideNums":
                done = True
                ctx.ok("elements laid out anew", b.q)
            elif name in ("getBufferAsWideNums", "getBufferBytes") and not raw:
                ctx.violation("layout", here(b, x[1]), "elements are copied in the order of the buffer", key="layout|order")
                done = True
        if not done:
            ctx.notes.append("%s: how elements are filled in could not be followed" % b.q)


def derived(ctx):
    m = build.load("elements", only=["ElementsAttrBuilder.cpp"], asserts=False, keep=[B + x for x in KEEP])
    ctx.units.update(u for u in m.units if not u.startswith(".."))
    kit = Ctor(m)
    ctx.rule("parts", "a constant made of another has its buffer, that buffer's element type and its transformation, followed by the new one if any")
    ctx.rule("strides", "shape and strides of a constant made of another are permuted, expanded or reshaped alike; newly filled elements have default strides")
    ctx.rule("type", "another element type is given without a transformation only where the wide numbers mean the same")
    ctx.rule("operands", "combined elements are those of the operands, in their order, read at their own strides; one number stands for all "
                         "elements only of a constant found to be a splat")
    ctx.rule("source", "parts and numbers looked up of a constant belong together")
    ctx.rule("layout", "elements laid out anew are copied with their own width, shape, strides and transformation")
    ctx.rule("size", "a new buffer has the size of its elements and is filled in")
    seen = set()
    for f in sorted(m.fns.values(), key=lambda x: x.name):
        if f.decl or not f.blocks or not f.q.startswith(B) or "functionTransformer" in f.q:
            continue
        calls = {m.fns[i["callee"]].q for b in f.blocks for i in b if i.get("callee") in m.fns}
        if B + "create" not in calls and f.q not in (B + "combine", B + "where"):
            continue
        w = Make(m, f, limit=20000)
        try:
            ps = w.run()
        except AnalysisBroken as e:
            ctx.notes.append(str(e))
            continue
        for p in ps:
            for e in p.events:
                if e[0] == "make":
                    made(ctx, m, w, f, p, e, kit)
            if f.q in (B + "combine", B + "where"):
                combined(ctx, m, w, f, p)
                lanes(ctx, m, w, f, p)
        seen.add(f.q)
    sources(ctx, m)
    accompanied(ctx, m)
    ctx.need("numbers read with their strides", 4)
    ctx.need("strides and shapes together", 4)

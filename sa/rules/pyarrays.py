"""R08: Python arrays and the tensors of a run hold the same data."""
import ast
import os
import re

from .. import build
from ..engine import AnalysisBroken
from ..paths import Path, Walker, has, find
from .pool import qualified, method

SRC = "src/Runtime/python/PyExecutionSession.cpp"
PYSRC = "src/Runtime/python/PyRuntime.py"
ARR = "pybind11::array"
VEC = re.compile(r"std::vector<pybind11::array, std::allocator<pybind11::array>>::")
STRING = 8


class Stop(Exception):
    pass


def fold(t):
    if t[0] in ("add", "sub", "mul", "and", "or", "shl") and len(t) == 3 and t[1][0] == "c" and t[2][0] == "c":
        a, b = t[1][1], t[2][1]
        return ("c", {"add": a + b, "sub": a - b, "mul": a * b, "and": a & b, "or": a | b, "shl": a << (b & 63)}[t[0]])
    if t[0] == "add" and t[2] == ("c", 0):
        return t[1]
    return t


class Py(Walker):
    """`numeric`: the arrays hold numbers, not objects."""

    def __init__(self, m, f, numeric, preset=(), **k):
        super().__init__(m, f, **k)
        self.numeric, self.preset = numeric, dict(preset)

    def boolish(self, a):
        return a[0] in ("call", "cond", "writeable", "isinst", "inserted")

    def run(self):
        return super().run()

    def block(self, b, prev, st, work):
        if not st.seq and not st.dec:
            st.dec.update(self.preset)
        try:
            super().block(b, prev, st, work)
        except Stop:
            self.paths.append(Path(st.ev, None, st.mem, st.dec))

    stop = None

    def norm(self, c):
        c, neg = super().norm(c)
        if c[0] == "eq" and c[1] == c[2]:
            return ("c", 1), neg
        if c[0] == "nz" and c[1][0] in ("inset",):
            return c, neg
        if c[0] == "eq" or c[0] == "nz" and c[1][0] == "eq":
            e = c if c[0] == "eq" else c[1]
            x, y = e[1], e[2]
            if x[0] == "find" and y[0] == "end":
                return ("nz", ("known", x[1], x[2])), not neg
            if y[0] == "find" and x[0] == "end":
                return ("nz", ("known", y[1], y[2])), not neg
            if x[0] == "c" and y[0] == "c":
                return ("c", int(x == y)), neg
            return ("eq",) + tuple(sorted((x, y), key=repr)), neg
        return c, neg

    def val(self, st, o):
        v = super().val(st, o)
        return fold(v)

    def obj(self, st, p):
        a = self.addr(p)
        if a in st.mem:
            return st.mem[a]
        return a[0] if a[0][0] == "elem" and a[1] == 0 else ("ld",) + a

    def put(self, st, p, v):
        st.mem[self.addr(p)] = v

    def call(self, st, i):
        c = i.get("callee")
        if c in ("memcpy", "memmove") or c and c.startswith(("llvm.memcpy", "llvm.memmove")):
            args = [self.val(st, a) for a in i["args"]]
            if args[2][0] != "c" or c in ("memcpy", "memmove"):
                self.event(st, i, "copy", args[0], args[1], args[2])
                if c in ("memcpy", "memmove"):
                    return args[0]
        if c and c.startswith("llvm."):
            return super().call(st, i)
        r = super().call(st, i)
        if self.stop and st.ev and st.ev[-1][0] == "call" and self.stop in st.ev[-1][3] and method(st.ev[-1][3]) == self.stop:
            raise Stop
        return r

    def model(self, st, i, dem, args, cont):
        a = args
        q, n = qualified(dem), method(dem)
        if q in ("std::move", "std::forward", "std::addressof") and len(a) == 1:
            return a[0]
        if n.startswith("~"):
            return ("void",)
        # -- arrays and friends
        g = re.match(r"bool pybind11::isinstance<pybind11::array_t<([^,]*(?:<[^>]*>)?), ", dem)
        if g:
            who = cont[0]
            if self.which(who) != "inputs":
                return ("c", 1)
            return ("c", int(self.numeric and g.group(1) == "float"))
        if q == "pybind11::dtype::kind":
            return ("c", ord("f" if self.numeric else "O"))
        if q in ("pybind11::array::array", "pybind11::dtype::dtype", "pybind11::capsule::capsule", "pybind11::object::object", "pybind11::str::str",
                 "pybind11::handle::handle"):
            t = ("null",) if len(a) == 1 else None
            p = dem[dem.rindex("::%s(" % q.rsplit("::", 1)[1]):]
            if t is not None:
                pass
            elif len(a) == 2 and re.search(r"\((pybind11::\w+ const&|pybind11::\w+&&)\)", p):
                t = self.obj(st, a[1])
            elif q.endswith("::array") and len(a) == 5:
                t = ("array", self.obj(st, a[1]), self.obj(st, a[2]), a[3], self.handle(st, a[4]), st.seq)
                st.seq += 1
            elif q.endswith("::array") and len(a) >= 3:
                t = ("array?",) + tuple(cont[1:]) + (st.seq,)
                st.seq += 1
            elif q.endswith("::dtype"):
                t = ("dtype", a[1])
            elif q.endswith("::capsule") and len(a) == 3:
                t = ("capsule", a[1], a[2], st.seq)
                st.seq += 1
            elif q.endswith("::str"):
                t = ("str", a[1])
            elif q.endswith("::handle"):
                t = a[1]
            if t is None:
                t = ("?",) + tuple(cont[1:])
            self.put(st, a[0], t)
            return ("void",)
        if re.match(r"pybind11::(array|dtype|capsule|object|str|handle)::operator=$", q):
            self.put(st, a[0], self.obj(st, a[1]))
            return a[0]
        if q == "pybind11::array::flags":
            return ("flags", self.obj(st, a[0]))
        if q in ("pybind11::array::writeable", "pybind11::array::nbytes", "pybind11::array::size", "pybind11::array::ndim"):
            return (n, self.obj(st, a[0]))
        if n in ("data", "mutable_data") and q.startswith("pybind11::array::"):
            return ("data", self.obj(st, a[0]))
        if q.startswith("pybind11::detail::any_container<long>::any_container"):
            self.put(st, a[0], self.obj(st, a[1]) if len(a) == 2 else ("vecof",) + tuple(a[1:]))
            return ("void",)
        if q in ("pybind11::object::release", "pybind11::handle::ptr"):
            o = self.obj(st, a[-1] if len(a) == 1 else a[1])
            if len(a) == 2:
                self.put(st, a[0], o)
            return o
        # -- vectors
        if q.startswith("std::vector<"):
            if n == "size":
                return ("size", a[0])
            if n in ("operator[]", "at"):
                return ("elem", a[0], cont[1] if a[1][0] != "c" else a[1])
            if n == "data":
                return ("data", a[0])
            if n in ("begin", "end", "cbegin", "cend"):
                return ("iter", a[0], ("c", 0)) if "begin" in n else ("iend", a[0])
            if n == "empty":
                return ("not", ("nz", ("size", a[0])))
            if n in ("emplace_back", "push_back"):
                self.event(st, i, "append", a[0], self.obj(st, a[1]) if "(pybind11" in dem or "array" in dem or "OMTensor*" in dem else cont[1])
                return ("void",)
            if n == "vector" and len(a) >= 3 and ("const*" in dem or "long*" in dem):
                self.put(st, a[0], ("vec", a[1], a[2]))
                return ("void",)
            if n == "vector" and len(a) == 2 and re.search(r"(&&|const&)\)$", dem) and "initializer" not in dem:
                self.put(st, a[0], self.obj(st, a[1]))
                return ("void",)
            if n in ("vector", "reserve", "resize", "clear"):
                return ("void",)
        if re.match(r"__gnu_cxx::__normal_iterator<.*>::operator(\*|->)$", q):
            it = self.obj(st, a[0])
            return ("elem", it[1], it[2]) if it[0] == "iter" else ("deref", it)
        if re.match(r"__gnu_cxx::__normal_iterator<.*>::operator\+\+$", q):
            it = self.obj(st, a[0])
            if it[0] == "iter":
                self.put(st, a[0], ("iter", it[1], fold(("add", it[2], ("c", 1)))))
            return a[0]
        if "__gnu_cxx::operator!=<" in dem or "__gnu_cxx::operator==<" in dem:
            e = ("eq", self.obj(st, a[0]), self.obj(st, a[1]))
            return ("not", e) if "operator!=" in dem else e
        # -- maps and sets of pointers
        if re.match(r"std::(unordered_)?(map|set)<void", q):
            key = self.obj(st, a[1]) if len(a) > 1 else None
            if n == "find":
                return ("find", a[0], key)
            if n in ("count", "contains"):
                return ("known", a[0], key)
            if n in ("end", "cend"):
                return ("end", a[0])
            if n in ("insert", "emplace", "try_emplace", "operator[]", "insert_or_assign"):
                kk = ("known", a[0], key)
                self.event(st, i, "record", a[0], key, self.obj(st, a[2]) if len(a) > 2 else None)
                if n == "operator[]":
                    return ("slot", a[0], key)
                return ("ins", ("ins", ("?",), 0, ("find", a[0], key)), 1, ("not", ("nz", kk)))
            return None
        g = re.match(r"std::_Rb_tree_(const_)?iterator<.*>::operator(->|\*)$", q) or re.match(r"std::__detail::_Node_(const_)?iterator<.*>::operator(->|\*)$", q)
        if g:
            it = self.obj(st, a[0])
            return ("node",) + it[1:] if it[0] == "find" else ("deref", it)
        if re.search(r"std::operator(!=|==)\(std::_Rb_tree_", dem) or re.search(r"std::__detail::operator(!=|==)\(", dem):
            e = ("eq", self.obj(st, a[0]), self.obj(st, a[1]))
            return ("not", e) if "operator!=" in dem else e
        # -- the C API
        if dem.startswith("omTensorGet") or dem.startswith("omTensorListGet"):
            if dem == "omTensorListGetOmtByIndex":
                return ("omt", a[0], a[1])
            return (dem,) + tuple(a)
        if dem == "omTensorBuildStringBuffer" or dem.startswith("omTensorBuildStringBuffer("):
            st.seq += 1
            return ("strbuf", self.obj(st, a[0]), st.seq)
        if ">::cast<std::vector<std::__cxx11::basic_string" in dem or "pybind11::object::cast<std::vector<" in dem or method(dem) == "cast":
            if len(a) == 2:
                self.put(st, a[0], ("strings", self.obj(st, a[1])))
                return ("void",)
        if dem == "malloc":
            st.seq += 1
            return ("malloc", a[0], st.seq)
        return None

    def handle(self, st, v):
        return v if v[0] not in ("loc", "at") else self.obj(st, v)

    def load(self, st, v, i):
        a = self.addr(v)
        if a in st.mem:
            return st.mem[a]
        if a[1] == 0 and a[0][0] == "elem":
            return a[0]
        return ("ld", a[0], a[1])

    def which(self, t):
        while t and t[0] in ("elem", "ld"):
            t = t[1]
        return {("arg", k): n for k, n in self.roles.items()}.get(t, "?")

    roles = {}


# ---------------------------------------------------------------- judging paths

def where(f, l):
    return "%s:%s" % (f.file, l or f.line)


CMP = {"sgt": lambda a, b: a > b, "slt": lambda a, b: a < b, "sge": lambda a, b: a >= b, "sle": lambda a, b: a <= b,
       "ugt": lambda a, b: a > b, "ult": lambda a, b: a < b, "uge": lambda a, b: a >= b, "ule": lambda a, b: a <= b, "eq": lambda a, b: a == b}


def sizes(dec, terms, upto=6):
    """The values in 0..upto that the decisions leave for an (equal) size."""
    ok = set(range(upto + 1))
    for c, v in dec.items():
        if c[0] == "nz" and c[1] in terms:
            ok = {s for s in ok if (s != 0) == v}
            continue
        e = c[1] if c[0] == "nz" and c[1][0] in CMP else c
        if e[0] in CMP and len(e) == 3:
            for x, y, sw in ((e[1], e[2], False), (e[2], e[1], True)):
                if x in terms and y[0] == "c":
                    ok = {s for s in ok if (CMP[e[0]](y[1], s) if sw else CMP[e[0]](s, y[1])) == v}
        elif e[0] == "eq":
            pass
    for c, v in dec.items():
        if c[0] == "eq" and any(x[0] == "iend" and ("size", x[1]) in terms for x in c[1:]):
            for x in c[1:]:
                if x[0] == "iter" and x[2][0] == "c":
                    ok = {s for s in ok if (s == x[2][1]) == v}
    return ok


def dec(p, t):
    """The truth of a term on a path, if it was decided."""
    return p.dec.get(("nz", t), p.dec.get(t))


def is_type(p, t, k):
    for c, v in p.dec.items():
        if c[0] == "eq" and ("c", k) in c[1:] and t in c[1:]:
            return v
        if c[0] == "eq" and t in c[1:] and v and any(x[0] == "c" and x[1] != k for x in c[1:]):
            return False
    for e in p.events:
        if e[0] == "if" and e[3][:2] == ("eq", t) and e[4] and e[3][2][0] == "c":
            return e[3][2][1] == k
    return None


def frees_argument(m, name, depth=0, k=0):
    """Does the function free what its k-th argument points to, on every path?"""
    f = m.fns.get(name)
    if name == "free":
        return k == 0
    if f is None or f.decl or not f.blocks or depth > 4:
        return None
    w = Walker(m, f, visits=2)
    w.run()
    if not w.paths:
        return None
    res = []
    for p in w.paths:
        n = 0
        for e in p.events:
            if e[0] == "call":
                for j, a in enumerate(e[4]):
                    if a == ("arg", k):
                        c = [x for x in m.fns.values() if x.dem == e[3]]
                        r = e[3] == "free" or bool(c) and frees_argument(m, c[0].name, depth + 1, j)
                        n += bool(r)
        res.append(n == 1)
    return all(res)


class Judge:
    def __init__(self, ctx, m, f):
        self.ctx, self.m, self.f = ctx, m, f
        self.seen = set()

    def v(self, rule, line, text):
        key = "%s|%s|%s" % (rule, self.f.q, text)
        if key not in self.seen:
            self.seen.add(key)
            self.ctx.violation(rule, where(self.f, line), text, key=key)

    def note(self, text):
        if text not in self.ctx.notes:
            self.ctx.notes.append(text)

    # -- inputs --
    def input_path(self, p, roles, want_string):
        ctx = self.ctx
        ins, shp, std = [("arg", k) for k in (roles["inputs"], roles["shapes"], roles["strides"])]
        run = [k for k, e in enumerate(p.events) if e[0] == "call" and method(e[3]) == "runImplementation"]
        if not run:
            return
        ev = p.events[:run[0]]
        line = p.events[run[0]][1]
        n = sizes(p.dec, {("size", ins)})
        for other, name in ((shp, "shapes"), (std, "strides")):
            if p.dec.get(("eq",) + tuple(sorted((("size", ins), ("size", other)), key=repr))) is not True:
                third = std if other == shp else shp
                both = [p.dec.get(("eq",) + tuple(sorted((("size", x), ("size", third)), key=repr))) for x in (ins, other)]
                if both != [True, True]:
                    self.v("count", line, "a run starts although the numbers of inputs and %s may differ" % name)
        lists = [e for e in ev if e[0] == "call" and e[3] == "omTensorListCreate"]
        if len(lists) != 1:
            self.v("list", line, "a run starts with %d input lists" % len(lists)) if not lists else self.note("several input lists")
            return
        le = lists[0]
        if p.events[run[0]][4][1:2] != (le[6],):
            self.v("list", line, "the list the run gets is not that of the inputs")
        vec = le[4][0][1] if le[4][0][0] == "data" else None
        if vec is None:
            self.note("the input list is not built from a vector")
            return
        if le[4][1] != ("size", vec):
            k = le[4][1]
            if k not in (("size", ins), ("size", shp), ("size", std)):
                self.v("list", le[1], "the list of inputs is given another number of tensors than were made")
        got = [e for e in ev if e[0] == "append" and e[3] == vec]
        ctx.ok("input paths")
        if len(n) == 1 and len(got) != list(n)[0]:
            self.v("list", line, "%d of %d inputs are passed to the model" % (len(got), list(n)[0]))
        for j, e in enumerate(got):
            self.input(p, ev, j, e, ins, shp, std, want_string)

    def input(self, p, ev, j, app, ins, shp, std, want_string):
        t = app[4]
        a, s, d = [("elem", x, ("c", j)) for x in (ins, shp, std)]
        mk = [e for e in ev if e[0] == "call" and e[6] == t]
        self.ctx.ok("inputs")
        if not mk or mk[0][3] != "omTensorCreateWithOwnership":
            self.note("input tensors are made by " + (mk[0][3] if mk else "?"))
            return
        e = mk[0]
        data, shape, rank, _, own = e[4]
        l = e[1]
        flag = dec(p, ("and", ("flags", a), ("c", 1)))
        if flag is None:
            flag = p.dec.get(("eq",) + tuple(sorted((("and", ("flags", a), ("c", 1)), ("c", 1)), key=repr)))
        if flag is not True:
            self.v("contiguous", l, "an input is passed to the model without testing that its data is contiguous")
        arrays = {x[2] for x in find((data, shape, rank), lambda y: y[0] == "elem" and y[1] in (ins, shp, std))}
        if arrays - {("c", j)}:
            self.v("input", l, "an input tensor is made from the arrays of another input")
            return
        # the shape
        if shape == ("data", s):
            self.ctx.ok("shapes")
        elif shape[0] == "data" and (shape[1] in (a, d)):
            self.v("input", l, "an input tensor is given another array as its shape")
        elif shape[0] == "data" and self.vec_of(p, shape[1], s):
            self.ctx.ok("shapes")
        else:
            self.note("the shape of an input tensor is not understood")
        if rank in (("size", s), ("size", d)):
            self.ctx.ok("ranks")
        elif rank[0] == "size" and rank[1] == a or rank == ("ndim", a) or rank[0] == "c":
            self.v("input", l, "an input tensor's rank is not the length of its shape")
        else:
            self.note("the rank of an input tensor is not understood")
        # the strides
        st = [x for x in ev if x[0] == "call" and x[3].startswith("omTensorSetStrides") and x[4][0] == t]
        if not st:
            self.v("input", l, "an input tensor is not given the strides of its data")
        else:
            y = st[-1][4][1]
            if st[-1][3].split("(")[0] != "omTensorSetStridesWithPyArrayStrides":
                self.v("input", st[-1][1], "strides in bytes are set as strides in elements")
            if y == ("data", d) or y[0] == "data" and self.vec_of(p, y[1], d):
                self.ctx.ok("strides")
            elif has(y, a) or has(y, s):
                self.v("input", st[-1][1], "an input tensor is given another array as its strides")
            else:
                self.note("the strides of an input tensor are not understood")
        # the data
        if want_string:
            if data[0] == "strbuf" and data[1] == ("strings", a):
                self.ctx.ok("data")
                if own == ("c", 0):
                    self.v("input", l, "the strings made for an input are not released with its tensor")
            elif data == ("data", a):
                self.v("input", l, "Python objects are passed to the model as C strings")
            else:
                self.note("the data of a string input is not understood")
            return
        wr = dec(p, ("writeable", a))
        if data == ("data", a):
            if own[0] == "c" and own[1] != 0:
                self.v("input", l, "the memory of a Python array is released with the tensor")
            elif wr is not True:
                self.v("readonly", l, "the memory of an array that may be read-only is passed to the model")
            else:
                self.ctx.ok("data")
        elif data[0] == "malloc":
            cp = [x for x in ev if x[0] == "copy" and x[3] == data]
            if not cp or cp[-1][4] != ("data", a):
                self.v("input", l, "an input tensor does not hold the data of its array")
            elif cp[-1][5] != ("nbytes", a) or data[1] != ("nbytes", a):
                if cp[-1][5][0] in ("size", "c") or data[1][0] in ("size", "c"):
                    self.v("input", cp[-1][1], "the copy of an array's data is not as long as the data")
                else:
                    self.note("the size of the copy of an input is not understood")
            else:
                self.ctx.ok("data")
            if own == ("c", 0):
                self.v("input", l, "the copy made of an input is not released with its tensor")
        elif has(data, a):
            self.note("the data of an input is not understood")
        else:
            self.v("input", l, "an input tensor does not hold the data of its array")

    def vec_of(self, p, v, arr):
        """Is v a vector holding the elements of an array of integers?"""
        t = p.mem.get(Walker.addr(v))
        return bool(t) and t[0] == "vec" and t[1] == ("data", arr) and has(t[2], ("size", arr)) or \
            bool(t) and t[0] == "vec" and t[1] == ("data", arr) and len(find(t[2], lambda y: y[0] == "elem")) > 0

    # -- outputs --
    def output_path(self, p, lst, force):
        """`lst`: the list whose tensors become the arrays returned."""
        res = ("arg", 0)
        apps = [(k, e) for k, e in enumerate(p.events) if e[0] == "append" and e[4][0] in ("array", "array?")]
        vecs = {e[3] for _, e in apps}
        if len(vecs) > 1:
            self.note("arrays are collected in several vectors")
            return
        size = {("omTensorListGetSize", lst)}
        n = sizes(p.dec, size)
        self.ctx.ok("output paths")
        if len(n) == 1 and len(apps) != list(n)[0]:
            self.v("outputs", self.f.line, "%d arrays are returned for %d tensors" % (len(apps), list(n)[0]))
        elif len(n) != 1 and apps:
            self.note("the number of outputs is not understood: %s" % sorted(n))
        for j, (k, e) in enumerate(apps):
            self.output(p, j, k, e, lst, force)

    def output(self, p, j, k, app, lst, force):
        l, A = app[1], app[4]
        t = ("omt", lst, ("c", j))
        self.ctx.ok("outputs")
        if A[0] == "array?" or len(A) != 6:
            self.note("an output array is not understood")
            return
        _, dt, shape, ptr, base, _ = A
        other = {x for x in find((dt, shape, ptr, base), lambda y: y[0] == "omt" and y[1] == lst)} - {t}
        if other:
            self.v("outputs", l, "the array of one output describes another output")
            return
        ty = ("omTensorGetDataType", t)
        string = is_type(p, ty, STRING)
        if has(dt, ty) or string is not None:
            self.ctx.ok("types")
        else:
            self.note("the type of an output array is not understood")
        sh = ("omTensorGetShape", t)
        if shape[0] == "vec":
            end = shape[2]
            if shape[1] != sh:
                self.v("outputs", l, "the shape of an output array is not that of its tensor")
            elif end[0] == "at" and end[1] == sh and end[2] == ("idx", ("omTensorGetRank", t)):
                self.ctx.ok("shapes")
            else:
                self.v("outputs", l, "the rank of an output array is not that of its tensor")
        else:
            self.note("the shape of an output array is not understood")
        data, alloc = ("omTensorGetDataPtr", t), ("omTensorGetAllocatedPtr", t)
        owning = dec(p, ("omTensorGetOwning", t))
        clears = [e for e in p.events if e[0] == "call" and e[3].startswith("omTensorSetOwning") and e[4][0] == t]
        cleared = bool(clears) and clears[-1][4][1] == ("c", 0)
        if any(e[4][1] not in (("c", 0),) for e in clears):
            self.v("ownership", clears[-1][1], "an output tensor is made the owner of memory")
        nobase = base in (("null",), ("c", 0))
        if ptr in (("c", 0),) or nobase:
            # a copy
            if ptr == data:
                if string is not False:
                    self.v("strings", l, "the pointers of a string output are returned as its values")
            elif ptr != ("c", 0):
                self.v("outputs", l, "an output array is made from memory that is not the tensor's data")
            else:
                cps = [e for e in p.events if e[0] == "copy" and e[3] == ("data", A)]
                strs = [e for e in p.events if e[0] == "write" and has(e[3], ("data", A))]
                if cps:
                    e = cps[-1]
                    if string is not False:
                        self.v("strings", e[1], "the pointers of a string output are returned as its values")
                    if e[4] != data:
                        self.v("outputs", e[1], "an output array does not hold its tensor's data")
                    elif e[5] not in (("omTensorGetBufferSize", t), ("nbytes", A)):
                        if e[5][0] in ("omTensorGetNumElems", "size", "c", "omTensorGetRank"):
                            self.v("outputs", e[1], "an output array does not hold all of its tensor's data")
                        else:
                            self.note("the size of the copy of an output is not understood")
                    else:
                        self.ctx.ok("copies")
                elif string is True:
                    for e in strs:
                        d, val = e[3], e[4]
                        i = d[1] if isinstance(d[1], tuple) else ("c", d[1])
                        s = find(val, lambda y: y[0] == "str") if val else []
                        if not s:
                            self.note("the strings of an output are not understood")
                            continue
                        src = s[0][1]
                        want = ("ld", data, d[1])
                        if src != want:
                            if src[0] == "ld" and src[1] == data:
                                self.v("strings", e[1], "a string of an output is put at another position")
                            else:
                                self.v("strings", e[1], "a string of an output is not that of the tensor")
                        else:
                            self.ctx.ok("strings")
                    cnt = sizes(p.dec, {("omTensorGetNumElems", t)})
                    if len(cnt) == 1 and len(strs) != list(cnt)[0]:
                        self.v("strings", l, "not all strings of an output are returned")
                    elif len(cnt) != 1 and strs:
                        self.v("strings", l, "the strings of an output are not counted by its number of elements")
                elif string is False:
                    self.v("outputs", l, "an output array is returned without the tensor's data")
                else:
                    self.note("what an output array holds is not understood")
            if owning is True and force is not None:
                known = [(c[1], v) for c, v in p.dec.items() if c[0] == "nz" and c[1][0] == "known" and c[1][2] == alloc]
                kd = [(c[1], v) for c, v in p.dec.items() if c[0] == "nz" and c[1][0] == "known" and c[1][2] == data]
                rel = [c for c in p.dec if c[0] == "eq" and has(c, alloc)]
                if not known:
                    if kd:
                        self.v("ownership", l, "outputs sharing their memory are told by their data, which may differ")
                    elif rel:
                        self.note("how copied outputs that share memory are told is not understood")
                    elif cleared:
                        self.v("ownership", l, "the memory of a copied output is never released")
                    else:
                        self.v("ownership", l, "the memory of outputs that share it is released by each of them")
                else:
                    seen = any(v for _, v in known)
                    rec = any(e[0] == "record" and e[4] == alloc for e in p.events)
                    if not rec and not seen:
                        self.v("ownership", l, "the memory of a copied output is not remembered")
                    if seen and not cleared:
                        self.v("ownership", l, "memory that another output releases is released again")
                    elif not seen and cleared:
                        self.v("ownership", l, "the memory of a copied output is never released")
                    else:
                        self.ctx.ok("ownership")
            elif owning is True and cleared:
                self.v("ownership", l, "the memory of a copied output is never released")
            return
        # handed over
        if ptr != data:
            self.v("outputs", l, "an output array starts elsewhere than its tensor's data" if has(ptr, t) else
                   "an output array is made from memory that is not the tensor's data")
        if string is not False:
            self.v("strings", l, "the pointers of a string output are returned as its values")
        if owning is not True:
            self.v("ownership", l, "memory the output does not own is handed over to be released")
        if force is not None and dec(p, force) is not False:
            self.v("forced", l, "an output is not copied although copies were asked for")
        if not cleared:
            self.v("ownership", l, "memory handed over to an array is also released with the tensor")
        if base[0] == "capsule":
            if base[1] != alloc:
                self.v("ownership", l, "an output array releases another address than was allocated")
            if base[2][0] == "glob":
                r = frees_argument(self.m, base[2][1])
                if r is False:
                    self.v("ownership", l, "the memory of an output is not released with its array")
                elif r is None:
                    self.note("the function that releases an output is not understood")
            else:
                self.note("the function that releases an output is not understood")
            rec = [e for e in p.events if e[0] == "record" and e[5] and has(e[5], base)]
            slot = [w for a, w in p.mem.items() if a[0][0] == "slot" and w == base]
            looked = [c[1][2] for c, v in p.dec.items() if c[0] == "nz" and c[1][0] == "known" and not v and c[1][2] in (data, alloc)]
            if not rec and not slot:
                self.v("ownership", l, "outputs sharing memory are each given a release of it")
            elif not looked:
                self.v("ownership", l, "outputs sharing memory are each given a release of it")
            else:
                if any(e[4] == data for e in rec) or alloc not in looked and alloc != data:
                    self.v("ownership", l, "outputs sharing their memory are told by their data, which may differ")
                elif rec and rec[-1][4] != alloc:
                    self.v("ownership", l, "the memory of an output is remembered under another address")
                self.ctx.ok("ownership")
        else:
            nd = find(base, lambda y: y[0] in ("node", "slot"))
            if nd and nd[0][-1] == alloc:
                self.ctx.ok("ownership")
            elif nd and nd[0][-1] == data:
                self.v("ownership", l, "outputs sharing their memory are told by their data, which may differ")
            else:
                self.note("what releases an output array is not understood")


# ---------------------------------------------------------------- the Python layer

class PyRun:
    """The arguments the Python methods give the session, as terms of the inputs."""

    def __init__(self, tree):
        self.tree = tree
        self.fns = {n.name: n for n in ast.walk(tree) if isinstance(n, ast.FunctionDef)}
        self.calls = []

    def call(self, fn, args, depth=0):
        env = {}
        names = [a.arg for a in fn.args.args]
        for n, v in zip(names, args):
            env[n] = v
        for n, d in zip(names[len(names) - len(fn.args.defaults):], fn.args.defaults):
            env.setdefault(n, ("const", getattr(d, "value", None)))
        return self.body(fn.body, env, depth)

    def body(self, stmts, env, depth):
        for s in stmts:
            r = self.stmt(s, env, depth)
            if r is not None:
                return r
        return None

    def assign(self, tgt, v, env):
        if isinstance(tgt, ast.Name):
            env[tgt.id] = v
        elif isinstance(tgt, (ast.Tuple, ast.List)):
            for k, x in enumerate(tgt.elts):
                self.assign(x, v[1][k] if v[0] == "tuple" and k < len(v[1]) else ("?",), env)

    def stmt(self, s, env, depth):
        if isinstance(s, ast.Assign):
            v = self.ev(s.value, env, depth)
            for t in s.targets:
                self.assign(t, v, env)
        elif isinstance(s, ast.AnnAssign) and s.value:
            self.assign(s.target, self.ev(s.value, env, depth), env)
        elif isinstance(s, ast.AugAssign) and isinstance(s.op, ast.Add) and isinstance(s.target, ast.Name):
            v, c = self.ev(s.value, env, depth), env.get(s.target.id, ("?",))
            if v[0] == "list" and c[0] == "list":
                c[1].extend(v[1])
        elif isinstance(s, ast.For):
            it = self.ev(s.iter, env, depth)
            self.assign(s.target, self.each(it), env)
            r = self.body(s.body, env, depth)
            if r is not None:
                return ("?",)
        elif isinstance(s, ast.Return):
            return self.ev(s.value, env, depth) if s.value else ("const", None)
        elif isinstance(s, ast.If):
            a, b = dict(env), dict(env)
            ra, rb = self.body(s.body, a, depth), self.body(s.orelse, b, depth)
            for k in set(a) | set(b):
                x, y = a.get(k), b.get(k)
                env[k] = x if x == y else ("alt", x or ("?",), y or ("?",))
        elif isinstance(s, ast.Expr):
            self.ev(s.value, env, depth)
        elif isinstance(s, (ast.With, ast.Try)):
            return self.body(s.body, env, depth)
        return None

    def each(self, it):
        if it == ("inputs",):
            return ("x",)
        if it[0] == "list":
            return it[1][0] if len(it[1]) == 1 else ("?",)
        if it[0] == "enumerate":
            return ("tuple", [("i",), self.each(it[1])])
        if it[0] == "zip":
            return ("tuple", [self.each(x) for x in it[1]])
        return ("?",)

    def ev(self, e, env, depth):
        if isinstance(e, ast.Name):
            return env.get(e.id, ("name", e.id))
        if isinstance(e, ast.Constant):
            return ("const", e.value)
        if isinstance(e, (ast.List,)):
            return ("list", [self.ev(x, env, depth) for x in e.elts])
        if isinstance(e, ast.Tuple):
            return ("tuple", [self.ev(x, env, depth) for x in e.elts])
        if isinstance(e, (ast.ListComp, ast.GeneratorExp)) and len(e.generators) == 1:
            g = e.generators[0]
            env2 = dict(env)
            self.assign(g.target, self.each(self.ev(g.iter, env, depth)), env2)
            v = self.ev(e.elt, env2, depth)
            return ("list", [v]) if not g.ifs else ("?",)
        if isinstance(e, ast.Subscript):
            b = self.ev(e.value, env, depth)
            i = self.ev(e.slice, env, depth)
            if b == ("inputs",) and i == ("i",):
                return ("x",)
            if b[0] == "list" and i == ("i",) and len(b[1]) == 1:
                return b[1][0]
            return ("?",)
        if isinstance(e, ast.IfExp):
            return ("alt", self.ev(e.body, env, depth), self.ev(e.orelse, env, depth))
        if isinstance(e, ast.Attribute):
            b = self.ev(e.value, env, depth)
            if e.attr in ("shape", "strides", "T", "flags", "dtype"):
                return (e.attr, b)
            return ("attr", b, e.attr)
        if isinstance(e, ast.Call):
            return self.evcall(e, env, depth)
        return ("?",)

    def evcall(self, e, env, depth):
        args = [self.ev(a, env, depth) for a in e.args]
        kw = {k.arg: self.ev(k.value, env, depth) for k in e.keywords if k.arg}
        f = e.func
        if isinstance(f, ast.Name):
            if f.id == "enumerate":
                return ("enumerate", args[0])
            if f.id == "zip":
                return ("zip", args)
            if f.id in ("list", "tuple") and len(args) == 1:
                return args[0]
            if f.id in self.fns and depth < 4:
                return self.call(self.fns[f.id], args, depth + 1) or ("const", None)
            return ("?",)
        if not isinstance(f, ast.Attribute):
            return ("?",)
        b = self.ev(f.value, env, depth)
        n = f.attr
        if b[0] == "list" and n == "append":
            b[1].append(args[0])
            return ("const", None)
        if b == ("name", "np") or b == ("name", "numpy"):
            if n in ("ascontiguousarray",):
                return ("contig", args[0], "at least one dimension")
            if n in ("asarray", "array", "require"):
                o = kw.get("order") or (args[2] if len(args) > 2 and n == "asarray" else None)
                if args[0][0] in ("shape", "strides"):
                    return args[0]
                if o == ("const", "C"):
                    return ("contig", args[0])
                return ("same", args[0])
            if n in ("ravel",) and len(args) == 1:
                return ("flat", args[0])
            if n == "reshape" and args[1] in (("const", -1), ("tuple", [("const", -1)])):
                return ("flat", args[0])
            return ("?",)
        if n in ("flatten", "ravel"):
            return ("flat", b) if args in ([], [("const", "C")]) and kw.get("order") in (None, ("const", "C")) else ("flat?", b)
        if n == "reshape" and not kw:
            return ("flat", b)
        if n == "copy":
            return ("contig", b) if kw.get("order") in (None, ("const", "C")) else ("same", b)
        if n == "transpose":
            return ("T", b)
        if n == "_runImplementation":
            self.calls.append((e.lineno, args))
            return ("results",)
        if f.value and (isinstance(f.value, ast.Name) and f.value.id in ("self", "cls") or "super" in ast.dump(f.value)) and n in self.fns and depth < 4:
            fn = self.fns[n]
            static = any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in fn.decorator_list)
            return self.call(fn, args if static else [("self",)] + args, depth + 1) or ("const", None)
        return ("?",)


def strip(t, contig=False):
    """The array a term has the elements of; whether it is contiguous."""
    while t[0] in ("contig", "same"):
        contig = contig or t[0] == "contig"
        t = t[1]
    return t, contig


def python(ctx):
    path = os.path.join(build.REPO, PYSRC)
    if not os.path.exists(path):
        ctx.notes.append("no " + PYSRC)
        return
    try:
        tree = ast.parse(open(path).read())
    except SyntaxError as e:
        raise AnalysisBroken("%s does not parse: %s" % (PYSRC, e))
    ctx.units.add(PYSRC)

    def v(line, text):
        ctx.violation("session arguments", "%s:%d" % (PYSRC, line), text, key="py|" + text)
    done = 0
    for name in ("run", "run_debug"):
        r = PyRun(tree)
        fn = r.fns.get(name)
        if fn is None:
            ctx.notes.append("no method " + name)
            continue
        r.call(fn, [("self",), ("inputs",)] + [("flag", a.arg) for a in fn.args.args[2:]])
        if not r.calls:
            ctx.notes.append("%s does not start a run that is understood" % name)
        for line, args in r.calls:
            done += 1
            ctx.ok("python runs", name)
            if len(args) < 5:
                ctx.notes.append("%s passes %d arguments" % (name, len(args)))
                continue
            lists = []
            for a in args[:3]:
                lists.append(a[1][0] if a[0] == "list" and len(a[1]) == 1 else None)
            if None in lists:
                if any(a[0] == "list" and len(a[1]) > 1 for a in args[:3]):
                    v(line, "%s passes a list with more than one entry per input" % name)
                else:
                    ctx.notes.append("the lists %s passes are not understood" % name)
            else:
                d, s, t = lists
                if d[0] in ("shape", "strides") or d[0] == "flat?" or d[0] in ("x", "contig", "same") or d[0] == "flat" and strip(d[1])[0] != ("x",):
                    v(line, "the data %s passes is not the flattened input" % name) if d[0] != "flat?" else \
                        v(line, "%s flattens the data in another order than the session reads it" % name)
                elif d[0] == "flat":
                    ctx.ok("python data")
                else:
                    ctx.notes.append("the data %s passes is not understood" % name)
                if s[0] == "shape":
                    y, _ = strip(s[1])
                    if y[0] == "flat":
                        v(line, "the shape %s passes is that of the flattened data" % name)
                    elif y == ("x",):
                        if "at least" in repr(s[1]):
                            v(line, "the shape %s passes gives scalars a dimension" % name)
                        ctx.ok("python shapes")
                    elif y[0] == "T":
                        v(line, "the shape %s passes is not the input's" % name)
                    else:
                        ctx.notes.append("the shape %s passes is not understood" % name)
                elif s[0] in ("strides", "flat", "x"):
                    v(line, "what %s passes as the shape is something else" % name)
                else:
                    ctx.notes.append("the shape %s passes is not understood" % name)
                if t[0] == "strides":
                    y, c = strip(t[1])
                    if y[0] == "flat" or y[0] == "T":
                        v(line, "the strides %s passes are not those of the input" % name)
                    elif y == ("x",) and not c:
                        v(line, "the strides %s passes are those of an array whose data may be laid out differently from the flattened data" % name)
                    elif y == ("x",):
                        ctx.ok("python strides")
                    else:
                        ctx.notes.append("the strides %s passes are not understood" % name)
                elif t[0] in ("shape", "flat", "x"):
                    v(line, "what %s passes as the strides is something else" % name)
                else:
                    ctx.notes.append("the strides %s passes are not understood" % name)
            flags = [a.arg for a in fn.args.args[2:]]
            for k, a in enumerate(args[3:5]):
                if name == "run" and a not in (("const", False),):
                    if a[0] == "const":
                        v(line, "%s turns on debugging of the session" % name)
                if name == "run_debug" and len(flags) >= 2 and a != ("flag", flags[k]) and a[0] in ("flag", "const"):
                    v(line, "%s does not pass on its option %s" % (name, flags[k]))
            ctx.ok("python options")
    if not done:
        ctx.notes.append("no run started from Python is understood")


def arrays(ctx, tier):
    ctx.rule("count", "a run starts only with as many shapes and strides as inputs")
    ctx.rule("contiguous", "only contiguous arrays are passed to the model")
    ctx.rule("readonly", "the memory of a read-only array is not passed to the model, a copy is")
    ctx.rule("input", "each input tensor has the data, shape and strides of its own arrays, and releases exactly what was allocated for it")
    ctx.rule("list", "the run gets the list of all input tensors in order")
    ctx.rule("outputs", "each output tensor becomes one array, in order, with its type, shape and data")
    ctx.rule("strings", "string outputs become arrays of the strings themselves, each at its position")
    ctx.rule("ownership", "memory handed to an array is released by it, once, at the allocated address and not by the tensor; other memory is copied")
    ctx.rule("forced", "with copies asked for no memory is handed over")
    ctx.rule("session arguments", "the Python methods pass each input flattened, its shape, and the strides of the flattened data")
    m = build.load("pyrt", only=[os.path.basename(SRC)])
    ctx.units.update(m.units)
    run = [f for f in m.fns.values() if not f.decl and f.blocks and f.repo and f.file.endswith("PyExecutionSession.cpp") and
           re.search(r"PyExecutionSession::pyRun\w*$", f.q)]
    if not run:
        raise AnalysisBroken("the bindings' run function was not found")
    fill = [f for f in m.fns.values() if not f.decl and f.blocks and re.search(r"PyExecutionSession::pyFillInput\w*$", f.q)]
    for f in run:
        names = [p[0] for p in f.params]
        arrs = [k for k, p in enumerate(f.params) if p[1] == "ptr"][2:]
        if len(arrs) < 3:
            ctx.notes.append("not analysed: " + f.q)
            continue
        roles = dict(zip(("inputs", "shapes", "strides"), arrs[:3]))
        flags = [k for k, p in enumerate(f.params) if p[1].startswith("i1")]
        force = ("arg", flags[-1]) if len(flags) >= 2 else None
        ctx.ok("functions", f.q)
        j = Judge(ctx, m, f)
        for numeric in (True, False):
            w = Py(m, f, numeric, visits=3, limit=60000)
            w.roles = {v: k for k, v in roles.items()}
            w.stop = "runImplementation"
            w.run()
            for p in w.paths:
                j.input_path(p, roles, not numeric)
        ins = ("arg", roles["inputs"])
        pre = {("nz", ("size", ins)): False}
        for x in ("shapes", "strides"):
            pre[("eq",) + tuple(sorted((("size", ins), ("size", ("arg", roles[x]))), key=repr))] = True
        w = Py(m, f, True, pre, visits=4, limit=3000000)
        w.roles = {v: k for k, v in roles.items()}
        w.run()
        for p in w.paths:
            r = [e[6] for e in p.events if e[0] == "call" and method(e[3]) == "runImplementation"]
            if r:
                j.output_path(p, r[0], force)
    for f in fill:
        ctx.ok("functions", f.q)
        j = Judge(ctx, m, f)
        w = Py(m, f, True, visits=3, limit=60000)
        w.run()
        for p in w.paths:
            lst = {t[1] for e in p.events if e[0] == "call" and e[3] == "omTensorListGetOmtByIndex" for t in [("", e[4][0])]}
            if len(lst) == 1:
                j.output_path(p, lst.pop(), None)
    python(ctx)
    ctx.need("inputs", 4)
    ctx.need("outputs", 8)
    return ("The paths of the bindings' run and fill functions are enumerated with arrays, tensors, vectors and maps as symbolic objects; each tensor made "
            "and each array returned is compared with what its counterpart holds. The Python methods are interpreted over terms of one input.")

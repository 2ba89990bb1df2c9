"""O01: a compiler option is set, read back and cleared as itself.

The routines are followed call after call over texts: a text is the literals it
is made of and `<names>` for whatever was passed.  A library call that is not
known here makes what follows unclear: it is noted, never reported."""
import os
import re

from .. import build
from ..engine import AnalysisBroken
from .tensors import Tens

NS = "onnx_mlir::"
STR = "std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>"
IGNORED = re.compile(r"llvm::raw_ostream::|llvm::(dbgs|errs|outs)\(|llvm::Twine|std::allocator<|::~|__gnu_cxx::__ops|std::operator\||"
                     r"std::__new_allocator|onnx_mlir::accel::operator<<\(llvm|llvm::isCurrentDebugType|llvm::operator<<\(llvm::raw_ostream")
HIDE = ("unclear", 0)
SHIM = '''#include "src/Compiler/CompilerOptions.hpp"
using namespace onnx_mlir;
'''


class Text(Tens):
    """Follows strings, vectors of them, string streams and a map of vectors."""
    depth = 0

    def __init__(self, mod, f, pin, mem, world):
        super().__init__(mod, f, pin, mem, visits=60, limit=60000)
        self.w = world

    # -- objects --
    def get(self, st, p, kind):
        a = self.addr(p)
        if a[0][0] == "el" and kind == "S" and a[1] == 0:
            v = st.mem.get((a[0][1], ("V", a[0][2])))
            return v[a[0][3]] if v is not None and 0 <= a[0][3] < len(v) and isinstance(v[a[0][3]], str) else None
        k = (a[0], (kind, a[1]))
        if k in st.mem:
            return st.mem[k]
        if a[0][0] == "glob" and kind == "S":
            return self.w["init"].get(a[0][1], "")
        if a[0][0] in ("glob", "slot") and kind == "V":
            return ()
        return None

    def set(self, st, p, kind, v):
        a = self.addr(p)
        if v is None:
            return self.unclear(st, "a text that is not known")
        if a[0][0] == "el":
            k = (a[0][1], ("V", a[0][2]))
            vec = list(st.mem.get(k, ()))
            if kind == "S" and a[0][3] < len(vec):
                vec[a[0][3]] = v
                st.mem[k] = tuple(vec)
            return
        st.mem[(a[0], (kind, a[1]))] = v

    def unclear(self, st, what):
        st.mem.setdefault(HIDE, ("text", what))
        return ("?",)

    def cstr(self, st, v):
        a = self.addr(v)
        if a[0][0] == "glob" and isinstance(a[1], int):
            g = self.m.globals.get(a[0][1], {})
            if g.get("const") and (g.get("init") or [""])[0] == "s":
                return g["init"][1][a[1]:].split("\0")[0]
            if g.get("const") and (g.get("init") or [""])[0] in "nz":
                return ""
        if a[0][0] == "cs":
            return self.get(st, a[0][1], "S")
        return None

    def load(self, st, v, i):
        a = self.addr(v)
        if a not in st.mem and a[0][0] == "glob":
            if "DebugFlag" in a[0][1]:
                return ("c", 0)
            c = self.m.globals.get(a[0][1], {}).get("init")
            if c and c[0] in "nz":
                return ("c", 0)
            if c and c[0] == "c" and a[1] == 0:
                return ("c", c[1])
        if a not in st.mem and a[0][0] == "el" and a[1] == 0:
            vec = st.mem.get((a[0][1], ("V", a[0][2])), ())
            if a[0][3] < len(vec) and not isinstance(vec[a[0][3]], str):
                return vec[a[0][3]]
        return super().load(st, v, i)

    def icmp(self, pred, a, b):
        x, y = self.addr(a), self.addr(b)
        if x[0] == y[0] and isinstance(x[1], int) and isinstance(y[1], int) and a[0] != "c" and pred in ("eq", "ne"):
            return ("c", int((x[1] == y[1]) == (pred == "eq")))
        if a[0] == "it" and b[0] == "it" and a[1] == b[1] and pred in ("eq", "ne"):
            return ("c", int((a == b) == (pred == "eq")))
        return super().icmp(pred, a, b)

    def arg(self, st, i, k, args):
        """A text passed as an object or as characters."""
        s = self.cstr(st, args[k])
        return s if s is not None else self.get(st, args[k], "S")

    def it(self, st, p):
        if p[0] == "it":
            return p
        v = st.mem.get(self.addr(p))
        return v if v is not None and v[0] == "it" else None

    def same(self, st, x, y):
        if x is None or y is None:
            return self.unclear(st, "a comparison")
        return ("c", int(x == y))

    # -- calls --
    def model(self, st, i, dem, args, cont):
        d = dem.replace(STR, "STR").replace("std::vector<STR, std::allocator<STR>>", "VEC").replace("std::vector<onnx_mlir::accel::Accelerator::Kind, "
                                                                                                    "std::allocator<onnx_mlir::accel::Accelerator::Kind>>", "VEC")
        r = self.known(st, i, d, args)
        if r is not None:
            return r
        f = self.m.fns.get(i.get("callee"))
        if f is not None and f.blocks and self.depth < 3:
            got = self.nested(st, f, args)
            if got is not None:
                return got
        if IGNORED.search(d):
            return ("void",)
        if d.startswith("std::__cxx11::basic_stringstream") or d.startswith("std::__cxx11::basic_ostringstream"):
            pass
        return self.unclear(st, d)

    def nested(self, st, f, args):
        k = type(self)(self.m, f, dict(enumerate(args)), dict(st.mem), self.w)
        k.depth = self.depth + 1
        # the callee's own objects must not be mistaken for the caller's
        if any(a[0] == "loc" for a in args):
            k.depth = self.depth + 1
        ps = k.run()
        if len(ps) != 1 or ps[0].ret is None:
            return None
        st.mem.update({a: v for a, v in ps[0].mem.items() if a[0][0] != "loc"})
        return ps[0].ret

    def known(self, st, i, d, args):
        S = lambda k: self.get(st, args[k], "S")
        V = lambda k: self.get(st, args[k], "V")
        if d.split("(")[0] in ("atoi", "strtol", "__isoc23_strtol", "atol"):
            s = self.cstr(st, args[0])
            if s is not None and s in self.w.get("numbers", {}):
                return ("c", self.w["numbers"][s])
            return None
        if d == "getenv":
            return ("c", 0)
        m = re.match(r"STR::(~?\w+|operator\W+)(<.*?>)?\((.*)\)( const)?(&|&&)?$", d)
        if m:
            return self.string(st, i, m.group(1), m.group(3), args)
        m = re.match(r"(?:__gnu_cxx::__normal_iterator<[^()]*> )?VEC::(~?\w+|operator\W+)(<.*?>)?\((.*)\)( const)?$", d)
        if m:
            return self.vector(st, i, m.group(1), m.group(3), args)
        m = re.match(r"(?:bool )?std::operator(==|!=)<", d)
        if m and len(args) == 2:
            r = self.same(st, self.arg(st, i, 0, args), self.arg(st, i, 1, args))
            return ("c", int((r[1] == 1) == (m.group(1) == "=="))) if r[0] == "c" else r
        if d.startswith("STR std::operator+<") and len(args) == 3:
            x, y = [self.arg(st, i, k, args) if args[k][0] != "c" else chr(args[k][1] & 255) for k in (1, 2)]
            self.set(st, args[0], "S", x + y if x is not None and y is not None else None)
            return ("void",)
        if d.startswith(("std::__cxx11::to_string(", "std::to_string(")):
            self.set(st, args[0], "S", str(args[1][1]) if args[1][0] == "c" else None)
            return ("void",)
        m = re.match(r"std::__cxx11::basic_(o|i)?stringstream<.*?>>?::(~?\w+)\((.*)\)", d)
        if m:
            n = m.group(2)
            if n.startswith("basic_"):
                self.set(st, args[0], "S", S(1) if STR[:20] in m.group(3) or "STR" in m.group(3) else "")
                for o in (0, 16):
                    st.mem[(self.addr(self.off(args[0], o))[0], ("O", o))] = args[0]
                return ("void",)
            if n == "str" and len(args) == 2:
                self.set(st, args[0], "S", S(1))
                return ("void",)
            return None
        if "operator<<" in d and d.startswith(("std::basic_ostream", "std::ostream", "onnx_mlir::accel::operator<<(std::ostream")):
            a = self.addr(args[0])
            o = st.mem.get((a[0], ("O", a[1])))
            if o is None:
                return self.unclear(st, "output")
            if "accel" in d:
                t = "<accel %s>" % (args[1][1:],)
            elif args[1][0] == "c":
                t = chr(args[1][1] & 255) if "char)" in d else str(args[1][1])
            else:
                t = self.arg(st, i, 1, args)
            s = self.get(st, o, "S")
            self.set(st, o, "S", s + t if s is not None and t is not None else None)
            return args[0]
        if d.startswith("std::istream_iterator<"):
            if "~" in d:
                return ("void",)
            if "::istream_iterator()" in d:
                st.mem[(self.addr(args[0])[0], ("I", self.addr(args[0])[1]))] = ("end",)
            elif "istream&" in d:
                a = self.addr(args[1])
                o = st.mem.get((a[0], ("O", a[1])))
                s = self.get(st, o, "S") if o else None
                st.mem[(self.addr(args[0])[0], ("I", self.addr(args[0])[1]))] = ("words",) + tuple(s.split(" ")) if s else ("words",)
            else:
                a, b = self.addr(args[0]), self.addr(args[1])
                st.mem[(a[0], ("I", a[1]))] = st.mem.get((b[0], ("I", b[1])))
            return ("void",)
        m = re.match(r"(?:decltype\(.*?\) |auto )?std::(c?begin|c?end)<", d)
        if m and len(args) == 1:
            return self.vector(st, i, m.group(1), "", args)
        if "__normal_iterator<" in d:
            m = re.search(r">::(operator\S+?|__normal_iterator|base)(<.*>)?\(([^()]*)\)( const)?$", d)
            if m:
                return self.iterator(st, i, m.group(1), m.group(3), args)
            m = re.match(r"(?:bool )?__gnu_cxx::operator(==|!=)<", d)
            if m:
                x, y = self.it(st, args[0]), self.it(st, args[1])
                if x and y and x[1] == y[1]:
                    return ("c", int((x == y) == (m.group(1) == "==")))
                return self.unclear(st, "iterators")
            m = re.search(r" std::(find|remove_if|find_if|remove)<", d)
            if m:
                return self.algorithm(st, i, m.group(1), args)
        m = re.match(r"std::map<STR, VEC.*>::(operator\[\]|at)\(", d)
        if m:
            k = S(1)
            return ("slot", self.addr(args[0])[0], k) if k is not None else self.unclear(st, "a key")
        m = re.search(r"std::(min|max)<(long|int|unsigned long)>\(", d)
        if m:
            x, y = [self.load(st, a, {"ty": "i64"}) for a in args[:2]]
            if x[0] == y[0] == "c":
                return args[0 if (y[1] >= x[1]) == (m.group(1) == "min") else 1]
            return None
        m = re.search(r"std::get<([01])ul?, onnx_mlir::OptionKind, STR>\(", d)
        if m:
            return self.off(args[0], 8) if m.group(1) == "1" else args[0]
        if d.startswith(("llvm::SmallVectorTemplateCommon<", "llvm::SmallVectorImpl<", "llvm::SmallVectorBase<")):
            n = len(self.w.get("list", ()))
            if "::operator[](" in d and args[1][0] == "c" and 0 <= args[1][1] < n:
                return self.off(("pairs",), 40 * args[1][1])
            m = re.search(r">::(begin|end|size|empty)\(\)", d)
            if m and args[0] == ("list",):
                return {"begin": ("pairs",), "end": ("at", ("pairs",), 40 * n) if n else ("pairs",), "size": ("c", n), "empty": ("c", int(not n))}[m.group(1)]
            return None
        return None

    def string(self, st, i, n, params, args):
        S = lambda k: self.get(st, args[k], "S")
        if n == "basic_string" or n in ("operator=", "assign"):
            if len(args) == 1:
                self.set(st, args[0], "S", "")
            elif params.startswith(("unsigned long", "char const*, unsigned long", "std::initializer")) or "StringRef" in params or len(args) > 3:
                self.unclear(st, "STR::" + n)
            elif params.startswith("char") and not params.startswith("char const*"):
                self.set(st, args[0], "S", chr(args[1][1] & 255) if args[1][0] == "c" else None)
            else:
                t = self.arg(st, i, 1, args)
                if "&&" in params and args[0] != args[1]:
                    self.set(st, args[1], "S", "")
                self.set(st, args[0], "S", t)
            return args[0]
        if n.startswith("~"):
            return ("void",)
        if n == "clear":
            self.set(st, args[0], "S", "")
            return ("void",)
        if n in ("append", "operator+=", "push_back"):
            if len(args) != 2:
                return self.unclear(st, n)
            t = chr(args[1][1] & 255) if args[1][0] == "c" else self.arg(st, i, 1, args)
            s = S(0)
            self.set(st, args[0], "S", s + t if s is not None and t is not None else None)
            return args[0]
        if n in ("empty", "size", "length"):
            s = S(0)
            if s is None or n != "empty" and "<" in s:
                return self.unclear(st, "STR::" + n)
            return ("c", int(not s)) if n == "empty" else ("c", len(s))
        if n in ("c_str", "data"):
            return ("cs", args[0])
        if n == "compare" and len(args) == 2:
            r = self.same(st, S(0), self.arg(st, i, 1, args))
            return ("c", 1 - r[1]) if r[0] == "c" else r
        if n in ("find", "rfind") and len(args) in (2, 3) and (len(args) == 2 or args[2][0] == "c"):
            s, t = S(0), self.arg(st, i, 1, args)
            if s is None or t is None or "<" in s:
                return self.unclear(st, "STR::" + n)
            return ("c", s.find(t, args[2][1]) if n == "find" and len(args) == 3 else s.find(t) if n == "find" else
                    s.rfind(t) if len(args) == 2 or args[2][1] < 0 else s.rfind(t, 0, args[2][1] + len(t)))
        if n == "substr" and len(args) == 4 and args[2][0] == args[3][0] == "c":
            s = S(1)
            if s is not None and "<" not in s:
                self.set(st, args[0], "S", s[args[2][1]:] if args[3][1] < 0 else s[args[2][1]:args[2][1] + args[3][1]])
                return ("void",)
        return None

    def vector(self, st, i, n, params, args):
        V = lambda k: self.get(st, args[k], "V")
        a = self.addr(args[0])
        if a[0][0] == "pairs" or args[0] == ("list",):
            return None
        if n in ("vector", "operator=", "assign"):
            if len(args) == 1 or len(args) == 2 and "allocator" in params and "&&" not in params and "VEC" not in params and "vector<" not in params:
                self.set(st, args[0], "V", ())
                return args[0]
            src = self.addr(args[1])
            it = st.mem.get((src[0], ("I", src[1])))
            if it and it[0] == "words":
                self.set(st, args[0], "V", it[1:])
                return args[0]
            x = self.it(st, args[1]) if len(args) > 2 else None
            if x is not None:
                y = self.it(st, args[2])
                if y is None or x[1] != y[1]:
                    return self.unclear(st, "a range")
                self.set(st, args[0], "V", st.mem.get((x[1][0], ("V", x[1][1])), ())[x[2]:y[2]])
                return args[0]
            if "initializer_list" in params:
                # begin and count are passed
                b, k = args[1], args[2] if len(args) > 2 else None
                if k is None or k[0] != "c":
                    return self.unclear(st, "a list")
                ts = [self.get(st, self.off(b, 32 * j) if j else b, "S") for j in range(k[1])]
                self.set(st, args[0], "V", None if None in ts else tuple(ts))
                return args[0]
            v = V(1)
            if v is None:
                return self.unclear(st, "a vector")
            if "&&" in params and args[0] != args[1]:
                self.set(st, args[1], "V", ())
            self.set(st, args[0], "V", v)
            return args[0]
        if n.startswith("~"):
            return ("void",)
        v = V(0)
        if v is None:
            return self.unclear(st, "VEC::" + n)
        obj = (a[0], a[1])
        if n == "clear":
            self.set(st, args[0], "V", ())
            return ("void",)
        if n in ("push_back", "emplace_back"):
            e = self.arg(st, i, 1, args)
            if e is None:
                x = st.mem.get(self.addr(args[1])) if args[1][0] != "c" else args[1]
                if x is None or x[0] != "c":
                    return self.unclear(st, "an element")
                e = x
            self.set(st, args[0], "V", v + (e,))
            return ("el",) + obj + (len(v),)
        if n in ("empty", "size"):
            return ("c", int(not v) if n == "empty" else len(v))
        if n in ("at", "operator[]", "front", "back"):
            k = 0 if n == "front" else len(v) - 1 if n == "back" else args[1][1] if args[1][0] == "c" else None
            if k is None or not 0 <= k < len(v):
                return self.unclear(st, "an index")
            return ("el",) + obj + (k,)
        if n in ("begin", "cbegin"):
            return ("it", obj, 0)
        if n in ("end", "cend"):
            return ("it", obj, len(v))
        if n == "reserve":
            return ("void",)
        if n == "erase":
            x = self.it(st, args[1])
            y = self.it(st, args[2]) if len(args) > 2 else x and ("it", x[1], x[2] + 1)
            if x is None or y is None or x[1] != obj or y[1] != obj:
                return self.unclear(st, "VEC::erase")
            self.set(st, args[0], "V", v[:x[2]] + v[y[2]:])
            return x
        if n == "insert" and len(args) == 4:
            x, b, e = self.it(st, args[1]), self.it(st, args[2]), self.it(st, args[3])
            if not x or not b or not e or x[1] != obj or b[1] != e[1]:
                return self.unclear(st, "VEC::insert")
            src = st.mem.get((b[1][0], ("V", b[1][1])), ())[b[2]:e[2]]
            self.set(st, args[0], "V", v[:x[2]] + src + v[x[2]:])
            return x
        if n == "insert" and len(args) == 3:
            x, t = self.it(st, args[1]), self.arg(st, i, 2, args)
            if x and x[1] == obj and t is not None:
                self.set(st, args[0], "V", v[:x[2]] + (t,) + v[x[2]:])
                return x
        return None

    def iterator(self, st, i, n, params, args):
        x = self.it(st, args[0])
        if n == "__normal_iterator":
            y = self.it(st, args[1])
            if y is None:
                return self.unclear(st, "an iterator")
            st.mem[self.addr(args[0])] = y
            return ("void",)
        if x is None:
            return self.unclear(st, "an iterator")
        if n in ("operator*", "operator->"):
            return ("el",) + x[1] + (x[2],)
        step = {"operator++": 1, "operator--": -1}.get(n)
        if step is not None and args[0][0] != "it":
            st.mem[self.addr(args[0])] = ("it", x[1], x[2] + step)
            return x if "int" in params else args[0]
        if n in ("operator+", "operator-") and args[1][0] == "c":
            return ("it", x[1], x[2] + (args[1][1] if n == "operator+" else -args[1][1]))
        return None

    def algorithm(self, st, i, n, args):
        x, y = self.it(st, args[0]), self.it(st, args[1])
        if not x or not y or x[1] != y[1]:
            return self.unclear(st, "std::" + n)
        k = (x[1][0], ("V", x[1][1]))
        vec = st.mem.get(k, ())
        part = vec[x[2]:y[2]]
        if n in ("find", "remove"):
            t = self.arg(st, i, 2, args)
            if t is None:
                return self.unclear(st, "std::" + n)
            hit = [e == t for e in part]
        else:
            hit = []
            lam = self.predicate(i)
            if lam is None:
                return self.unclear(st, "std::" + n)
            for e in part:
                s2 = st.copy()
                el = ("elem", len(hit))
                s2.mem[(el, ("S", 0))] = e
                # what the closure captured is passed by value
                clo = args[2]
                if clo[0] != "loc":
                    s2.mem[(("clo", 0), 0)] = clo
                    clo = ("clo", 0)
                r = self.nested(s2, lam, [clo, el])
                if r is None or r[0] != "c":
                    return self.unclear(st, "a predicate")
                hit.append(r[1] & 1 == 1)
        if n.startswith("find"):
            return ("it", x[1], x[2] + (hit.index(True) if True in hit else len(part)))
        left = tuple(e for e, h in zip(part, hit) if not h)
        st.mem[k] = vec[:x[2]] + left + ("<moved from>",) * (len(part) - len(left)) + vec[y[2]:]
        return ("it", x[1], x[2] + len(left))

    def predicate(self, i):
        """The one closure of the routine that is followed."""
        q = self.f.q.split("(")[0]
        fs = [f for f in self.m.fns.values() if f.blocks and f.q.startswith(q + "::") and "operator()" in f.q]
        return fs[0] if len(fs) == 1 else None


class Rules:
    def __init__(self, ctx, mod, shim):
        self.ctx, self.m, self.f = ctx, mod, {}
        for q in ("setCompilerOption", "clearCompilerOption", "getCompilerOption", "setCompilerOptions", "addCompilerConfig", "delCompilerConfig",
                  "getCompilerConfig", "getTargetArchOption", "getTargetCPUOption", "getLLVMOptions"):
            f = [f for f in mod.fns.values() if f.q == NS + q and f.blocks]
            if not f:
                raise AnalysisBroken("no routine " + q)
            self.f[q] = f[0]
        self.kinds = {}
        for n, g in shim.globals.items():
            if n.startswith("sa_kind_"):
                self.kinds[n[8:]] = (g["init"][1] if g["init"][0] == "c" else 0)
        self.init = {}
        for f in mod.fns.values():
            if not f.q.startswith("__cxx_global_var_init") or not f.blocks:
                continue
            f.prep()
            for b in f.blocks:
                for i in b:
                    a = i.get("args") or []
                    c = mod.fns.get(i.get("callee"))
                    if c is not None and len(a) == 3 and a[0][0] == a[1][0] == "g" and "::basic_string<" in c.dem:
                        g = mod.globals.get(a[1][1], {}).get("init") or ["?"]
                        self.init[a[0][1]] = g[1].split("\0")[0] if g[0] == "s" else "" if g[0] in "nz" else "<%s>" % a[0][1]

    def bad(self, rule, q, msg):
        f = self.f[q]
        self.ctx.violation(rule, "%s:%d" % (f.file, f.line), "%s %s" % (q, msg), key="%s|%s|%s" % (rule, q, msg))

    def call(self, mem, q, args, **world):
        """(memory, result) after a call, one per path; None if it is unclear."""
        f = self.f[q]
        world["init"] = self.init
        out = []
        try:
            paths = Text(self.m, f, dict(enumerate(args)), dict(mem), world).run()
        except (TypeError, KeyError, IndexError, ValueError, AttributeError) as e:
            self.ctx.notes.append("%s is not followed: %s" % (q, e))
            return None
        for p in paths:
            if HIDE in p.mem:
                n = "%s: %s is not followed" % (q, p.mem[HIDE][1][:120])
                if n not in self.ctx.notes:
                    self.ctx.notes.append(n)
                return None
            out.append(({k: v for k, v in p.mem.items() if k[0][0] not in ("loc", "txt")}, p))
        return out

    def set(self, mem, kind, text, **w):
        """(memory, accepted), or None."""
        r = self.call({**mem, (("txt", 1), ("S", 0)): text}, "setCompilerOption", [("c", kind), ("txt", 1)], **w)
        if r is None or len(r) != 1 or r[0][1].ret is None or r[0][1].ret[0] != "c":
            return None
        return r[0][0], r[0][1].ret[1] == 0

    def read(self, mem, q, args, kind="S"):
        """What a getter gives, or None."""
        r = self.call({k: v for k, v in mem.items() if k[0] != ("txt", 0)}, q, [("txt", 0)] + args)
        if r is None or len(r) > 1:
            return None
        return r[0][1].mem.get((("txt", 0), (kind, 0))) if r else "<nothing: it does not return>"

    def state(self, mem):
        return {k: self.read(mem, "getCompilerOption", [("c", v)]) for k, v in self.kinds.items()}

    NUMBERS = {"-1": -1, "0": 0, "1": 1, "2": 2, "3": 3, "4": 4, "9": 9, "<text>": 0}
    FORM = {"TargetTriple": "--mtriple=%s", "TargetArch": "--march=%s", "TargetCPU": "--mcpu=%s", "OPTFlag": "%s", "LLCFlag": "%s", "LLVMFlag": "%s",
            "ModelTag": "%s", "Verbose": "-v", "CompilerOptLevel": "-O%s"}

    def form(self, kind, text):
        f = self.FORM[kind]
        return f % text if "%" in f else f

    def differs(self, rule, q, before, after, but, what):
        for k in self.kinds:
            if k != but and before[k] is not None and after[k] is not None and before[k] != after[k]:
                self.bad(rule, q, "changes %s when %s" % (k, what))

    def kinds_alone(self):
        """Each kind set, set again, cleared, over an empty and a full state."""
        full, start = {}, self.state({})
        for k, v in self.kinds.items():
            if k in self.FORM:
                r = self.set(full, v, "2" if k == "CompilerOptLevel" else "<a%d>" % v, numbers=self.NUMBERS)
                if r:
                    full = r[0]
        for where, mem in (("nothing else is set", {}), ("everything is set", full)):
            before = self.state(mem)
            for k, v in self.kinds.items():
                if k not in self.FORM:
                    continue
                lists = k in ("OPTFlag", "LLCFlag")
                for val in (("0", "1", "2", "3") if k == "CompilerOptLevel" else ("<x>", "a b,c=\"d'-e")):
                    r = self.set(mem, v, val, numbers=self.NUMBERS)
                    if r is None:
                        continue
                    self.ctx.ok("set", "%s, %s" % (k, where))
                    if not r[1]:
                        self.bad("set", "setCompilerOption", "refuses %s %s" % (k, val))
                        continue
                    after = self.state(r[0])
                    want = self.form(k, val)
                    if lists and mem:
                        want = "<a%d> %s" % (v, want)
                    if after[k] is not None and after[k] != want:
                        self.bad("set", "getCompilerOption", "gives '%s' instead of '%s' for %s (%s)" % (after[k], want, k, where))
                    self.differs("set", "setCompilerOption", before, after, k, "setting " + k)
                    # again
                    val2 = "1" if val == "0" else "0" if k == "CompilerOptLevel" else "<y>"
                    r2 = self.set(r[0], v, val2, numbers=self.NUMBERS)
                    if r2 and r2[1]:
                        got = self.read(r2[0], "getCompilerOption", [("c", v)])
                        want2 = want + " " + val2 if lists else self.form(k, val2)
                        if got is not None and got != want2:
                            self.bad("set", "getCompilerOption", "gives '%s' instead of '%s' for %s set twice" % (got, want2, k))
                    # cleared
                    c = self.call(r[0], "clearCompilerOption", [("c", v)])
                    if c and len(c) == 1:
                        self.ctx.ok("clear", "%s, %s" % (k, where))
                        then = self.state(c[0][0])
                        if then[k] is not None and start[k] is not None and then[k] != ("-O0" if k == "CompilerOptLevel" else start[k]):
                            self.bad("clear", "clearCompilerOption", "leaves '%s' for %s" % (then[k], k))
                        self.differs("clear", "clearCompilerOption", after, then, k, "clearing " + k)
                    elif c is not None and len(c) != 1:
                        self.bad("clear", "clearCompilerOption", "does not return for " + k)

    def accelerators(self):
        """Accelerators that are cleared are gone, what else is set stays."""
        k = self.kinds["TargetAccel"]
        start, mem = self.state({}), {}
        for n in (1, 2):
            r = self.set(mem, k, "NONE")
            if r is None:
                return
            mem = r[0]
            after = self.state(mem)
            self.ctx.ok("set", "TargetAccel")
            self.differs("set", "setCompilerOption", start, after, "TargetAccel", "setting TargetAccel")
            if after["TargetAccel"] is not None and after["TargetAccel"].count("--maccel=") != n:
                self.bad("set", "getCompilerOption", "gives '%s' for %d accelerators" % (after["TargetAccel"], n))
        c = self.call(mem, "clearCompilerOption", [("c", k)])
        if c and len(c) == 1:
            self.ctx.ok("clear", "TargetAccel")
            then = self.state(c[0][0])
            if then["TargetAccel"] is not None and then["TargetAccel"] != start["TargetAccel"]:
                self.bad("clear", "clearCompilerOption", "leaves '%s' for TargetAccel" % then["TargetAccel"])
            self.differs("clear", "clearCompilerOption", after, then, "TargetAccel", "clearing TargetAccel")

    def refusals(self):
        """Levels and accelerators that are none change nothing."""
        before = self.state({})
        for k, vals in (("CompilerOptLevel", ("-1", "4", "9")), ("TargetAccel", ("<no accelerator>",))):
            for val in vals:
                r = self.set({}, self.kinds[k], val, numbers=self.NUMBERS)
                if r is None:
                    continue
                self.ctx.ok("refuse", "%s %s" % (k, val))
                if r[1]:
                    self.bad("refuse", "setCompilerOption", "accepts %s %s" % (k, val))
                self.differs("refuse", "setCompilerOption", before, self.state(r[0]), None, "%s %s is refused" % (k, val))
        none = self.set({}, self.kinds["TargetAccel"], "NONE")
        if none:
            self.ctx.ok("refuse", "NONE")
            if not none[1]:
                self.bad("refuse", "setCompilerOption", "refuses the accelerator NONE")
        top = max(self.kinds.values()) + 7
        r = self.set({}, top, "<x>")
        if r:
            self.ctx.ok("refuse", "unknown kind")
            self.differs("refuse", "setCompilerOption", before, self.state(r[0]), None, "the kind is unknown")

    def lists(self):
        """A list of options is applied in order up to the first refused one."""
        K = self.kinds
        for what, items, good, want in (
                ("three options", (("TargetArch", "<x>"), ("OPTFlag", "<y>"), ("OPTFlag", "<z>")), True,
                 {"TargetArch": "--march=<x>", "OPTFlag": "<y> <z>"}),
                ("an option given twice", (("ModelTag", "<x>"), ("ModelTag", "<y>")), True, {"ModelTag": "<y>"}),
                ("a refused option second", (("TargetCPU", "<x>"), ("CompilerOptLevel", "9"), ("ModelTag", "<y>")), False,
                 {"TargetCPU": "--mcpu=<x>"}),
                ("no option", (), True, {})):
            mem = {}
            for j, (k, t) in enumerate(items):
                mem[(("pairs",), 40 * j)] = ("c", K[k])
                mem[(("pairs",), ("S", 40 * j + 8))] = t
            before = self.state({})
            r = self.call(mem, "setCompilerOptions", [("list",)], list=items, numbers=self.NUMBERS)
            if r is None or len(r) != 1 or r[0][1].ret is None or r[0][1].ret[0] != "c":
                continue
            self.ctx.ok("list", what)
            if (r[0][1].ret[1] == 0) != good:
                self.bad("list", "setCompilerOptions", "%s (%s)" % ("reports a failure" if good else "does not report that an option is refused", what))
            after = self.state({k: v for k, v in r[0][0].items() if k[0] != ("pairs",)})
            for k in K:
                w = want.get(k, before[k])
                if k in want or w is not None:
                    if after[k] is not None and after[k] != w and not (k == "ModelTag" and not good):
                        self.bad("list", "setCompilerOptions", "gives %s '%s' instead of '%s' (%s)" % (k, after[k], w, what))

    ARCH = {"z14": 12, "arch12": 12, "z15": 13, "arch13": 13, "z16": 14, "arch14": 14, "z17": 15, "arch15": 15}
    LLVM_MAX = 14

    def tools(self):
        """What the LLVM tools are told of the machine."""
        K = self.kinds
        names = list(self.ARCH) + ["<other>", "", "apple-m1", "apple-m4", "arm64", "arch11", "z13", "native"]
        for arch in names:
            for cpu in ("", "<cpu>", "z14", "z17", "arch13"):
                mem = {}
                for k, t in (("TargetArch", arch), ("TargetCPU", cpu)):
                    if t and mem is not None:
                        r = self.set(mem, K[k], t)
                        mem = r[0] if r else None
                if mem is None:
                    continue
                z = self.ARCH.get(arch) or self.ARCH.get(cpu)
                what = "arch '%s', cpu '%s'" % (arch, cpu)
                want = "--march=systemz" if z else "--march=arm64" if arch.startswith("apple") else "--march=" + arch if arch else ""
                for llvm, w in ((1, want), (0, "--march=" + arch if arch else "")):
                    got = self.read(mem, "getTargetArchOption", [("c", llvm)])
                    if got is not None:
                        self.ctx.ok("tools", what)
                        if got != w:
                            self.bad("tools", "getTargetArchOption", "gives '%s' instead of '%s' (%s)" % (got, w, what))
                for k, w in (("TargetArch", "--march=" + arch if arch else ""), ("TargetCPU", "--mcpu=" + cpu if cpu else "")):
                    got = self.read(mem, "getCompilerOption", [("c", K[k])])
                    if got is not None and got != w:
                        self.bad("tools", "getCompilerOption", "gives '%s' instead of '%s' (%s)" % (got, w, what))
                for llvm in (1, 0):
                    for only in (1, 0):
                        w = "arch%d" % min(z, self.LLVM_MAX) if z and llvm else cpu
                        w = w if only or not w else "--mcpu=" + w
                        got = self.read(mem, "getTargetCPUOption", [("c", llvm), ("c", only)])
                        if got is not None:
                            self.ctx.ok("tools", what)
                            if got != w:
                                self.bad("tools", "getTargetCPUOption", "gives '%s' instead of '%s' (%s)" % (got, w, what))
        for text in ("<a>", "<a> <b>", "<a> <b> <c>"):
            r = self.set({}, K["LLVMFlag"], text)
            got = r and self.read(r[0], "getLLVMOptions", [], "V")
            if got is not None:
                self.ctx.ok("tools", "flags")
                if list(got) != text.split():
                    self.bad("tools", "getLLVMOptions", "does not give each flag of '%s'" % text)

    def config(self):
        """Lists of strings under keys: added at either end, taken out."""
        def change(mem, q, key, vals, *more):
            m = {**mem, (("txt", 1), ("S", 0)): key, (("txt", 2), ("V", 0)): tuple(vals)}
            r = self.call(m, q, [("txt", 1), ("txt", 2)] + [("c", x) for x in more])
            return r[0][0] if r and len(r) == 1 else None

        def get(mem, key):
            r = self.call({**{k: v for k, v in mem.items() if k[0] != ("txt", 0)}, (("txt", 1), ("S", 0)): key}, "getCompilerConfig", [("txt", 0), ("txt", 1)])
            return list(r[0][1].mem.get((("txt", 0), ("V", 0)), ())) if r and len(r) == 1 else None

        def expect(rule_q, mem, key, want, what):
            got = get(mem, key)
            if got is not None:
                self.ctx.ok("config", what)
                if got != want:
                    self.bad("config", rule_q, "gives %s instead of %s (%s)" % (got, want, what))

        a = change({}, "addCompilerConfig", "K", ["<a>", "<b>"], 0)
        if a is None:
            return
        expect("addCompilerConfig", a, "K", ["<a>", "<b>"], "added to a new key")
        expect("addCompilerConfig", a, "L", [], "another key")
        for head in (0, 1):
            b = change(a, "addCompilerConfig", "K", ["<c>", "<d>"], head)
            if b is not None:
                expect("addCompilerConfig", b, "K", ["<c>", "<d>", "<a>", "<b>"] if head else ["<a>", "<b>", "<c>", "<d>"],
                       "added at the %s" % ("head" if head else "end"))
                b2 = change(b, "addCompilerConfig", "L", ["<e>"], head)
                if b2 is not None:
                    expect("addCompilerConfig", b2, "L", ["<e>"], "the other of two keys")
                    expect("addCompilerConfig", b2, "K", get(b, "K"), "a key while another is added to")
        base = ["<a>", "<b>", "<a>", "<c>", "<b>"]
        for start in (base, [], ["<a>"], ["<a>", "<a>"]):
            for out in (["<a>"], ["<a>", "<c>"], ["<z>"], [], ["<c>", "<b>", "<a>"]):
                m = change({}, "addCompilerConfig", "K", start, 0)
                m = m and change(m, "addCompilerConfig", "L", ["<a>"], 0)
                d = m and change(m, "delCompilerConfig", "K", out)
                if d:
                    expect("delCompilerConfig", d, "K", [x for x in start if x not in out], "%s taken out of %s" % (out, start))
                    expect("delCompilerConfig", d, "L", ["<a>"], "a key while another is taken from")


def options(ctx, tier):
    ctx.rule("set", "a kind of option that is set reads back as its flag with the whole value passed, the last (or, for flags passed on, all in order), and no other changes")
    ctx.rule("clear", "a kind that is cleared reads as if it had never been set, and no other changes")
    ctx.rule("refuse", "an optimisation level other than 0 to 3 and an unknown accelerator are refused and change nothing; unknown kinds change nothing")
    ctx.rule("list", "a list of options is applied in order up to the first that is refused, which is reported")
    ctx.rule("tools", "the LLVM tools get the machine (a Z level from the architecture, else from the processor, capped; arm64 for Apple's; any other as given) and each flag")
    ctx.rule("config", "strings are added to a key's list at the end asked for and all equal ones are taken out; other keys keep theirs")
    shim = os.path.join(build.scratch(), "option_kinds.cpp")
    with open(shim, "w") as f:
        f.write(SHIM + "".join("extern const int sa_kind_%s = OptionKind::%s;\n" % (k, k) for k in list(Rules.FORM) + ["TargetAccel"]))
    mod = build.load("options", only=["CompilerOptions.cpp"])
    ctx.units.update(mod.units)
    r = Rules(ctx, mod, build.load(None, extra_src=[shim]))
    r.kinds_alone()
    r.accelerators()
    r.refusals()
    r.lists()
    r.tools()
    r.config()
    ctx.need("set", 20)
    return ("the routines that set, clear and read options, and those that keep configuration lists, are followed over texts for every kind of option; what is read "
            "back is compared with what was passed")

"""String-level abstract interpretation: std::string, std::filesystem::path,
std::vector<std::string> and string streams hold *terms* -- expressions over the
inputs built by the library operations the program applies -- so that two pieces
of code that build the same name are seen to build the same name, whatever
temporaries they use.  Nothing is evaluated: a term is only ever compared."""
import re
import zlib

from .engine import Engine, Monitor, NULL, TOP, INF, Dead

EMPTY = ("lit", "")
VEC0 = ("vec",)


def short(s):
    s = re.sub(r"std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> ?>", "string", s)
    s = s.replace("std::filesystem::__cxx11::path", "path").replace("[abi:cxx11]", "")
    s = re.sub(r"std::vector<([a-z]+(?: const)?\*?(?: const)?), std::allocator<\1 ?>>", r"vector<\1>", s)
    s = re.sub(r"std::__cxx11::basic_(i|o|)stringstream<[^()]*?>::", r"\1stringstream::", s)
    s = re.sub(r"std::basic_ostream<char, std::char_traits<char>>", "ostream", s)
    return s.replace("std::allocator<char>", "AL")


def params(dem):
    """Top-level parameter texts of a demangled signature, and whether the
    method is const."""
    d = dem.rstrip()
    const = d.endswith(" const")
    if const:
        d = d[:-6]
    if not d.endswith(")"):
        return None, const
    depth, k = 0, len(d) - 1
    while k >= 0:
        if d[k] == ")":
            depth += 1
        elif d[k] == "(":
            depth -= 1
            if not depth:
                break
        k -= 1
    out, cur, depth = [], "", 0
    for ch in d[k + 1:-1]:
        if ch in "<([":
            depth += 1
        elif ch in ">)]":
            depth -= 1
        if ch == "," and not depth:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out, const


def fname(dem):
    """Unqualified name of the function in a demangled signature."""
    d = dem
    depth, k = 0, len(d)
    ps = d.rfind("(")
    # walk back over the parameter list
    p, const = d.rstrip(), False
    if p.endswith(" const"):
        p = p[:-6]
    if p.endswith(")"):
        depth, k = 0, len(p) - 1
        while k >= 0:
            depth += p[k] == ")"
            depth -= p[k] == "("
            if not depth:
                break
            k -= 1
        p = p[:k]
    m = re.search(r"operator ?(<<|>>|->|<=|>=|==|!=|\+=|\+\+|/=|[-+*/=<>!\[\]]+|\(\)|bool|[a-zA-Z:]+)(<.*>)?$", p)
    if m:
        return "operator" + m.group(1)
    p = re.sub(r"<.*>$", "", strip_targs(p))
    return p.split("::")[-1].split(" ")[-1]


def strip_targs(p):
    out, depth = "", 0
    for ch in p:
        if ch == "<":
            depth += 1
        elif ch == ">":
            depth -= 1
        elif not depth:
            out += ch
    return out


def cat(*ts):
    out = []
    for t in ts:
        for x in (t[1:] if t[0] == "cat" else (t,)):
            if x == EMPTY:
                continue
            if out and out[-1][0] == "lit" and x[0] == "lit":
                out[-1] = ("lit", out[-1][1] + x[1])
            else:
                out.append(x)
    out = repeat(out)
    if not out:
        return EMPTY
    return out[0] if len(out) == 1 else ("cat",) + tuple(out)


def iterated(x):
    return x[0] in ("u", "rep", "bag") or contains(x, "elem") or contains(x, "at")


def repeat(out):
    """From the first to the last part made of unknown or iterated pieces, a
    sequence is a bag: any sequence of its members, each any number of times."""
    out = list(out)
    it = [k for k, x in enumerate(out) if iterated(x)]
    if len(it) > 1:
        j, k = it[0], it[-1]
        t = {("u", "*") if a[0] == "u" else a for x in out[j:k + 1] for a in atoms(x)}
        out[j:k + 1] = [("bag", tuple(sorted(t, key=repr)))]
    while len(out) > 30:
        out = out[:1] + [("bag", tuple(sorted({a for x in out[1:] for a in atoms(x)}, key=repr)))]
    # what is appended again and again to a bag it has already
    j = next((k for k, x in enumerate(out) if x[0] == "bag"), None)
    if j is not None and len(out) > j + 2 and {a for x in out[j + 1:] for a in atoms(x)} <= set(out[j][1]):
        del out[j + 1:]
    return out


def atoms(x):
    if x[0] in ("rep", "bag"):
        return [z for y in x[1] for z in atoms(y)]
    return [x]


def append(v, t):
    if v[0] in ("vec", "list"):
        return (v[0],) + tuple(repeat(v[1:] + (t,)))
    return ("list", v, t)


def subterms(t):
    if isinstance(t, tuple):
        yield t
        for x in t:
            if isinstance(x, tuple):
                yield from subterms(x)
            elif isinstance(x, str):
                yield x


def contains(t, x):
    return any(s == x for s in subterms(t))


def replace(t, f):
    if isinstance(t, tuple):
        t = tuple(replace(x, f) for x in t)
        return f(t)
    return t


def show(t, names=()):
    if not isinstance(t, tuple):
        return str(t)
    k = t[0] if t else ""
    if k == "lit":
        return '"%s"' % t[1]
    if k == "init":
        return t[1][2] if len(t[1]) > 2 else "%s%s" % ("%s" % (t[1],), "+%d" % t[2] if t[2] else "")
    if k == "cat":
        return "(" + " + ".join(show(x) for x in t[1:]) + ")"
    if k == "fn":
        return "%s(%s)" % (t[1], ", ".join(show(x) for x in t[2:]))
    if k == "list":
        return "[%s]" % ", ".join(["..." + show(t[1])] + [show(x) for x in t[2:]])
    if k == "vec":
        return "[%s]" % ", ".join(show(x) for x in t[1:])
    if k == "u":
        return "?"
    return "%s" % (t,)


STD_BASES = {
    "_ZTISt13runtime_error": ["_ZTISt9exception"],
    "_ZTISt12system_error": ["_ZTISt13runtime_error"],
    "_ZTINSt10filesystem7__cxx1116filesystem_errorE": ["_ZTISt12system_error"],
    "_ZTISt11logic_error": ["_ZTISt9exception"],
    "_ZTISt16invalid_argument": ["_ZTISt11logic_error"],
    "_ZTISt12out_of_range": ["_ZTISt11logic_error"],
    "_ZTISt9bad_alloc": ["_ZTISt9exception"],
}
FS_ERROR = "_ZTINSt10filesystem7__cxx1116filesystem_errorE"


def bases(mod, ti, seen=None):
    seen = seen if seen is not None else set()
    if ti in seen:
        return seen
    seen.add(ti)
    for b in STD_BASES.get(ti, []):
        bases(mod, b, seen)
    g = mod.globals.get(ti) if hasattr(mod, "globals") else None
    if g:
        for n in set(re.findall(r"_ZTI[A-Za-z0-9_]+", str(g))):
            bases(mod, n, seen)
    return seen


def tid(name):
    return (zlib.crc32(name.encode()) & 0x3fffffff) + 1


class TermEngine(Engine):
    """Engine that also follows exception types and string contents."""

    def define(self, st, i, key=None):
        if key is None and i.get("op") == "landingpad":
            exc = ("sym", ("arg", "exc"))
            sel = None
            if isinstance(st.cexc, tuple) and st.cexc[0] == "T":
                bs = bases(self.fn.mod, st.cexc[1])
                sel = 0
                for c in i["o"]:
                    if c[0] == "n":
                        sel = 1
                        break
                    if c[0] == "g" and c[1] in bs:
                        sel = tid(c[1])
                        break
            return ("agg", (exc, ("int", sel) if sel is not None else ("sym", ("i", i["i"]))))
        return super().define(st, i, key)

    def coarsen(self, b, st, hard):
        return st

    def floor(self, st):
        pass

    def do_call(self, st, i):
        c = i.get("callee")
        if c == "llvm.eh.typeid.for":
            a = i["args"][0]
            return [(st, ("int", tid(a[1]) if a[0] == "g" else 1), False)]
        if c == "__cxa_throw":
            self.mon.throw(self, st, i, i["args"][1][1] if i["args"][1][0] == "g" else None)
            a = i["args"][1]
            st.cexc = ("T", a[1]) if a[0] == "g" else "?"
            return [(st, TOP, True)]
        if c == "__cxa_rethrow":
            return [(st, TOP, True)]
        return super().do_call(st, i)


def raised(st, ti):
    s = st.copy()
    s.cexc = ("T", ti)
    return (s, TOP, True)


class Terms(Monitor):
    """Content of string-like objects, kept in st.mem under ("S", object)."""
    fs_throws = ("current_path",)

    def throw(self, eng, st, i, ti):
        pass

    def epoch(self, st):
        return 0

    # ---- cells
    def cell(self, eng, v):
        o, off = eng.obj_of(v)
        return (("S", o), off) if o is not None else None

    def get(self, eng, st, v):
        o, off = eng.obj_of(v)
        if o is None:
            return ("u", "?")
        if o[0] == "T":
            t = o[1]
            if t[0] == "begin":
                return ("elem", t[1], "first" if off == 0 else ("at", off) if off is not None else "it")
            return t
        t = st.mem.get((("S", o), off))
        if t is not None:
            return t[1]
        if off is None:
            return ("u", "?")
        if o[0] == "U":
            return ("init", o[1], off)
        if o[0] == "G":
            s = eng.fn.mod.gstring(["g", o[1]]) if off == 0 else None
            return ("global", o[1], off)
        return ("u", o, off)

    def set(self, eng, st, v, t):
        o, off = eng.obj_of(v)
        if o is None:
            return
        if o[0] == "T":
            # an element of a list, or the characters of a string, changes
            base = o[1]
            while base[0] in ("elem", "begin"):
                base = base[1]
            for k, x in list(st.mem.items()):
                if k[0][0] == "S" and x[0] == "term" and x[1] == base:
                    st.mem[k] = ("term", ("upd", base, t))
            return
        st.mem[(("S", o), off)] = ("term", t)

    def drop(self, eng, st, v):
        k = self.cell(eng, v)
        if k and k in st.mem:
            del st.mem[k]

    def unknown(self, eng, st, i, n=0):
        u = ("u", i.get("i", id(i)), i.get("l"), n)
        if any(contains(x[1], u) for x in st.mem.values() if x[0] == "term"):
            for k, x in list(st.mem.items()):
                if x[0] == "term" and contains(x[1], u):
                    st.mem[k] = ("term", replace(x[1], lambda t: ("u", "old") + u[1:] if t == u else t))
        for k in [k for k in st.facts if contains(k, u)]:
            del st.facts[k]
        return u

    def chars(self, eng, st, v, raw=None):
        """Term of a C string."""
        o, off = eng.obj_of(v)
        if o is not None and o[0] == "T":
            return o[1]
        if o is not None and o[0] == "G":
            s = eng.fn.mod.gstring(["g", o[1]])
            if s is not None and isinstance(off, int):
                return ("lit", s[off:])
        if v[0] == "sym":
            return ("chars", v[1])
        return ("u", "chars", str(v))

    def length(self, eng, st, t):
        if t[0] == "lit":
            return ("int", len(t[1]))
        if t == VEC0:
            return ("int", 0)
        k = ("arg", "len", t)
        if k not in st.facts:
            st.facts[k] = (0, INF, frozenset())
            if t[0] == "cat" and any(x[0] == "lit" for x in t[1:]):
                st.facts[k] = (1, INF, frozenset())
            if t[0] in ("vec", "list"):
                st.facts[k] = (1, INF, frozenset())
        return ("sym", k)

    def known_empty(self, eng, st, t):
        return eng.truth(st, ("cmp", "eq", self.length(eng, st, t), NULL))

    def operand(self, eng, st, v, ptype):
        if ptype.startswith("char const"):
            return self.chars(eng, st, v)
        if ptype == "char":
            return ("lit", chr(v[1] & 255)) if v[0] == "int" else ("char", v)
        return self.get(eng, st, v)

    def val(self, v):
        """A non-string argument as part of a term."""
        return v if v[0] in ("int",) else ("v",) + v

    # ---- calls
    def call(self, eng, st, i, callee, args):
        if callee is None:
            return None
        f = eng.fn.mod.fns.get(callee)
        dem = short((f.d.get("dem") if f else None) or callee)
        r = self.event(eng, st, i, callee, dem, args)
        if r is not None:
            return r
        if f is None or not callee.startswith("_Z"):
            return None
        if f.repo and not f.d.get("dem"):
            return None
        return self.lib(eng, st, i, f, dem, args)

    def event(self, eng, st, i, callee, dem, args):
        return None

    def lib(self, eng, st, i, f, dem, args):
        ps, const = params(dem)
        if ps is None:
            return None
        n = fname(dem)
        cls = ""
        m = re.match(r"^(?:.* )?(string|path|vector<string>|o?stringstream)::", dem.split("(")[0])
        if m:
            cls = m.group(1)
        ret = args[0] if args else TOP
        if cls and n.startswith("~"):
            self.drop(eng, st, args[0])
            return [(st, TOP)]
        ctor = cls and (n in ("basic_string", "path", "vector") or n.startswith("basic_") and "stringstream" in n)
        if ctor or cls and n == "operator=":
            if not ps:
                self.set(eng, st, args[0], VEC0 if cls == "vector<string>" else EMPTY)
            elif ps[0].startswith(("string", "path", "vector<string>")):
                src = args[1]
                t = self.get(eng, st, src)
                if len(ps) > 1 and n != "path" and not ps[1].endswith("&") or len(ps) > 2:
                    t = ("fn", "sub", t) + tuple(self.val(a) for a in args[2:2 + len(ps) - 1])
                self.set(eng, st, args[0], t)
                if "&&" in ps[0]:
                    self.set(eng, st, src, self.unknown(eng, st, i))
            elif ps[0].startswith("char const* const&"):
                o, off = eng.obj_of(args[1])
                v = st.mem.get((o, off), TOP)
                self.set(eng, st, args[0], self.chars(eng, st, v))
            elif ps[0].startswith("char const") and (len(ps) < 2 or "AL" in ps[1] or "format" in ps[1]):
                self.set(eng, st, args[0], self.chars(eng, st, args[1]))
            elif ps[0].startswith("std::initializer_list") and len(args) > 2 and args[2] == NULL:
                self.set(eng, st, args[0], VEC0 if cls == "vector<string>" else EMPTY)
            elif ps[0].startswith(("unsigned long", "char")) or True:
                self.set(eng, st, args[0], self.unknown(eng, st, i))
            return [(st, ret if "i" in i else TOP)]
        if n == "operator+" and len(ps) == 2 and len(args) == 3 and "string" in dem:
            a, b = self.operand(eng, st, args[1], ps[0]), self.operand(eng, st, args[2], ps[1])
            self.set(eng, st, args[0], cat(a, b))
            return [(st, TOP)]
        if cls == "string" and n in ("operator+=", "append", "push_back") and len(ps) == 1:
            self.set(eng, st, args[0], cat(self.get(eng, st, args[0]), self.operand(eng, st, args[1], ps[0])))
            return [(st, ret if "i" in i else TOP)]
        if cls and n == "clear":
            self.set(eng, st, args[0], VEC0 if cls == "vector<string>" else EMPTY)
            return [(st, TOP)]
        if cls in ("string", "path") and n in ("c_str", "data", "native") and not ps:
            t = self.get(eng, st, args[0])
            return [(st, ("ptr", ("T", t), 0))]
        if cls and n in ("empty", "length", "size") and not ps:
            ln = self.length(eng, st, self.get(eng, st, args[0]))
            return [(st, ("cmp", "eq", ln, NULL) if n == "empty" else ln)]
        if cls == "path" and not ps and n in ("string", "generic_string", "operatorstd::string", "operatorstring"):
            self.set(eng, st, args[0], self.get(eng, st, args[1]))
            return [(st, TOP)]
        if cls == "path" and const and len(args) == 2 and not ps and "i" not in i:
            self.set(eng, st, args[0], ("fn", n, self.get(eng, st, args[1])))
            return [(st, TOP)]
        if cls == "path" and not const and len(args) == 2 and n.startswith(("replace_", "operator/=", "remove_")):
            a = self.get(eng, st, args[0])
            b = self.get(eng, st, args[1])
            self.set(eng, st, args[0], ("fn", "operator/" if n == "operator/=" else n, a, b))
            return [(st, ret)]
        if n == "operator/" and len(args) == 3:
            self.set(eng, st, args[0], ("fn", n, self.get(eng, st, args[1]), self.get(eng, st, args[2])))
            return [(st, TOP)]
        if dem.startswith("std::filesystem::"):
            if n == "exists":
                t = self.get(eng, st, args[0])
                k = ("arg", "exists", t, self.epoch(st))
                st.facts.setdefault(k, (0, 1, frozenset()))
                return [(st, ("cmp", "ne", ("sym", k), NULL))]
            if n in ("absolute", "canonical", "weakly_canonical") and len(args) >= 2:
                self.set(eng, st, args[0], ("fn", n, self.get(eng, st, args[1])))
                return [(st, TOP)]
        if n in ("operator==", "operator!=") and len(ps) == 2 and "i" in i and ("string" in ps[0] or "path" in ps[0]):
            a, b = self.operand(eng, st, args[0], ps[0]), self.operand(eng, st, args[1], ps[1])
            if a == b:
                return [(st, ("int", 1 if n == "operator==" else 0))]
            if EMPTY in (a, b):
                ln = self.length(eng, st, b if a == EMPTY else a)
                return [(st, ("cmp", "eq" if n == "operator==" else "ne", ln, NULL))]
            k = ("arg", "eq") + tuple(sorted((a, b), key=repr))
            st.facts.setdefault(k, (0, 1, frozenset()))
            return [(st, ("cmp", "ne" if n == "operator==" else "eq", ("sym", k), NULL))]
        if cls == "string" and n == "substr" and len(args) == 4:
            self.set(eng, st, args[0], ("fn", "substr", self.get(eng, st, args[1]), self.val(args[2]), self.val(args[3])))
            return [(st, TOP)]
        if n == "operator<<" and args and "ostream" in dem:
            if len(ps) >= 2 or len(ps) == 1:
                o, off = eng.obj_of(args[0])
                if o is not None and o[0] != "G" and (("S", o), off) in st.mem and len(ps) == 2:
                    self.set(eng, st, args[0], cat(self.get(eng, st, args[0]), self.operand(eng, st, args[1], ps[1])))
                elif o is not None and o[0] != "G" and (("S", o), off) in st.mem:
                    self.set(eng, st, args[0], ("streamed", self.get(eng, st, args[0]), self.val(args[1])))
            return [(st, args[0])]
        if n == "str" and "stringstream" in dem and len(args) == 2:
            self.set(eng, st, args[0], self.get(eng, st, args[1]))
            return [(st, TOP)]
        if cls == "vector<string>":
            v = self.get(eng, st, args[0])
            if n in ("push_back", "emplace_back"):
                self.set(eng, st, args[0], append(v, self.operand(eng, st, args[1], ps[0] if ps else "string")))
                return [(st, TOP)]
            if n in ("operator[]", "at"):
                return [(st, ("ptr", ("T", ("elem", v, self.val(args[1]))), 0))]
            if n in ("front", "back"):
                return [(st, ("ptr", ("T", ("elem", v, n)), 0))]
            if n in ("begin", "cbegin"):
                return [(st, ("ptr", ("T", ("begin", v)), 0))]
            if n in ("end", "cend"):
                return [(st, ("ptr", ("T", ("end", v)), 0))]
        if f.repo:
            return self.kept(eng, st, i, f, dem, ps, const, args)
        # anything else: the strings it may change are unknown afterwards
        off = 0
        hasthis = bool(cls) or "::" in strip_targs(dem.split("(")[0]) and len(args) > len(ps)
        for k, a in enumerate(args):
            c = self.cell(eng, a)
            if c is None or c not in st.mem:
                continue
            j = k - (len(args) - len(ps))
            if j >= 0 and ("const&" in ps[j] or "const*" in ps[j]):
                continue
            if j < 0 and const:
                continue
            st.mem[c] = ("term", self.unknown(eng, st, i, k))
        return None

    def kept(self, eng, st, i, f, dem, ps, const, args):
        """A repository function left out of line: an uninterpreted function
        of its arguments."""
        n = fname(dem)
        extra = len(args) - len(ps)
        ts = []
        for p, a in zip(ps, args[extra:]):
            ts.append(self.operand(eng, st, a, p) if p.startswith(("string", "path", "vector<string>", "char const*"))
                      else self.val(a))
        t = ("fn", n) + tuple(ts)
        for k, (p, a) in enumerate(zip(ps, args[extra:])):
            if p.endswith("&") and not p.endswith("const&"):
                self.set(eng, st, a, ("fn", n + "/%d" % k) + tuple(ts))
        if extra and "i" not in i and self.returns_object(f):
            self.set(eng, st, args[0], t)
            return [(st, TOP)]
        if "i" in i:
            if i.get("ty") == "ptr":
                return [(st, ("ptr", ("T", t), 0))]
            return [(st, ("sym", ("arg", "fn", t)))]
        return [(st, TOP)]

    def returns_object(self, f):
        s = f.d.get("sig") or ["void"]
        return s[0] not in ("void", "", None)

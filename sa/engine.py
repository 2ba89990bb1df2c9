"""Path-sensitive abstract interpreter over the normalised IR dumped by irx.

The analysis is ESP-like property simulation: a worklist of (block, abstract
state) pairs, where a state holds abstract values for the live SSA names, an
abstract memory for the objects the function can name, interval facts about
unknown integers and the typestate of every tracked resource.  Nothing is
executed and no solver is called: branch conditions are decided from facts or
both successors are taken.
"""
import re
import sys

sys.setrecursionlimit(20000)

NULL = ("int", 0)
TOP = ("top",)


class AnalysisBroken(Exception):
    """The analysis lost its anchor: neither a pass nor a violation."""


# --------------------------------------------------------------------------
class Fn:
    def __init__(self, d, mod):
        self.d = d
        self.mod = mod
        self.name = d["name"]
        self.q = d.get("q") or d["name"]
        self.dem = d.get("dem", self.name)
        self.file = d.get("file", "")
        self.line = d.get("line", 0)
        self.params = d.get("params", [])
        self.decl = d["decl"]
        self.repo = d["repo"]
        self.blocks = d.get("blocks") or []
        self.names = {int(k): v for k, v in (d.get("names") or {}).items()}
        self._prep = False

    def prep(self):
        if self._prep:
            return
        self._prep = True
        n = len(self.blocks)
        self.succ = [[] for _ in range(n)]
        for b, ins in enumerate(self.blocks):
            t = ins[-1]
            s = []
            if t["op"] == "br":
                s = list(t["succ"])
            elif t["op"] == "switch":
                s = [c[1] for c in t["cases"]] + [t["default"]]
            elif t["op"] == "invoke":
                s = [t["normal"], t["unwind"]]
            self.succ[b] = list(dict.fromkeys(s))
        self.pred = [[] for _ in range(n)]
        for b in range(n):
            for s in self.succ[b]:
                self.pred[s].append(b)
        # back edges
        self.back = set()
        color = [0] * n
        stack = [(0, iter(self.succ[0]))] if n else []
        if n:
            color[0] = 1
        while stack:
            b, it = stack[-1]
            for s in it:
                if color[s] == 0:
                    color[s] = 1
                    stack.append((s, iter(self.succ[s])))
                    break
                elif color[s] == 1:
                    self.back.add((b, s))
            else:
                color[b] = 2
                stack.pop()
        self.headers = {s for _, s in self.back}
        self.loops = {}
        for (u, h) in self.back:
            body = self.loops.setdefault(h, {h})
            work = [u]
            while work:
                x = work.pop()
                if x in body:
                    continue
                body.add(x)
                work.extend(self.pred[x])
        # defs, uses
        self.defs = {}
        for b, ins in enumerate(self.blocks):
            for k, i in enumerate(ins):
                if "i" in i:
                    self.defs[i["i"]] = (b, k)
        # liveness
        use = [set() for _ in range(n)]
        dfn = [set() for _ in range(n)]
        phiuse = [set() for _ in range(n)]  # uses at end of pred
        for b, ins in enumerate(self.blocks):
            for i in ins:
                if "phi" in i:
                    for v, p in i["phi"]:
                        for x in opvars(v):
                            phiuse[p].add(x)
                else:
                    for x in inst_uses(i):
                        if x not in dfn[b]:
                            use[b].add(x)
                if "i" in i:
                    dfn[b].add(i["i"])
        live_in = [set() for _ in range(n)]
        changed = True
        while changed:
            changed = False
            for b in range(n - 1, -1, -1):
                out = set(phiuse[b])
                for s in self.succ[b]:
                    out |= live_in[s]
                x = use[b] | (out - dfn[b])
                if x != live_in[b]:
                    live_in[b] = x
                    changed = True
        self.live_in = live_in
        self.phis = [[i for i in ins if "phi" in i] for ins in self.blocks]
        # values used as the base of a variably indexed access
        arr = set()
        for ins in self.blocks:
            for i in ins:
                if i["op"] == "getelementptr" and i.get("off") is None and i["o"][0][0] == "v" and len(i["o"]) == 2:
                    arr.add(i["o"][0][1])
        ch = True
        while ch:
            ch = False
            for ps in self.phis:
                for p in ps:
                    if p["i"] in arr:
                        for v, _ in p["phi"]:
                            if v[0] == "v" and v[1] not in arr:
                                arr.add(v[1])
                                ch = True
        self.arrbase = arr
        # loop bounds: values compared where a loop is left
        lb = set()
        for h, body in self.loops.items():
            for b in body:
                t = self.blocks[b][-1]
                if t["op"] == "br" and "cond" in t and any(x not in body for x in t["succ"]):
                    d = self.defs.get(t["cond"][1]) if t["cond"][0] == "v" else None
                    if d:
                        ci = self.blocks[d[0]][d[1]]
                        if ci["op"] == "icmp" and ci.get("oty", "").startswith("i"):
                            for v in ci["o"]:
                                if v[0] == "v" and self.defs.get(v[1], (None,))[0] not in body:
                                    lb.add(v[1])
        work = list(lb)
        while work:
            d = self.defs.get(work.pop())
            if d:
                ci = self.blocks[d[0]][d[1]]
                if ci["op"] in ("sext", "zext", "trunc", "freeze") and ci["o"][0][0] == "v" and ci["o"][0][1] not in lb:
                    lb.add(ci["o"][0][1])
                    work.append(ci["o"][0][1])
        self.bounds = lb
        # draining loops: header -> bases whose elements the body releases
        self.drains = {}
        rel = {r for k in KINDS.values() for r in k.release}
        for h, body in self.loops.items():
            for b in body:
                for i in self.blocks[b]:
                    if i["op"] not in ("call", "invoke") or i.get("callee") not in rel or not i.get("args"):
                        continue
                    base = self.elem_base(i["args"][0], body)
                    if base is not None:
                        self.drains.setdefault(h, []).append(base)

    def ins_of(self, v):
        if v[0] != "v":
            return None
        d = self.defs.get(v[1])
        return self.blocks[d[0]][d[1]] if d else None

    def elem_base(self, v, body):
        """v = base[variable] with base fixed over the loop: the operand (or
        the fixed place it is loaded from)."""
        for _ in range(4):
            i = self.ins_of(v)
            if i is None or i["op"] in ("load", "call", "invoke", "phi"):
                break
            if i["op"] not in ("bitcast", "inttoptr", "ptrtoint", "freeze"):
                return None
            v = i["o"][0]
        if i is None or i["op"] != "load":
            return None
        g = self.ins_of(i["o"][0])
        if g is None or g["op"] != "getelementptr" or g.get("off") is not None:
            return None
        base = g["o"][0]
        bi = self.ins_of(base)
        if bi is None or self.defs[base[1]][0] not in body:
            return ("v", base)
        if bi["op"] == "load":
            src = bi["o"][0]
            if self.ins_of(src) is None or self.defs[src[1]][0] not in body:
                return ("load", src)
        return None

    def defty(self, n):
        if n < len(self.params):
            return self.params[n][1]
        d = self.defs.get(n)
        return self.blocks[d[0]][d[1]].get("ty", "") if d else ""

    def isptr(self, n):
        return self.defty(n) == "ptr"

    def loc(self, i):
        f = i.get("f") or self.file
        return "%s:%s" % (f, i.get("l", self.line))

    def insts(self):
        for b, ins in enumerate(self.blocks):
            for i in ins:
                yield b, i

    def calls(self, pat=None):
        for b, i in self.insts():
            if i["op"] in ("call", "invoke"):
                if pat is None or (i.get("callee") and re.fullmatch(pat, i["callee"])):
                    yield b, i


def opvars(v):
    if not isinstance(v, list) or not v:
        return
    if v[0] == "v":
        yield v[1]


def inst_uses(i):
    for k in ("o", "args"):
        for v in i.get(k) or ():
            yield from opvars(v)
    for k in ("cond", "indirect"):
        if k in i:
            yield from opvars(i[k])


class Module:
    def __init__(self, d):
        self.fns = {}
        for f in d["functions"]:
            self.fns[f["name"]] = Fn(f, self)
        self.globals = {g["name"]: g for g in d["globals"]}
        self.records = d["records"]
        self._dem = None

    def find(self, q, required=True):
        """Functions whose qualified or linkage name is q."""
        r = [f for f in self.fns.values() if not f.decl and (f.q == q or f.name == q)]
        if not r and required:
            raise AnalysisBroken("anchor function not found: " + q)
        return r

    def one(self, q):
        return self.find(q)[0]

    def rec(self, name):
        for r in self.records:
            if r["name"] == name or r["q"] == name:
                return r
        raise AnalysisBroken("record not found: " + name)

    def gstring(self, v):
        """Constant string behind a global operand, or None."""
        if v and v[0] == "g":
            g = self.globals.get(v[1])
            if g and g.get("init") and g["init"][0] == "s" and g.get("const"):
                return g["init"][1].rstrip("\0")
            if g and g.get("init") and g["init"][0] == "z" and g.get("const"):
                return ""
        return None


# --------------------------------------------------------------------------
# values: ("int",n) ("sym",key) ("ptr",obj,off|None) ("fn",name) ("cmp",p,a,b)
#         ("not",v) ("and",a,b) ("or",a,b) ("res",rid) ("off",sym,off) ("top",)
#         ("elem",obj)   ("f",text)   ("agg",[...])

def keys_of(v, out):
    if v[0] == "sym":
        out.add(v[1])
    elif v[0] in ("cmp",):
        keys_of(v[2], out)
        keys_of(v[3], out)
    elif v[0] in ("not", "off"):
        keys_of(v[1], out)
    elif v[0] in ("and", "or"):
        keys_of(v[1], out)
        keys_of(v[2], out)
    elif v[0] == "ptr":
        o = v[1]
        if o[0] == "U":
            out.add(o[1])
    elif v[0] == "elem":
        o = v[1]
        if o[0] == "U":
            out.add(o[1])
    elif v[0] == "agg":
        for x in v[1]:
            keys_of(x, out)
    return out


INF = 1 << 70
SWAP = {"eq": "eq", "ne": "ne", "slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle",
        "ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule"}
NEG = {"eq": "ne", "ne": "eq", "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt",
       "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt"}


class State:
    __slots__ = ("env", "mem", "facts", "bools", "res", "contents", "mon", "trail", "cexc")

    def __init__(self):
        self.env = {}
        self.mem = {}
        self.facts = {}
        self.bools = {}
        self.res = {}
        self.contents = {}
        self.mon = None
        self.trail = None
        self.cexc = None

    def copy(self):
        s = State()
        s.env = dict(self.env)
        s.mem = dict(self.mem)
        s.facts = dict(self.facts)
        s.bools = dict(self.bools)
        s.res = dict(self.res)
        s.contents = dict(self.contents)
        s.mon = self.mon
        s.trail = self.trail
        s.cexc = self.cexc
        return s

    def canon(self):
        return (frozenset(self.env.items()), frozenset(self.mem.items()),
                frozenset(self.facts.items()), frozenset(self.bools.items()),
                frozenset(self.res.items()), frozenset(self.contents.items()), self.mon, self.cexc)


class Report:
    def __init__(self, rule, fn, loc, msg, path=None):
        self.rule, self.fn, self.loc, self.msg, self.path = rule, fn, loc, msg, path

    def key(self):
        return (self.rule, self.fn, self.msg)

    def __str__(self):
        return "%s: [%s] in %s: %s" % (self.loc, self.rule, self.fn, self.msg)


# resource kinds: how "failure" looks and what releases them
class Kind:
    def __init__(self, name, fail, release):
        self.name, self.fail, self.release = name, fail, set(release)


HEAP = Kind("heap block", 0, ["free", "realloc", "reallocarray"])
FILEK = Kind("FILE stream", 0, ["fclose"])
PIPE = Kind("popen pipe", 0, ["pclose"])
DIRK = Kind("directory stream", 0, ["closedir"])
FD = Kind("file descriptor", -1, ["close"])
MAP = Kind("mapping", -1, ["munmap"])
DL = Kind("shared-library handle", 0, ["dlclose"])
NEW = Kind("new object", None, ["_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t"])
TENSOR = Kind("tensor", 0, ["omTensorDestroy"])
TLIST = Kind("tensor list", 0, ["omTensorListDestroy", "omTensorListDestroyShallow"])
PROC = Kind("child process", -1, ["waitpid"])
KINDS = {k.name: k for k in (HEAP, FILEK, PIPE, DIRK, FD, MAP, DL, NEW, TENSOR, TLIST)}

ACQUIRE = {
    "malloc": HEAP, "calloc": HEAP, "strdup": HEAP, "strndup": HEAP, "aligned_alloc": HEAP,
    "memalign": HEAP, "realpath": HEAP, "getcwd": None,
    "fopen": FILEK, "fdopen": FILEK, "freopen": None, "tmpfile": FILEK, "fopen64": FILEK,
    "popen": PIPE, "opendir": DIRK, "open": FD, "open64": FD, "openat": FD, "creat": FD, "dup": FD,
    "mkstemp": FD, "mkostemp": FD, "mmap": MAP, "mmap64": MAP, "dlopen": DL,
    "_Znwm": NEW, "_Znam": NEW,
}
ACQUIRE = {k: v for k, v in ACQUIRE.items() if v}
TENSOR_ACQ = {
    "omTensorCreate": TENSOR, "omTensorCreateWithOwnership": TENSOR, "omTensorCreateEmpty": TENSOR,
    "omTensorCreateUntyped": TENSOR, "omTensorListCreate": TLIST,
}

PURE = set("""strlen strcmp strncmp strchr strrchr strstr memcmp getenv isatty strerror abs labs
__errno_location fileno toupper tolower isspace isdigit isalpha atoi atol strtol strtoul strtod
fprintf printf puts putchar fputs fputc fflush vfprintf snprintf sprintf perror fwrite sin cos sqrt log
floor ceil floorf ceilf rand srand gettimeofday getpid time clock getcwd access strcspn strspn
omTensorGetRank omTensorGetShape omTensorGetStrides omTensorGetDataType omTensorGetNumElems
omTensorGetBufferSize omTensorListGetSize omTensorGetOwning omTensorGetAllocatedPtr""".split())

DEREF = {  # library functions that dereference these argument positions
    "memcpy": (0, 1), "memmove": (0, 1), "memset": (0,), "strcpy": (0, 1), "strncpy": (0, 1),
    "strcat": (0, 1), "strlen": (0,), "strcmp": (0, 1), "fprintf": (0,), "fclose": (0,),
    "fgets": (0, 2), "fgetc": (0,), "fputs": (0, 1), "fread": (0, 3), "fwrite": (0, 3), "feof": (0,),
    "fflush": (), "pclose": (0,), "snprintf": (0,), "sprintf": (0,), "strncmp": (0, 1),
    "llvm.memcpy.p0.p0.i64": (0, 1), "llvm.memmove.p0.p0.i64": (0, 1), "llvm.memset.p0.i64": (0,),
    "closedir": (0,), "readdir": (0,), "dlsym": (), "strcspn": (0, 1), "read": (1,), "fseek": (0,),
    "ftell": (0,), "fputc": (1,),
}


class Monitor:
    """Client hooks.  `mon` is an immutable value carried by each state."""
    init = None

    def call(self, eng, st, i, callee, args):
        """Return None to let the engine handle the call, or a list of
        (state, value) outcomes."""
        return None

    def load(self, eng, st, i, ptr):
        pass

    def loaded(self, eng, st, i, ptr, val):
        pass

    def store(self, eng, st, i, ptr, val):
        pass

    def exit(self, eng, st, kind, i, val):
        pass

    def absorb(self, eng, st):
        """Facts are about to be given up: note those that matter in st.mon."""

    def nullderef(self, eng, st, i, ptr):
        pass

    def release(self, eng, st, i, callee, val):
        pass


class Engine:
    def __init__(self, fn, monitor=None, leak=True, nullcheck=True, throws=None, models=None,
                 max_states=200000, per_block=3000, ctor_unwind=True, ignore_new=True,
                 tensors=True, arg_facts=None, kinds=None, uninit=False, init_mem=None, arg_vals=None):
        fn.prep()
        self.fn = fn
        self.mon = monitor or Monitor()
        self.leak, self.nullcheck = leak, nullcheck
        self.throws = throws or (lambda callee: False)
        self.models = models or {}
        self.reports = {}
        self.max_states, self.per_block = max_states, per_block
        self.nstates = 0
        self.sites = set()      # resource acquisition sites analysed
        self.exits = 0
        self.derefs = 0
        self.ctor_unwind = ctor_unwind
        self.ignore_new = ignore_new
        self.kinds = kinds
        self.init_mem = init_mem or {}
        self.this = ("U", ("arg", fn.d.get("thisarg", 0)))
        self.uninit = uninit
        self.acq = dict(ACQUIRE)
        if tensors:
            self.acq.update(TENSOR_ACQ)
        self.is_ctor = fn.q.split("::")[-1:] == fn.q.split("::")[-2:-1]
        self.arg_facts = arg_facts or {}
        self.init_facts = {}
        self.arg_vals = arg_vals or {}
        self.truncated = False
        self.arrays = set()
        self.star = {}

    # ---- reporting
    def report(self, rule, i, msg, st=None):
        for n, ss in self.star.items():
            if n[1] in msg:
                msg = msg.replace(n[1], sorted(x for x in ss if not x.startswith("*"))[0])
        r = Report(rule, self.fn.q, self.fn.loc(i), msg, self.path(st) if st else None)
        self.reports.setdefault((rule, r.loc, msg), r)

    def path(self, st):
        out = []
        t = st.trail
        while t:
            out.append(t[0])
            t = t[1]
        out.reverse()
        r = []
        for l in out:
            if not r or r[-1] != l:
                r.append(l)
        return r[-14:]

    # ---- values
    def ev(self, st, v):
        t = v[0]
        if t == "v":
            return st.env.get(v[1], ("sym", ("i", v[1])))
        if t == "c":
            return ("int", v[1])
        if t == "n" or t == "z":
            return NULL
        if t == "g":
            if v[1] in self.fn.mod.fns:
                return ("fn", v[1])
            return ("ptr", ("G", v[1]), 0)
        if t == "f":
            return ("f", v[1])
        if t == "u":
            return ("undef",)
        if t == "ce":
            if v[1] == "getelementptr":
                b = self.ev(st, v[3])
                if all(x[0] == "c" and x[1] == 0 for x in v[4:]):
                    return b
                if b[0] == "ptr":
                    if len(v) == 5 and v[2] == "i8" and v[4][0] == "c":
                        return ("ptr", b[1], b[2] + v[4][1] if b[2] is not None else None)
                    return ("ptr", b[1], None)
            if v[1] == "inttoptr" and v[3][0] == "c":
                return ("int", v[3][1])
            return ("const", str(v))
        return TOP

    def obj_of(self, v):
        """Object a pointer value designates, with offset."""
        if v[0] == "ptr":
            return v[1], v[2]
        if v[0] == "res":
            return v[1], 0
        if v[0] == "sym":
            return ("U", v[1]), 0
        if v[0] == "off":
            o, _ = self.obj_of(v[1])
            return (o, v[2]) if o else (None, None)
        if v[0] == "elem":
            return ("E", v[1]), 0
        return None, None

    def addoff(self, v, off):
        if v[0] == "ptr":
            return ("ptr", v[1], None if off is None or v[2] is None else v[2] + off)
        if v[0] == "res":
            return v if off == 0 else ("ptr", v[1], off)
        if v[0] == "sym":
            return v if off == 0 else ("off", v, off)
        if v[0] == "off":
            n = None if off is None or v[2] is None else v[2] + off
            return v[1] if n == 0 else ("off", v[1], n)
        if v[0] == "fail":
            return v
        if v[0] == "int" and off is not None:
            if v[1] == 0:
                return ("null+", off) if off else v
            return ("int", v[1] + off)
        if v[0] == "elem":
            return v if off == 0 else ("ptr", ("E", v[1]), off)
        if v[0] == "null+":
            return v
        return TOP if v[0] != "int" else (("null+", None) if v[1] == 0 else TOP)

    def define(self, st, i, key=None):
        """Fresh unknown defined by instruction i."""
        k = key or ("i", i["i"])
        self.purge(st, k)
        return ("sym", k)

    def purge(self, st, k):
        if k in st.facts:
            del st.facts[k]
        dead = [b for b in st.bools if k in keys_of(b, set())]
        for b in dead:
            del st.bools[b]
        for n, v in list(st.env.items()):
            if v[0] in ("sym", "cmp", "not", "and", "or", "off", "ptr", "elem", "agg") and k in keys_of(v, set()):
                st.env[n] = TOP
        for n, v in list(st.mem.items()):
            if (n[0][0] == "U" and n[0][1] == k):
                del st.mem[n]
            elif v[0] in ("sym", "cmp", "not", "and", "or", "off", "ptr", "elem") and k in keys_of(v, set()):
                st.mem[n] = TOP

    # ---- facts
    def rng(self, st, v):
        if v[0] == "int":
            return v[1], v[1], frozenset()
        if v[0] == "fail":
            return v[1], v[1], frozenset()
        if v[0] == "sym":
            return st.facts.get(v[1], (-INF, INF, frozenset()))
        if v[0] == "res":
            k = st.res.get(v[1])
            kind = KINDS.get(k[0]) if k else None
            if kind in (FD,):
                return 0, INF, frozenset()
            if kind in (MAP,):
                return -INF, INF, frozenset((0, -1))
            return -INF, INF, frozenset((0,))
        if v[0] in ("ptr", "fn", "off"):
            return -INF, INF, frozenset((0, -1))
        if v[0] in ("cmp", "not", "and", "or"):
            return 0, 1, frozenset()
        return -INF, INF, frozenset()

    def decide(self, st, p, a, b):
        """Truth value of (a p b), or None."""
        if a[0] == "ptr" and b[0] == "ptr" and a[1] == b[1] and a[2] is None and b[2] is None:
            # two positions in one container
            if p in ("eq", "ne") and (a[1], "walk") not in st.mem and self.has_live(st, a[1]):
                return p == "ne"
            return None
        if a == b and a[0] not in ("top", "undef", "elem") and None not in (a[2:] if a[0] in ("ptr", "off") else ()):
            return p in ("eq", "sle", "sge", "ule", "uge")
        if a[0] == "ptr" and b[0] == "ptr" and a[1] == b[1] and isinstance(a[2], int) and isinstance(b[2], int) \
                and p in ("eq", "ne"):
            return (a[2] == b[2]) == (p == "eq")
        if b[0] != "int" and a[0] == "int":
            return self.decide(st, SWAP[p], b, a)
        la, ha, na = self.rng(st, a)
        lb, hb, nb = self.rng(st, b)
        if p in ("eq", "ne"):
            r = None
            if ha < lb or hb < la:
                r = False
            elif la == ha == lb == hb:
                r = True
            elif b[0] == "int" and b[1] in na:
                r = False
            elif a[0] == "res" and b[0] == "res":
                r = False
            elif a[0] == "ptr" and b[0] == "ptr" and a[1][0] in ("A", "G", "R") and b[1][0] in ("A", "G", "R") \
                    and a[1] != b[1]:
                r = False
            if r is not None:
                return r if p == "eq" else not r
        elif p in ("ult", "uge", "ugt", "ule"):
            if la >= 0 and lb >= 0:
                return self.decide(st, "s" + p[1:], a, b)
            # negative on one side: above everything that is not
            if ha < 0 <= lb:
                return p in ("ugt", "uge")
            if hb < 0 <= la:
                return p in ("ult", "ule")
            # unsigned comparison with 0
            if b == ("int", 0):
                if p == "ult":
                    return False
                if p == "uge":
                    return True
                return self.decide(st, "ne" if p == "ugt" else "eq", a, b)
        else:
            if p == "slt":
                if ha < lb:
                    return True
                if la >= hb:
                    return False
            if p == "sle":
                if ha <= lb:
                    return True
                if la > hb:
                    return False
            if p == "sgt":
                if la > hb:
                    return True
                if ha <= lb:
                    return False
            if p == "sge":
                if la >= hb:
                    return True
                if ha < lb:
                    return False
        c = ("cmp", p, a, b)
        if c in st.bools:
            return st.bools[c]
        c2 = ("cmp", NEG[p], a, b)
        if c2 in st.bools:
            return not st.bools[c2]
        c3 = ("cmp", SWAP[p], b, a)
        if c3 in st.bools:
            return st.bools[c3]
        return None

    def has_live(self, st, o):
        for r in st.contents.get(o, ()):
            if r in st.res and st.res[r][1] == "live":
                return True
        return False

    def truth(self, st, v):
        if v[0] == "int":
            return (v[1] & 1 or v[1] != 0) and True or False
        if v[0] == "cmp":
            return self.decide(st, v[1], v[2], v[3])
        if v[0] == "not":
            t = self.truth(st, v[1])
            return None if t is None else not t
        if v[0] == "and":
            a, b = self.truth(st, v[1]), self.truth(st, v[2])
            if a is False or b is False:
                return False
            return True if a and b else None
        if v[0] == "or":
            a, b = self.truth(st, v[1]), self.truth(st, v[2])
            if a is True or b is True:
                return True
            return False if a is False and b is False else None
        if v[0] == "sym":
            return self.decide(st, "ne", v, NULL)
        if v[0] in ("ptr", "fn", "res"):
            return True
        if v[0] == "fail":
            return v[1] != 0
        if v[0] == "fcmp":
            return st.bools.get(v)
        return None

    def assume(self, st, v, val):
        """Refine st with truth(v)==val.  Returns False if contradictory."""
        t = self.truth(st, v)
        if t is not None:
            return t == val
        if v[0] == "not":
            return self.assume(st, v[1], not val)
        if v[0] == "and":
            if val:
                return self.assume(st, v[1], True) and self.assume(st, v[2], True)
            if self.truth(st, v[1]) is True:
                return self.assume(st, v[2], False)
            if self.truth(st, v[2]) is True:
                return self.assume(st, v[1], False)
            return True
        if v[0] == "or":
            if not val:
                return self.assume(st, v[1], False) and self.assume(st, v[2], False)
            if self.truth(st, v[1]) is False:
                return self.assume(st, v[2], True)
            if self.truth(st, v[2]) is False:
                return self.assume(st, v[1], True)
            return True
        if v[0] == "cmp":
            p, a, b = v[1], v[2], v[3]
            if not val:
                p = NEG[p]
            if a[0] == "int":
                p, a, b = SWAP[p], b, a
            if a[0] == "sym" and b[0] == "int":
                lo, hi, ne = self.rng(st, a)
                n = b[1]
                if p == "eq":
                    lo = hi = n
                    ne = frozenset()
                elif p == "ne":
                    if lo == n:
                        lo += 1
                    elif hi == n:
                        hi -= 1
                    else:
                        if len(ne) < 24:
                            ne = ne | {n}
                elif p == "slt":
                    hi = min(hi, n - 1)
                elif p == "sle":
                    hi = min(hi, n)
                elif p == "sgt":
                    lo = max(lo, n + 1)
                elif p == "sge":
                    lo = max(lo, n)
                elif p == "ult" and n >= 0:
                    lo, hi = max(lo, 0), min(hi, n - 1)
                elif p == "ule" and n >= 0:
                    lo, hi = max(lo, 0), min(hi, n)
                elif p == "ugt" and n == 0:
                    ne = ne | {0}
                elif p == "ugt" and lo >= 0:
                    lo = max(lo, n + 1)
                elif p == "uge" and lo >= 0:
                    lo = max(lo, n)
                else:
                    st.bools[("cmp", p, a, b)] = True
                while lo in ne:
                    lo += 1
                while hi in ne:
                    hi -= 1
                if lo > hi:
                    return False
                st.facts[a[1]] = (lo, hi, frozenset(x for x in ne if lo < x < hi))
                return True
            if a[0] not in ("top", "undef", "elem") and b[0] not in ("top", "undef", "elem"):
                if p == "eq" and a[0] == "sym" and b[0] == "sym":
                    # share intervals
                    la, ha, na = self.rng(st, a)
                    lb, hb, nb = self.rng(st, b)
                    f = (max(la, lb), min(ha, hb), na | nb)
                    if f[0] > f[1]:
                        return False
                    if f != (-INF, INF, frozenset()):
                        st.facts[a[1]] = f
                        st.facts[b[1]] = f
                st.bools[("cmp", p, a, b)] = True
            return True
        if v[0] == "sym":
            return self.assume(st, ("cmp", "ne", v, NULL), val)
        if v[0] == "fcmp":
            st.bools[v] = val
            return True
        return True

    # ---- memory
    def load(self, st, i, ptr):
        self.derefs += 1
        self.deref(st, i, ptr, "read")
        self.mon.load(self, st, i, ptr)
        o, off = self.obj_of(ptr)
        if o is None:
            return self.define(st, i)
        if o[0] == "G":
            c = self.const_global(o[1], off, i)
            if c is not None:
                return c
        if off is None:
            if st.contents.get(o):
                return ("elem", o)
            return self.define(st, i)
        v = st.mem.get((o, off))
        if v is not None and v[0] != "top":
            return v
        if off == 0 and st.contents.get(o):
            return ("elem", o)
        if self.uninit and o[0] == "A" and v is None and o not in self.unknown_init(st):
            return ("undef",)
        nv = self.define(st, i)
        st.mem[(o, off)] = nv
        return nv

    def unknown_init(self, st):
        return ()

    def const_global(self, name, off, i):
        g = self.fn.mod.globals.get(name)
        if not g or not g.get("const") or "init" not in g:
            return None
        init = g["init"]
        if off == 0 and init[0] in ("c", "n", "g"):
            return self.ev(State(), init)
        return None

    def deref(self, st, i, ptr, what):
        if ptr[0] == "fail":
            if self.nullcheck:
                self.report("unchecked-failure", i, "%s through the result of a failed acquisition (%s)" %
                            (what, ptr[2]), st)
            raise Dead()
        if ptr == NULL or ptr[0] == "null+":
            self.mon.nullderef(self, st, i, ptr)
            raise Dead()
        o, off = self.obj_of(ptr)
        if o is not None and o in st.res:
            k, s, site = st.res[o]
            if s == "freed":
                self.report("use-after-release", i, "%s of %s released earlier (acquired at %s)" % (what, k, site), st)

    def store(self, st, i, ptr, val):
        self.derefs += 1
        self.deref(st, i, ptr, "write")
        self.mon.store(self, st, i, ptr, val)
        o, off = self.obj_of(ptr)
        r = self.res_of(st, val)
        if val[0] == "fail" and val[1] == -1 and val[2].startswith("mapping") and (o is None or o[0] in ("U", "G", "E")):
            self.report("unchecked-failure", i, "the result of a failed acquisition (%s) is handed out as an address" %
                        val[2], st)
        if o is None:
            if r:
                self.escape(st, r)
            return
        if r and (o[0] in ("U", "G", "E")):
            self.escape(st, r, o)
        if off is None:
            for n in [n for n in st.mem if n[0] == o]:
                r2 = self.res_of(st, st.mem[n])
                if r2 and r and o[0] not in ("U", "G", "E"):
                    # the object is an array indexed by a variable: from here
                    # on it is one summary cell
                    st.contents[o] = st.contents.get(o, frozenset()) | {r2}
                    r2 = None
                if not r2:
                    del st.mem[n]
            if r and o[0] not in ("U", "G", "E"):
                st.contents[o] = st.contents.get(o, frozenset()) | {r}
            return
        if o in self.arrays:
            if r:
                st.contents[o] = st.contents.get(o, frozenset()) | {r}
            return
        old = st.mem.get((o, off))
        st.mem[(o, off)] = val

    def res_of(self, st, v):
        if v[0] == "res":
            return v[1]
        if v[0] == "ptr" and v[1] in st.res:
            return v[1]
        return None

    def escape(self, st, rid, into=None):
        k, s, site = st.res[rid]
        if s == "live":
            st.res[rid] = (k, "this" if into == self.this else "escaped", site)

    # ---- resources
    def acquire(self, st, i, kind, extra=None):
        """Yields (state, value) for success and failure."""
        rid = ("R", "%s#%s" % (kind.name, i.get("i", i.get("l"))))
        out = []
        site = self.fn.loc(i)
        self.sites.add((kind.name, site, self.fn.q))
        if kind is HEAP and i.get("i") in self.fn.arrbase:
            self.arrays.add(rid)
        ok = st.copy()
        self.renew(ok, i, rid)
        ok.res[rid] = (kind.name, "live", site)
        out.append((ok, ("res", rid)))
        if kind.fail is not None:
            bad = st
            if rid in bad.res:
                self.renew(bad, i, rid)
                if rid in bad.res:
                    pass
            out.append((bad, ("fail", kind.fail, "%s requested at %s" % (kind.name, site))))
        return out

    def renew(self, st, i, rid):
        """The site runs again: what it produced before becomes 'old'."""
        if rid not in st.res:
            return
        k, s, site = st.res[rid]
        held = False
        # references from env are dead or stale once the site re-executes in
        # SSA form, except through phis; look at phis and memory.
        for n, v in list(st.env.items()):
            if self.res_of(st, v) == rid:
                held = True
        for n, v in list(st.mem.items()):
            if self.res_of(st, v) == rid:
                held = True
        for o, c in st.contents.items():
            if rid in c:
                held = True
        old = ("R", rid[1] + "'")
        if s == "live" and not held and self.leak and self.tracked(k):
            self.report("leak", i, "%s acquired at %s is lost when the loop acquires the next one" % (k, site), st)
        if held and s == "live":
            prev = st.res.get(old)
            if prev is None or prev[1] != "live":
                st.res[old] = (k, s, site)
        sub = old if held and s == "live" else None
        for n, v in list(st.env.items()):
            if self.res_of(st, v) == rid:
                st.env[n] = (v[0], old) + tuple(v[2:]) if sub else TOP
        for n, v in list(st.mem.items()):
            if self.res_of(st, v) == rid:
                st.mem[n] = (v[0], old) + tuple(v[2:]) if sub else TOP
            if n[0] == rid:
                vv = st.mem.pop(n, None)
                if sub and vv is not None:
                    st.mem[(old, n[1])] = vv
        for o, c in list(st.contents.items()):
            if rid in c:
                st.contents[o] = (c - {rid}) | ({old} if sub else frozenset())
        if rid in st.contents:
            c = st.contents.pop(rid)
            if sub:
                st.contents[old] = c
        del st.res[rid]

    def tracked(self, kname):
        if self.kinds is not None:
            return kname in self.kinds
        return not (self.ignore_new and kname == NEW.name)

    def release(self, st, i, callee, val, deep=True):
        if val == NULL or val[0] == "null+":
            return
        if val[0] == "fail":
            if val[1] != 0 or callee in ("fclose", "pclose", "closedir"):
                self.report("unchecked-failure", i, "%s receives the result of a failed acquisition (%s)" %
                            (callee, val[2]), st)
            return
        r = self.res_of(st, val)
        if r is None:
            if val[0] == "elem" or val[0] in ("sym", "top", "off"):
                # releasing an element of a container: its held resources of a
                # matching kind are released by the loop over it
                objs = [val[1]] if val[0] == "elem" else list(st.contents) if val[0] == "top" else []
                for o in objs:
                    for x in list(st.contents.get(o, ())):
                        kk = KINDS.get(st.res[x][0]) if x in st.res else None
                        if kk and callee in kk.release and st.res[x][1] in ("live",):
                            self.mark_freed(st, x, deep, callee)
            return
        k, s, site = st.res[r]
        kind = KINDS[k]
        if s == "freed":
            self.report("double-release", i, "%s (acquired at %s) released twice" % (k, site), st)
            return
        if s == "moved":
            self.report("double-release", i, "%s (acquired at %s) released although its ownership was handed over" % (k, site), st)
            return
        if callee not in kind.release:
            self.report("wrong-release", i, "%s (acquired at %s) released with %s" % (k, site, callee), st)
            return
        if val[0] == "ptr" and val[2] not in (0,):
            self.report("wrong-release", i, "%s (acquired at %s) released through an interior pointer" % (k, site), st)
            return
        self.mark_freed(st, r, deep, callee)

    def mark_freed(self, st, r, deep, callee=None):
        if r not in st.res:
            return
        k, s, site = st.res[r]
        st.res[r] = (k, "freed", site)
        if callee in ("omTensorDestroy", "omTensorListDestroy"):
            kids = set(st.contents.get(r, ()))
            for c in kids:
                if c in st.res and st.res[c][1] in ("live", "moved"):
                    self.mark_freed(st, c, True, "omTensorDestroy" if st.res[c][0] == TENSOR.name else None)

    # ---- exit checks
    def reachable(self, st, roots):
        seen = set()
        work = []
        for v in roots:
            r = self.obj_of(v)[0] if v[0] in ("ptr", "res", "elem") else None
            if v[0] == "agg":
                for x in v[1]:
                    rr = self.obj_of(x)[0] if x[0] in ("ptr", "res", "elem") else None
                    if rr:
                        work.append(rr)
            if r:
                work.append(r)
        byobj = {}
        for (o, off), v in st.mem.items():
            byobj.setdefault(o, []).append(v)
        for o in list(byobj) + list(st.contents):
            if o[0] in ("U", "G", "E"):
                work.append(o)
        while work:
            o = work.pop()
            if o in seen:
                continue
            seen.add(o)
            for v in byobj.get(o, ()):
                x = self.obj_of(v)[0] if v[0] in ("ptr", "res", "elem") else None
                if x and x not in seen:
                    work.append(x)
            for x in st.contents.get(o, ()):
                work.append(x)
        return seen

    def at_exit(self, st, kind, i, val):
        self.exits += 1
        self.mon.exit(self, st, kind, i, val)
        if not self.leak:
            return
        roots = [val] if val is not None else []
        seen = self.reachable(st, roots)
        for r, (k, s, site) in st.res.items():
            if not self.tracked(k):
                continue
            if s == "live" and r not in seen:
                self.report("leak", i, "%s acquired at %s is not released on this %s" %
                            (k, site, "return path" if kind == "ret" else "exception path"), st)
            elif s == "this" and kind != "ret" and self.is_ctor and self.ctor_unwind:
                self.report("leak", i, "%s acquired at %s is lost when the constructor exits by an exception" %
                            (k, site), st)

    # ---- calls
    def clobber(self, st, obj):
        for n in [n for n in st.mem if n[0] == obj]:
            v = st.mem[n]
            if not self.res_of(st, v):
                del st.mem[n]

    def do_call(self, st, i):
        """Returns list of (state, value, thrown)"""
        callee = i.get("callee")
        if callee is None:
            t = self.ev(st, i["indirect"])
            if t[0] == "fn":
                callee = t[1]
        args = [self.ev(st, a) for a in i["args"]]
        if callee and callee in self.models:
            r = self.models[callee](self, st, i, args)
            if r is not None:
                return [x if len(x) == 3 else (x[0], x[1], False) for x in r]
        r = self.mon.call(self, st, i, callee, args)
        if r is not None:
            return [x if len(x) == 3 else (x[0], x[1], False) for x in r]
        if callee is None:
            for a in args:
                o, _ = self.obj_of(a)
                if o and o[0] == "A":
                    self.clobber(st, o)
                r = self.res_of(st, a)
                if r and st.res[r][1] == "freed":
                    self.report("use-after-release", i, "%s (acquired at %s) passed to a called function after its release" %
                                (st.res[r][0], st.res[r][2]), st)
                if a[0] == "fail" and self.nullcheck:
                    self.report("unchecked-failure", i, "a called function receives the result of a failed acquisition (%s)" %
                                a[2], st)
            self.clobber_shared(st)
            return [(st, self.fresh(st, i), False)]
        f = self.fn.mod.fns.get(callee)
        # use of released resources / null
        for k, a in enumerate(args):
            r = self.res_of(st, a)
            if r and st.res[r][1] == "freed" and callee not in KINDS[st.res[r][0]].release:
                self.report("use-after-release", i, "%s (acquired at %s) passed to %s after its release" %
                            (st.res[r][0], st.res[r][2], nice(callee, f)), st)
        if callee in DEREF:
            for k in DEREF[callee]:
                if k < len(args):
                    a = args[k]
                    if a == NULL or a[0] in ("null+", "fail"):
                        # zero-length memcpy etc. are fine
                        n = args[2] if callee.startswith(("mem", "llvm.mem")) and len(args) > 2 else None
                        if n == NULL:
                            continue
                        if a[0] == "fail":
                            if self.nullcheck:
                                self.report("unchecked-failure", i, "%s receives the result of a failed "
                                            "acquisition (%s)" % (callee, a[2]), st)
                        else:
                            self.mon.nullderef(self, st, i, a)
                        raise Dead()
        if i.get("nr") or (f and f.d.get("noreturn")):
            if callee == "__cxa_throw" or callee == "__cxa_rethrow" or "_ZSt" in callee and "throw" in callee:
                st.cexc = callee
                return [(st, TOP, True)]
            raise Dead()
        if callee.startswith(("llvm.memcpy", "llvm.memmove")) or callee in ("memcpy", "memmove"):
            self.memcpy(st, i, args)
            return [(st, args[0] if "i" in i else TOP, False)]
        if callee.startswith("llvm.memset") or callee == "memset":
            o, off = self.obj_of(args[0])
            if o:
                self.clobber(st, o)
                if args[1] == NULL and o[0] in ("A", "R"):
                    st.mem[(o, "zero")] = NULL
            return [(st, args[0] if "i" in i else TOP, False)]
        if callee.startswith("llvm."):
            return [(st, self.fresh(st, i), False)]
        if callee in ("realloc", "reallocarray"):
            out = []
            for s2, v in self.acquire(st.copy(), i, HEAP):
                if v[0] == "res":
                    # old contents move
                    r = self.res_of(s2, args[0])
                    if r and r != v[1] and r in s2.res:
                        self.release(s2, i, "realloc", args[0])
                out.append((s2, v, False))
            return out
        if callee == "posix_memalign":
            out = []
            for s2, v in self.acquire(st, i, HEAP):
                if v[0] == "res":
                    self.store(s2, i, args[0], v)
                    out.append((s2, NULL, False))
                else:
                    out.append((s2, ("int", 12), False))
            return out
        if callee in ("pipe", "pipe2"):
            return [(st, self.fresh(st, i), False)]
        if callee in self.acq:
            return self.acquire_call(st, i, callee, args)
        for kn, kind in KINDS.items():
            if callee in kind.release:
                self.mon.release(self, st, i, callee, args[0] if args else TOP)
                self.release(st, i, callee, args[0] if args else TOP)
                return [(st, self.fresh(st, i), False)]
        if callee == "omTensorListGetOmtArray":
            o, _ = self.obj_of(args[0])
            if o and o in st.res:
                return [(st, ("elemarr", o) if False else ("ptr", o, None), False)]
            return [(st, self.fresh(st, i), False)]
        if callee == "omTensorGetDataPtr" or callee == "omTensorGetShape" or callee == "omTensorGetStrides":
            v = self.fresh(st, i)
            if v[0] == "sym":
                st.facts[v[1]] = (-INF, INF, frozenset((0,)))
            return [(st, v, False)]
        if callee in PURE:
            return [(st, self.fresh(st, i), False)]
        # generic
        lib = not (f and f.repo)
        objs = []
        for a in args:
            o, _ = self.obj_of(a)
            if o:
                objs.append(o)
        dem = f.d.get("dem", "") if f else ""
        if lib and "~" in dem and args and ("unique_ptr<" in dem or "shared_ptr<" in dem):
            o, _ = self.obj_of(args[0])
            if o:
                for x in list(st.contents.get(o, ())):
                    if x in st.res and st.res[x][1] == "live":
                        self.mark_freed(st, x, True, "omTensorListDestroy")
            return [(st, self.fresh(st, i), False)]
        moves = lib and "&&" in dem and "unique_ptr<" in dem
        # std containers: what is stored behind one argument is now held by another
        held = set()
        for a in args[1:]:
            o, off = self.obj_of(a)
            if o and o[0] == "A":
                for (oo, f2), v in list(st.mem.items()):
                    if oo == o:
                        r = self.res_of(st, v)
                        if r:
                            held.add(r)
                            if moves:
                                st.mem[(oo, f2)] = NULL
            elif self.res_of(st, a) and lib and callee.startswith("_Z"):
                held.add(self.res_of(st, a))
        if held and args:
            o, _ = self.obj_of(args[0])
            if o and o[0] == "A":
                st.contents[o] = st.contents.get(o, frozenset()) | held
            elif o and o[0] in ("U", "G", "E"):
                for r in held:
                    self.escape(st, r, o)
        if lib and "basic_string<" in dem:
            # a string operation touches its strings, not what surrounds them
            for a in args:
                o, off = self.obj_of(a)
                if o and o[0] == "U" and isinstance(off, int):
                    objs = [x for x in objs if x != o]
                    for n in [n for n in st.mem if n[0] == o and isinstance(n[1], int) and off <= n[1] < off + 32]:
                        del st.mem[n]
        for o in objs:
            if o[0] in ("A", "R", "U", "G", "E"):
                self.clobber(st, o)
        if not lib:
            self.clobber_shared(st)
        outs = []
        if self.throws(callee):
            s2 = st.copy()
            s2.cexc = callee
            outs.append((s2, TOP, True))
        v = self.fresh(st, i)
        # methods returning a reference into a container that holds resources
        if lib and "i" in i and i.get("ty") == "ptr" and args:
            o, _ = self.obj_of(args[0])
            if o and st.contents.get(o):
                v = ("ptr", o, None)
        outs.append((st, v, False))
        return outs

    def clobber_shared(self, st):
        for n in [n for n in st.mem if n[0][0] in ("U", "G", "E")]:
            if not self.res_of(st, st.mem[n]):
                del st.mem[n]

    def fresh(self, st, i):
        if "i" not in i:
            return TOP
        return self.define(st, i)

    def memcpy(self, st, i, args):
        d, doff = self.obj_of(args[0])
        s, soff = self.obj_of(args[1])
        if d is None:
            return
        self.deref(st, i, args[0], "write")
        if s is not None:
            self.deref(st, i, args[1], "read")
        n = args[2][1] if args[2][0] == "int" else None
        self.clobber(st, d) if n is None or doff is None else None
        if n is not None and doff is not None:
            for k in [k for k in st.mem if k[0] == d and isinstance(k[1], int) and doff <= k[1] < doff + n]:
                del st.mem[k]
        if s is not None and soff is not None and doff is not None and n is not None:
            for (o, f), v in list(st.mem.items()):
                if o == s and isinstance(f, int) and soff <= f < soff + n:
                    st.mem[(d, doff + f - soff)] = v
                    r = self.res_of(st, v)
                    if r and d[0] in ("U", "G", "E"):
                        self.escape(st, r, d)
        elif s is not None:
            held = set(st.contents.get(s, ()))
            for (o, f), v in st.mem.items():
                if o == s and self.res_of(st, v):
                    held.add(self.res_of(st, v))
            if held:
                if d[0] in ("U", "G", "E"):
                    for r in held:
                        self.escape(st, r, d)
                else:
                    st.contents[d] = st.contents.get(d, frozenset()) | held

    def acquire_call(self, st, i, callee, args):
        kind = self.acq[callee]
        # fopen(NULL..) etc. not considered
        outs = []
        for s2, v in self.acquire(st, i, kind):
            if v[0] == "res":
                if callee == "omTensorCreateWithOwnership":
                    r = self.res_of(s2, args[0])
                    own = self.truth(s2, args[4])
                    if r and own is not False and s2.res[r][1] in ("live", "escaped", "this"):
                        kk, _, site = s2.res[r]
                        s2.res[r] = (kk, "moved", site)
                        s2.contents[v[1]] = s2.contents.get(v[1], frozenset()) | {r}
                if callee == "omTensorListCreate":
                    o, _ = self.obj_of(args[0])
                    if o:
                        kids = set(s2.contents.get(o, ()))
                        for (oo, f), vv in s2.mem.items():
                            if oo == o and self.res_of(s2, vv):
                                kids.add(self.res_of(s2, vv))
                        s2.contents[v[1]] = frozenset(kids)
            outs.append((s2, v, False))
        return outs

    # ---- driver
    def run(self):
        fn = self.fn
        if not fn.blocks:
            return self
        st = State()
        st.mon = self.mon.init
        st.facts.update(self.init_facts)
        for k, p in enumerate(fn.params):
            key = ("arg", k)
            st.env[k] = self.arg_vals.get(k, ("sym", key))
            if k in self.arg_facts:
                st.facts[key] = self.arg_facts[k]
        for (k, off), v in self.init_mem.items():
            st.mem[(("U", ("arg", k)), off)] = v
        self.seen = [set() for _ in fn.blocks]
        if len(fn.blocks) > 100:
            self.tier1, self.tier2, self.tier3 = 24, 100, 300
        self.work = [(0, None, st)]
        while self.work:
            b, frm, st = self.work.pop()
            self.nstates += 1
            if self.nstates > self.max_states:
                self.truncated = True
                raise AnalysisBroken("state budget exceeded in " + fn.q)
            self.block(b, frm, st)
        return self

    def enter(self, b, frm, st):
        fn = self.fn
        # phis
        vals = {}
        for p in fn.phis[b]:
            for v, pb in p["phi"]:
                if pb == frm:
                    val = self.ev(st, v)
                    if (frm, b) in fn.back and val[0] == "int" and v[0] != "c":
                        val = ("widen",)
                    elif b in fn.headers and (frm, b) in fn.back and val[0] in ("cmp", "and", "or", "not"):
                        val = ("widen",)
                    elif b in fn.headers and (frm, b) in fn.back and val[0] == "ptr" and val[2] not in (None, 0):
                        val = ("ptr", val[1], None)
                    elif b in fn.headers and (frm, b) in fn.back and val[0] == "off":
                        val = ("off", val[1], None)
                    vals[p["i"]] = val
                    break
        st = st.copy()
        for n, v in vals.items():
            if v == ("widen",):
                v = self.define(st, {"i": n})
            st.env[n] = v
        # drop dead names
        live = fn.live_in[b]
        keep = {p["i"] for p in fn.phis[b]}
        st.env = {n: v for n, v in st.env.items() if n in live or n in keep}
        ks = set()
        for v in st.env.values():
            keys_of(v, ks)
        for (o, off), v in st.mem.items():
            if o[0] == "U":
                ks.add(o[1])
            keys_of(v, ks)
        st.facts = {k: f for k, f in st.facts.items() if k in ks or k[0] == "arg"}
        st.bools = {c: x for c, x in st.bools.items() if keys_of(c, set()) <= ks or
                    all(k in ks or k[0] == "arg" for k in keys_of(c, set()))}
        self.gc(st, ks)
        return st

    def collapse(self, st):
        """Resources only reachable through a container become one anonymous
        member of it per kind (which site produced which no longer matters)."""
        if not st.contents:
            return
        direct = set()
        for v in list(st.env.values()):
            r = self.res_of(st, v)
            if r:
                direct.add(r)
            if v[0] == "agg":
                for x in v[1]:
                    r = self.res_of(st, x)
                    if r:
                        direct.add(r)
        for v in st.mem.values():
            r = self.res_of(st, v)
            if r:
                direct.add(r)
        owner = {}
        for o, c in st.contents.items():
            for r in c:
                owner.setdefault(r, set()).add(o)
        for r, os_ in owner.items():
            if r in direct or len(os_) != 1 or r not in st.res or r[1].startswith("*"):
                continue
            k, s, site = st.res[r]
            if s != "live":
                continue
            o = next(iter(os_))
            n = ("R", "*%s@%s" % (k, o[1] if o[0] != "R" else o[1]))
            if n in st.res and st.res[n][1] != "live":
                continue
            st.contents[o] = (st.contents[o] - {r}) | {n}
            self.star.setdefault(n, set()).add(site)
            if n not in st.res:
                st.res[n] = (k, "live", n[1])
            del st.res[r]
            kids = st.contents.pop(r, None)
            for key in [key for key in st.mem if key[0] == r]:
                del st.mem[key]
            if kids:
                live = frozenset(x for x in kids if x in st.res and st.res[x][1] == "live")
                for x in kids - live:
                    if x in st.res and x not in direct and st.res[x][1] in ("moved", "escaped"):
                        del st.res[x]
                if live:
                    st.contents[n] = st.contents.get(n, frozenset()) | live
        for o in [o for o, c in st.contents.items() if not c]:
            del st.contents[o]

    def gc(self, st, ks):
        self.collapse(st)
        # freed resources nobody names any more
        named = set()
        for v in list(st.env.values()) + list(st.mem.values()):
            r = self.obj_of(v)[0] if v[0] in ("res", "ptr", "elem") else None
            if r:
                named.add(r)
        for c in st.contents.values():
            named |= c
        for r in [r for r in st.res if st.res[r][1] in ("freed", "escaped") and r not in named]:
            del st.res[r]
            st.contents.pop(r, None)
            for n in [n for n in st.mem if n[0] == r]:
                del st.mem[n]

    def block(self, b, frm, st):
        fn = self.fn
        if frm is not None:
            st = self.enter(b, frm, st)
        if len(self.seen[b]) > self.tier1:
            self.mon.absorb(self, st)
            st = self.coarsen(b, st, len(self.seen[b]) > self.tier2)
            if len(self.seen[b]) > self.tier3:
                self.floor(st)
        c = st.canon()
        if c in self.seen[b]:
            return
        self.seen[b].add(c)
        if len(self.seen[b]) > self.per_block:
            raise AnalysisBroken("state budget exceeded in %s (block %d)" % (fn.q, b))
        ins = fn.blocks[b]
        self.frm = frm
        self.step(b, ins, 0, st)

    def coarsen(self, b, st, hard):
        """Join: give up facts that cannot name a resource.  Sound for the
        typestate (facts only prune paths); used when a block has seen many
        states."""
        st = st.copy() if st.trail is None else st.copy()
        fn = self.fn
        hp = set()
        for h in fn.headers:
            for p in fn.phis[h]:
                hp.add(p["i"])
        for n, v in list(st.env.items()):
            if v[0] == "int" and n in hp and fn.defty(n) != "i1" and not fn.isptr(n):
                st.env[n] = ("sym", ("i", n))
            if hard and v[0] in ("cmp", "and", "or", "not"):
                st.env[n] = TOP
        st.bools = {} if hard else {c: x for c, x in st.bools.items() if not (c[0] == "cmp" and c[2][0] == "sym" and c[3][0] == "sym")}
        if hard:
            st.facts = {}
            for n, v in list(st.mem.items()):
                if v[0] in ("int", "sym", "cmp", "and", "or", "not", "top"):
                    del st.mem[n]
        else:
            f = {}
            for k, (lo, hi, ne) in st.facts.items():
                if lo == hi == 0:
                    f[k] = (0, 0, frozenset())
                elif k[0] == "i" and k[1] in fn.bounds:
                    f[k] = (1, INF, frozenset()) if lo > 0 else (-INF, 0, frozenset()) if hi <= 0 else (-INF, INF, frozenset())
                elif 0 in ne or lo > 0 or hi < 0:
                    f[k] = (-INF, INF, frozenset((0,)))
            ptrs = set()
            used = set()
            for n, v in st.env.items():
                if v[0] == "sym" and fn.isptr(n):
                    ptrs.add(v[1])
                keys_of(v, used)
            for n, v in list(st.mem.items()):
                if n[0][0] in ("U", "E") and v[0] in ("sym", "top") and not (v[0] == "sym" and v[1] in used):
                    del st.mem[n]
            st.facts = {k: v for k, v in f.items() if k in ptrs or k[0] == "arg" or (k[0] == "i" and fn.isptr(k[1]))
                        or (k[0] == "i" and (k[1] in fn.bounds or fn.defty(k[1]) in ("i1", "i8")))}
            for n, v in list(st.mem.items()):
                if n[0][0] == "A" and v[0] in ("int", "sym", "top") and not (v[0] == "sym" and v[1][0] == "i" and fn.isptr(v[1][1])):
                    if v[0] != "int" or hard or not isinstance(n[1], int) or v[1] != 0:
                        del st.mem[n]
        return st

    def floor(self, st):
        """Keep nothing but what names a resource."""
        fn = self.fn
        hp = {p["i"] for h in fn.headers for p in fn.phis[h]}
        st.facts, st.bools = {}, {}
        for n, v in list(st.env.items()):
            if self.res_of(st, v) or v[0] in ("elem", "fail", "fn"):
                continue
            if v[0] == "int" and n not in hp:
                continue
            if v[0] == "ptr" and v[1][0] in ("A", "G") and v[2] == 0:
                continue
            st.env[n] = ("sym", ("i", n)) if n >= len(fn.params) else ("sym", ("arg", n))
        for n, v in list(st.mem.items()):
            if not self.res_of(st, v) and v[0] != "fail":
                del st.mem[n]

    tier3 = 1500
    tier1 = 80
    tier2 = 500

    def goto(self, b, frm, st, i=None):
        if i is not None and "l" in i:
            st.trail = ("%s:%s" % ((i.get("f") or self.fn.file).split("/")[-1], i["l"]), st.trail)
        self.work.append((b, frm, st))

    def step(self, b, ins, k, st):
        fn = self.fn
        while k < len(ins):
            i = ins[k]
            op = i["op"]
            try:
                if op == "phi":
                    if i["i"] not in st.env:
                        st.env[i["i"]] = self.define(st, i)
                elif op in ("call", "invoke"):
                    outs = self.do_call(st, i)
                    for s2, v, thrown in outs:
                        if thrown:
                            if op == "invoke":
                                self.goto(i["unwind"], b, s2, i)
                            else:
                                self.at_exit(s2, "throw", i, None)
                            continue
                        if "i" in i:
                            s2.env[i["i"]] = v
                        if op == "invoke":
                            self.goto(i["normal"], b, s2)
                        else:
                            if len(outs) == 1:
                                st = s2
                            else:
                                self.step(b, ins, k + 1, s2)
                    if op == "invoke" or len(outs) != 1 or (outs and outs[0][2]):
                        return
                elif op == "ret":
                    v = self.ev(st, i["o"][0]) if i["o"] else None
                    self.at_exit(st, "ret", i, v)
                    return
                elif op == "resume":
                    self.at_exit(st, "throw", i, None)
                    return
                elif op == "unreachable":
                    return
                elif op == "br":
                    if "cond" not in i:
                        self.goto(i["succ"][0], b, st)
                        return
                    c = self.ev(st, i["cond"])
                    t = self.truth(st, c)
                    if t is None and self.frm is not None and b in fn.drains and self.frm not in fn.loops[b]:
                        # a loop that releases the elements of something that
                        # holds some runs at least once
                        for how, x in fn.drains[b]:
                            x = self.ev(st, x)
                            if how == "load":
                                o, off = self.obj_of(x)
                                x = st.mem.get((o, off), TOP) if o else TOP
                            o = self.obj_of(x)[0] if x[0] in ("res", "ptr", "elem") else None
                            if o and self.has_live(st, o):
                                inb = [y in fn.loops[b] for y in i["succ"]]
                                if inb[0] != inb[1]:
                                    t = inb[0]
                    if t is not None:
                        self.goto(i["succ"][0 if t else 1], b, st, i)
                        return
                    a = st.copy()
                    if self.assume(a, c, True):
                        self.goto(i["succ"][0], b, a, i)
                    if self.assume(st, c, False):
                        self.goto(i["succ"][1], b, st, i)
                    return
                elif op == "switch":
                    c = self.ev(st, i["cond"])
                    if c[0] == "int":
                        d = i["default"]
                        for n, t in i["cases"]:
                            if n == c[1]:
                                d = t
                        self.goto(d, b, st, i)
                        return
                    for n, t in i["cases"]:
                        a = st.copy()
                        if self.assume(a, ("cmp", "eq", c, ("int", n)), True):
                            self.goto(t, b, a, i)
                    ok = True
                    for n, t in i["cases"]:
                        ok = ok and self.assume(st, ("cmp", "ne", c, ("int", n)), True)
                    if ok:
                        self.goto(i["default"], b, st, i)
                    return
                elif op == "select":
                    c = self.ev(st, i["o"][0])
                    t = self.truth(st, c)
                    x, y = self.ev(st, i["o"][1]), self.ev(st, i["o"][2])
                    if t is not None:
                        st.env[i["i"]] = x if t else y
                    elif x == y:
                        st.env[i["i"]] = x
                    else:
                        a = st.copy()
                        if self.assume(a, c, True):
                            a.env[i["i"]] = x
                            self.step(b, ins, k + 1, a)
                        if not self.assume(st, c, False):
                            return
                        st.env[i["i"]] = y
                elif op == "load":
                    ptr = self.ev(st, i["o"][0])
                    st.env[i["i"]] = self.load(st, i, ptr)
                    self.mon.loaded(self, st, i, ptr, st.env[i["i"]])
                elif op == "store":
                    self.store(st, i, self.ev(st, i["o"][1]), self.ev(st, i["o"][0]))
                elif op == "alloca":
                    o = ("A", i["i"])
                    st.env[i["i"]] = ("ptr", o, 0)
                elif op == "getelementptr":
                    base = self.ev(st, i["o"][0])
                    off = i.get("off")
                    if off is None:
                        off = self.gep_off(st, i)
                    st.env[i["i"]] = self.addoff(base, off)
                elif op == "icmp":
                    a, bb = self.ev(st, i["o"][0]), self.ev(st, i["o"][1])
                    st.env[i["i"]] = self.icmp(st, i, a, bb)
                elif op == "fcmp":
                    a, bb = self.ev(st, i["o"][0]), self.ev(st, i["o"][1])
                    st.env[i["i"]] = self.define(st, i)
                elif op in ("zext", "sext", "trunc", "bitcast", "ptrtoint", "inttoptr", "freeze", "addrspacecast"):
                    st.env[i["i"]] = self.cast(st, i, self.ev(st, i["o"][0]))
                elif op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "sdiv", "udiv", "srem", "urem"):
                    st.env[i["i"]] = self.arith(st, i, op)
                elif op == "extractvalue":
                    v = self.ev(st, i["o"][0])
                    if v[0] == "agg" and len(i["idx"]) == 1 and i["idx"][0] < len(v[1]):
                        st.env[i["i"]] = v[1][i["idx"][0]]
                    else:
                        st.env[i["i"]] = self.define(st, i)
                elif op == "insertvalue":
                    v = self.ev(st, i["o"][0])
                    x = self.ev(st, i["o"][1])
                    if len(i["idx"]) == 1:
                        l = list(v[1]) if v[0] == "agg" else []
                        n = i["idx"][0]
                        while len(l) <= n:
                            l.append(TOP)
                        l[n] = x
                        st.env[i["i"]] = ("agg", tuple(l))
                    else:
                        st.env[i["i"]] = TOP
                elif "i" in i:
                    st.env[i["i"]] = self.define(st, i)
            except Dead:
                return
            k += 1

    def gep_off(self, st, i):
        """Byte offset when the variable indices are known constants."""
        if len(i["o"]) == 2:
            v = self.ev(st, i["o"][1])
            if v[0] == "int":
                return v[1] * i["esz"]
        return None

    def cast(self, st, i, v):
        if v[0] == "fail":
            return v
        if v[0] == "int":
            ty = i["ty"]
            if i["op"] == "trunc" and ty.startswith("i"):
                w = int(ty[1:])
                n = v[1] & ((1 << w) - 1)
                if w > 1 and n >> (w - 1):
                    n -= 1 << w
                return ("int", n)
            if i["op"] == "zext":
                w = int(i["from"][1:]) if i["from"].startswith("i") else 64
                return ("int", v[1] & ((1 << w) - 1))
            if i["op"] == "sext" and i["from"] == "i1":
                return ("int", -1 if v[1] else 0)
            return v
        return v

    def icmp(self, st, i, a, b):
        p = i["pred"]
        # (bool != 0) is the bool itself
        if b[0] == "int" and b[1] in (0, 1) and a[0] in ("cmp", "not", "and", "or") and p in ("eq", "ne"):
            pos = (p == "ne") == (b[1] == 0)
            return a if pos else ("not", a)
        if a[0] in ("top", "undef", "const", "f") or b[0] in ("top", "undef", "const", "f"):
            return self.define(st, i)
        t = self.decide(st, p, a, b)
        if a[0] == "ptr" and b[0] == "ptr" and a[1] == b[1] and a[2] is None and b[2] is None:
            if t is not None:
                # a container that holds something is not empty: the first
                # comparison of a walk over it cannot be the last
                st.mem[(a[1], "walk")] = ("int", 1)
                return ("int", 1 if t else 0)
            st.mem.pop((a[1], "walk"), None)
            return self.define(st, i)
        if t is not None:
            return ("int", 1 if t else 0)
        return ("cmp", p, a, b)

    def arith(self, st, i, op):
        a, b = self.ev(st, i["o"][0]), self.ev(st, i["o"][1])
        w = int(i["ty"][1:]) if i["ty"].startswith("i") else 0
        if w == 1:
            if op == "xor" and b == ("int", 1):
                return ("not", a)
            if op in ("and", "or"):
                return (op, a, b)
        if a[0] == "int" and b[0] == "int" and w:
            x, y = a[1], b[1]
            r = None
            if op == "add":
                r = x + y
            elif op == "sub":
                r = x - y
            elif op == "mul":
                r = x * y
            elif op == "and":
                r = x & y
            elif op == "or":
                r = x | y
            elif op == "xor":
                r = x ^ y
            elif op == "shl" and 0 <= y < 64:
                r = x << y
            elif op in ("lshr", "ashr") and 0 <= y < w:
                r = (x & ((1 << w) - 1) if op == "lshr" else x) >> y
            elif op in ("sdiv", "srem") and y:
                q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
                r = q if op == "sdiv" else x - q * y
            elif op in ("udiv", "urem") and x >= 0 and y > 0:
                r = x // y if op == "udiv" else x % y
            if r is not None and w in (8, 16, 32, 64):
                r = (r + (1 << (w - 1))) % (1 << w) - (1 << (w - 1))
            if r is not None and -(1 << 31) <= r < (1 << 31):
                return ("int", r)
        if op == "mul" and (a == NULL or b == NULL) or op == "and" and (a == NULL or b == NULL):
            return NULL
        v = self.define(st, i)
        if op == "and" and b[0] == "int" and b[1] >= 0:
            st.facts[v[1]] = (0, b[1], frozenset())
        if op in ("add", "sub") and b[0] == "int":
            lo, hi, ne = self.rng(st, a)
            d = b[1] if op == "add" else -b[1]
            if lo > -INF or hi < INF:
                nl = lo + d if lo > -INF else -INF
                nh = hi + d if hi < INF else INF
                if abs(nl) < (1 << 40) or abs(nh) < (1 << 40):
                    if nl == -INF or abs(nl) < 4096:
                        if nh == INF or abs(nh) < (1 << 40):
                            st.facts[v[1]] = (nl if abs(nl) < 64 or nl == -INF else -INF,
                                              nh if abs(nh) < 64 or nh == INF else INF, frozenset())
        return v


class Dead(Exception):
    pass


def nice(name, f):
    return (f.q if f and f.q else name)

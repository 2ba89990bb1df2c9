"""D02 the compiler session, D03 predictions."""
import itertools

from .. import build, summary
from ..engine import AnalysisBroken, NULL, TOP, INF
from ..terms import (TermEngine, Terms, raised, FS_ERROR, EMPTY, cat, contains, subterms, replace, show, fname, short)

NS = "onnx_mlir::"
CLS = NS + "OMCompile::"
FREE = ["parseFlags", "getAbsolutePathUsingCurrentDir", "getInputFilename", "applyOutputPath", "getOutputFilename",
        "getTargetFilename", "getModelTag", "getOnnxMlirCompilerErrorDescription"]
CMD = ["Command", "appendStr", "appendList", "resetArgs", "exec", "redirectExecStreams", "print"]
CMD_EXC = "_ZTIN9onnx_mlir16CommandExceptionE"
OWN_EXC = "_ZTIN9onnx_mlir18OMCompileExceptionE"
_mod = []


def module():
    if not _mod:
        _mod.append(build.load("driver", inline_std=summary.STD,
                               keep=[NS + x for x in FREE] + [NS + "Command::" + x for x in CMD]))
    return _mod[0]


def method(m, name, n=None):
    r = [f for f in m.fns.values() if f.q == CLS + name and not f.decl]
    if n:
        r = n(r)
    if len(r) != 1:
        raise AnalysisBroken("expected one %s%s, found %d" % (CLS, name, len(r)))
    return r[0]


def has_u(t):
    return any(x[:1] == ("u",) for x in subterms(t))


def arg(k):
    return ("init", ("arg", k), 0)


# ---------------------------------------------------------------- paths
def npath(t):
    """Path-valued terms as (directory, stem, extension) where possible."""
    def f(x):
        if x[:2] == ("fn", "absolute") and len(x) == 3 or x[:2] == ("fn", "getAbsolutePathUsingCurrentDir"):
            return ("abs", x[2])
        if x[:1] == ("fn",) and len(x) >= 3:
            n, a = x[1], x[2]
            if n in ("parent_path", "stem", "extension", "filename"):
                p = split(a)
                if n == "filename":
                    return cat(p[1], p[2])
                return p[("parent_path", "stem", "extension").index(n)]
            if n == "operator/" and len(x) == 4:
                return ("join", a, x[3])
            if n == "replace_extension" and len(x) == 4:
                p = split(a)
                return ("join", p[0], cat(p[1], x[3]))
        return x
    return replace(t, f)


def split(p):
    if p[0] == "join":
        d, n = p[1], p[2]
        if n[0] == "cat":
            for k in range(1, len(n)):
                if n[k][0] == "stem":
                    return d, cat(*n[1:k + 1]), cat(*n[k + 1:])
    return ("dir", p), ("stem", p), ("ext", p)




# ---------------------------------------------------------------- monitor
class SessionEngine(TermEngine):
    """Facts that are not about the inputs or the session are given up at the
    next block.  The members are private: a call that is not given the session
    cannot change them."""
    def clobber_shared(self, st):
        pass

    def enter(self, b, frm, st):
        st = super().enter(b, frm, st)
        for k in [k for k in st.facts if k[0] == "arg" and k[1] in ("exists", "eq", "len") and not contains(k, "init")]:
            del st.facts[k]
        for k in [k for k in st.mem if k[0][0] == "U" and k[0][1][0] == "i"]:
            del st.mem[k]
        st.bools = {k: v for k, v in st.bools.items() if not contains(k, "begin")}
        return st


class Session(Terms):
    """mon = (runs, status key, program term of the run, log term)"""
    init = (0, None)

    def __init__(self, ctx, F=None):
        self.ctx, self.F = ctx, F
        self.outcomes = {}
        self.n = {}
        self.fs = True

    def epoch(self, st):
        return st.mon[0]

    def v(self, eng, st, i, rule, msg):
        eng.report(rule, i, msg, st)

    def note(self, t):
        if t not in self.ctx.notes:
            self.ctx.notes.append(t)

    def event(self, eng, st, i, callee, dem, args):
        f = eng.fn.mod.fns.get(callee)
        n = fname(dem)
        if f is not None and f.q.startswith(NS + "Command::"):
            n = f.q.split("::")[-1]
            if n == "Command":
                self.set(eng, st, args[0], ("cmd", self.get(eng, st, args[1]), (), None))
                return [(st, TOP), raised(st, CMD_EXC)] if False else [(st, TOP)]
            o, off = eng.obj_of(args[0])
            t = st.mem.get((("S", o), off), ("", ("u",)))[1] if o is not None else ("u",)
            if t[0] == "cmd":
                if n == "appendStr":
                    self.ctx.ok("command arguments", eng.fn.loc(i))
                    t = t[:2] + (push(t[2], ("one", self.get(eng, st, args[1]))),) + t[3:]
                elif n == "appendList":
                    self.ctx.ok("command arguments", eng.fn.loc(i))
                    t = t[:2] + (push(t[2], ("all", self.get(eng, st, args[1]))),) + t[3:]
                elif n == "resetArgs":
                    t = t[:2] + ((),) + t[3:]
                elif n == "redirectExecStreams":
                    t = t[:3] + (self.get(eng, st, args[1]),)
                if n != "exec":
                    self.set(eng, st, args[0], t)
                    return [(st, args[0] if "i" in i else TOP)]
            if n == "exec":
                self.ctx.ok("command runs", eng.fn.loc(i))
                self.running(eng, st, i, t)
                runs = st.mon[0]
                self.forget(eng, st, args[0])
                ok = st.copy()
                k = ("arg", "status", runs)
                ok.facts[k] = (0, 255, frozenset())
                ok.mon = (runs + 1, k)
                bad = st.copy()
                bad.mon = (runs + 1, "failed")
                out = [(ok, ("sym", k)), raised(bad, CMD_EXC)]
                if self.fs:
                    out.append(raised(bad, FS_ERROR))
                return out
            return [(st, args[0] if "i" in i and i.get("ty") == "ptr" else TOP)]
        if dem.startswith("std::filesystem::exists") and len(args) == 1:
            t = npath(self.get(eng, st, args[0]))
            k = ("arg", "exists", t, self.epoch(st))
            st.facts.setdefault(k, (0, 1, frozenset()))
            return [(st, ("cmp", "ne", ("sym", k), NULL)), raised(st, FS_ERROR)]
        if dem.startswith("std::filesystem::exists") and len(args) == 2:
            t = npath(self.get(eng, st, args[0]))
            k = ("arg", "exists", t, self.epoch(st))
            st.facts.setdefault(k, (0, 1, frozenset()))
            return [(st, ("cmp", "ne", ("sym", k), NULL))]
        if f is not None and f.q == NS + "getAbsolutePathUsingCurrentDir" or dem.startswith((
                "std::filesystem::absolute(", "std::filesystem::current_path(")) and len(args) == len(f.params) and \
                "error_code" not in dem:
            r = self.lib(eng, st, i, f, dem, args)
            return (r or [(st, TOP)]) + [raised(st, FS_ERROR)]
        return None

    def running(self, eng, st, i, t):
        pass

    def forget(self, eng, st, v):
        pass

    def flag(self, st, t):
        """The session's flag field: 0, 1 or None."""
        v = st.mem.get((("U", ("arg", self.F.this)), self.F.flag))
        if v is None:
            return None
        if v[0] == "int":
            return v[1] & 1
        return None


def push(a, x):
    if len(a) > 12:
        return a
    return a + (x,)


# ---------------------------------------------------------------- fields
class Fields:
    pass


def fields(ctx):
    """Roles of the session's members, from what its constructors and
    accessors do with them."""
    m = module()
    F = Fields()
    F.this = 0

    def getter(name):
        f = method(m, name)
        this = f.d.get("thisarg", 0)
        res = []

        class G(Session):
            def exit(s, eng, st, kind, i, val):
                if kind == "ret":
                    res.append((s.get(eng, st, ("ptr", ("U", ("arg", 0)), 0)), st))
        f.prep()
        g = G(ctx)
        e = TermEngine(f, g, leak=False, nullcheck=False)
        e.run()
        return f, this, res, e
    f, this, res, e = getter("getOutputFilename")
    outs = {t for t, _ in res if t[0] == "init" and t[1] == ("arg", this)}
    f2, this2, res2, _ = getter("getOutputConstantFilename")
    cons = {t for t, _ in res2 if t[0] == "init" and t[1] == ("arg", this2)}
    f3, this3, res3, _ = getter("getModelTag")
    tags = {x for t, _ in res3 for x in subterms(t) if x[:1] == ("init",) and x[1] == ("arg", this3)}
    if len(outs) != 1 or len(cons) != 1 or len(tags) != 1:
        raise AnalysisBroken("cannot identify the session's members (%s %s %s)" % (outs, cons, tags))
    F.out, F.const, F.flags = [next(iter(x))[2] for x in (outs, cons, tags)]
    F.accessors = [(f, this, F.out), (f2, this2, F.const), (f3, this3, F.flags)]
    # members that hold one byte and are read by compile
    c = method(m, "compile")
    c.prep()
    F.this = c.d.get("thisarg", 0)

    def byte_loads(g, this):
        ptrs = {this: 0}
        for b in g.blocks:
            for i in b:
                if i["op"] == "getelementptr" and i["o"][0] == ["v", this] and "off" in i:
                    ptrs[i["i"]] = i["off"]
        return {ptrs[i["o"][0][1]] for b in g.blocks for i in b if i["op"] == "load" and i["ty"] == "i8" and
                i["o"][0][0] == "v" and i["o"][0][1] in ptrs}
    F.bytes = byte_loads(c, F.this)
    fl = {}
    for g, t, _ in F.accessors:
        for o in byte_loads(g, t):
            fl[o] = fl.get(o, 0) + 1
    fl = sorted(fl, key=lambda o: -fl[o])
    if not fl:
        raise AnalysisBroken("cannot identify the session's success flag")
    F.flag = fl[0]
    F.bytes.add(F.flag)
    # constructors: which byte members start false, which are set by them only
    F.ctor = {}
    stored = {}
    for g in m.fns.values():
        if g.decl or not g.q.startswith(CLS) or not g.d.get("hasthis"):
            continue
        g.prep()
        t = g.d.get("thisarg", 0)
        ptrs = {t: 0}
        for b in g.blocks:
            for i in b:
                if i["op"] == "getelementptr" and i["o"][0] == ["v", t] and "off" in i:
                    ptrs[i["i"]] = i["off"]
        for b in g.blocks:
            for i in b:
                if i["op"] == "store" and i.get("sty") == "i8" and i["o"][1][0] == "v" and i["o"][1][1] in ptrs:
                    stored.setdefault(ptrs[i["o"][1][1]], set()).add(g.q == CLS + "OMCompile")
    F.fixed = {o for o, x in stored.items() if x == {True}} & F.bytes
    return F


def member_facts(F):
    mem, facts = {}, {}
    for o in sorted(F.bytes):
        k = ("arg", "member", o)
        facts[k] = (0, 1, frozenset())
        mem[(F.this, o)] = ("sym", k)
    return mem, facts


# ---------------------------------------------------------------- normal form
def normal(t, empty):
    """Axioms on the name helpers, under assumptions on which inputs are empty."""
    def f(x):
        if x[:2] == ("fn", "getInputFilename") and len(x) == 4 and empty.get(x[2]) is False:
            return x[2]
        if x[:2] == ("fn", "applyOutputPath/0") and len(x) == 5 and (empty.get(x[3]) is True or x[3] == EMPTY):
            return x[2]
        if x[:2] == ("fn", "getModelTag") and len(x) == 3 and x[2][:2] == ("fn", "applyOutputPath/0"):
            return ("fn", "getModelTag", x[2][2])
        if empty.get(x) is True:
            return EMPTY
        return x
    return npath(replace(t, f))


def emptiness(mon, eng, st, ts):
    return {t: mon.known_empty(eng, st, t) for t in ts}


def cases(known, ts):
    opts = [[known[t]] if known.get(t) is not None else [True, False] for t in ts]
    for c in itertools.product(*opts):
        yield dict(zip(ts, c))


class Compile(Session):
    def __init__(self, ctx, F, P):
        super().__init__(ctx, F)
        self.P = P
        self.table = {}
        self.local = None

    def val_of(self, st, off):
        v = st.mem.get((("U", ("arg", self.F.this)), off), TOP)
        return v

    def running(self, eng, st, i, t):
        P, F = self.P, self.F
        if st.mon[0]:
            self.v(eng, st, i, "once", "runs the compiler a second time")
            return
        if t[0] != "cmd" or has_u(t[1]):
            self.note("command not understood at " + eng.fn.loc(i))
            return
        emp = emptiness(self, eng, st, [P.model, P.out, P.cc, P.log])
        for c in cases(emp, [P.model, P.out, P.cc, P.log]):
            flags = ("fn", "parseFlags", P.flags)
            inp = normal(("fn", "getInputFilename", P.model, flags), c)
            fl = normal(("fn", "applyOutputPath/0", flags, P.out, ("fn", "getInputFilename", P.model, flags)), c)
            ex = [k for k in st.facts if k[:2] == ("arg", "exists") and normal(k[2], c) == npath(inp) and k[3] == 0 and
                  st.facts[k][0] == 1]
            if not ex:
                self.v(eng, st, i, "input", "starts the compiler without having found that the input model exists")
            # the log
            log = t[3]
            if log is not None:
                log = normal(log, c)
            if c[P.log] and log not in (None, EMPTY):
                self.v(eng, st, i, "log", "redirects the compiler's output although no log file was asked for")
            if not c[P.log] and log != P.log and not (log and has_u(log)):
                self.v(eng, st, i, "log", "does not redirect the compiler's output to the log file")
            # program and arguments (a run without a container)
            prog = t[1]
            if prog == ("init", ("arg", F.this), self.local) or prog == P.cc:
                want = P.cc if not c[P.cc] else ("init", ("arg", F.this), self.local)
                if prog != want:
                    self.v(eng, st, i, "program", "does not run the compiler %s" %
                           ("passed for this compilation" if not c[P.cc] else "of this session"))
                got = [(k, normal(x, c)) for k, x in t[2]]
                if any(has_u(x) for _, x in got):
                    self.note("compiler arguments not understood at " + eng.fn.loc(i))
                    continue
                w = [("all", fl)] + ([("one", inp)] if not c[P.model] else [])
                if got != w:
                    self.v(eng, st, i, "arguments", "does not run the compiler with %s" %
                           ("the given flags and then the model" if not c[P.model] else "exactly the given flags"))
                self.n["local"] = self.n.get("local", 0) + 1
            else:
                self.container(eng, st, i, t, c, fl, inp)

    def forget(self, eng, st, v):
        """What only mattered up to the run."""
        P = self.P
        self.set(eng, st, v, ("cmd", EMPTY, (), None))
        keep = [("arg", "len", P.model), ("arg", "len", P.out)]
        for o in self.F.bytes - self.F.fixed - {self.F.flag}:
            st.mem.pop((("U", ("arg", self.F.this)), o), None)
            st.facts.pop(("arg", "member", o), None)
        st.facts = {k: x for k, x in st.facts.items() if k[0] != "arg" or k in keep or k[1] in ("member", "status")}
        st.bools = {}
        for k in [k for k in st.mem if k[0][0] == "U" and k[0] != ("U", ("arg", self.F.this))]:
            del st.mem[k]

    def container(self, eng, st, i, t, c, fl, inp):
        F = self.F
        ones = [x for k, x in t[2] if k == "one"]
        if t[1][:2] != ("init", ("arg", F.this)):
            self.v(eng, st, i, "program", "runs something that is neither the session's compiler nor its container engine")
        self.n["container"] = self.n.get("container", 0) + 1

    def exit(self, eng, st, kind, i, val):
        P, F = self.P, self.F
        runs, sk = st.mon
        flag = self.val_of(st, F.flag)
        self.n[kind] = self.n.get(kind, 0) + 1
        this = ("ptr", ("U", ("arg", F.this)), 0)
        const = self.get(eng, st, ("ptr", ("U", ("arg", F.this)), F.const))
        out = self.get(eng, st, ("ptr", ("U", ("arg", F.this)), F.out))
        if kind != "ret":
            if not isinstance(st.cexc, tuple):
                self.n["other"] = self.n.get("other", 0) + 1     # out of memory, a stream that throws
                return
            if st.cexc[1] == CMD_EXC:
                self.v(eng, st, i, "type", "a failure to run the compiler escapes as another exception than the documented one")
            if flag == ("sym", ("arg", "member", F.flag)):
                # untouched: allowed if the session never was usable
                if any(st.facts.get(("arg", "member", o), (0, 1, 0))[1] == 0 for o in F.fixed):
                    self.n["unusable"] = self.n.get("unusable", 0) + 1
                    return
                self.v(eng, st, i, "failed", "fails leaving the session as the previous compilation left it")
                return
            if flag != NULL:
                self.v(eng, st, i, "failed", "fails with the session saying that it has a compiled model")
            if const != EMPTY and not has_u(const):
                self.v(eng, st, i, "failed", "fails leaving the name of a constants file readable")
            return
        if flag[0] != "int" or not flag[1] & 1:
            self.v(eng, st, i, "success", "returns normally without the session saying that it has a compiled model")
        if runs != 1:
            self.v(eng, st, i, "once", "returns normally %s" % ("without having run the compiler" if not runs else
                                                                "after several runs of the compiler"))
            return
        if sk == "failed":
            self.v(eng, st, i, "status", "returns normally although the compiler could not be run")
            return
        lo, hi, _ = st.facts.get(sk, (0, 255, 0))
        if (lo, hi) != (0, 0):
            self.v(eng, st, i, "status", "returns normally although the compiler may have reported a failure")
        emp = emptiness(self, eng, st, [P.model, P.out])
        fs = self.get(eng, st, ("ptr", ("U", ("arg", F.this)), F.flags))
        for c in cases(emp, [P.model, P.out]):
            flags = ("fn", "parseFlags", P.flags)
            inp = ("fn", "getInputFilename", P.model, flags)
            fl = ("fn", "applyOutputPath/0", flags, P.out, inp)
            want = normal(("abs", ("fn", "getOutputFilename", inp, fl)), c)
            # getOutputFilename looks for the input itself
            got = normal(out, c)
            self.table.setdefault((c[P.model], c[P.out]), set()).add(outname(got, c))
            if outname(got, c) != outname(want, c):
                if has_u(got):
                    self.note("output name not understood at " + eng.fn.loc(i))
                else:
                    self.v(eng, st, i, "output", "the output name is not the absolute name derived from the input and the flags")
                continue
            ex = [k for k in st.facts if k[:2] == ("arg", "exists") and k[3] == 1 and st.facts[k][0] == 1 and
                  outname(normal(k[2], c), c) == outname(want, c)]
            if not ex:
                self.v(eng, st, i, "exists", "returns normally without having found the output file after the run")
            cn = normal(const, c)
            cwant = npath(("fn", "replace_extension", got, ("lit", ".constants.bin")))
            ex = [st.facts[k][0:2] for k in st.facts if k[:2] == ("arg", "exists") and k[3] == 1 and normal(k[2], c) == cwant]
            if has_u(cn):
                self.note("constants name not understood at " + eng.fn.loc(i))
            elif cn == EMPTY:
                if (0, 0) not in ex:
                    self.v(eng, st, i, "constants", "reports no constants file without having looked for it next to the output")
            elif cn != cwant:
                self.v(eng, st, i, "constants", "the constants file reported is not the one next to the output")
            elif (1, 1) not in ex:
                self.v(eng, st, i, "constants", "reports a constants file that was not found after the run")
            if normal(fs, c) != normal(fl, c) and not has_u(fs):
                if normal(("fn", "getModelTag", fs), c) != normal(("fn", "getModelTag", fl), c):
                    self.v(eng, st, i, "tag", "the session's flags are not those of this compilation")


def outname(t, c):
    """getOutputFilename(getInputFilename(m, f0), f) derives the input from f
    itself when m is empty; f0 and f agree on it."""
    def f(x):
        if x[:2] == ("fn", "getOutputFilename") and len(x) == 4:
            a = x[2]
            if a[:2] == ("fn", "getInputFilename"):
                base = a[3]
                fl = x[3]
                while fl[:2] == ("fn", "applyOutputPath/0"):
                    fl = fl[2]
                while base[:2] == ("fn", "applyOutputPath/0"):
                    base = base[2]
                if base == fl:
                    a = a[2]
            if a != EMPTY and c.get(a) is True:
                a = EMPTY
            return x[:2] + (a,) + x[3:]
        return x
    return replace(t, f)


class Params:
    pass


def sig_params(f):
    """Term of each source parameter (0-based, without this)."""
    n = len(f.d.get("sig", [])) - 1 - (1 if f.d.get("hasthis") else 0)
    first = len(f.params) - n
    return [arg(first + k) for k in range(n)]


def local_field(ctx, m, F):
    """Offset of the local compiler path: where the constructor that takes one
    path keeps it."""
    offs = set()
    for g in m.fns.values():
        if g.decl or g.q != CLS + "OMCompile" or len(g.params) != 3:
            continue
        g.prep()

        class C(Session):
            def exit(s, eng, st, kind, i, val):
                if kind == "ret":
                    for k, x in st.mem.items():
                        if k[0] == ("S", eng.this) and x == ("term", arg(1)):
                            offs.add(k[1])
        TermEngine(g, C(ctx), leak=False, nullcheck=False).run()
    if len(offs) != 1:
        raise AnalysisBroken("cannot identify the session's compiler path (%s)" % offs)
    return next(iter(offs))


def compile_run(ctx):
    m = module()
    ctx.units |= set(m.units)
    F = fields(ctx)
    f = method(m, "compile")
    ps = sig_params(f)
    if len(ps) != 5:
        raise AnalysisBroken("compile does not take five parameters")
    P = Params()
    P.model, P.flags, P.out, P.cc, P.log = ps
    mem, facts = member_facts(F)
    mon = Compile(ctx, F, P)
    mon.local = local_field(ctx, m, F)
    e = SessionEngine(f, mon, leak=False, nullcheck=False, per_block=60000, max_states=2000000, init_mem=mem)
    e.init_facts = facts
    e.run()
    return m, F, f, P, mon, e


def session(ctx, tier):
    ctx.rule("input", "the compiler is only started once the input model was found")
    ctx.rule("program", "the compiler that runs is the session's, or the one passed for this compilation")
    ctx.rule("arguments", "its arguments are the given flags, redirected to the output directory, and then the model if one "
                          "was passed separately")
    ctx.rule("log", "its output goes to the log file exactly when one was asked for")
    ctx.rule("once", "a compilation runs the compiler once")
    ctx.rule("status", "success is reported only if the compiler reported success")
    ctx.rule("exists", "success is reported only if the output was found afterwards")
    ctx.rule("output", "the output name is absolute and derived from the input and the flags of this compilation")
    ctx.rule("constants", "the constants file is the one next to the output, reported exactly if it exists")
    ctx.rule("failed", "however a compilation fails, the session then has no compiled model and no constants file")
    ctx.rule("success", "after a normal return the session has a compiled model")
    ctx.rule("type", "a failure to run the compiler becomes the documented exception")
    ctx.rule("getter", "names and tag are only given out for a compiled model")
    m, F, f, P, mon, e = compile_run(ctx)
    report(ctx, e)
    for g, this, off in F.accessors:
        class G(Session):
            def exit(s, eng, st, kind, i, val):
                lo, hi, ne = st.facts.get(("arg", "member", F.flag), (0, 1, frozenset()))
                s.ctx.ok("accessor exits", "%s %s" % (g.q, kind))
                if kind == "ret" and lo < 1:
                    s.v(eng, st, i, "getter", "gives out a name or tag without a compiled model")
                if kind == "ret":
                    t = s.get(eng, st, ("ptr", ("U", ("arg", 0)), 0))
                    if not contains(t, ("init", ("arg", this), off)) and not has_u(t):
                        s.v(eng, st, i, "getter", "does not give out what the last compilation recorded")
                if kind != "ret" and hi > 0:
                    s.v(eng, st, i, "getter", "fails although there is a compiled model")
        s = G(ctx, F)
        mem = {(this, F.flag): ("sym", ("arg", "member", F.flag))}
        x = TermEngine(g, s, leak=False, nullcheck=False, init_mem=mem)
        x.init_facts = {("arg", "member", F.flag): (0, 1, frozenset())}
        x.run()
        report(ctx, x)
    ctx.notes.append("paths: " + ", ".join("%s=%d" % x for x in sorted(mon.n.items())))
    ctx.ok("abstract states", n=e.nstates)
    ctx.need("command runs", 1)
    ctx.need("command arguments", 2)
    ctx.need("accessor exits", 6)
    for k in ("local", "container", "ret", "unwind", "unusable"):
        if not mon.n.get(k) and k not in ("unwind",):
            raise AnalysisBroken("no path of kind '%s' seen: %s" % (k, mon.n))
    return ("compile() with its helpers inlined is interpreted over names as terms of the inputs, file existence before and "
            "after the run, the run's status and the session's members; every run and file query is followed both ways.")


def report(ctx, e):
    for r in e.reports.values():
        ctx.violation(r.rule, r.loc, "%s: %s" % (r.fn, r.msg), key="%s|%s" % (r.rule, r.msg), path=r.path)


class Predict(Session):
    def __init__(self, ctx):
        super().__init__(ctx)
        self.rets, self.throws = [], []

    def exit(self, eng, st, kind, i, val):
        if kind == "ret":
            self.rets.append((i, self.get(eng, st, ("ptr", ("U", ("arg", 0)), 0)), st))
        elif isinstance(st.cexc, tuple):
            self.throws.append((i, st.cexc[1], st))


def one(ctx, m, name, n):
    f = method(m, name)
    f.prep()
    ps = sig_params(f)
    if len(ps) != n:
        raise AnalysisBroken("%s does not take %d parameters" % (name, n))
    mon = Predict(ctx)
    e = SessionEngine(f, mon, leak=False, nullcheck=False, per_block=20000)
    e.run()
    if not mon.rets:
        raise AnalysisBroken("%s never returns" % name)
    return f, ps, mon, e


def predict(ctx, tier):
    ctx.rule("input", "the predicted input is the one a compilation with the same arguments looks for, and there is an error "
                      "exactly if there is none")
    ctx.rule("output", "the predicted output is the name a successful compilation with the same arguments reports")
    ctx.rule("tag", "the predicted tag is the one the session reports after a compilation with the same flags")
    ctx.rule("pure", "a prediction runs nothing and looks at no file")
    m, F, cf, P, cmon, ce = compile_run(ctx)

    def canon(t, sub):
        return replace(t, lambda x: sub.get(x, x))
    if not cmon.table:
        raise AnalysisBroken("no successful compilation found")
    # --- input
    f, ps, mon, e = one(ctx, m, "predictInputFilename", 2)
    sub = {ps[0]: ("M",), ps[1]: ("F",)}
    want = ("fn", "getInputFilename", ("M",), ("fn", "parseFlags", ("F",)))
    pure(ctx, f)
    for i, t, st in mon.rets:
        ctx.ok("predictions", "%s returns at %s" % (f.q, f.loc(i)))
        g = canon(t, sub)
        if has_u(g):
            ctx.notes.append("predicted input not understood at " + f.loc(i))
            continue
        for c in cases({("M",): mon.known_empty(e, st, ps[0])}, [("M",)]):
            if normal(g, c) != normal(want, c):
                ctx.violation("input", f.loc(i), "%s: the predicted input is not the one a compilation looks for" % f.q,
                              key="input|term")
            w = replace(want, lambda x: {("M",): ps[0], ("F",): ps[1]}.get(x, x))
            if c[("M",)] and mon.known_empty(e, st, w) is not False and mon.known_empty(e, st, t) is not False:
                ctx.violation("input", f.loc(i), "%s: returns although there may be no input" % f.q, key="input|empty")
    for i, ti, st in mon.throws:
        if ti == FS_ERROR:
            continue
        w = ("fn", "getInputFilename", ps[0], ("fn", "parseFlags", ps[1]))
        ctx.ok("predictions", "%s throws at %s" % (f.q, f.loc(i)))
        if mon.known_empty(e, st, w) is not True:
            ctx.violation("input", f.loc(i), "%s: fails although there may be an input" % f.q, key="input|fail")
        if ti != OWN_EXC:
            ctx.violation("input", f.loc(i), "%s: fails with another exception than the documented one" % f.q, key="input|type")
    # --- output
    f, ps, mon, e = one(ctx, m, "predictOutputFilename", 3)
    sub = {ps[0]: ("M",), ps[1]: ("F",), ps[2]: ("O",)}
    csub = {P.model: ("M",), P.flags: ("F",), P.out: ("O",)}
    pure(ctx, f)
    for i, t, st in mon.rets:
        ctx.ok("predictions", "%s returns at %s" % (f.q, f.loc(i)))
        g = canon(t, sub)
        if has_u(g):
            ctx.notes.append("predicted output not understood at " + f.loc(i))
            continue
        known = {("M",): mon.known_empty(e, st, ps[0]), ("O",): mon.known_empty(e, st, ps[2])}
        for c in cases(known, [("M",), ("O",)]):
            got = outname(normal(g, c), c)
            ws = set()
            for (me, oe), x in cmon.table.items():
                if me == c[("M",)] and oe == c[("O",)]:
                    ws |= {outname(normal(canon(y, csub), c), c) for y in x}
            if not ws:
                raise AnalysisBroken("no successful compilation with these arguments")
            if got not in ws and not any(has_u(w) for w in ws):
                ctx.violation("output", f.loc(i), "%s: with the model %s and %s, the predicted output is not what the "
                              "compilation reports" % (f.q, "in the flags" if c[("M",)] else "given",
                                                       "no output path" if c[("O",)] else "an output path"),
                              key="output|%s" % (sorted(c.items()),))
    for i, ti, st in mon.throws:
        if ti != FS_ERROR:
            ctx.violation("output", f.loc(i), "%s: fails although a compilation may succeed" % f.q, key="output|throws")
    # --- tag
    f, ps, mon, e = one(ctx, m, "predictModelTag", 1)
    pure(ctx, f)
    for i, t, st in mon.rets:
        ctx.ok("predictions", "%s returns at %s" % (f.q, f.loc(i)))
        if has_u(t):
            ctx.notes.append("predicted tag not understood at " + f.loc(i))
        elif normal(t, {}) != ("fn", "getModelTag", ("fn", "parseFlags", ps[0])):
            ctx.violation("tag", f.loc(i), "%s: the predicted tag is not the one of the flags" % f.q, key="tag|term")
    for r in ce.reports.values():
        if r.rule == "tag":
            ctx.violation("tag", r.loc, "%s: %s" % (r.fn, r.msg), key="tag|session", path=r.path)
    ctx.ok("abstract states", n=ce.nstates)
    ctx.need("predictions", 4)
    return ("The names a compilation and the predictions build are compared as terms of the arguments, for every combination of "
            "given and missing model and output path.")


def pure(ctx, f):
    m = f.mod
    seen, work = set(), [f.name]
    while work:
        n = work.pop()
        if n in seen:
            continue
        seen.add(n)
        g = m.fns.get(n)
        d = (g.d.get("dem") if g else None) or n
        if n in ("fork", "vfork", "system", "popen", "open", "fopen", "stat", "access") or \
                "filesystem::exists" in d or "filesystem::status" in d or g is not None and g.q == NS + "Command::exec":
            ctx.violation("pure", f.loc(next(iter(f.calls()))[1]), "%s: reaches %s" % (f.q, short(d)), key="pure|" + n)
            continue
        if g is None or g.decl:
            continue
        for _, i in g.calls():
            if i.get("callee"):
                work.append(i["callee"])
    ctx.ok("functions reached by predictions", n=len(seen))

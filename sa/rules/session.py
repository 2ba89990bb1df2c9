"""R05 session typestate, R06 signal handlers, R07 model load."""
from .. import build, summary
from ..engine import Engine, Monitor, AnalysisBroken, NULL, TOP, INF
from .resources import throwers

CLASSES = ("onnx_mlir::ExecutionSession::", "onnx_mlir::PyExecutionSession::")


def module(pipeline=None):
    return build.load("pyrt", keep=summary.KEEP, inline_std=summary.STD, relevant=summary.RELEVANT + [
        "dlsym", "getenv", "setenv", "unsetenv", "putenv", "sigaction", "signal", "_setjmp", "longjmp"],
        pipeline=pipeline, small=400)


class Fields(Monitor):
    """Which fields of *this hold what."""
    def __init__(self):
        self.dlsym, self.handle, self.ones = {}, set(), set()
        self.origin = {}

    def call(self, eng, st, i, callee, args):
        if callee == "dlsym":
            v = eng.fresh(st, i)
            self.origin[v[1]] = "dlsym"
            return [(st, v)]
        if callee == "dlopen":
            v = eng.fresh(st, i)
            self.origin[v[1]] = "dlopen"
            return [(st, v)]

    def store(self, eng, st, i, ptr, val):
        o, off = eng.obj_of(ptr)
        if o != eng.this or off is None:
            return
        if val[0] == "sym" and self.origin.get(val[1]) == "dlsym":
            self.dlsym[off] = i
        elif val[0] == "sym" and self.origin.get(val[1]) == "dlopen":
            self.handle.add(off)
        elif val == ("int", 1):
            self.ones.add(off)


def methods(m):
    for f in m.fns.values():
        if f.decl or not f.repo or not f.blocks or "lambda" in f.q:
            continue
        if f.q.startswith(CLASSES):
            yield f


class Load(Monitor):
    """R07: environment ledger and symbols of a model load.
    mon = (env, events) with env in {"?", "absent", "present", "ours"}"""
    init = ("?", frozenset())

    def __init__(self, ctx, flag, handle, dlsyms, inited):
        self.ctx, self.flag, self.handle, self.dlsyms, self.inited = ctx, flag, handle, dlsyms, inited
        self.guar = None
        self.rets = self.thrs = 0
        self.envs = set()

    def call(self, eng, st, i, callee, args):
        env, ev = st.mon
        if callee in ("getenv", "secure_getenv"):
            self.envs.add(eng.fn.mod.gstring(i["args"][0]))
            a, b = st, st.copy()
            out = []
            if env in ("?", "absent"):
                a.mon = ("absent", ev)
                out.append((a, NULL))
            if env != "absent":
                b.mon = ("present" if env == "?" else env, ev)
                v = eng.fresh(b, i)
                b.facts[v[1]] = (-INF, INF, frozenset((0,)))
                out.append((b, v))
            return out
        if callee == "setenv":
            if env in ("present", "?") and eng.truth(st, args[2]) is not False:
                self.v(eng, st, i, "overwrites", "the user's setting of an environment variable may be overwritten")
            # with overwrite == 0 and the variable present nothing changes
            st.mon = ("ours" if env != "present" else env, ev | {"setenv"})
            return [(st, NULL)]
        if callee == "unsetenv":
            if env in ("present", "?"):
                self.v(eng, st, i, "unsets", "unsets an environment variable the user had set")
            st.mon = ("absent", ev)
            return [(st, NULL)]
        if callee in ("putenv", "clearenv"):
            raise AnalysisBroken("%s: %s is not modelled" % (eng.fn.q, callee))
        if callee == "dlopen":
            self.ctx.ok("library opens", eng.fn.loc(i))
            st.mon = (env, ev | {"dlopen"})
            return None
        if callee == "dlclose":
            st.mon = (env, ev | {"dlclose"})
            return None
        if callee == "dlsym":
            bad, ok = st, st.copy()
            v = eng.fresh(ok, i)
            ok.facts[v[1]] = (-INF, INF, frozenset((0,)))
            return [(bad, NULL), (ok, v)]
        return None

    def store(self, eng, st, i, ptr, val):
        o, off = eng.obj_of(ptr)
        if self.inited and o == eng.this and off in self.dlsyms + [self.flag, self.handle]:
            self.v(eng, st, i, "reload", "a second load of an already loaded session changes it before it is refused")

    def v(self, eng, st, i, rule, msg):
        eng.report(rule, i, msg, st)

    def exit(self, eng, st, kind, i, val):
        env, ev = st.mon
        flag = st.mem.get((eng.this, self.flag))
        h = st.mem.get((eng.this, self.handle))
        if self.inited:
            self.thrs += 1
            if kind == "ret":
                self.v(eng, st, i, "reload", "loading a model into a loaded session succeeds")
            if ev & {"setenv", "dlopen", "dlclose"}:
                self.v(eng, st, i, "reload", "a second load of a loaded session has side effects before it is refused")
            return
        if env == "ours":
            self.v(eng, st, i, "env", "leaves (%s) with the environment variable it set still set" % kind)
        live = [r for r, x in st.res.items() if r[1].startswith("shared-library") and x[1] in ("live", "this", "escaped")]
        if kind == "ret":
            self.rets += 1
            if flag is None or eng.truth(st, flag) is not True:
                self.v(eng, st, i, "flag", "returns without marking the session loaded")
            if not live or h is None or eng.res_of(st, h) not in live:
                self.v(eng, st, i, "handle", "returns without keeping an open library handle")
            g = set()
            for off in self.dlsyms:
                x = st.mem.get((eng.this, off))
                if x is not None and eng.truth(st, ("cmp", "ne", x, NULL)) is True:
                    g.add(off)
            self.guar = g if self.guar is None else self.guar & g
        else:
            self.thrs += 1
            if flag is not None and eng.truth(st, flag) is not False:
                self.v(eng, st, i, "flag", "a failed load leaves the session marked as loaded")
            if live:
                self.v(eng, st, i, "handle", "a failed load leaves the library open")
            if h is not None and h != NULL and not (h[0] == "fail" and h[1] == 0):
                self.v(eng, st, i, "handle", "a failed load leaves a handle that would be closed again")


class Use(Monitor):
    """R05: calls into the model.  mon = (known-nonnull offsets, init known, null output)"""
    init = (frozenset(), False, False)

    def __init__(self, ctx, flag, dlsyms, guar, entry):
        self.ctx, self.flag, self.dlsyms, self.guar, self.entry = ctx, flag, dlsyms, guar, entry
        self.org = {}
        self.ncalls = 0

    def loaded(self, eng, st, i, ptr, val):
        o, off = eng.obj_of(ptr)
        if o == eng.this and off in self.dlsyms and val[0] == "sym":
            self.org[val[1]] = off

    def absorb(self, eng, st):
        self.refresh(eng, st)

    def refresh(self, eng, st):
        nn, ini, out = st.mon
        fl = st.mem.get((eng.this, self.flag))
        if fl is not None and eng.truth(st, fl) is True:
            ini = True
        nn = set(nn)
        for off in self.dlsyms:
            x = st.mem.get((eng.this, off))
            if x is not None and eng.truth(st, ("cmp", "ne", x, NULL)) is True:
                nn.add(off)
        st.mon = (frozenset(nn), ini, out)

    def call(self, eng, st, i, callee, args):
        self.refresh(eng, st)
        nn, ini, out = st.mon
        if callee == "dlsym":
            if not ini:
                eng.report("uninitialized", i, "looks a symbol up in a session that may not be loaded", st)
            bad, ok = st, st.copy()
            v = eng.fresh(ok, i)
            ok.facts[v[1]] = (-INF, INF, frozenset((0,)))
            bad.mon = (nn, ini, "null symbol")
            return [(bad, NULL), (ok, v)]
        if callee is not None:
            return None
        v = eng.ev(st, i["indirect"])
        off = self.org.get(v[1]) if v[0] == "sym" else None
        if off is None:
            if v == NULL:
                eng.report("null-call", i, "calls a model function that is null on this path", st)
            return None
        self.ncalls += 1
        self.ctx.ok("model calls", "%s in %s" % (eng.fn.loc(i), eng.fn.q))
        nonnull = off in nn or eng.truth(st, ("cmp", "ne", v, NULL)) is True
        if not nonnull and not (off in self.guar and ini):
            eng.report("unchecked-symbol", i, "calls into the model through a function that may be missing%s" %
                       ("" if ini else " because the session may not be loaded"), st)
        elif not ini and off != self.entry:
            eng.report("uninitialized", i, "calls into the model although the session may not be loaded", st)
        if off == self.entry:
            bad, ok = st, st.copy()
            x = eng.fresh(ok, i)
            for s in (bad, ok):
                eng.clobber_shared(s)
            if x[0] == "sym":
                ok.facts[x[1]] = (-INF, INF, frozenset((0,)))
            bad.mon = (nn, ini, "null output")
            return [(bad, NULL), (ok, x)]
        return None

    def exit(self, eng, st, kind, i, val):
        nn, ini, out = st.mon
        if out and kind == "ret":
            eng.report("failure-as-success", i, "returns normally although %s" % (
                "the model returned no output" if out == "null output" else "the requested symbol does not exist"), st)


def roles(m):
    lm = [f for f in methods(m) if any(i.get("callee") == "dlopen" for _, i in f.calls()) and f.d.get("access") == "public"]
    loads = [f for f in lm if not is_ctor(f)]
    if not loads:
        raise AnalysisBroken("no public method opens a model library")
    fl = Fields()
    for f in loads:
        f.prep()
        Engine(f, fl, leak=False, nullcheck=False).run()
    if len(fl.handle) != 1 or not fl.dlsym:
        raise AnalysisBroken("cannot identify the session's library handle / symbols")
    flags = sorted(fl.ones)
    if len(flags) != 1:
        raise AnalysisBroken("cannot identify the session's loaded flag: %s" % flags)
    # the entry point is what a public method other than the load also sets
    entry = set()
    for f in methods(m):
        if f in lm or f.d.get("access") != "public" or not any(i.get("callee") == "dlsym" for _, i in f.calls()):
            continue
        f2 = Fields()
        f.prep()
        Engine(f, f2, leak=False, nullcheck=False).run()
        entry |= set(f2.dlsym)
    if len(entry) != 1:
        raise AnalysisBroken("cannot identify the session's entry point field: %s" % sorted(entry))
    return lm, loads, flags[0], next(iter(fl.handle)), sorted(fl.dlsym), next(iter(entry))


def is_ctor(f):
    n = f.q.split("::")
    return len(n) > 1 and n[-1].split("(")[0] == n[-2]


def is_dtor(f):
    return "~" in f.q


def emit(ctx, e, rules=None):
    for r in e.reports.values():
        if rules is None or r.rule in rules:
            ctx.violation(r.rule, r.loc, "%s: %s" % (r.fn, r.msg), key="%s|%s|%s" % (r.rule, r.fn, r.msg), path=r.path)


def run_load(ctx, m, thr, lm, flag, handle, dlsyms, report):
    guar = None
    for f in lm:
        f.prep()
        states = [False] if is_ctor(f) else [False, True]
        for inited in states:
            mon = Load(ctx, flag, handle, dlsyms, inited)
            t = f.d.get("thisarg", 0)
            pre = {(t, flag): ("int", 1 if inited else 0)}
            if not inited:
                pre[(t, handle)] = NULL
            if is_ctor(f):
                pre = {}
            e = Engine(f, mon, leak=False, nullcheck=False, throws=lambda c: c in thr, init_mem=pre, per_block=20000)
            e.run()
            ctx.ok("load outcomes", "%s (%s): %d normal, %d failing exits" % (
                f.q, "loaded" if inited else "fresh", mon.rets, mon.thrs), n=mon.rets + mon.thrs)
            if report:
                emit(ctx, e, {"env", "flag", "handle", "reload", "overwrites", "unsets"})
            if not inited:
                if not mon.rets or not mon.thrs:
                    raise AnalysisBroken("%s: %d normal, %d failing exits" % (f.q, mon.rets, mon.thrs))
                guar = mon.guar if guar is None else guar & mon.guar
            elif not mon.thrs:
                raise AnalysisBroken("%s: no exit for a loaded session" % f.q)
    return guar


def typestate(ctx, tier):
    ctx.rule("unchecked-symbol", "a call through a function obtained from the model library happens only where the function "
                                 "is known to exist: tested here, or guaranteed by every successful load")
    ctx.rule("uninitialized", "no method calls into the model or looks a symbol up before testing that a model is loaded")
    ctx.rule("null-call", "no call through a null model function")
    ctx.rule("failure-as-success", "a run whose entry point returned nothing, and the selection of a missing entry point, "
                                   "end in an exception")
    m = module()
    ctx.units |= set(m.units)
    thr = throwers(m)
    lm, loads, flag, handle, dlsyms, entry = roles(m)
    guar = run_load(ctx, m, thr, lm, flag, handle, dlsyms, False)
    ctx.notes.append("symbols guaranteed by a successful load: %d of %d" % (len(guar), len(dlsyms)))
    # the entry point is set only after a model is loaded
    n = 0
    for f in methods(m):
        if f in lm or is_dtor(f) or is_ctor(f) or f.d.get("access") != "public" or not f.d.get("hasthis"):
            continue
        f.prep()
        ind = [i for _, i in f.calls() if i.get("callee") is None or i.get("callee") == "dlsym"]
        if not ind:
            continue
        mon = Use(ctx, flag, dlsyms, guar - {entry}, entry)
        e = Engine(f, mon, leak=False, nullcheck=False, throws=lambda c: c in thr, per_block=20000)
        e.run()
        if mon.ncalls or any(i.get("callee") == "dlsym" for i in ind):
            n += 1
            ctx.ok("public methods", f.q)
        ctx.ok("abstract states", n=e.nstates)
        emit(ctx, e, {"unchecked-symbol", "uninitialized", "null-call", "failure-as-success"})
    ctx.need("public methods", 8)
    ctx.need("model calls", 8)
    return ("Every public method of the session classes, its helpers inlined, is interpreted over abstract states; each "
            "call through a function pointer that came from the model library is an obligation, and the null outcome of "
            "the entry point is followed to every exit.")


class Dtor(Monitor):
    init = 0

    def __init__(self, null, val):
        self.null, self.val = null, val

    def call(self, eng, st, i, callee, args):
        if callee == "dlclose":
            if self.null:
                eng.report("handle", i, "the end of a session without a library closes one", st)
            elif args[0] != self.val:
                eng.report("handle", i, "closes something other than the session's library", st)
            elif st.mon:
                eng.report("handle", i, "the session's library is closed twice when it ends", st)
            st.mon = 1
            return [(st, eng.fresh(st, i) if "i" in i else TOP)]

    def exit(self, eng, st, kind, i, val):
        if not self.null and not st.mon:
            eng.report("handle", i, "the session ends without closing its library", st)


def load(ctx, tier):
    ctx.rule("env", "at every exit of a load the model-constants environment variable is as it was before")
    ctx.rule("unsets", "a load never unsets the variable when the user had set it")
    ctx.rule("overwrites", "a load never overwrites the user's setting")
    ctx.rule("flag", "the session is marked loaded exactly when the load returned normally")
    ctx.rule("handle", "a failed load closes the library it opened and forgets it; a successful one keeps it; the end of "
                       "the session closes it exactly once")
    ctx.rule("reload", "a load of a loaded session is refused before anything changes")
    m = module()
    ctx.units |= set(m.units)
    thr = throwers(m)
    lm, loads, flag, handle, dlsyms, entry = roles(m)
    run_load(ctx, m, thr, lm, flag, handle, dlsyms, True)
    for f in m.fns.values():
        if not f.decl and f.repo and f.blocks and is_dtor(f) and f.q.split("::")[-2] == "ExecutionSession":
            f.prep()
            for v in (NULL, ("ptr", ("G", "*library"), 0)):
                e = Engine(f, Dtor(v == NULL, v), leak=False, nullcheck=False, init_mem={(f.d.get("thisarg", 0), handle): v})
                e.run()
                ctx.ok("destructor exits", "%s, library %s" % (f.q, "absent" if v == NULL else "open"), n=e.exits)
                emit(ctx, e, {"handle"})
    ctx.need("destructor exits", 2)
    ctx.need("library opens", 1)
    return ("The load routine and the constructors that call it are interpreted with every library, symbol and environment "
            "query succeeding and failing; the environment, the loaded flag and the handle are compared at every exit.")


CRASH = {11: "SIGSEGV", 7: "SIGBUS", 8: "SIGFPE", 4: "SIGILL", 6: "SIGABRT"}
SA_NODEFER = 0x40000000


class Sig(Monitor):
    """mon = (installed {sig}, saved {sig: obj}, problems, armed, from handler)"""
    init = (frozenset(), frozenset(), False, False)

    def __init__(self, ctx, handlers, sigjmp, entry):
        self.ctx, self.handlers, self.sigjmp, self.entry = ctx, handlers, sigjmp, entry
        self.org = set()
        self.installs = self.restores = self.guarded = 0

    def call(self, eng, st, i, callee, args):
        inst, saved, armed, caught = st.mon
        if callee in ("sigemptyset", "sigfillset", "sigaddset", "sigdelset"):
            o, off = eng.obj_of(args[0])
            if o is not None and off is not None:
                old = st.mem.get((o, off))
                bits = None
                if callee == "sigemptyset":
                    bits = 0
                elif callee == "sigfillset":
                    bits = (1 << 64) - 1
                elif old is not None and old[0] == "int" and args[1][0] == "int" and 0 < args[1][1] <= 64:
                    b = 1 << (args[1][1] - 1)
                    bits = old[1] | b if callee == "sigaddset" else old[1] & ~b
                st.mem.pop((o, off), None)
                if bits is not None:
                    st.mem[(o, off)] = ("int", bits)
            return [(st, eng.fresh(st, i))]
        if callee == "sigaction":
            sig = args[0][1] if args[0][0] == "int" else None
            if sig is None:
                raise AnalysisBroken("%s: signal number not constant" % eng.fn.q)
            new, newoff = eng.obj_of(args[1])
            old, oldoff = eng.obj_of(args[2])
            sv = dict(saved)
            h = st.mem.get((new, newoff)) if new else None
            if h is not None and h[0] == "fn":
                self.installs += 1
                self.ctx.ok("signal handlers installed", "%s at %s" % (CRASH.get(sig, sig), eng.fn.loc(i)))
                if args[2] == NULL or old is None:
                    eng.report("save", i, "handler of signal %s is replaced without being saved" % CRASH.get(sig, sig), st)
                elif sig in inst:
                    eng.report("save", i, "handler of signal %s is replaced twice" % CRASH.get(sig, sig), st)
                else:
                    if (old, oldoff) in sv.values():
                        eng.report("save", i, "the saved handler of another signal is overwritten by that of %s" %
                                   CRASH.get(sig, sig), st)
                        sv = {k: v for k, v in sv.items() if v != (old, oldoff)}
                    sv[sig] = (old, oldoff)
                fl = st.mem.get((new, newoff + 136)) if newoff is not None else None
                if h[1] in self.handlers and not self.sigjmp:
                    if fl is None or fl[0] != "int" or not fl[1] & SA_NODEFER:
                        eng.report("blocked", i, "a handler that leaves by a jump is installed for %s so that the signal "
                                   "stays blocked afterwards" % CRASH.get(sig, sig), st)
                    mask = st.mem.get((new, newoff + 8)) if newoff is not None else None
                    if mask is not None and mask[0] == "int":
                        stay = [n for s, n in CRASH.items() if mask[1] >> (s - 1) & 1]
                        if stay:
                            eng.report("blocked", i, "a handler that leaves by a jump is installed for %s so that %s stay "
                                       "blocked afterwards" % (CRASH.get(sig, sig), ", ".join(stay)), st)
                inst = inst | {sig}
            elif new is not None:
                self.restores += 1
                self.ctx.ok("signal handlers restored", "%s at %s" % (CRASH.get(sig, sig), eng.fn.loc(i)))
                if sv.get(sig) != (new, newoff):
                    eng.report("restore", i, "signal %s is given back a handler that is not the one saved for it" %
                               CRASH.get(sig, sig), st)
                inst = inst - {sig}
                sv.pop(sig, None)
            st.mon = (inst, frozenset(sv.items()), armed, caught)
            return [(st, NULL)]
        if callee == "signal":
            raise AnalysisBroken("%s: signal() is not modelled" % eng.fn.q)
        if callee in ("_setjmp", "setjmp", "__sigsetjmp", "sigsetjmp"):
            a, b = st, st.copy()
            a.mon = (inst, saved, True, False)
            b.mon = (inst, saved, True, True)
            v = eng.fresh(b, i)
            b.facts[v[1]] = (1, INF, frozenset())
            return [(a, NULL), (b, v)]
        if callee is None:
            v = eng.ev(st, i["indirect"])
            if v[0] == "sym" and v[1] in self.org and (inst or armed):
                self.guarded += 1
                self.ctx.ok("guarded calls", eng.fn.loc(i))
                miss = [n for s, n in CRASH.items() if s not in inst]
                if miss:
                    eng.report("guard", i, "a guarded run calls the model while %s is not caught" % ", ".join(miss), st)
                if not armed:
                    eng.report("guard", i, "a guarded run calls the model before the place to return to is set", st)
        return None

    def loaded(self, eng, st, i, ptr, val):
        o, off = eng.obj_of(ptr)
        if o == eng.this and off == self.entry and val[0] == "sym":
            self.org.add(val[1])

    def exit(self, eng, st, kind, i, val):
        inst, saved, armed, caught = st.mon
        for s in sorted(inst):
            eng.report("restore", i, "leaves (%s%s) without restoring the handler of %s" % (
                "exception" if kind == "throw" else "return", ", after a signal" if caught else "", CRASH.get(s, s)), st)
        if caught and kind == "ret":
            eng.report("caught", i, "returns normally although a signal interrupted the run", st)


SIGPIPE = ("always-inline,function(sroa,early-cse<memssa>,simplifycfg<keep-loops>,instsimplify,loop-simplify,lcssa,"
           "loop(loop-rotate,indvars,loop-unroll-full),sroa,early-cse<memssa>,instsimplify,sccp,adce,"
           "simplifycfg<bonus-inst-threshold=0;no-forward-switch-cond;switch-range-to-icmp;no-switch-to-lookup;keep-loops;"
           "no-hoist-common-insts;no-sink-common-insts>)")


def signals(ctx, tier):
    ctx.rule("save", "each handler replaced for a guarded run is saved, each in a place of its own")
    ctx.rule("restore", "at every exit each replaced handler has been given back to the very signal it was saved from")
    ctx.rule("guard", "during a guarded run every crash signal is caught and the place to return to is set")
    ctx.rule("caught", "a run interrupted by a signal ends in an exception")
    ctx.rule("blocked", "after a signal was caught the process can catch it again")
    m = module(SIGPIPE)
    ctx.units |= set(m.units)
    thr = throwers(m)
    entry = roles(m)[5]
    handlers = set()
    for f in m.fns.values():
        if f.decl or not f.repo:
            continue
        for _, i in f.calls():
            if i.get("callee") in ("longjmp", "siglongjmp"):
                handlers.add(f.name)
    n = 0
    for f in m.fns.values():
        if f.decl or not f.repo or not f.blocks:
            continue
        cs = {i.get("callee") for _, i in f.calls()}
        if "sigaction" not in cs and "signal" not in cs:
            continue
        f.prep()
        savemask = False
        for _, i in f.calls():
            if i.get("callee") in ("__sigsetjmp", "sigsetjmp") and i["args"][1] == ["c", 1]:
                savemask = True
        mon = Sig(ctx, handlers, savemask, entry)
        e = Engine(f, mon, leak=False, nullcheck=False, throws=lambda c: c in thr, per_block=20000)
        e.run()
        n += 1
        ctx.ok("functions", f.q)
        ctx.ok("exit paths", n=e.exits)
        emit(ctx, e, {"save", "restore", "guard", "caught", "blocked"})
    ctx.need("functions", 1)
    ctx.need("signal handlers installed", 5)
    ctx.need("signal handlers restored", 5)
    ctx.need("guarded calls", 1)
    return ("Every function that changes signal dispositions is interpreted with the jump point returning normally and after "
            "a signal; saved and restored dispositions are tracked per signal.")

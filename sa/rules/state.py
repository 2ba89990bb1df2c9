"""R14: kernels and tensor operations keep no state between calls."""
from .. import build
from ..engine import AnalysisBroken

STATEFUL = {"rand", "srand", "random", "srandom", "drand48", "lrand48", "mrand48", "srand48", "strtok", "setlocale",
            "setenv", "putenv", "unsetenv", "chdir", "umask", "asctime", "ctime", "localtime", "gmtime",
            "signal", "sigaction", "atexit", "fesetround", "fesetenv", "tmpnam", "getdelim_static"}
# external functions that only read through the given pointer argument (None: all)
READ = {"memcpy": {1, 2}, "memmove": {1, 2}, "strcpy": {1}, "strncpy": {1, 2}, "strcat": {1}, "strncat": {1, 2}, "strlen": None,
        "strcmp": None, "strncmp": None, "memcmp": None, "bcmp": None, "strstr": None, "strchr": None, "strrchr": None,
        "printf": None, "fprintf": None, "puts": None, "fputs": None, "snprintf": {2, 3, 4, 5, 6, 7, 8, 9},
        "sprintf": {1, 2, 3, 4, 5, 6, 7, 8, 9}, "strdup": None, "perror": None, "getenv": None, "fopen": None, "atoi": None,
        "strtol": None, "__assert_fail": None, "abort": None, "assert": None, "fputc": None, "fflush": None, "fclose": None,
        "fwrite": None, "qsort_r": {2, 3, 4}, "qsort": {2, 3}}


def read_only(callee, k, i):
    if callee is None:
        return False
    if callee.startswith("llvm.memcpy") or callee.startswith("llvm.memmove"):
        return k == 1
    if callee.startswith("llvm."):
        return not callee.startswith("llvm.memset")
    if callee in READ:
        return READ[callee] is None or k in READ[callee]
    return False


def base(c):
    """Global a constant operand addresses."""
    if c[0] == "g":
        return c[1]
    if c[0] == "ce" and c[1] in ("getelementptr", "bitcast", "addrspacecast"):
        return base(c[3])
    return None


class Effects:
    """Which globals each function writes, directly, through a parameter of a callee, or by a stateful library call."""

    def __init__(self, m):
        self.m = m
        self.F = {f.name: f for f in m.fns.values() if not f.decl and f.blocks}
        self.ptaint = {}                  # (function, param) -> globals
        self.writes = {}                  # function -> {global: instruction}
        self.lib = {}                     # function -> {name: instruction}
        self.callees = {n: set() for n in self.F}
        self.callers = {n: set() for n in self.F}
        work = set(self.F)
        while work:
            n = work.pop()
            for g in self.scan(self.F[n]):
                work.add(g)
        for n, cs in self.callees.items():
            for c in cs:
                self.callers[c].add(n)

    def mutable(self, g):
        d = self.m.globals.get(g)
        if d is None or d.get("const") or d.get("dconst") or d.get("decl"):
            return False
        return not g.startswith(("_ZGV", "_ZTV", "_ZTI", "_ZTS", "llvm.")) and "__dso" not in g

    def scan(self, f):
        f.prep()
        val = {}
        n = f.name
        for k in range(len(f.params)):
            t = self.ptaint.get((n, k))
            if t:
                val[k] = set(t)
        w = self.writes.setdefault(n, {})
        lb = self.lib.setdefault(n, {})
        again = set()

        def of(o):
            if o[0] == "v":
                return val.get(o[1], set())
            g = base(o)
            return {g} if g is not None and self.mutable(g) else set()
        changed = True
        while changed:
            changed = False
            for _, i in f.insts():
                op = i["op"]
                s = set()
                if op == "phi":
                    for v, _p in i["phi"]:
                        s |= of(v)
                elif op == "call" and (i.get("callee") or "").startswith("llvm.threadlocal"):
                    s = of(i["args"][0])
                elif op in ("getelementptr", "bitcast", "freeze", "addrspacecast"):
                    s = of(i["o"][0])
                elif op == "select":
                    s = of(i["o"][1]) | of(i["o"][2])
                if s and "i" in i and not s <= val.get(i["i"], set()):
                    val.setdefault(i["i"], set()).update(s)
                    changed = True
        for _, i in f.insts():
            op = i["op"]
            if op == "store":
                for g in of(i["o"][1]):
                    w.setdefault(g, i)
            elif op in ("atomicrmw", "cmpxchg"):
                for g in of(i["o"][0]):
                    w.setdefault(g, i)
            elif op in ("call", "invoke"):
                c = i.get("callee")
                if (c or "").startswith("llvm.threadlocal"):
                    continue
                for a in i.get("args", []):
                    if a[0] == "g" and a[1] in self.F:
                        self.callees[n].add(a[1])
                if c in self.F:
                    self.callees[n].add(c)
                elif c in STATEFUL:
                    lb.setdefault(c, i)
                for k, a in enumerate(i.get("args", [])):
                    s = of(a)
                    if not s:
                        continue
                    if c in self.F:
                        t = self.ptaint.setdefault((c, k), set())
                        if not s <= t:
                            t |= s
                            again.add(c)
                    elif not read_only(c, k, i):
                        for g in s:
                            w.setdefault(g, i)
            else:
                for o in i.get("o", []):
                    if o[0] == "g" and o[1] in self.F:
                        self.callees[n].add(o[1])
        return again

    def reach(self, roots, stop=()):
        seen, work = set(), [r for r in roots if r in self.F]
        while work:
            x = work.pop()
            if x in seen or x in stop:
                continue
            seen.add(x)
            work.extend(self.callees[x])
        return seen

    def only(self, roots):
        """Functions that are reached through roots and nothing else."""
        s = set(r for r in roots if r in self.F)
        changed = True
        while changed:
            changed = False
            for n in self.F:
                if n not in s and self.callers[n] and self.callers[n] <= s and self.F[n].d.get("static"):
                    s.add(n)
                    changed = True
        return s


def kernels(ctx, group, expect):
    m = build.load(group, keepall=True)
    ctx.units |= set(m.units)
    e = Effects(m)
    repo = {n for n, f in e.F.items() if f.repo}
    instr = {n for n in repo if "OMInstrument" in e.F[n].file}
    ctors = {n for n in e.F if n.startswith(("__cxx_global_var_init", "_GLOBAL__sub_I"))}
    rnd = {n for n in repo if not e.F[n].d.get("static") and "random" in n.lower() and "Tensor" not in n}
    fallback = {n for n in repo if n == "quick_sort_custom"}
    # designed state: the seed of the data generator, and what a signal handler shares with the guarded run
    seed = set()
    for n in repo:
        if "omDefineSeed" in e.F[n].q.rsplit("::", 1)[-1]:
            for x in e.reach([n]):
                seed |= set(e.writes[x])
    handlers, buf = set(), set()
    for n in repo:
        for _, i in e.F[n].insts():
            if i["op"] not in ("call", "invoke"):
                continue
            if i.get("callee") in ("signal", "sigaction", "sysv_signal", "__sysv_signal"):
                handlers |= {a[1] for a in i["args"] if a[0] == "g" and a[1] in e.F}
            if i.get("callee") in ("_setjmp", "__sigsetjmp", "sigsetjmp", "setjmp", "longjmp", "siglongjmp"):
                for a in i["args"]:
                    g = base(a)
                    if g:
                        buf.add(g)
            # a handler stored into a struct sigaction
        for _, i in e.F[n].insts():
            if i["op"] == "store" and i["o"][0][0] == "g" and i["o"][0][1] in e.F:
                handlers.add(i["o"][0][1])
    guard = set(buf)
    for h in handlers:
        guard |= set(e.writes.get(h, ()))
    allowed_lib = e.reach(e.only(rnd | fallback))
    guarded = {n for n in repo if guard & set(e.writes[n])}
    boundary = instr
    for n in sorted(repo):
        f = e.F[n]
        if n in instr or n in ctors or any(x in f.q for x in ("_GLOBAL__",)):
            continue
        ctx.ok("functions", f.q)
        for g, i in e.writes[n].items():
            if g in seed or g in guard:
                continue
            d = m.globals[g]
            if "OMInstrument" in d.get("file", ""):
                continue
            # a callee that lives in the library and is handed the global: report where it is handed over
            ctx.violation("state", f.loc(i), "%s writes %s, which lives on after the call" % (f.q, d.get("dname") or g),
                          key="state|%s|%s" % (n, d.get("dname") or g))
        for c, i in e.lib[n].items():
            if "ExecutionSession" in f.file:
                continue                  # the environment while a model is loaded: property R07
            if n in allowed_lib and c in ("rand", "srand", "random", "srandom"):
                continue
            if n in guarded or n in handlers or c in ("signal", "sigaction") and handlers:
                continue
            ctx.violation("state", f.loc(i), "%s calls %s, which changes the state of the process" % (f.q, c),
                          key="state|%s|%s" % (n, c))
    if group == "crt":
        seeded(ctx, e, rnd)
        ctx.need("random kernels", 3)
    ctx.need("functions", expect)


DRAW = {"rand", "random", "drand48", "lrand48"}
SEED = {"srand", "srandom", "srand48"}


def seeded(ctx, e, rnd):
    """Every random kernel seeds the generator from its arguments before it draws, on every path."""
    draws, changed = set(), True
    while changed:
        changed = False
        for n, f in e.F.items():
            if n not in draws and any(i.get("callee") in DRAW or i.get("callee") in draws for _, i in f.insts()):
                draws.add(n)
                changed = True

    def derived(f, v, seen):
        if v[0] != "v" or v[1] in seen:
            return False
        seen.add(v[1])
        if v[1] < len(f.params):
            return True
        i = f.ins_of(v)
        if i is None:
            return False
        return any(derived(f, o, seen) for o in i.get("o", []) + i.get("args", []) + [p[0] for p in i.get("phi", [])])

    memo = {}

    def run(n):
        """(draws before seeding: instruction or None, every path that returns has seeded)"""
        if n in memo:
            return memo[n]
        memo[n] = (None, False)
        f = e.F[n]
        f.prep()
        ins = {0: False}
        work, bad, outs = [0], None, []
        while work:
            b = work.pop()
            s = ins[b]
            for i in f.blocks[b]:
                if i["op"] in ("call", "invoke"):
                    c = i.get("callee")
                    if c in SEED and derived(f, i["args"][0], set()):
                        s = True
                    elif c in DRAW and not s:
                        bad = bad or i
                    elif c in draws and c in e.F:
                        r = run(c)
                        if r[0] is not None and not s:
                            bad = bad or i
                        s = s or r[1]
                    elif c in e.F and e.lib[c].keys() & SEED:
                        s = s or run(c)[1]
                elif i["op"] == "ret":
                    outs.append(s)
            for t in f.succ[b]:
                x = s if t not in ins else (s and ins[t])
                if t not in ins or x != ins[t]:
                    ins[t] = x
                    work.append(t)
        memo[n] = (bad, bool(outs) and all(outs))
        return memo[n]
    for n in sorted(draws):
        f = e.F[n]
        if n in rnd and f.repo and f.params and not e.callers[n] - {n}:
            ctx.ok("random kernels", f.q)
            bad, _ = run(n)
            if bad is not None:
                ctx.violation("seed", f.loc(bad), "%s draws random values before it has applied the seed it was given" % f.q,
                              key="seed|%s" % n)


def state(ctx, tier):
    ctx.rule("seed", "a random kernel applies its seed before the first value is drawn, on every path")
    ctx.rule("state", "no kernel or tensor operation writes an object of static storage duration, directly, through a callee or "
                      "through a library routine with hidden state; exempt: instrumentation, the seed of generated test data, the "
                      "C library generator behind the random kernels, what a signal handler shares with a guarded run")
    kernels(ctx, "crt", 60)
    kernels(ctx, "rtxx", 150)
    # positive example: the rule must match a function known to write such objects
    m = build.load("crt", keepall=True)
    e = Effects(m)
    if not any(e.writes[n] for n in e.F if "OMInstrument" in e.F[n].file):
        raise AnalysisBroken("the effect analysis no longer sees the instrumentation state")
    return ("Interprocedural effect analysis: writes through addresses derived from a mutable global, in the function or a callee "
            "it is passed to, and calls of library routines with hidden state.")

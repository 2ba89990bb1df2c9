"""D01 running a command, D02..D04 the compiler session."""
import re

from .. import build, summary
from ..engine import AnalysisBroken, NULL, TOP, INF
from ..terms import (TermEngine, Terms, raised, FS_ERROR, EMPTY, cat, contains, subterms, replace, show, params,
                     fname, short)

CMD_EXC = "_ZTIN9onnx_mlir16CommandExceptionE"
CWD = ("cwd",)
EXEC = ("execvp", "execv", "execve", "execvpe", "execl", "execlp", "execle", "fexecve")


# ---------------------------------------------------------------- bit fields
class BitsEngine(TermEngine):
    """Wait statuses as bit fields: ("bits", ((source, low, width, shift), ...))"""
    SRC = {"exit": (0, 255), "sig": (1, 126), "core": (0, 1)}

    def rng(self, st, v):
        if v[0] == "bits":
            lo = hi = 0
            for s, l, w, sh in v[1]:
                a, b = self.SRC[s]
                full = l == 0 and (1 << w) > b
                lo += (a if full else 0) << sh
                hi += (min(b, (1 << w) - 1) if l == 0 else (1 << w) - 1) << sh
            return lo, hi, frozenset()
        return super().rng(st, v)

    def norm(self, ps):
        ps = tuple(sorted(p for p in ps if p[2] > 0))
        return ("bits", ps) if ps else NULL

    def shift(self, ps, n):
        out = []
        for s, l, w, sh in ps:
            sh -= n
            if sh < 0:
                l, w, sh = l - sh, w + sh, 0
            out.append((s, l, w, sh))
        return self.norm(out)

    def mask(self, ps, m):
        out = []
        for s, l, w, sh in ps:
            k = 0
            while k < w:
                if m >> (sh + k) & 1:
                    n = k
                    while n < w and m >> (sh + n) & 1:
                        n += 1
                    out.append((s, l + k, n - k, sh + k))
                    k = n
                else:
                    k += 1
        return self.norm(out)

    def arith(self, st, i, op):
        a, b = self.ev(st, i["o"][0]), self.ev(st, i["o"][1])
        if a[0] == "int" and b[0] == "bits" and op in ("and", "or", "add"):
            a, b = b, a
        if a[0] == "bits" and b[0] == "int":
            n = b[1]
            if op == "and":
                return self.mask(a[1], n & 0xffffffff)
            if op in ("lshr", "ashr"):
                return self.shift(a[1], n)
            if op in ("sdiv", "udiv") and n > 0 and n & (n - 1) == 0:
                return self.shift(a[1], n.bit_length() - 1)
            if op in ("srem", "urem") and n > 0 and n & (n - 1) == 0:
                return self.mask(a[1], n - 1)
            if op == "shl":
                return self.shift(a[1], -n)
            if op in ("or", "add", "sub", "xor") and n == 0:
                return a
        if a[0] == "bits" and b[0] == "bits" and op == "or":
            return self.norm(set(a[1]) | set(b[1]))
        d = a[0] == "bits" or a[0] == "sym" and a[1][:2] == ("arg", "wd")
        if d and b[0] == "int" and op in ("add", "sub", "ashr", "lshr", "shl"):
            lo, hi, _ = self.rng(st, a)
            n = b[1]
            f = {"add": lambda x: x + n, "sub": lambda x: x - n, "ashr": lambda x: x >> n, "lshr": lambda x: x >> n,
                 "shl": lambda x: x << n}[op]
            k = ("arg", "wd", a[1], op, n)
            if lo >= 0 or op in ("add", "sub", "ashr"):
                st.facts[k] = (f(lo), f(hi), frozenset())
                return ("sym", k)
        return super().arith(st, i, op)

    def cast(self, st, i, v):
        if v[0] == "bits" or v[0] == "sym" and v[1][:2] == ("arg", "wd"):
            if i["op"] in ("zext", "sext"):
                return v
            w = int(i["ty"][1:]) if i.get("ty", "").startswith("i") and i["ty"][1:].isdigit() else 64
            lo, hi, _ = self.rng(st, v)
            if -(1 << (w - 1)) <= lo and hi < (1 << w):
                if v[0] == "bits" or hi < (1 << (w - 1)):
                    return v
            if v[0] == "bits":
                return self.mask(v[1], (1 << w) - 1)
        return super().cast(st, i, v)


# ---------------------------------------------------------------- D01
ARGV0 = ("argv", None, None, frozenset())
ERR = (("G", "errno"), 0)


class Exec(Terms):
    """mon = (cwd, proc, extra)
    cwd  in {"orig", "changed", "stuck"}          stuck: restoring failed
    proc in {"start","forkfail","child","execfail","parent","waiting","exited","signalled","unwaited"}
    redir = frozenset of (fd, target)"""
    init = ("orig", "start", frozenset(), None)

    def __init__(self, ctx, log, path, args):
        self.ctx, self.log, self.path, self.args = ctx, log, path, args
        self.n = {}
        self.pushes, self.push_blocks = set(), set()

    def count(self, k):
        self.n[k] = self.n.get(k, 0) + 1

    def note(self, t):
        if t not in self.ctx.notes:
            self.ctx.notes.append(t)

    def v(self, eng, st, i, rule, msg):
        eng.report(rule, i, msg, st)

    def errno(self, st, v):
        st.mem[ERR] = v

    def event(self, eng, st, i, callee, dem, args):
        cwd, proc, redir, op = st.mon
        n = fname(dem) if callee.startswith("_Z") else callee
        if callee == "__errno_location":
            return [(st, ("ptr", ("G", "errno"), 0))]
        if dem.startswith("std::filesystem::current_path") or callee in ("chdir", "getcwd", "get_current_dir_name"):
            setter = callee == "chdir" or dem.startswith("std::filesystem::current_path(path const&")
            if not setter:
                if callee != "chdir" and args:
                    self.set(eng, st, args[0], CWD if cwd == "orig" else ("cwd", "changed"))
                    return [(st, args[0] if "i" in i else TOP)]
                return None
            t = self.chars(eng, st, args[0]) if callee == "chdir" else self.get(eng, st, args[0])
            back = t == CWD or t == ("fn", "absolute", CWD)
            if proc in ("child", "execfail"):
                return None
            self.ctx.ok("directory changes", eng.fn.loc(i))
            self.count("cwd")
            ok, bad = st.copy(), st.copy()
            ok.mon = ("orig" if back else "changed", proc, redir, op)
            bad.mon = ("stuck" if back and cwd != "orig" else cwd, proc, redir, op)
            if not back and proc != "start":
                self.v(eng, st, i, "cwd", "changes the working directory after the command was started")
            if callee == "chdir":
                return [(ok, NULL), (bad, ("int", -1))]
            ec = len(args) > 1
            if ec:
                return [(ok, TOP), (bad, TOP)]
            return [(ok, TOP), raised(bad, FS_ERROR)]
        if callee in ("fork", "vfork"):
            self.ctx.ok("forks", eng.fn.loc(i))
            out = []
            for p, val in (("forkfail", ("int", -1)), ("child", NULL), ("parent", None)):
                s = st.copy()
                s.mon = (cwd, p, redir, op)
                if val is None:
                    k = ("arg", "pid")
                    s.facts[k] = (1, INF, frozenset())
                    val = ("sym", k)
                out.append((s, val))
            return out
        if callee in ("posix_spawn", "posix_spawnp", "system", "popen", "clone", "__clone"):
            raise AnalysisBroken("%s: starting a command with %s is not modelled" % (eng.fn.q, callee))
        if callee in EXEC:
            self.ctx.ok("program starts", eng.fn.loc(i))
            if proc != "child":
                self.v(eng, st, i, "child", "replaces the calling program instead of a forked child")
            t = self.chars(eng, st, args[0])
            if t != ("init", ("arg", eng.fn.d.get("thisarg", 0)), self.path):
                self.v(eng, st, i, "program", "starts something other than the command's own program path")
            if callee in ("execv", "execve", "execl", "execle"):
                self.v(eng, st, i, "program", "does not look for the program where programs are")
            if callee in ("execvp", "execv", "execve", "execvpe") and len(args) > 1:
                o, off = eng.obj_of(args[1])
                a = o[1] if o and o[0] == "T" else None
                if a and a[0] == "argv":
                    first, last, seen = a[1:]
                    if last != "null":
                        self.v(eng, st, i, "argv", "the argument vector does not end with a null pointer")
                    if "after-null" in seen:
                        self.v(eng, st, i, "argv", "a null pointer cuts the argument vector short")
                    if first is False:
                        self.v(eng, st, i, "argv", "the argument vector does not start with the first argument")
                    if "literal" in seen:
                        self.v(eng, st, i, "argv", "the argument vector has an argument the command does not have")
                    self.count("argv")
                else:
                    self.note("argument vector not understood at " + eng.fn.loc(i))
            e = self.known_empty(eng, st, ("init", eng.this[1], self.log))
            fds = {fd for fd, _ in redir}
            logged = {fd for fd, x in redir if x == "log"}
            if e is not True and op in ("opened", "opened-closed"):
                for fd, nm in ((1, "output"), (2, "error")):
                    if fd not in logged:
                        self.v(eng, st, i, "redirect", "starts the program with its standard %s not sent to the requested "
                                                       "log file" % nm)
            if e is None:
                self.v(eng, st, i, "redirect", "starts the program without looking whether a log file was requested")
            elif e is False and op is None:
                self.v(eng, st, i, "redirect", "starts the program without opening the requested log file")
            elif e is True and fds:
                self.v(eng, st, i, "redirect", "redirects the program's output although no log file was requested")
            st.mon = (cwd, "execfail", redir, op)
            k = ("arg", "execerr")
            st.facts[k] = (1, 4095, frozenset())
            self.errno(st, ("sym", k))
            return [(st, ("int", -1))]
        if callee in ("open", "open64", "creat") and args:
            t = self.chars(eng, st, args[0])
            if t == ("init", eng.this[1], self.log):
                if callee != "creat" and args[1][0] == "int":
                    fl = args[1][1]
                    if fl & 3 == 0:
                        self.v(eng, st, i, "redirect", "opens the log file without write access")
                    if not fl & 0o100:
                        self.v(eng, st, i, "redirect", "does not create the log file")
                ok, bad = st.copy(), st
                ok.mon = (cwd, proc, redir, "opened")
                bad.mon = (cwd, proc, redir, "failed")
                k = ("arg", "logfd")
                ok.facts[k] = (3, INF, frozenset())
                self.errno(bad, TOP)
                return [(ok, ("sym", k)), (bad, ("int", -1))]
        if callee in ("dup2", "dup3"):
            fd = args[1][1] if args[1][0] == "int" else None
            src = ("log" if op == "opened" else "closed") if args[0] == ("sym", ("arg", "logfd")) else \
                dict(redir).get(args[0][1], "other") if args[0][0] == "int" else "other"
            # a target taken from a list or a parameter may be either
            to = {fd} if fd is not None and i["args"][1][0] == "c" else {1, 2}
            st.mon = (cwd, proc, frozenset((a, b) for a, b in redir if a not in to) | {(x, src) for x in to}, op)
            return [(st, args[1])]
        if callee == "close":
            fd = args[0][1] if args[0][0] == "int" else None
            if args[0] == ("sym", ("arg", "logfd")):
                op = "opened-closed"
            st.mon = (cwd, proc, frozenset((a, b) for a, b in redir if a != fd), op)
            return [(st, NULL)]
        if callee in ("exit", "_exit", "_Exit", "quick_exit"):
            if proc == "execfail":
                self.count("exit")
                self.ctx.ok("failed starts", "%s: exit code %s" % (eng.fn.loc(i), args[0]))
                x = ("sym", ("arg", "execerr"))
                code = args[0]
                if code[0] == "int":
                    for err, want, nm in ((2, 16, "a missing program"), (13, 17, "a program that may not be executed")):
                        t = eng.truth(st, ("cmp", "eq", x, ("int", err)))
                        if t is not False and code[1] != want:
                            self.v(eng, st, i, "code", "reports %s with exit code %d instead of %d" % (nm, code[1], want))
                    t2 = [eng.truth(st, ("cmp", "eq", x, ("int", e))) for e in (2, 13)]
                    if t2[0] is not True and t2[1] is not True and code[1] != 18:
                        self.v(eng, st, i, "code", "reports another execution failure with exit code %d instead of 18" % code[1])
                else:
                    self.note("exit code not constant at " + eng.fn.loc(i))
            elif proc == "child":
                # before the program was tried
                if args[0] == NULL:
                    self.v(eng, st, i, "code", "the child reports success without having run the program")
            else:
                self.v(eng, st, i, "child", "ends the calling program")
            return []
        if callee in ("abort", "_ZSt9terminatev"):
            return []
        if callee == "waitpid" or callee == "wait4":
            self.ctx.ok("waits", eng.fn.loc(i))
            self.count("wait")
            if proc == "exited" or proc == "signalled":
                self.v(eng, st, i, "wait", "waits again for a command that has ended")
                return []
            if args[0] != ("sym", ("arg", "pid")) and args[0] != ("int", -1):
                self.v(eng, st, i, "wait", "waits for something other than the child it started")
            if args[2][0] == "int" and args[2][1] & 1:
                self.v(eng, st, i, "wait", "does not block until the command ends")
            if args[2][0] == "int" and args[2][1] & 2:
                self.v(eng, st, i, "wait", "is back from the wait when the command is only stopped")
            out = []
            for p, bits in (("exited", (("exit", 0, 8, 8),)), ("signalled", (("sig", 0, 7, 0), ("core", 0, 1, 7)))):
                s = st.copy()
                s.mon = (cwd, p, redir, op)
                o, off = eng.obj_of(args[1])
                if o:
                    s.mem[(o, off)] = ("bits", tuple(sorted(bits)))
                out.append((s, ("sym", ("arg", "pid"))))
            s = st.copy()
            s.mon = (cwd, "interrupted", redir, op)
            self.errno(s, ("int", 4))
            out.append((s, ("int", -1)))
            s = st.copy()
            s.mon = (cwd, "waitfail", redir, op)
            k = ("arg", "waiterr")
            s.facts[k] = (1, 4095, frozenset((4,)))
            self.errno(s, ("sym", k))
            out.append((s, ("int", -1)))
            return out
        if re.match(r"^(.* )?vector<char( const)?\*( const)?>::[^:]*\(", dem) and n != "__normal_iterator":
            c = self.cell(eng, args[0])
            t = self.get(eng, st, args[0])
            if n == "vector":
                st.mem[c] = ("term", ARGV0)
            elif n.startswith("~"):
                self.drop(eng, st, args[0])
            elif n == "data" or n == "begin":
                return [(st, ("ptr", ("T", t), 0))]
            elif n in ("push_back", "emplace_back") and t[0] == "argv":
                o, off = eng.obj_of(args[1])
                v = st.mem.get((o, off), TOP)
                first, last, seen = t[1:]
                k = "other"
                if v == NULL:
                    k = "null"
                elif v[0] == "ptr" and v[1][0] == "T":
                    x = v[1][1]
                    if x[0] == "elem" and x[1] == self.args:
                        k = "elem"
                        if first is None:
                            first = x[2] in ("first", ("int", 0))
                        self.pushes.add(i["i"] if "i" in i else id(i))
                        self.push_blocks.add(next(b for b, y in eng.fn.calls() if y is i))
                    elif x[0] == "lit":
                        k = "literal"
                if last == "null":
                    seen = seen | {"after-null"}
                st.mem[c] = ("term", ("argv", first, k, seen | {k}))
                self.ctx.ok("argument pushes", eng.fn.loc(i))
            elif n == "reserve":
                pass
            elif n in ("size", "empty", "capacity"):
                return [(st, eng.fresh(st, i))]
            elif t[0] == "argv":
                st.mem[c] = ("term", ("u", "argv"))
            return [(st, args[0] if "i" in i else TOP)]
        f = eng.fn.mod.fns.get(callee)
        if not callee.startswith("_Z") and not callee.startswith("llvm.") and not callee.startswith("__cxa"):
            self.errno(st, TOP)
        elif f is not None and (f.repo or "ostream" in dem):
            self.errno(st, TOP)
        return None

    def throw(self, eng, st, i, ti):
        if ti != CMD_EXC and not (ti or "").startswith("_ZTI"):
            return
        if ti != CMD_EXC:
            self.v(eng, st, i, "type", "throws something other than the documented exception")

    def exit(self, eng, st, kind, i, val):
        cwd, proc, redir, op = st.mon
        self.count(proc + "/" + kind)
        if proc in ("child", "execfail"):
            self.v(eng, st, i, "child", "the child process %s into the caller's code" %
                   ("returns" if kind == "ret" else "throws"))
            return
        if cwd == "changed":
            self.v(eng, st, i, "cwd", "leaves (%s) without restoring the working directory" % where(proc, kind))
        if proc in ("parent", "interrupted"):
            self.v(eng, st, i, "wait", "leaves without having waited for the command" +
                   (" (the wait was interrupted by a signal)" if proc == "interrupted" else ""))
        if kind == "ret":
            if proc == "exited":
                if val != ("bits", (("exit", 0, 8, 0),)):
                    self.v(eng, st, i, "status", "does not return the command's exit status unchanged")
            elif proc == "signalled":
                self.v(eng, st, i, "status", "returns normally although the command was ended by a signal")
            elif proc in ("forkfail", "start", "waitfail"):
                self.v(eng, st, i, "status", "returns normally although no command was run")
        elif proc == "exited" and cwd != "stuck":
            self.v(eng, st, i, "status", "throws although the command ran and exited")


def where(proc, kind):
    return {"start": "before the command was started", "forkfail": "when no child could be created",
            "exited": "after the command exited", "signalled": "after the command was ended by a signal",
            "waitfail": "when waiting failed"}.get(proc, proc)


def exec_name():
    """The public method that starts a command, found by climbing from fork."""
    m = build.load("driver", keepall=True, inline_std=summary.STD)
    fns = {f.name: f for f in m.fns.values() if not f.decl and f.repo}
    cur = {n for n, f in fns.items() if any(i.get("callee") in ("fork", "vfork") for _, i in f.calls())}
    if not cur:
        raise AnalysisBroken("nothing forks")
    seen = set()
    out = set()
    while cur:
        n = cur.pop()
        if n in seen:
            continue
        seen.add(n)
        f = fns[n]
        if f.d.get("access") == "public" and f.d.get("hasthis"):
            out.add(f)
            continue
        cur |= {g for g, x in fns.items() if any(i.get("callee") == n for _, i in x.calls())}
    if len(out) != 1:
        raise AnalysisBroken("expected one public method that forks, found %s" % sorted(f.q for f in out))
    return out.pop()


def string_fields(m, f):
    """Roles of the command's string members: program path, log file, arguments."""
    cls = f.q.rsplit("::", 1)[0]
    pre = cls + "::"
    path = log = None

    class Probe(Terms):
        def event(s, eng, st, i, callee, dem, args):
            nonlocal path
            if callee in EXEC:
                t = s.chars(eng, st, args[0])
                if t[0] == "init" and t[1] == eng.this[1]:
                    path = t[2]
                return [(st, ("int", -1))]
    f.prep()
    TermEngine(f, Probe(), leak=False, nullcheck=False, per_block=20000).run()
    sets = {}
    for g in m.fns.values():
        if g.decl or not g.repo or not g.q.startswith(pre) or g.d.get("ret") != "void" or g.d.get("access") != "public":
            continue
        if not g.d.get("hasthis") or len(g.params) != 2 or "~" in g.q or g.q == pre + cls.split("::")[-1]:
            continue

        class S(Terms):
            def exit(s, eng, st, kind, i, val):
                for k, x in st.mem.items():
                    if k[0] == ("S", eng.this) and x == ("term", ("init", ("arg", 1), 0)):
                        sets[k[1]] = g.q
        g.prep()
        TermEngine(g, S(), leak=False, nullcheck=False).run()
    if path is None or len(sets) != 1:
        raise AnalysisBroken("cannot identify the command's program path / log file (%s, %s)" % (path, sets))
    return path, next(iter(sets))


def arg_field(m, f):
    """Term of the command's argument list: what the method that appends one
    argument appends to."""
    pre = f.q.rsplit("::", 1)[0] + "::"
    offs = set()
    for g in m.fns.values():
        if g.decl or not g.repo or not g.q.startswith(pre) or len(g.params) != 2 or g.d.get("access") != "public":
            continue

        class P(Terms):
            def event(s, eng, st, i, callee, dem, args):
                if dem.startswith("vector<string>::") and fname(dem) in ("push_back", "emplace_back"):
                    o, off = eng.obj_of(args[0])
                    if o == eng.this and s.get(eng, st, args[1]) == ("init", ("arg", 1), 0):
                        offs.add(off)
        g.prep()
        if not any("push_back" in (i.get("callee") or "") for _, i in g.calls()):
            continue
        TermEngine(g, P(), leak=False, nullcheck=False).run()
    if len(offs) != 1:
        raise AnalysisBroken("cannot identify the command's argument list (%s)" % offs)
    return ("init", ("arg", f.d.get("thisarg", 0)), next(iter(offs)))


def command(ctx, tier):
    ctx.rule("cwd", "on every exit of the run, normal or failing, the working directory is the one the caller had, or "
                    "restoring it was tried and failed")
    ctx.rule("child", "the forked child never returns or throws into the caller's code, and only it replaces its program")
    ctx.rule("code", "a program that cannot be started is reported by exit code 16 (missing), 17 (not executable) or 18 (other)")
    ctx.rule("status", "a command that exits gives its exit status, unchanged; one that a signal ended, or that could not be "
                       "started or waited for, gives an exception")
    ctx.rule("wait", "the run waits, without giving up on interruption, for the child it started")
    ctx.rule("redirect", "with a log file requested, both output streams of the program go to it; without one neither is touched")
    ctx.rule("program", "the program started is the command's own path")
    ctx.rule("argv", "the argument vector is the command's arguments, each once and in order, and ends with a null pointer")
    ctx.rule("type", "every exception thrown by the run itself is of the documented type")
    x = exec_name()
    m = build.load("driver", inline_std=summary.STD, keep=[x.q], small=25, relevant=list(EXEC) + [
        "fork", "vfork", "open", "open64", "creat", "dup", "dup2", "dup3", "close", "exit", "_exit", "_Exit", "abort",
        "waitpid", "wait4", "wait", "chdir", ".*current_path.*", "__errno_location", "__cxa_throw"])
    ctx.units |= set(m.units)
    f = m.fns[x.name]
    f.prep()
    path, log = string_fields(m, f)
    args = arg_field(m, f)
    mon = Exec(ctx, log, path, args)
    e = BitsEngine(f, mon, leak=False, nullcheck=False, per_block=20000)
    e.run()
    for b in sorted(mon.push_blocks):
        body = [h for h in f.headers if b in f.loops[h]]
        if not body:
            ctx.violation("argv", f.loc(f.blocks[b][0]), "%s: only one argument is passed on" % f.q, key="argv|one")
            continue
        h = min(body, key=lambda x: len(f.loops[x]))
        # an iteration that reaches the back edge without the push
        seen, work = set(), [h]
        while work:
            x = work.pop()
            if x in seen or x == b or x not in f.loops[h]:
                continue
            seen.add(x)
            for y in f.succ[x]:
                if y == h and x != b:
                    ctx.violation("argv", f.loc(f.blocks[h][-1]), "%s: an argument can be skipped" % f.q, key="argv|skip")
                work.append(y)
        for x in f.loops[h]:
            t = f.blocks[x][-1]
            if t["op"] != "br" or "cond" not in t or all(y in f.loops[h] for y in f.succ[x]):
                continue
            c = f.ins_of(t["cond"])
            for o in (c or {}).get("o", []):
                d = f.ins_of(o)
                p = f.ins_of(d["o"][0]) if d and d["op"] == "add" else None
                if p and p["op"] == "phi" and p in f.phis[h] and x == h and d["o"][1][0] == "c" and d["o"][1][1] > 0:
                    ctx.violation("argv", f.loc(t), "%s: the loop over the arguments stops early" % f.q, key="argv|stop")
                if d and d["op"] in ("add", "sub") and any((f.ins_of(y) or {}).get("op") == "call" for y in d["o"]):
                    ctx.violation("argv", f.loc(t), "%s: the loop over the arguments stops early" % f.q, key="argv|stop")
        ctx.ok("argument loops", f.loc(f.blocks[h][-1]))
    ctx.ok("abstract states", n=e.nstates)
    ctx.notes.append("exits by outcome: " + ", ".join("%s=%d" % x for x in sorted(mon.n.items())))
    for r in e.reports.values():
        ctx.violation(r.rule, r.loc, "%s: %s" % (r.fn, r.msg), key="%s|%s" % (r.rule, r.msg), path=r.path)
    for k in ("forks", "program starts", "waits", "failed starts", "directory changes"):
        ctx.need(k, 1)
    return ("The method that forks, its helpers inlined, is interpreted over abstract states: working directory, process, "
            "redirections, errno and the wait status as bit fields; every library call that can fail is followed both ways.")

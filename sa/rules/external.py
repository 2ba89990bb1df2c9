"""R09: constants kept outside the model library are the named file's bytes.

As for the instrumentation, the routines are followed call after call; files,
mappings and names are terms, the sizes and the answers of the system are given
by the configuration."""
from .. import build
from ..engine import AnalysisBroken
from .instrument import Play, State
from .tensors import Tens, poly

LOAD, ADDR, UNLOAD = "omLoadConstantData", "omGetExternalConstantAddr", "omUnloadConstantData"
VAR = "OM_CONSTANT_PATH"
SIZES = (1, 5000, (1 << 33) + 7)
SLOT = ("slot", 1)


BASES = ("mem", "map", "base", "fname", "env", "glob", "loc", "old")


def plus(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        r[m] = r.get(m, 0) + k * c
    return {m: c for m, c in r.items() if c}


class Sys:
    """The system: what its calls answer."""
    borrow = False

    def __init__(self, env=False, file="enough", maps=True, memory=True):
        self.env, self.file, self.maps, self.memory = {VAR} if env else set(), file, maps, memory
        self.n = 0
        self.need = None

    def tick(self):
        self.n += 1
        return self.n


class Ext(Play):
    def icmp(self, pred, a, b):
        x, y = self.addr(a), self.addr(b)
        sure = ("slot", "fname", "fd", "map", "mem", "env", "out", "base", "old")
        if x[0][0] in sure and b[0] == "c" and a[0] != "at":
            k = b[1]
            if a[0] == "fd":
                r = {"slt": k > 0, "sle": k >= 0, "sgt": k < 0, "sge": k <= 0, "eq": False, "ne": True}.get(pred)
                return ("c", int(r)) if r is not None else super().icmp(pred, a, b)
            if pred in ("eq", "ne") and k in (0, -1):
                return ("c", int(pred == "ne"))
        if a[0] == "c" and y[0][0] in sure and pred in ("eq", "ne"):
            return self.icmp(pred, b, a)
        return super().icmp(pred, a, b)

    def val(self, st, o):
        if o[0] == "ce" and o[1] == "inttoptr" and o[3][0] == "c":
            return ("c", o[3][1])
        return super().val(st, o)

    def fold(self, st, i):
        if i["op"] in ("inttoptr", "ptrtoint"):
            return self.val(st, i["o"][0])
        return super().fold(st, i)

    def text(self, st, v, most=None):
        if v[0] == "fname":
            return "<fname>"
        if v[0] == "env":
            return "<dir>"
        a = self.addr(v)
        k = st.mem.get((a[0], "path"))
        if k is not None and a[1] == 0:
            return k
        return super().text(st, v, most)

    def length(self, st, v):
        """How long a text is, as a polynomial over the lengths of its parts."""
        return self.of(self.text(st, v))

    @staticmethod
    def of(s):
        r = {}
        for part in s.replace("<", "\0<").replace(">", ">\0").split("\0"):
            if part in ("<fname>", "<dir>"):
                r[(("len", part),)] = r.get((("len", part),), 0) + 1
            elif part:
                r[()] = r.get((), 0) + len(part)
        return r

    def fits(self, st, i, dst, need, what):
        """A text (and its end) of `need` characters is put at dst."""
        size = dst[2] if dst[0] == "mem" else None
        if size is None:
            return
        have = poly(size)
        if any(have.get(m, 0) < c for m, c in need.items()):
            self.event(st, i, "short", what)

    def put_text(self, st, i, dst, s, limit=None):
        st.mem[(self.addr(dst)[0], "path")] = s
        st.mem[(self.addr(dst)[0], "ended")] = True
        need = dict(self.length(st, dst))
        need[()] = need.get((), 0) + 1
        if limit is not None:
            have = poly(limit)
            if any(have.get(m, 0) < c for m, c in need.items()):
                self.event(st, i, "short", "cut")
            if dst[0] == "mem":
                self.fits(st, i, dst, have, "room")
        else:
            self.fits(st, i, dst, need, "room")

    # -- a path put together piece by piece --
    @classmethod
    def place(self, v):
        """Where a pointer points: its object and a polynomial."""
        if v[0] == "at":
            b, p = self.place(v[1])
            o = poly(("c", v[2]) if isinstance(v[2], int) else v[2])
            return b, plus(p, o)
        if v[0] == "add":
            for x, y in ((v[1], v[2]), (v[2], v[1])):
                if x[0] in BASES or x[0] == "at":
                    b, p = self.place(x)
                    return b, plus(p, poly(y))
        return v, {}

    def piece(self, st, i, dst, src, n):
        """n bytes (a polynomial) of a text are put where the path so far ends."""
        b, at = self.place(dst)
        if b[0] != "mem":
            return
        cur = st.mem.get((b, "path"), "") if at else ""
        whole = self.length(st, src) if src is not None else {}
        if at and at != self.of(cur):
            self.event(st, i, "short", "gap")
        st.mem[(b, "path")] = cur + (self.text(st, src) if src is not None else "")
        end = plus(n, whole, -1)
        if end not in ({}, {(): 1}):
            self.event(st, i, "short", "cut")
        st.mem[(b, "ended")] = end == {(): 1}
        self.fits(st, i, b, plus(at, n), "room")

    def write(self, st, i, p, v):
        b, at = self.place(p)
        if b[0] == "mem" and v[0] == "c":
            cur = st.mem.get((b, "path"), "")
            if at != self.of(cur):
                self.event(st, i, "short", "gap")
            elif v[1] & 255:
                st.mem[(b, "path")] = cur + chr(v[1] & 255)
                st.mem[(b, "ended")] = False
            else:
                st.mem[(b, "ended")] = True
            self.fits(st, i, b, plus(at, {(): 1}), "room")
            return
        super().write(st, i, p, v)

    def intrinsic(self, st, i, c, args):
        if c.startswith(("llvm.memcpy", "llvm.memmove")) and self.place(args[0])[0][0] == "mem":
            self.piece(st, i, args[0], args[1], poly(args[2]))
            return ("?",)
        return super().intrinsic(st, i, c, args)

    def model(self, st, i, dem, args, cont):
        w, c = self.w, dem.split("(")[0]
        if c in ("memcpy", "memmove", "mempcpy") and self.place(args[0])[0][0] == "mem":
            self.piece(st, i, args[0], args[1], poly(args[2]))
            return args[0] if c != "mempcpy" else ("at", args[0], args[2])
        if c == "free":
            self.event(st, i, "free", args[0])
            return ("c", 0)
        if c == "strlen":
            p = self.length(st, args[0])
            t = None
            for m, k in sorted(p.items(), key=repr):
                x = ("c", k) if m == () else m[0]
                if m and k != 1:
                    x = ("mul", x, ("c", k))
                t = x if t is None else ("add", t, x)
            return t or ("c", 0)
        if c in ("malloc", "calloc"):
            if not w.memory:
                return ("c", 0)
            r = super().model(st, i, dem, args, cont)
            self.event(st, i, "alloc", r)
            return r
        if c in ("strdup", "strndup"):
            return None
        if c == "snprintf":
            f = self.cstr(args[2])
            self.put_text(st, i, args[0], self.render(st, f, args[3:]) if f is not None else "<undefined>", args[1])
            return ("c", 1)
        if c == "sprintf":
            f = self.cstr(args[1])
            self.put_text(st, i, args[0], self.render(st, f, args[2:]) if f is not None else "<undefined>")
            return ("c", 1)
        if c in ("strcpy", "stpcpy"):
            self.put_text(st, i, args[0], self.text(st, args[1]))
            return args[0]
        if c == "strcat":
            self.put_text(st, i, args[0], self.text(st, args[0]) + self.text(st, args[1]))
            return args[0]
        if c in ("open", "open64"):
            self.event(st, i, "open", self.text(st, args[0]), args[1])
            if not st.mem.get((self.addr(args[0])[0], "ended"), True):
                self.event(st, i, "short", "no end")
            return ("fd", w.tick()) if w.file != "missing" else ("c", -1)
        if c == "close":
            self.event(st, i, "close", args[0])
            return ("c", 0)
        if c in ("fstat", "fstat64"):
            if w.file == "nostat":
                return ("c", -1)
            for k in range(0, 144, 8):
                st.mem[(self.addr(args[1])[0], self.addr(args[1])[1] + k)] = ("stat", k)
            # st_size
            st.mem[(self.addr(args[1])[0], self.addr(args[1])[1] + 48)] = ("c", w.need + {"short": -1, "longer": 9}.get(w.file, 0))
            return ("c", 0)
        if c in ("lseek", "lseek64"):
            return ("c", w.need + {"short": -1, "longer": 9}.get(w.file, 0))
        if c in ("mmap", "mmap64"):
            self.event(st, i, "mmap", *args)
            return ("map", w.tick()) if w.maps else ("c", -1)
        if c == "munmap":
            self.event(st, i, "munmap", *args)
            return ("c", 0)
        if c in ("strerror", "__errno_location"):
            return ("err", c)
        return super().model(st, i, dem, args, cont)


class Rules:
    def __init__(self, ctx, mod):
        self.ctx, self.m, self.f = ctx, mod, {}
        for q in (LOAD, ADDR, UNLOAD):
            f = [f for f in mod.fns.values() if f.q == q and f.blocks]
            if not f:
                raise AnalysisBroken("no routine " + q)
            self.f[q] = f[0]

    def bad(self, rule, q, msg):
        f = self.f[q]
        self.ctx.violation(rule, "%s:%d" % (f.file, f.line), "%s %s" % (q, msg), key="%s|%s|%s" % (rule, q, msg))

    def call(self, st, q, args, world):
        """The one state after a call (all that matters is given), or None."""
        out = []
        for p in Ext(self.m, self.f[q], {k: a for k, a in enumerate(args)}, st.mem, world).run():
            mem = {k: v for k, v in p.mem.items() if k[0][0] != "loc"}
            out.append(State(mem, st.steps + [(q, p.events, p.ret)]))
        return out

    @staticmethod
    def start(content):
        return State({(SLOT, 0): content})

    @staticmethod
    def evs(st, *kinds):
        return [e for e in st.steps[-1][1] if e[0] in kinds]

    def load(self, st, size, le, world, slot=SLOT):
        world.need = size
        return self.call(st, LOAD, [slot, ("fname", 1), ("c", size), ("c", le)], world)

    @staticmethod
    def yes(st):
        r = st.steps[-1][2]
        return r is not None and r[0] == "c" and r[1] & 1 == 1

    @staticmethod
    def no(st):
        return st.steps[-1][2] == ("c", 0)

    def refused(self, sts, what, before, reads=False):
        self.ctx.ok("refused", what)
        if not sts:
            self.bad("refused", LOAD, "aborts or does not return (%s)" % what)
        for st in sts:
            if not self.no(st):
                self.bad("refused", LOAD, "reports success (%s)" % what)
            if before is not None and st.mem.get((SLOT, 0)) != before:
                self.bad("refused", LOAD, "sets the address although it fails (%s)" % what)
            if not reads and self.evs(st, "open", "mmap"):
                self.bad("refused", LOAD, "opens the file (%s)" % what)
            self.tidy("refused", st, what)

    def tidy(self, rule, st, what):
        """The file is closed once, and what is mapped is kept or unmapped."""
        fds = [e for e in self.evs(st, "close")]
        opened = [e for e in self.evs(st, "open")]
        good = [e for e in fds if e[3][0] == "fd"]
        if len(good) != len(fds) or len({e[3] for e in good}) != len(good):
            self.bad(rule, LOAD, "closes what is no open file (%s)" % what)
        if opened and self.w_file(st) and not good:
            self.bad(rule, LOAD, "leaves the file open (%s)" % what)
        freed = [e[3] for e in self.evs(st, "free") if e[3] != ("c", 0)]
        held = [e[3] for e in self.evs(st, "alloc")]
        if [x for x in freed if x not in held] or len(set(freed)) != len(freed):
            self.bad(rule, LOAD, "frees what it does not hold (%s)" % what)
        if [x for x in held if x not in freed]:
            self.bad(rule, LOAD, "does not free the path (%s)" % what)

    def w_file(self, st):
        return st.world_open

    def loads(self):
        for le, size, content in ((1, 0, ("c", 0)), (1, -5, ("c", 0)), (0, 5000, ("c", 0))):
            w = Sys(True)
            sts = self.load(self.start(content), size, le, w)
            for s in sts:
                s.world_open = True
            self.refused(sts, "size %d" % size if le else "the other byte order", content)
        self.refused(self.mark(self.load(State(), 5000, 1, Sys(True), ("c", 0)), True), "no place for the address", None)
        for env in (False, True):
            for size in SIZES:
                for file, maps, memory in (("enough", True, True), ("longer", True, True), ("missing", True, True), ("short", True, True),
                                           ("enough", False, True), ("enough", True, False)):
                    if not memory and not env:
                        continue
                    w = Sys(env, file, maps, memory)
                    what = "%s, size %d, %s" % ("a directory given" if env else "no directory given", size,
                                                "no memory" if not memory else "mapping fails" if not maps else "file " + file)
                    sts = self.mark(self.load(self.start(("c", 0)), size, 1, w), file != "missing")
                    for st in sts:
                        self.opened(st, env, what)
                    if file in ("enough", "longer") and maps and memory:
                        self.ctx.ok("loaded", what)
                        self.loaded(sts, size, what)
                    else:
                        self.refused(sts, what, ("c", 0), True)
                        for st in sts:
                            if file == "short" and len(self.evs(st, "mmap")) != len(self.evs(st, "munmap")):
                                self.bad("refused", LOAD, "keeps a mapping although it fails (%s)" % what)

    @staticmethod
    def mark(sts, o):
        for s in sts:
            s.world_open = o
        return sts

    def opened(self, st, env, what):
        want = "<dir>/<fname>" if env else "<fname>"
        for e in self.evs(st, "open"):
            self.ctx.ok("path", what)
            if e[3] != want:
                self.bad("path", LOAD, "opens %s instead of %s (%s)" % (e[3], want, what))
            if e[4][0] != "c" or e[4][1] & 3:
                self.bad("path", LOAD, "opens the file for writing")
        if self.evs(st, "short"):
            self.bad("path", LOAD, "has too little room for the path (%s)" % what)
        if len(self.evs(st, "open")) > 1:
            self.bad("path", LOAD, "opens the file more than once (%s)" % what)

    def loaded(self, sts, size, what):
        if not sts:
            self.bad("loaded", LOAD, "aborts or does not return (%s)" % what)
        for st in sts:
            self.tidy("loaded", st, what)
            maps = self.evs(st, "mmap")
            if not self.yes(st):
                self.bad("loaded", LOAD, "reports a failure (%s)" % what)
                continue
            if len(maps) != 1:
                self.bad("loaded", LOAD, "does not map the file once (%s)" % what)
                continue
            a = maps[0][3:]
            slot = st.mem.get((SLOT, 0))
            if slot is None or slot[0] != "map":
                self.bad("loaded", LOAD, "does not set the address to the data (%s)" % what)
            if a[1] != ("c", size):
                self.bad("loaded", LOAD, "maps another size than the recorded one (%s)" % what)
            if a[5] != ("c", 0):
                self.bad("loaded", LOAD, "does not map the file from its start")
            if a[4][0] != "fd":
                self.bad("loaded", LOAD, "maps something else than the file")
            if a[3][0] != "c" or a[3][1] & 0x20:
                self.bad("loaded", LOAD, "maps no file")
            if a[2][0] != "c" or not a[2][1] & 1 or a[2][1] & 2 and not (a[3][0] == "c" and a[3][1] & 3 == 2):
                self.bad("loaded", LOAD, "maps the file so that it cannot be read or can be changed")
            k = [n for n, e in enumerate(st.steps[-1][1]) if e[0] == "mmap"][0]
            if any(e[0] == "close" for e in st.steps[-1][1][:k]):
                self.bad("loaded", LOAD, "closes the file before it maps it")
            if self.evs(st, "munmap"):
                self.bad("loaded", LOAD, "unmaps the data it loaded")

    def again(self):
        for size in SIZES:
            for st in self.load(self.start(("old", 1)), size, 1, Sys(True)):
                self.ctx.ok("once", "size %d" % size)
                if not self.yes(st) or self.evs(st, "open", "mmap", "munmap", "close") or st.mem.get((SLOT, 0)) != ("old", 1):
                    self.bad("once", LOAD, "does not leave constants that are loaded as they are")

    def addresses(self):
        OUT, BASE = ("out", 1), ("base", 1)
        for off in (0, 4096, (1 << 31) + 4, (1 << 33) + 8):
            for out, base, have in ((OUT, BASE, ("c", 0)), (OUT, BASE, ("old", 1)), (("c", 0), BASE, None), (OUT, ("c", 0), ("c", 0))):
                mem = {(OUT, 0): have or ("c", 0), (BASE, 0): ("map", 1)}
                sts = self.call(State(mem), ADDR, [out, base, ("c", off)], Sys())
                self.ctx.ok("address", "offset %d" % off)
                if not sts:
                    self.bad("address", ADDR, "aborts or does not return")
                for st in sts:
                    got, b = st.mem.get((OUT, 0)), st.mem.get((BASE, 0))
                    if b != ("map", 1):
                        self.bad("address", ADDR, "changes the address of the constants")
                    if have == ("c", 0) and base == BASE:
                        x = Ext.place(got)
                        if x != (("map", 1), {(): off} if off else {}):
                            self.bad("address", ADDR, "does not give the address at the offset (%d)" % off)
                    elif got != mem[(OUT, 0)]:
                        self.bad("address", ADDR, "sets an address that is set or has no base")

    def unloads(self):
        for size in SIZES:
            for slot, content in ((("c", 0), ("c", 0)), (SLOT, ("c", 0)), (SLOT, ("map", 7))):
                sts = self.call(self.start(content), UNLOAD, [slot, ("c", size)], Sys())
                self.ctx.ok("unload", "size %d" % size)
                if not sts:
                    self.bad("unload", UNLOAD, "aborts or does not return")
                for st in sts:
                    un = self.evs(st, "munmap")
                    if slot == SLOT and content[0] == "map":
                        if len(un) != 1 or un[0][3:5] != (("map", 7), ("c", size)):
                            self.bad("unload", UNLOAD, "does not unmap exactly the constants, whole, once")
                        if not self.yes(st):
                            self.bad("unload", UNLOAD, "reports a failure although it unloads")
                        # and then
                        for st2 in self.call(st, UNLOAD, [SLOT, ("c", size)], Sys()):
                            if self.evs(st2, "munmap") or not self.no(st2):
                                self.bad("unload", UNLOAD, "unmaps the constants again when asked again")
                        self.loaded(self.mark(self.load(State(st.mem), size, 1, Sys(True)), True), size, "loaded again after being unloaded")
                    elif un or not self.no(st):
                        self.bad("unload", UNLOAD, "unloads although nothing is loaded")


def external(ctx, tier):
    ctx.rule("path", "the file opened, for reading, is the one named, in the directory given if there is one, and its path has room")
    ctx.rule("loaded", "on success the address is that of the file's content from its start, of the recorded size, which cannot be changed, and the file is closed once")
    ctx.rule("refused", "a null place, a size that is none, the other byte order, a missing or short file and a failing mapping are reported, and the address stays unset")
    ctx.rule("once", "constants that are loaded are left as they are")
    ctx.rule("address", "a constant's address is the base plus its whole offset, set once")
    ctx.rule("unload", "unloading unmaps the whole of what is loaded once; it can be loaded again")
    mod = build.load("crt", only=["OMExternalConstant.c"])
    ctx.units.update(mod.units)
    r = Rules(ctx, mod)
    r.loads()
    r.again()
    r.addresses()
    r.unloads()
    ctx.need("path", 10)
    return ("the routines are followed along each combination of directory, size, file and failing system call; what they open, map, close and set is compared "
            "with the request")

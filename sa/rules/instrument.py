"""R10: a profiled run reports each of its points once, in order.

The routines are followed call after call along short histories (the tag of each
point is a constant, names, times and files are terms), and what each call
passes to the output is compared with what the points asked for."""
import os
import re

from .. import build
from ..engine import AnalysisBroken
from ..expr import wrap
from .tensors import Tens, poly, BITS as BITS_OF

API = ["OMInstrumentPoint", "OMInstrumentPointInit", "omInstrumentPrint", "getInstrumentFile"]
BITS = ("before", "after", "time", "memory", "init")
SHIM = """#include "include/onnx-mlir/Compiler/OMCompilerRuntimeTypes.h"
namespace onnx_mlir {}
using namespace onnx_mlir;
#define BIT(n, set) constexpr unsigned long mk_##n() { unsigned long x = 0; set(x); return x; } \\
  extern const unsigned long sa_##n = mk_##n();
BIT(before, SET_INSTRUMENT_BEFORE_OP)
BIT(after, SET_INSTRUMENT_AFTER_OP)
BIT(time, SET_INSTRUMENT_REPORT_TIME)
BIT(memory, SET_INSTRUMENT_REPORT_MEMORY)
BIT(init, SET_INSTRUMENT_INIT)
template <int a, int b> constexpr unsigned long mk() {
  unsigned long x = 0; SET_INSTRUMENT_OP_NAME_LEN(x, a); SET_INSTRUMENT_NODE_NAME_LEN(x, b); return x; }
"""
LENGTHS = [(4, 6), (0, 0), (1, 511), (63, 1), (63, 511), (40, 300), (3, 2)]
NONNULL = ("name", "text", "env", "file", "pipe", "std", "glob", "loc")
OFF = {"time": "ONNX_MLIR_NO_INSTRUMENT_TIME", "memory": "ONNX_MLIR_NO_INSTRUMENT_MEMORY", "all": "ONNX_MLIR_NO_INSTRUMENT"}
TARGET = "ONNX_MLIR_INSTRUMENT_FILE"
SPEC = re.compile(r"%([-+ #0]*)(\d+|\*)?(\.(?:\d+|\*)?)?(hh|h|ll|l|z|j|t)?([a-zA-Z%])")


class World:
    """What surrounds the routines: variables, files, commands, the clock."""

    def __init__(self, env=(), opens=True, pipe="value", borrow=False):
        self.env, self.opens, self.pipe, self.borrow = set(env), opens, pipe, borrow
        self.n = 0

    def tick(self):
        self.n += 1
        return self.n


class Play(Tens):
    def __init__(self, mod, f, pin, mem, world):
        super().__init__(mod, f, pin, mem, visits=100000, limit=1500000)
        self.w = world

    def val(self, st, o):
        if o[0] == "ce" and o[1] == "getelementptr" and o[3][0] == "g":
            if o[-1][0] == "off":
                return self.off(("glob", o[3][1]), o[-1][1])
            if o[2] == "i8" and len(o) == 5 and o[4][0] == "c":
                return self.off(("glob", o[3][1]), o[4][1])
        return super().val(st, o)

    def fold(self, st, i):
        if i["op"] in ("lshr", "ashr"):
            a, b = [self.val(st, x) for x in i["o"]]
            n = BITS_OF.get(i.get("ty"), 64)
            if a[0] == b[0] == "c" and 0 <= b[1] < n:
                return ("c", wrap((a[1] & (1 << n) - 1 if i["op"] == "lshr" else a[1]) >> b[1], n))
        return super().fold(st, i)

    def icmp(self, pred, a, b):
        if a[0] == "c":
            a, b = b, a
            pred = {"ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule", "slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle"}.get(pred, pred)
        x, y = self.addr(a), self.addr(b)
        if x[0][0] in NONNULL and b == ("c", 0) and pred in ("eq", "ne", "ugt"):
            return ("c", int(pred != "eq"))
        if x[0][0] in NONNULL and y[0][0] in NONNULL and pred in ("eq", "ne") and isinstance(x[1], int) and isinstance(y[1], int):
            return ("c", int((x == y) == (pred == "eq")))
        if b[0] == "c" and (pred, b[1]) in (("slt", 0), ("sge", 0), ("sgt", -1), ("sle", -1)):
            p = poly(a)
            if p and all(len(m) == 1 and m[0][0] == "us" for m in p):
                # the sign of a difference is that of the history
                return ("c", int((pred in ("sge", "sgt")) != self.w.borrow))
        return super().icmp(pred, a, b)

    def load(self, st, v, i):
        a = self.addr(v)
        if a not in st.mem and a[0][0] == "glob":
            g = self.m.globals.get(a[0][1], {})
            if a[0][1] in ("stdout", "stderr") and a[1] == 0:
                return ("std", a[0][1])
            c = g.get("init")
            if c and not g.get("decl"):
                if c[0] in "nz" and isinstance(a[1], int):
                    return ("c", 0)
                if c[0] == "c" and a[1] == 0:
                    return ("c", c[1])
                if c[0] == "g" and a[1] == 0:
                    return ("glob", c[1])
                if c[0] == "s" and i.get("ty") == "i8" and isinstance(a[1], int) and a[1] < len(c[1]):
                    return ("c", ord(c[1][a[1]]))
        if a[0][0] == "name" and isinstance(a[1], int):
            return ("ch", a[0], a[1])
        return super().load(st, v, i)

    def write(self, st, i, p, v):
        a = self.addr(p)
        k = st.mem.get((a[0], "str"))
        if k and isinstance(a[1], int) and isinstance(k[1], int) and a[1] < k[1]:
            del st.mem[(a[0], "str")]
        self.room(st, i, a, 1)
        super().write(st, i, p, v)

    # -- texts --
    def cstr(self, v):
        a = self.addr(v)
        if a[0][0] == "glob" and isinstance(a[1], int):
            g = self.m.globals.get(a[0][1], {})
            if g.get("const") and (g.get("init") or [""])[0] == "s":
                return g["init"][1][a[1]:].split("\0")[0]
            if g.get("const") and (g.get("init") or [""])[0] in "nz":
                return ""
        return None

    def text(self, st, v, most=None):
        s = self.cstr(v)
        if s is not None:
            return s if most is None else s[:most]
        if v[0] in ("name", "text"):
            return "<%s>" % v[1] if most is None else "<%s:%d>" % (v[1], most)
        a = self.addr(v)
        if a[1] == 0:
            k = st.mem.get((a[0], "str"))
            if k:
                if not isinstance(k[1], int):
                    return "<%s>" % k[0]
                if st.mem.get((a[0], k[1])) != ("c", 0) and not (most is not None and most <= k[1]):
                    return "<unterminated>"
                return "<%s:%d>" % (k[0], k[1]) if k[1] else ""
            n = 0
            while (a[0], n) in st.mem and st.mem[(a[0], n)][0] == "ch" and st.mem[(a[0], n)][2] == n and \
                    st.mem[(a[0], n)][1] == st.mem[(a[0], 0)][1]:
                n += 1
            if st.mem.get((a[0], n)) == ("c", 0):
                return "<%s:%d>" % (st.mem[(a[0], 0)][1][1], n) if n else ""
        return "<undefined>"

    def value(self, v, width):
        p = poly(v)
        if set(p) <= {()}:
            return ("%0" + width + "d" if width else "%d") % p.get((), 0)
        s = "".join("%+d%s" % (c, "*".join("%s%s" % (m[0], m[1]) if m[0] in ("sec", "us") else "?" for m in ms))
                    for ms, c in sorted(p.items(), key=repr))
        return "{%s%s}" % (s, "|" + width if width else "")

    def render(self, st, fmt, args):
        out, k, args = "", 0, list(args)
        for m in SPEC.finditer(fmt):
            out += fmt[k:m.start()]
            k = m.end()
            if m.group(5) == "%":
                out += "%"
                continue
            most = None
            if m.group(2) == "*" and args:
                args.pop(0)
            if m.group(3) == ".*" and args:
                x = args.pop(0)
                most = x[1] if x[0] == "c" else None
            if not args:
                out += "<missing>"
                continue
            v = args.pop(0)
            if m.group(5) == "s":
                out += self.text(st, v, most)
            elif m.group(5) == "c" and v[0] == "c":
                out += chr(v[1] & 255)
            else:
                w = m.group(2) or ""
                out += self.value(v, "0" + w if "0" in m.group(1) else w)
        return out + fmt[k:]

    def put(self, st, i, stream, text):
        self.event(st, i, "out", stream, text)

    # -- calls --
    def model(self, st, i, dem, args, cont):
        w, c = self.w, dem.split("(")[0]
        if c in ("getenv", "secure_getenv"):
            s = self.cstr(args[0])
            return ("env", s) if s in w.env else ("c", 0)
        if c == "fopen":
            self.event(st, i, "open", args[0], self.cstr(args[1]))
            if not w.opens:
                return ("c", 0)
            return ("file", w.tick())
        if c in ("fclose", "pclose"):
            self.event(st, i, c, args[0])
            return ("c", 0)
        if c in ("fflush",):
            self.event(st, i, "flush", args[0])
            return ("c", 0)
        if c == "fprintf":
            f = self.cstr(args[1])
            self.put(st, i, args[0], self.render(st, f, args[2:]) if f is not None else "<undefined>")
            return ("c", 1)
        if c == "printf":
            f = self.cstr(args[0])
            self.put(st, i, ("std", "stdout"), self.render(st, f, args[1:]) if f is not None else "<undefined>")
            return ("c", 1)
        if c == "puts":
            self.put(st, i, ("std", "stdout"), self.text(st, args[0]) + "\n")
            return ("c", 1)
        if c == "fputs":
            self.put(st, i, args[1], self.text(st, args[0]))
            return ("c", 1)
        if c in ("fputc", "putc"):
            self.put(st, i, args[1], chr(args[0][1] & 255) if args[0][0] == "c" else "?")
            return ("c", 1)
        if c == "fwrite":
            n = args[1][1] * args[2][1] if args[1][0] == args[2][0] == "c" else None
            self.put(st, i, args[3], self.text(st, args[0], n))
            return args[2]
        if c == "gettimeofday":
            k = w.tick()
            self.write(st, i, args[0], ("sec", k))
            self.write(st, i, self.off(args[0], 8), ("us", k))
            self.event(st, i, "time", k)
            return ("c", 0)
        if c in ("strncpy", "memcpy", "memmove", "stpncpy") and args[2][0] == "c" and args[1][0] in ("name", "text"):
            self.copied(st, i, args[0], args[1], args[2][1])
            return args[0]
        if c in ("memset",) and args[1] == ("c", 0) and args[2][0] == "c" and args[2][1] <= 4096:
            d = self.addr(args[0])
            st.mem.pop((d[0], "str"), None)
            for k in range(args[2][1]):
                if isinstance(d[1], int):
                    st.mem[(d[0], d[1] + k)] = ("c", 0)
            return args[0]
        if c == "snprintf":
            f, d = self.cstr(args[2]), self.addr(args[0])
            s = self.render(st, f, args[3:]) if f is not None else "<undefined>"
            m = re.fullmatch(r"<(.*):(\d+)>", s)
            if m and args[1][0] == "c":
                n = min(int(m.group(2)), max(args[1][1] - 1, 0))
                self.room(st, i, d, n + 1)
                st.mem[(d[0], "str")] = (m.group(1), n)
                st.mem[(d[0], n)] = ("c", 0)
            else:
                st.mem[(d[0], "str")] = (s, None)
                if args[1][0] == "c":
                    self.room(st, i, d, args[1][1])
            return ("c", 1)
        if c == "strlen":
            s = self.cstr(args[0])
            if s is not None:
                return ("c", len(s))
            k = st.mem.get((args[0], "str"))
            if k and isinstance(k[1], int):
                return ("c", k[1])
        if c == "popen":
            self.event(st, i, "popen", w.pipe != "none")
            return ("pipe", w.tick()) if w.pipe != "none" else ("c", 0)
        if c == "fgets":
            if w.pipe == "empty":
                return ("c", 0)
            d = self.addr(args[0])
            st.mem[(d[0], "str")] = ("value", None)
            return args[0]
        if c in ("fgetc", "getc"):
            return ("c", -1) if w.pipe != "more" else ("c", 48)
        if c == "feof":
            return ("c", int(w.pipe != "more"))
        if c == "ferror":
            return ("c", 0)
        if c in ("strcspn",):
            return ("len", w.tick())
        if c == "strchr":
            return ("at", args[0], ("idx", w.tick()))
        if c == "getpid":
            return ("pid", 0)
        return super().model(st, i, dem, args, cont)

    def intrinsic(self, st, i, c, args):
        if c.startswith(("llvm.memcpy", "llvm.memmove")) and args[2][0] == "c" and args[1][0] in ("name", "text"):
            self.copied(st, i, args[0], args[1], args[2][1])
            return ("?",)
        if c.startswith("llvm.memset") and args[1] == ("c", 0) and args[2][0] == "c":
            return self.model(st, i, "memset", args, args)
        return super().intrinsic(st, i, c, args)

    def copied(self, st, i, d, s, n):
        a = self.addr(d)
        self.room(st, i, a, n)
        for k in [k for k in st.mem if k[0] == a[0]]:
            del st.mem[k]
        st.mem[(a[0], "str")] = (s[1], n)
        self.event(st, i, "write", a, s)

    def room(self, st, i, a, n):
        """n bytes from a on must lie in the object."""
        if a[0][0] == "glob" and isinstance(a[1], int):
            size = self.size(a[0][1])
            if size is not None and a[1] + n > size:
                self.event(st, i, "overrun", a[0][1])

    def size(self, g):
        m = re.fullmatch(r"\[(\d+) x i8\]", self.m.globals.get(g, {}).get("ty", ""))
        return int(m.group(1)) if m else None


class State:
    def __init__(self, mem=None, steps=None):
        self.mem, self.steps = mem or {}, steps or []


class Rules:
    def __init__(self, ctx, mod, tags):
        self.ctx, self.m, self.tags = ctx, mod, tags
        self.f = {}
        for q in API:
            f = [f for f in mod.fns.values() if f.q == q and f.blocks]
            if not f:
                raise AnalysisBroken("no routine " + q)
            self.f[q] = f[0]
        self.bit = {b: self.constant("sa_" + b) for b in BITS}

    def constant(self, n):
        c = self.tags.globals.get(n, {}).get("init")
        if not c or c[0] != "c":
            raise AnalysisBroken("R10: the mark %s is no constant" % n)
        return c[1]

    def names(self, a, b):
        return self.constant("sa_names_%d_%d" % (a, b))

    def bad(self, rule, what, msg):
        f = self.f[what]
        self.ctx.violation(rule, "%s:%d" % (f.file, f.line), "%s %s" % (what, msg), key="%s|%s|%s" % (rule, what, msg))

    def point(self, op, kinds, la=4, lb=6, node=None):
        t = self.names(la, lb)
        for k in kinds.split("|"):
            t |= self.bit[k]
        return ("point", op, t, node or op.lower(), kinds.split("|"), la, lb)

    def call(self, st, step, world):
        if step[0] == "point":
            q, pin = "OMInstrumentPoint", {0: ("name", step[1]), 1: ("c", step[2]), 2: ("name", "n" + step[3])}
        elif step[0] == "init":
            q, pin = "OMInstrumentPointInit", {0: ("c", step[1]), 1: ("text", step[2]) if step[2] else ("c", 0)}
        elif step[0] == "print":
            q, pin = "omInstrumentPrint", {}
        else:
            q, pin = "getInstrumentFile", {0: ("c", step[1])}
        out = []
        for p in Play(self.m, self.f[q], pin, st.mem, world).run():
            mem = {k: v for k, v in p.mem.items() if k[0][0] != "loc"}
            out.append(State(mem, st.steps + [(step, p.events, p.ret)]))
        if not out:
            out = [State(None, st.steps + [(step, [("abort", 0, ())], None)])]
            out[0].mem = None
        return out

    def play(self, steps, world, start=None):
        sts = [start or State()]
        for s in steps:
            if s[0] == "env":
                world.env = set(s[1])
                continue
            sts = [y for x in sts for y in (self.call(x, s, world) if x.mem is not None else [x])]
        return sts

    # -- what a history must print --
    def check(self, rule, steps, world, what, info=None, timed=True, memory=True, last=None):
        """Follows the history and compares its last run's output."""
        self.ctx.ok(rule, what)
        sts = self.play(steps, world)
        if len(sts) > 16:
            raise AnalysisBroken("R10: %d outcomes of one history" % len(sts))
        for st in sts:
            self.compare(rule, st, what, info, timed, memory, last or 0, world)
        return sts

    def compare(self, rule, st, what, info, timed, memory, last, world):
        main = "omInstrumentPrint" if any(s[0][0] == "print" for s in st.steps) else "OMInstrumentPoint"
        bad = lambda q, msg: self.bad(rule, q, "%s (%s)" % (msg, what))
        run = st.steps[last:]
        for s, ev, ret in st.steps:
            q = {"point": "OMInstrumentPoint", "init": "OMInstrumentPointInit", "print": "omInstrumentPrint"}.get(s[0], "getInstrumentFile")
            if any(e[0] == "abort" for e in ev):
                return bad(q, "aborts or does not return")
            if any(e[0] == "overrun" for e in ev):
                return bad(q, "copies a name beyond the room there is for it")
        # times and output, step by step
        text, want, wmem, t0 = "", [], [], None
        for s, ev, ret in run:
            ts = [e[3] for e in ev if e[0] == "time"]
            if t0 is None and ts and (s[0] == "init" or s[0] == "point" and "init" in s[4]):
                t0 = ts.pop(0)
            for e in ev:
                if e[0] == "out":
                    text += e[4]
            if s[0] != "point":
                continue
            mark = "before" if "before" in s[4] else "after"
            nm = ["<%s:%d>" % (s[1], s[5]) if s[5] else "", "<n%s:%d>" % (s[3], s[6]) if s[6] else ""]
            if "time" in s[4] and timed:
                if not ts:
                    return bad("OMInstrumentPoint", "does not take the time of a point that asks for it")
                want.append((nm, mark, ts[-1]))
            elif ts and not ("memory" in s[4] and memory) and not timed:
                return bad("OMInstrumentPoint", "takes times although reporting times is disabled")
            if "memory" in s[4] and memory:
                wmem.append((nm, mark))
        lines = text.split("\n")
        if lines[-1] and (want or wmem):
            return bad(main, "leaves its last line open")
        lines = lines[:-1]
        perf = [l for l in lines if l.startswith("==PERF-REPORT==")]
        mem = [l for l in lines if l.startswith("==MEM-REPORT==")]
        start = [k for k, l in enumerate(lines) if l.startswith("==START-REPORT==")]
        comp = [(k, l) for k, l in enumerate(lines) if l.startswith("==COMPILE-INFO-REPORT==")]
        rest = [l for l in lines if not re.match(r"==(PERF|MEM|START|COMPILE-INFO)-REPORT==", l)]
        if not want and not wmem:
            if any(x for x in lines) and not any(s[0] == "file" for s, _, _ in run):
                return bad(main, "writes a report although there is nothing to report")
            return
        if len(start) != 1:
            return bad(main, "starts the report %s" % ("more than once" if start else "without its heading"))
        if start[0] != 0:
            return bad(main, "writes the heading after the first line of the report")
        if info and comp != [(1, "==COMPILE-INFO-REPORT==, <%s>" % info)]:
            return bad(main, "does not give the compilation's description after the heading")
        if not info and comp:
            return bad(main, "gives a compilation's description the run did not pass")
        if rest:
            return bad(main, "writes a line that is no part of the report")
        exp, before = [], t0
        for nm, mark, t in want:
            exp.append((nm, mark, t, before))
            before = t
        if len(perf) != len(exp):
            return bad(main, "reports %d times for %d points that ask for theirs" % (len(perf), len(exp)))
        for l, (nm, mark, t, b) in zip(perf, exp):
            got = l[len("==PERF-REPORT=="):].split(", ")[1:]
            if len(got) != 5:
                return bad(main, "writes a time line with another number of fields")
            if got[:2] != nm:
                return bad(main, "gives a time under other names than the point's (%s)" % ("order" if [g.split(":")[0] for g in got[:2]] != [n.split(":")[0] for n in nm] else "length"))
            if got[2] != mark:
                return bad(main, "marks the time of an end as a start or the reverse")
            for g, ref, n in ((got[3], b, "previous point"), (got[4], t0, "start of the run")):
                if not self.elapsed(g, t, ref, world):
                    return bad(main, "does not give the time elapsed since the %s" % n)
        if len(mem) != len(wmem):
            return bad("OMInstrumentPoint", "reports %d memory sizes for %d points that ask for theirs" % (len(mem), len(wmem)))
        for l, (nm, mark) in zip(mem, wmem):
            got = l[len("==MEM-REPORT=="):].split(", ")[1:]
            if got[:2] != nm or got[2:3] != [mark]:
                return bad("OMInstrumentPoint", "gives a memory size under other names or marks than the point's")
            v = got[3:]
            if len(v) != 1 or "undefined" in v[0] or "unterminated" in v[0]:
                return bad("OMInstrumentPoint", "gives a memory size that was never read")
            if (v[0] == "<value>") != (world.pipe == "value"):
                return bad("OMInstrumentPoint", "gives a size for an error or an error for a size")

    def elapsed(self, g, t, ref, world):
        m = re.fullmatch(r"\{([^|}]*)(?:\|\w*)?\}\.\{([^|}]*)\|06\}|(0)\.(000000)", g)
        if not m:
            return False
        if m.group(3):
            return t == ref
        sec, us = self.terms(m.group(1)), self.terms(m.group(2))
        if ref is None or t == ref:
            return False
        carry = {"": -1} if world.borrow else {}
        more = {"": 1000000} if world.borrow else {}
        return sec == {"sec%d" % t: 1, "sec%d" % ref: -1, **carry} and us == {"us%d" % t: 1, "us%d" % ref: -1, **more}

    @staticmethod
    def terms(s):
        r = {}
        for c, n in re.findall(r"([+-]\d+)([a-z?]\w*|)", s):
            r[n] = r.get(n, 0) + int(c)
        return r

    # -- rules --
    def reports(self):
        P = self.point
        I = lambda info="info": ("init", self.bit["time"] | self.bit["memory"], info)
        ops = [P("A", "before|time"), P("A", "after|time"), P("B", "before|time"), P("B", "after|time")]
        new = lambda **k: World(**k)
        self.check("report", [I()] + ops + [("print",)], new(), "two operations", info="info")
        self.check("report", [I(None)] + ops + [("print",)], new(), "no description")
        self.check("report", [P("A", "init|before|time")] + ops[1:] + [("print",)], new(), "started by a point")
        self.check("report", [I()] + [P("A", "before|time"), P("B", "before|time"), P("B", "after|time"), P("A", "after|time")] + [("print",)],
                   new(), "nested operations", info="info")
        self.check("report", [I()] + ops[:2] + ops[:2] + ops[2:] + [("print",)], new(), "an operation repeated", info="info")
        self.check("report", [I()] + [ops[0], ops[0], ops[1]] + [("print",)], new(), "an operation started twice", info="info")
        self.check("report", [I()] + [ops[1], ops[0]] + [("print",)], new(), "an end before a start", info="info")
        self.check("report", [I(), P("A", "after|time"), P("B", "after|time"), ("print",)], new(), "ends only", info="info")
        self.check("report", [I(), P("A", "before|time"), P("B", "before|time"), ("print",)], new(), "starts only", info="info")
        self.check("report", [I(), P("A", "before|time"), P("A", "after|time", node="b"), ("print",)], new(), "one operation, two nodes", info="info")
        self.check("report", [I(), P("A", "before|time", node="x"), P("B", "after|time", node="x"), ("print",)], new(), "one node, two operations", info="info")
        self.check("report", [I(), P("A", "before|time|memory"), P("A", "after|time|memory"), ("print",)], new(), "times and sizes", info="info")
        self.check("report", [I(), P("A", "before|memory"), P("B", "after|memory"), ("print",)], new(), "sizes only", info="info")
        for pipe, n in (("none", "the command fails to start"), ("empty", "the command says nothing"), ("more", "the command says too much")):
            self.check("report", [I(), P("A", "before|memory"), ("print",)], new(pipe=pipe), n, info="info")
        self.check("report", [I(), P("A", "before"), ("print",)], new(), "nothing asked for", info="info")
        self.check("report", [("print",)], new(), "nothing recorded")
        self.check("report", [I()] + ops + [("print",)], new(borrow=True), "times that borrow", info="info")
        for la, lb in ((0, 0), (1, 511), (63, 1), (63, 511), (40, 300)):
            self.check("names", [I(), P("A", "before|time|memory", la, lb), P("B", "after|time", 3, 2), P("C", "after|time", la, lb), ("print",)], new(),
                       "names of %d and %d letters" % (la, lb), info="info")

    def histories(self):
        P = self.point
        I = lambda info="info": ("init", self.bit["time"] | self.bit["memory"], info)
        a = [P("A", "before|time|memory"), P("A", "after|time|memory")]
        b = [P("B", "before|time|memory"), P("B", "after|time")]
        c = self.check
        c("history", [I()] + a + [("print",), I("other")] + b + [("print",)], World(), "a second run after a print", info="other", last=4)
        c("history", [I()] + a + [("print",), I(None)] + b + [("print",)], World(), "a second run without description", last=4)
        c("history", [I()] + a + [I("other")] + b + [("print",)], World(), "only the last of two runs is printed", info="other", last=3)
        c("history", [I()] + a + [("print",), ("print",)], World(), "a print repeated", last=4)
        c("history", [I()] + a + [("print",), ("env", [OFF["time"]]), I()] + b + [("print",)], World(), "times disabled for the second run",
          info="info", timed=False, last=4)
        c("history", [I()] + a + [("print",), P("A", "init|before|time")] + b + [("print",)], World(), "a second run started by a point", last=4)
        for k in OFF:
            c("history", [I()] + a + [("print",), ("env", []), I()] + b + [("print",)], World([OFF[k]]),
              "reports of %s enabled again" % k, info="info", last=4)
        sts = c("history", [I(), ("file", 1)] + a + [("print",)], World(), "the file asked for in a run", info="info")
        for k in OFF:
            w = World([OFF[k], TARGET])
            sts = c("disabled", [I()] + a + b + [("print",)], w, "reports of %s disabled" % k, info="info",
                    timed=k == "memory", memory=k == "time")
            for st in sts:
                self.silent(st, k)
        w = World([OFF["all"]])
        for st in c("disabled", [P("A", "init|before|time|memory")] + a + b + [("print",)], w, "all disabled, started by a point", timed=False, memory=False):
            self.silent(st, "all")

    def silent(self, st, k):
        kinds = [(e[0], s) for s, ev, _ in st.steps for e in ev]
        if k in ("memory", "all") and any(x == "popen" for x, _ in kinds):
            self.bad("disabled", "OMInstrumentPoint", "asks for the memory size although reporting it is disabled")
        if k == "all" and any(x == "open" for x, _ in kinds):
            self.bad("disabled", "getInstrumentFile", "opens the output although all reporting is disabled")
        if k == "all" and any(x == "out" for x, _ in kinds):
            self.bad("disabled", "OMInstrumentPoint", "writes although all reporting is disabled")

    def files(self):
        P = self.point
        I = ("init", self.bit["time"] | self.bit["memory"], "info")
        a = [P("A", "before|time|memory"), P("A", "after|time")]
        for env, opens, what in (([], True, "no file named"), ([TARGET], True, "a file named"), ([TARGET], False, "a file that cannot be opened")):
            for off in (None, "time", "memory"):
                w = World(env + ([OFF[off]] if off else []), opens)
                steps = [I] + a + [("print",), I] + a + [("print",)]
                self.ctx.ok("file", "%s, %s disabled" % (what, off or "nothing"))
                for st in self.play(steps, w):
                    self.filed(st, bool(env) and opens, bool(env), what)
        for pipe in ("none", "empty", "more"):
            self.ctx.ok("file", "command: " + pipe)
            for st in self.play([I] + a + [("print",)], World(pipe=pipe)):
                self.filed(st, False, False, "the command gives no size")
        # the file the interface hands out is the one in use
        for env in ([], [TARGET]):
            w = World(env)
            for st in self.play([I, ("file", 0), a[0], ("print",), ("file", 1)], w):
                self.ctx.ok("file", "handed out")
                got = [r for s, ev, r in st.steps if s[0] == "file"]
                first = self.streams(st.steps[:4])
                if len(first) != 1 or got[0] not in first or got[0] == ("c", 0):
                    self.bad("file", "getInstrumentFile", "hands out another file than the one reports go to")
                if any(r is None or r[0] != ("file" if env else "std") for r in got):
                    self.bad("file", "getInstrumentFile", "hands out another file than the one asked for")

    @staticmethod
    def streams(steps):
        return {e[3] for s, ev, _ in steps for e in ev if e[0] == "out"}

    def filed(self, st, named, tried, what):
        bad = lambda q, msg: self.bad("file", q, "%s (%s)" % (msg, what))
        live, used = None, set()
        for s, ev, ret in st.steps:
            fresh = None
            pipes = []
            for e in ev:
                if e[0] == "abort":
                    return bad("OMInstrumentPoint", "aborts or does not return")
                if e[0] == "open":
                    if e[4] not in ("a", "at", "ae", "a+"):
                        return bad("getInstrumentFile", "does not add to the file it is to report to")
                    if e[3] != ("env", TARGET):
                        return bad("getInstrumentFile", "opens another file than the one named")
                    if live:
                        return bad("getInstrumentFile", "opens the file again while it is open")
                    fresh = True
                    if named:
                        live = "opened"
                if e[0] == "out" or e[0] == "flush":
                    ok = e[3][0] == "file" and live if named else e[3] == ("std", "stdout")
                    if not ok:
                        return bad("getInstrumentFile", "sends the report somewhere else than asked for")
                    if e[3][0] == "file":
                        if e[3] in used:
                            return bad("omInstrumentPrint", "uses a file that was closed")
                        live = e[3]
                if e[0] == "fclose":
                    if e[3][0] == "std":
                        return bad("omInstrumentPrint", "closes the standard output")
                    if e[3] in used or e[3][0] != "file":
                        return bad("omInstrumentPrint", "closes a file that is not open")
                    used.add(e[3])
                    live = None
                if e[0] == "popen" and e[3]:
                    pipes.append(1)
                if e[0] == "pclose":
                    if not pipes or e[3][0] != "pipe":
                        return bad("OMInstrumentPoint", "closes a command that is not running")
                    pipes.pop()
            if pipes:
                return bad("OMInstrumentPoint", "leaves the command it asks for the memory size running")
            if s[0] == "print" and live:
                return bad("omInstrumentPrint", "leaves the file it forgets open")

    def current(self):
        """The markers a sampler reads follow each point."""
        P = self.point
        I = ("init", self.bit["time"] | self.bit["memory"], "info")
        for off in (None, "time", "memory", "all"):
            w = World([OFF[off]] if off else [])
            steps = [I, P("A", "before|time"), P("A", "after"), P("B", "before|memory")]
            sts = [State()]
            for s in steps:
                sts = [y for x in sts if x.mem is not None for y in self.call(x, s, w)]
                if s[0] != "point":
                    continue
                for st in sts:
                    if st.mem is None:
                        continue
                    self.ctx.ok("current", "%s disabled" % (off or "nothing"))
                    got = [st.mem.get((("glob", g), 0)) for g in ("OMCurrentOpName", "OMCurrentNodeName", "OMCurrentTag")]
                    if got != [("name", s[1]), ("name", "n" + s[3]), ("c", s[2])]:
                        self.bad("current", "OMInstrumentPoint", "does not leave the point it reached for a sampler to read (%s disabled)" % (off or "nothing"))

    def room(self):
        """A full store of times is written out before it is used again."""
        P = self.point
        I = ("init", self.bit["time"], "info")
        snaps = []
        st = State()
        w = World()
        for s in (I, P("A", "before|time"), P("B", "before|time"), P("C", "before|time")):
            st = self.call(st, s, w)[0]
            if st.mem is None:
                return
            snaps.append(st.mem)
        cnt = [k for k in snaps[3] if k[0][0] == "glob" and [m.get(k, ("c", 0)) for m in snaps] == [("c", n) for n in range(4)]]
        at = [[k for k, v in snaps[3].items() if v == ("name", n) and k[0][0] == "glob" and not k[0][1].startswith("OMCurrent")] for n in "AB"]
        if len(cnt) != 1 or any(len(a) != 1 for a in at) or at[0][0][0] != at[1][0][0]:
            self.ctx.notes.append("room: the records are not kept in one array with one count")
            return
        g, step = at[0][0][0], at[1][0][1] - at[0][0][1]
        m = re.fullmatch(r"\[(\d+) x .*\]", self.m.globals[g[1]].get("ty", ""))
        if not m or not step or at[0][0][1] >= step:
            self.ctx.notes.append("room: no fixed number of records")
            return
        n = int(m.group(1))
        # Where the count alone tells how full the store is, the state with k
        # records is the one after two of them with the count replaced.
        rec = {k[1] % step: v for k, v in snaps[3].items() if k[0] == g and isinstance(k[1], int) and k[1] // step == 0}
        tags = {k: v for k, v in rec.items() if v[0] == "c"}
        for have in (n - 1, n):
            mem = {k: v for k, v in snaps[1].items() if k[0] != g}
            mem[cnt[0]] = ("c", have)
            for k in range(have):
                for o, v in rec.items():
                    mem[(g, k * step + o)] = ("name", "A%d" % k) if v == ("name", "A") else ("sec", -k) if v[0] == "sec" else ("us", -k) if v[0] == "us" else v
            last = self.call(State(mem), P("Z", "before|time"), World())
            self.ctx.ok("room", "%d of %d records" % (have, n))
            for x in last:
                ev = x.steps[-1][1]
                if any(e[0] == "abort" for e in ev):
                    self.bad("room", "OMInstrumentPoint", "aborts or does not return when %s records are held" % ("all" if have == n else "all but one"))
                    continue
                for e in ev:
                    if e[0] in ("write", "read") and e[3][0] == g and isinstance(e[3][1], int) and not 0 <= e[3][1] < n * step:
                        self.bad("room", "OMInstrumentPoint", "reaches beyond the records there is room for")
                        break
                text = "".join(e[4] for e in ev if e[0] == "out")
                lines = [l.split(", ")[1] for l in text.split("\n") if l.startswith("==PERF-REPORT==")]
                z = [k for k, v in x.mem.items() if k[0] == g and v == ("name", "Z")]
                if len(z) != 1:
                    self.bad("room", "OMInstrumentPoint", "does not record a point when %s records are held" % ("all" if have == n else "all but one"))
                    continue
                slot = z[0][1] // step
                kept = x.mem.get(cnt[0])
                names = [l.split(":")[0].strip("<>") for l in lines]
                if names != ["A%d" % k for k in range(len(names))]:
                    self.bad("room", "OMInstrumentPoint", "writes out the records it holds in another order or more than once")
                elif kept is None or kept[0] != "c" or len(names) + kept[1] != have + 1 or slot != kept[1] - 1:
                    self.bad("room", "OMInstrumentPoint", "loses a record when %s records are held" % ("all" if have == n else "all but one"))


def instrument(ctx, tier):
    ctx.rule("report", "each point that asks for its time or memory size is reported once, in order, under its names and mark, with the time since the previous "
                       "one and since the start, after one heading and the description the run passed")
    ctx.rule("names", "names of every length a tag can hold are copied within their room and end where the tag says")
    ctx.rule("history", "a run after a print, and a run that replaces one, report as a first run does")
    ctx.rule("disabled", "a disabled kind of report takes, opens and writes nothing")
    ctx.rule("file", "reports are added to the file named, or go to the standard output; what was opened is closed once when it is forgotten")
    ctx.rule("current", "the marker of the current point follows every point, also when reporting is disabled")
    ctx.rule("room", "a full store is written out, in order, before it is used again")
    shim = os.path.join(build.scratch(), "instrument_tags.cpp")
    with open(shim, "w") as f:
        f.write(SHIM + "".join("extern const unsigned long sa_names_%d_%d = mk<%d, %d>();\n" % (x + x) for x in LENGTHS))
    mod = build.load("crt", only=["OMInstrument.c"])
    ctx.units.update(mod.units)
    r = Rules(ctx, mod, build.load(None, extra_src=[shim]))
    r.reports()
    r.histories()
    r.files()
    r.current()
    r.room()
    ctx.need("report", 15)
    return ("histories of calls (every kind of point, merged and nested ones, second runs, failing commands and files, each environment variable) are followed "
            "through the compiled routines with names, times and files as terms; the text each call hands to the output is compared with what the points asked for")

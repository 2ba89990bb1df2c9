"""Abstract interpretation of comparison functions over the finite domain of
orderings: two elements and two positions are known only by how they compare,
so a comparison function has finitely many abstract inputs.  Every path of the
function is followed; anything not decided by the ordering is taken both ways."""
from .engine import AnalysisBroken

# ONNX element types: name, byte width, class (s signed, u unsigned, f float,
# b bool, h half)
ONNX = {1: ("float", 4, "f"), 2: ("uint8", 1, "u"), 3: ("int8", 1, "s"), 4: ("uint16", 2, "u"), 5: ("int16", 2, "s"),
        6: ("int32", 4, "s"), 7: ("int64", 8, "s"), 8: ("string", 8, "p"), 9: ("bool", 1, "b"), 10: ("float16", 2, "h"),
        11: ("double", 8, "f"), 12: ("uint32", 4, "u"), 13: ("uint64", 8, "u")}
MANT = {"float": 24, "double": 53}
TOP = ("top",)


class Bad(Exception):
    def __init__(self, i, msg):
        self.i, self.msg = i, msg


def width(ty):
    if ty.startswith("i") and ty[1:].isdigit():
        return max(1, int(ty[1:]) // 8)
    return {"float": 4, "double": 8, "half": 2, "ptr": 8}.get(ty, 0)


class Order:
    """mode 'index': (idx1*, idx2*, data*) comparator; mode 'direct': (el1*, el2*)."""

    def __init__(self, fn, mode, dtype, velems, vidx=0, ptrs=(0, 1), data=2, dtname=None):
        self.fn, self.mode, self.dt = fn, mode, ONNX[dtype]
        self.v, self.x = velems, vidx          # sign of el1-el2, idx1-idx2
        self.ptrs, self.data = ptrs, data
        self.outs = set()
        self.compares = 0
        self.elems = set()

    def run(self):
        f = self.fn
        f.prep()
        env = {}
        for k in range(len(f.params)):
            if k == self.ptrs[0]:
                env[k] = ("p", 1)
            elif k == self.ptrs[1]:
                env[k] = ("p", 2)
            elif self.mode == "index" and k == self.data:
                env[k] = ("data",)
            else:
                env[k] = TOP
        work = [(0, None, env, {})]
        n = 0
        while work:
            b, frm, env, vis = work.pop()
            n += 1
            if n > 20000:
                raise AnalysisBroken("%s: too many paths" % f.q)
            if vis.get(b, 0) >= 2:
                continue
            vis = dict(vis)
            vis[b] = vis.get(b, 0) + 1
            env = dict(env)
            new = {}
            for i in f.blocks[b]:
                if i["op"] != "phi":
                    continue
                for v, p in i["phi"]:
                    if p == frm:
                        new[i["i"]] = self.val(env, v)
            env.update(new)
            mem = env.setdefault("mem", {})
            env["mem"] = dict(mem)
            for i in f.blocks[b]:
                op = i["op"]
                if op == "phi":
                    continue
                if op == "ret":
                    self.outs.add(self.val(env, i["o"][0]) if i.get("o") else None)
                    break
                if op in ("unreachable", "resume"):
                    break
                if op == "br":
                    s = i["succ"]
                    if "cond" not in i:
                        work.append((s[0], b, env, vis))
                    else:
                        c = self.val(env, i["cond"])
                        if c[0] == "c":
                            work.append((s[0] if c[1] & 1 else s[1], b, env, vis))
                        else:
                            for t in s:
                                work.append((t, b, env, vis))
                    break
                if op == "switch":
                    for t in set(f.succ[b]):
                        work.append((t, b, env, vis))
                    break
                if op == "invoke":
                    work.append((i["normal"], b, env, vis))
                    if "i" in i:
                        env[i["i"]] = TOP
                    break
                r = self.step(env, i)
                if "i" in i:
                    env[i["i"]] = r
                if op == "call" and i.get("nr"):
                    break
        return self

    def val(self, env, v):
        if v[0] == "c":
            return ("c", v[1])
        if v[0] == "v":
            return env.get(v[1], TOP)
        if v[0] == "n":
            return ("c", 0)
        if v[0] == "g":
            return ("fn", v[1])
        return TOP

    def step(self, env, i):
        op = i["op"]
        o = [self.val(env, x) for x in i.get("o", [])]
        if op == "alloca":
            return ("al", i["i"])
        if op == "getelementptr":
            p = o[0]
            if p[0] == "data":
                if len(o) == 2 and o[1][0] == "idx":
                    return ("slot", o[1][1], i.get("esz"))
                if len(o) == 2 and o[1][0] == "scaled":
                    return ("slot", o[1][1], o[1][2] * (i.get("esz") or 1))
                raise Bad(i, "an element is addressed by something other than one of the two positions")
            if p[0] in ("p", "al"):
                return p
            return TOP
        if op == "load":
            p = o[0]
            w = width(i["ty"])
            if p[0] == "al":
                return env["mem"].get(p[1], TOP)
            if p[0] == "p":
                if self.mode == "index":
                    if w != 8:
                        raise Bad(i, "a position is read with %d instead of 8 bytes" % w)
                    return ("idx", p[1])
                return self.elem(i, p[1], w)
            if p[0] == "slot":
                if p[2] != w:
                    raise Bad(i, "elements are addressed every %s bytes but read with %d" % (p[2], w))
                return self.elem(i, p[1], w)
            return TOP
        if op == "store":
            if o[1][0] == "al":
                env["mem"][o[1][1]] = o[0]
            elif o[0][0] == "al":
                env["mem"][o[0][1]] = o[1]
            return TOP
        if op in ("zext", "sext", "trunc", "bitcast", "freeze", "fpext", "sitofp", "uitofp", "fptrunc", "fptosi", "fptoui"):
            return self.conv(i, op, o[0])
        if op in ("icmp", "fcmp"):
            return self.cmp(i, op, o[0], o[1])
        if op == "select":
            c = o[0]
            if c[0] == "c":
                return o[1] if c[1] & 1 else o[2]
            return o[1] if o[1] == o[2] else ("alt", o[1], o[2])
        if op in ("call",):
            c = i.get("callee")
            a = [self.val(env, x) for x in i.get("args", [])]
            if c in ("memcmp", "bcmp") and {x[1] for x in a[:2] if x[0] == "p"} == {1, 2}:
                return ("c", 0) if self.v == 0 else ("ne",)
            els = [x for x in a if x[0] == "el"]
            if len(els) == 1 and i["ty"] in ("float", "double"):
                return ("el", els[0][1], width(i["ty"]), "f")
            return TOP
        if op in ("add", "sub", "mul", "shl", "and", "or", "xor", "ashr", "lshr", "fsub"):
            return self.arith(i, op, o[0], o[1])
        return TOP

    def elem(self, i, k, w):
        name, dw, cls = self.dt
        if w != dw:
            raise Bad(i, "%s elements are read with %d instead of %d bytes" % (name, w, dw))
        isf = i["ty"] in ("float", "double")
        if isf != (cls == "f"):
            raise Bad(i, "%s elements are read as %s" % (name, i["ty"]))
        self.elems.add(k)
        return ("el", k, w, "f" if isf else "raw")

    def conv(self, i, op, v):
        if v[0] == "c":
            w = int(i["ty"][1:]) if i["ty"].startswith("i") else 0
            fw = int(i["from"][1:]) if i.get("from", "").startswith("i") else 0
            n = v[1]
            if op == "zext" and fw:
                n &= (1 << fw) - 1
            elif op == "sext" and fw:
                n &= (1 << fw) - 1
                if n >> (fw - 1):
                    n -= 1 << fw
            elif op == "trunc" and w:
                n &= (1 << w) - 1
            return ("c", n)
        if v[0] == "el":
            _, k, w, kd = v
            name, dw, cls = self.dt
            if op == "trunc":
                if cls == "b" and i["ty"] == "i1":
                    return ("el", k, w, "u")
                raise Bad(i, "%s elements are cut to %s before they are compared" % (name, i["ty"]))
            if op in ("zext", "sext", "sitofp", "uitofp"):
                s = "s" if op in ("sext", "sitofp") else "u"
                if kd == "raw":
                    kd = s
                if op in ("sitofp", "uitofp") and dw * 8 > MANT.get(i["ty"], 0):
                    raise Bad(i, "%s elements lose precision before they are compared" % name)
                if op in ("sitofp", "uitofp"):
                    kd = {"s": "s", "u": "u"}[kd]
                return ("el", k, w, kd)
            if op == "fptrunc":
                raise Bad(i, "%s elements lose precision before they are compared" % name)
            return v
        if v[0] == "idx":
            if op == "trunc":
                raise Bad(i, "positions are cut to %s before they are compared" % i["ty"])
            return v
        if v[0] == "diff" and op in ("trunc", "fptosi", "fptoui"):
            raise Bad(i, "a difference is cut to %s before its sign is used" % i["ty"])
        if v[0] == "alt":
            return ("alt", self.conv(i, op, v[1]), self.conv(i, op, v[2]))
        return TOP

    def cmp(self, i, op, a, b):
        p = i["pred"]
        if a[0] == "el" and b[0] == "el":
            self.compares += 1
            if a[1] == b[1]:
                s = 0
            else:
                s = self.v if a[1] == 1 else -self.v
            name, dw, cls = self.dt
            if cls == "h" and "f" not in (a[3], b[3]) and p not in ("eq", "ne"):
                raise Bad(i, "float16 elements are compared as integers")
            if op == "icmp" and p not in ("eq", "ne") and a[3] == "raw":
                sg = "s" if p[0] == "s" else "u"
                if cls in ("s", "u", "b") and sg != ("s" if cls == "s" else "u"):
                    raise Bad(i, "%s elements are compared as %s" % (name, "signed" if sg == "s" else "unsigned"))
            for x in (a, b):
                if cls in ("s", "u", "b") and x[3] in "su" and x[3] != ("s" if cls == "s" else "u"):
                    if not (p in ("eq", "ne")):
                        raise Bad(i, "%s elements are compared as %s" % (name, "signed" if x[3] == "s" else "unsigned"))
            return self.truth(p, s)
        if a[0] == "idx" and b[0] == "idx":
            s = 0 if a[1] == b[1] else (self.x if a[1] == 1 else -self.x)
            return self.truth(p, s)
        if a[0] == "c" and b[0] == "c":
            x, y = a[1], b[1]
            if p[0] == "u" and op == "icmp":
                x &= (1 << 64) - 1
                y &= (1 << 64) - 1
            return self.truth(p, (x > y) - (x < y))
        if a[0] == "diff" and b == ("c", 0):
            return self.truth(p, a[1])
        if a[0] == "ne" and b == ("c", 0) and p in ("eq", "ne"):
            return ("c", int(p == "ne"))
        return TOP

    @staticmethod
    def truth(p, s):
        if p in ("ord", "true"):
            return ("c", 1)
        if p in ("uno", "false"):
            return ("c", 0)
        q = p if p in ("eq", "ne") else p[1:]
        return ("c", int({"eq": s == 0, "ne": s != 0, "lt": s < 0, "le": s <= 0, "gt": s > 0, "ge": s >= 0}[q]))

    def arith(self, i, op, a, b):
        if a[0] == "c" and b[0] == "c":
            n = {"add": a[1] + b[1], "sub": a[1] - b[1], "mul": a[1] * b[1], "and": a[1] & b[1], "or": a[1] | b[1],
                 "xor": a[1] ^ b[1]}.get(op)
            if op == "shl":
                n = a[1] << (b[1] & 63)
            if n is None:
                return TOP
            return ("c", n)
        if op in ("and", "or") and (a[0] == "c" or b[0] == "c") and i["ty"] == "i1":
            c = a if a[0] == "c" else b
            if op == "and" and not c[1] & 1:
                return ("c", 0)
            if op == "or" and c[1] & 1:
                return ("c", 1)
            return b if a[0] == "c" else a
        if op in ("mul", "shl") and a[0] == "idx" and b[0] == "c":
            return ("scaled", a[1], b[1] if op == "mul" else 1 << b[1])
        if op == "mul" and b[0] == "idx" and a[0] == "c":
            return ("scaled", b[1], a[1])
        if op == "fsub" and a[0] == b[0] == "el" and a[1] != b[1]:
            return ("diff", self.v if a[1] == 1 else -self.v)
        if op == "sub" and a[0] == b[0] == "el" and a[1] != b[1]:
            w = width(i["ty"])
            name, dw, cls = self.dt
            if w <= dw:
                raise Bad(i, "%s elements are compared by a difference that can overflow" % name)
            return ("diff", self.v if a[1] == 1 else -self.v)
        if op == "sub" and a[0] == b[0] == "idx" and a[1] != b[1]:
            return ("diff", self.x if a[1] == 1 else -self.x)
        return TOP


def flat(v, out):
    if v is not None and v[0] == "alt":
        flat(v[1], out)
        flat(v[2], out)
    else:
        out.add(v)


def sign(v, bits=32):
    """Sign of a returned value, or None when not decided."""
    if v is None:
        return None
    if v[0] == "c":
        n = v[1] & ((1 << bits) - 1)
        if n >> (bits - 1):
            n -= 1 << bits
        return (n > 0) - (n < 0)
    if v[0] == "diff":
        return v[1]
    return None

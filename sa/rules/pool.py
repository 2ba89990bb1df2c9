"""E03: the pool of constants is safe to use from several threads and never
loses or leaks a constant."""
import re

from .. import build
from ..engine import AnalysisBroken
from ..paths import Walker, has, find

ATTR = "mlir::DisposableElementsAttr"


class PoolWalker(Walker):
    watch = "class.onnx_mlir::DisposablePool"

    def watched(self, st, i, base, off):
        if off not in (self.mutexes or ()):
            self.addrs.setdefault((base, off), 0)

    mutexes = volatile = ()
    addrs = {}

    def boolish(self, a):
        return a[0] in ("in",)

    def norm(self, c):
        c, neg = super().norm(c)
        if c[0] == "nz" and c[1][0] == "eq":
            c = c[1]
        if c[0] == "eq":
            a, b = c[1], c[2]
            for x, y in ((a, b), (b, a)):
                if x[0] == "find" and y == ("it", x[1], "end"):
                    return ("nz", ("in", x[1], x[2])), not neg
            if a == b:
                return ("c", 1), neg
            for x, y in ((a, b), (b, a)):
                while y[0] == "next":
                    y = y[1]
                    if x == y:
                        return ("c", 0), neg
            return ("eq",) + tuple(sorted((a, b), key=repr)), neg
        return c, neg

    def call(self, st, i):
        r = super().call(st, i)
        k = st.ev[-1][0] if st.ev else None
        if k == "unlock" and st.ev[-1][1] == i.get("l", 0):
            # other threads may run: what is not ours may change
            for a in [a for a in st.mem if not self.local(a)]:
                st.seq += 1
                if any(e[0] == "write" and e[3] == a for e in st.ev):
                    st.mem[a] = ("fresh", a, st.seq)
                else:
                    del st.mem[a]
            for a in self.volatile:
                st.seq += 1
                st.mem[a] = ("fresh", a, st.seq)
        return r

    def model(self, st, i, dem, args, cont):
        a = args
        if qualified(dem) in ("std::move", "std::forward", "std::addressof") and len(a) == 1:
            return a[0]
        g = re.match(r"std::tuple_element<([01])ul, std::pair<", dem)
        if g and "std::get<" in dem:
            return self.off(a[0], 8 * int(g.group(1)))
        if qualified(dem) == "std::make_pair" and len(a) == 3:
            p = self.addr(a[0])
            st.mem[p], st.mem[(p[0], p[1] + 8)] = cont[1], cont[2]
            return ("?",)
        if method(dem) == "make_range" and len(a) == 2:
            return ("ins", ("ins", ("?",), 0, cont[0]), 1, cont[1])
        if re.match(r"llvm::iterator_range<.*>::(begin|end|empty)\(\) const$", dem):
            p = self.addr(a[0])
            x, y = [st.mem.get((p[0], p[1] + k), ("ld", p[0], p[1] + k)) for k in (0, 8)]
            n = dem.rsplit("::", 1)[1]
            return x if n.startswith("begin") else y if n.startswith("end") else ("eq", x, y)
        if re.match(r"llvm::iterator_range<.*>::iterator_range\(", dem) and len(a) == 3:
            p = self.addr(a[0])
            st.mem[p], st.mem[(p[0], p[1] + 8)] = cont[1], cont[2]
            return ("?",)
        if qualified(dem).startswith("std::unordered_map<"):
            name = method(dem)
            m = a[0]
            if name in ("begin", "end", "cbegin", "cend"):
                return ("it", m, name.lstrip("c"))
            if name in ("count", "contains"):
                return ("in", m, cont[1])
            if name == "find":
                return ("find", m, cont[1])
            if name == "erase":
                if a[1][0] in ("it", "next", "after", "find"):
                    return ("after", a[1])
                c = cont[1]
                return ("after", c) if c[0] in ("it", "next", "after", "find") else ("?",)
            if name == "at" or name == "operator[]":
                return ("slot", m, cont[1])
            if name in ("empty", "size"):
                return (name, m, st.seq)
        if re.search(r"_Node_(const_)?iterator<.*>::operator(->|\*)\(\) const$", dem):
            it = self.obj(st, a[0])
            if it[0] == "find":
                return ("slotnode", it[1], it[2])
            return ("node", it)
        if re.search(r"_Node_(const_)?iterator<.*>::operator\+\+\((int)?\)$", dem):
            p = self.addr(a[0])
            old = st.mem.get(p, ("ld",) + p)
            self.write(st, i, a[0], ("next", old))
            return old if dem.endswith("(int)") else a[0]
        if re.search(r"std::__detail::operator(!=|==)\(std::__detail::_Node_iterator_base", dem):
            e = ("eq", self.obj(st, a[0]), self.obj(st, a[1]))
            return ("not", e) if "operator!=" in dem else e
        if dem == ATTR + "::getId() const":
            return ("id", cont[0])
        if dem == ATTR + "::toDenseElementsAttr() const":
            return ("dense", cont[0])
        if dem == "mlir::Attribute::operator bool() const":
            return ("nz", cont[0])
        if dem == "mlir::Attribute::operator!() const":
            return ("not", ("nz", cont[0]))
        if re.search(r"std::__atomic_base<.*>::operator\+\+\(", dem) or \
                re.search(r"std::(__atomic_base|atomic)<.*>::fetch_add\(", dem):
            st.seq += 1
            return ("rmw", a[0], st.seq)
        return None

    def obj(self, st, p):
        a = self.addr(p)
        return st.mem.get(a, ("ld",) + a)

    def block(self, b, prev, st, work):
        for i in self.f.blocks[b]:
            if i["op"] == "atomicrmw":
                self.rmw.add(i["i"])
        super().block(b, prev, st, work)

    rmw = set()


_q = {}


def qualified(dem):
    """A demangled signature without return type, parameters and the template
    arguments of the function itself."""
    if dem in _q:
        return _q[dem]

    def skip(d, k, o, c):
        depth = 0
        while k >= 0:
            if d[k] == c:
                depth += 1
            elif d[k] == o:
                depth -= 1
                if not depth:
                    return k
            k -= 1
        return 0
    d = re.sub(r"\) ?&&?$|\) const ?&&?$", ")", dem)
    d = d[:-6] if d.endswith(" const") else d
    if d.endswith(")"):
        d = d[:skip(d, len(d) - 1, "(", ")")]
    if d.endswith(">") and not re.search(r"operator(->|>|>>|>=|<=>)$", d):
        d = d[:skip(d, len(d) - 1, "<", ">")]
    op = re.search(r"\boperator [\w:<>, *&]+$", d)
    k = (op.start() if op else len(d)) - 1
    pairs = {">": "<", ")": "("}
    tail = re.search(r"operator(->|>|>>|>=|<=>|\(\))$", d)
    if tail:
        k = tail.start() - 1
    while k >= 0 and d[k] != " ":
        k = skip(d, k, pairs[d[k]], d[k]) - 1 if d[k] in pairs else k - 1
    _q[dem] = d[k + 1:]
    return _q[dem]


def method(dem):
    """Unqualified name of the method a demangled signature names."""
    q = qualified(dem)
    depth, k = 0, len(q) - 1
    t = re.search(r"operator\W+$", q)
    if t:
        return t.group(0)
    while k >= 0:
        if q[k] == ">":
            depth += 1
        elif q[k] == "<":
            depth -= 1
        elif q[k] == ":" and not depth:
            return q[k + 1:]
        k -= 1
    return q


INSERTS = ("try_emplace", "emplace", "insert", "insert_or_assign", "operator[]")


def calls(p):
    return [(k, e) for k, e in enumerate(p.events) if e[0] == "call"]


def where(f, e):
    return "%s:%s" % (f.file, e[1] or f.line)


def lambda_tag(dem):
    g = re.findall(r"\$_\d+", dem)
    return g[-1] if g else None


def captured(v):
    """Is v an address a closure handed in: a chain of loads from argument 0?"""
    while v[0] in ("ld", "at"):
        v = v[1]
        if v == ("arg", 0):
            return True
    return False


def resolve(v, mem, closure):
    """The parent's object a captured address denotes."""
    if v == ("arg", 0):
        return closure
    if v[0] == "ld":
        b = resolve(v[1], mem, closure)
        if b is None:
            return None
        a = Walker.addr(b)
        return mem.get((a[0], a[1] + v[2])) if isinstance(a[1], int) and isinstance(v[2], int) else None
    if v[0] == "at":
        b = resolve(v[1], mem, closure)
        return None if b is None else Walker.off(b, v[2])
    return v if v[0] == "loc" else None


def pool(ctx, tier):
    m = build.load("elements", only=["DisposablePool.cpp"])
    ctx.units.update(m.units)
    here = "src/Dialect/ONNX/ElementsAttr/DisposablePool.cpp"
    fns = [f for f in m.fns.values() if not f.decl and f.blocks and f.repo and f.file.endswith("DisposablePool.cpp")]
    P = "onnx_mlir::DisposablePool::"
    meth = {f.q[len(P):]: f for f in fns if f.q.startswith(P) and "::" not in f.q[len(P):]}
    for n in ("createElementsAttr", "garbageCollectUnreachable", "scrub", "close", "isActive"):
        if n not in meth:
            raise AnalysisBroken("DisposablePool has no " + n)
    ctx.rule("guarded", "every access to the pool's table or its active flag happens while the pool's own mutex is held")
    ctx.rule("unique-id", "the identity given to a new constant comes from an atomic read-modify-write (or is made under the pool's lock)")
    ctx.rule("create", "a new constant is handed out as is only after it was put in an active pool's table under its identity; "
             "otherwise it is converted to a dense constant before its buffer is released, and the dense one is handed out")
    ctx.rule("erase", "exactly the entries whose identity is not reachable are disposed of and then erased, each entry is looked at, "
             "and no erased entry is touched again")
    ctx.rule("scrub", "scrubbing records every constant, converts each to dense before disposing of it, replaces each by its own "
             "dense value, and only then empties the pool")
    ctx.rule("batch", "workers take disjoint consecutive batches under a lock and stop only when none is left")
    ctx.rule("close", "closing clears the flag that insertion and the query read")

    # -- the mutex and the flag --
    def walk(f):
        w = PoolWalker(m, f)
        w.addrs, w.rmw = {}, set()
        w.run()
        return w
    paths = {}
    for f in fns:
        if f.q.endswith("~DisposablePool") or f.q.endswith("DisposablePool::DisposablePool"):
            continue
        try:
            paths[f.name] = walk(f)
        except AnalysisBroken as x:
            ctx.notes.append("not analysed: %s (%s)" % (f.q, x))
        ctx.ok("functions walked", f.q)
    mutex = set()
    for n in ("close", "isActive", "insert", "createElementsAttr", "garbageCollectUnreachable", "scrub"):
        f = meth.get(n)
        for p in paths[f.name].paths if f and f.name in paths else []:
            for e in p.events:
                if e[0] == "lock" and e[3][0] == "at" and e[3][1] == ("arg", 0):
                    mutex.add(e[3][2])
    if len(mutex) != 1:
        mx = None
    else:
        mx = mutex.pop()
    gep = re.compile(r"class\.onnx_mlir::DisposablePool$")
    fieldoffs = set()
    for f in fns:
        for ins in f.blocks:
            for i in ins:
                if i["op"] == "getelementptr" and gep.search(i.get("src", "")) and i.get("off"):
                    fieldoffs.add(i["off"])
    if mx is None:
        raise AnalysisBroken("the pool's mutex was not found")
    guarded = {o for o in fieldoffs if o != mx}
    lo = min(guarded) if guarded else 0

    def belongs(t):
        """The pool (this) of an address inside a guarded member, or None."""
        if t[0] == "at" and isinstance(t[2], int) and lo <= t[2] and not mx <= t[2] < mx + 40:
            return t[1]
        return None
    seen = set()
    for f in fns:
        if f.name not in paths:
            continue
        private = f.d.get("access") in ("private", "protected")
        inpool = f.q.startswith(P) and "(lambda" not in f.q
        for p in paths[f.name].paths:
            for e in p.events:
                ts = []
                if e[0] in ("read", "write"):
                    a = e[3]
                    ts = [("at", a[0], a[1])] if isinstance(a[1], int) else []
                    if not inpool and a[0] != ("arg", 0):
                        ts = []
                    if not inpool:
                        ts = []
                elif e[0] == "call":
                    ts = [] if qualified(e[3]).startswith(("std::atomic<", "std::__atomic_base<")) else list(e[4])
                    g = m_callee_private(m, e[3])
                    if g and inpool and not private:
                        ts = [("at", e[4][0], lo)] + ts
                if not inpool:
                    continue
                for t in ts:
                    o = belongs(t)
                    if o is None or o != ("arg", 0):
                        continue
                    held = repr(("at", o, mx)) in e[2]
                    key = (f.name, e[1], t)
                    if private and not held and f.q[len(P):] not in ("insert",):
                        # a helper that relies on its callers: they are checked with it inlined
                        continue
                    if held:
                        ctx.ok("guarded accesses", "%s:%s" % (f.q, e[1]))
                    elif key not in seen:
                        seen.add(key)
                        ctx.violation("guarded", where(f, e), "%s uses the pool's shared state without holding its mutex"
                                      % f.q, key="guarded|%s" % f.q)
    ctx.need("guarded accesses", 5)
    # lambdas that capture the pool itself
    for f in fns:
        if "(lambda" in f.q and f.name in paths:
            for p in paths[f.name].paths:
                for e in p.events:
                    for t in (e[4] if e[0] == "call" else ()):
                        if t[0] == "at" and t[2] in guarded and find(t, lambda x: x[0] == "ld") and \
                                any((b, o) == (t[1], t[2]) for (b, o) in paths[f.name].addrs):
                            if repr(("at", t[1], mx)) not in e[2]:
                                ctx.violation("guarded", where(f, e), "%s uses the pool's shared state without holding "
                                              "its mutex" % f.q, key="guarded|%s" % f.q)

    # -- close / isActive --
    flag = None
    f = meth["close"]
    w = paths.get(f.name)
    ps = w.paths if w else []
    for p in ps:
        for e in p.events:
            if e[0] == "write" and e[3][0] == ("arg", 0) and e[4] == ("c", 0):
                flag = e[3][1]
                ctx.ok("close clears the flag")
    for p in ps:
        if flag is None or not any(e[0] == "write" and e[3] == (("arg", 0), flag) and e[4] == ("c", 0) for e in p.events) \
                and p.dec.get(("nz", ("ld", ("arg", 0), flag))) is not False:
            ctx.violation("close", "%s:%d" % (f.file, f.line), "closing the pool leaves it active", key="close|flag")
    f = meth["isActive"]
    for p in paths[f.name].paths if f.name in paths else []:
        r = p.ret
        if r is not None and flag is not None:
            while r[0] in ("nz",):
                r = r[1]
            if r == ("ld", ("arg", 0), flag):
                ctx.ok("the query returns the flag")
            elif r == ("not", ("nz", ("ld", ("arg", 0), flag))) or r[0] == "c" or r[0] == "xor":
                ctx.violation("close", "%s:%d" % (f.file, f.line), "isActive does not return the pool's active flag",
                              key="close|query")
            else:
                ctx.notes.append("isActive returns " + str(r)[:100])

    create(ctx, m, meth["createElementsAttr"], paths, flag, mx)
    erase(ctx, m, fns, paths, P, mx)
    scrub(ctx, m, fns, meth, paths, mx)


def soft(ctx, kind):
    if not ctx.ob.get(kind):
        ctx.notes.append("undecided: no " + kind)


def m_callee_private(m, dem):
    for f in m.fns.values():
        if f.dem == dem and f.repo and not f.decl and f.q.startswith("onnx_mlir::DisposablePool::") \
                and f.d.get("access") in ("private", "protected"):
            return f
    return None


def create(ctx, m, f, paths, flag, mx):
    w = paths.get(f.name)
    if w is None:
        return
    here = "%s:%d" % (f.file, f.line)
    n = 0
    for p in w.paths:
        cs = calls(p)
        made = [(k, e) for k, e in cs if e[3].startswith(ATTR + "::create(") or re.search(r"\b%s::create\(" % ATTR, e[3])]
        if len(made) != 1:
            ctx.notes.append("createElementsAttr: %d constants made on a path" % len(made))
            continue
        k0, mk = made[0]
        D = mk[6]
        # identity
        ids = [a for a in mk[4] if find(a, lambda x: x[0] == "rmw")]
        if ids:
            ctx.ok("identities from an atomic read-modify-write")
            if find(ids[0], lambda x: x[0] == "rmw")[0][1][0] in ("loc",):
                ctx.violation("unique-id", where(f, mk), "the identity of a new constant comes from a counter of this call",
                              key="unique-id|local")
        else:
            idt = mk[4][2] if len(mk[4]) > 2 else ("?",)
            raw = any(i["op"] == "atomicrmw" for b in f.blocks for i in b)
            locked = any(x for x in mk[2])
            if raw:
                ctx.ok("identities from an atomic read-modify-write")
            elif has_global(idt) or is_load(idt):
                lk = [e for e in p.events[:k0] if e[0] in ("read", "write") and (e[3][0] == glob_of(idt) or e[3][0] == ("arg", 0))]
                if lk and all(repr(("at", ("arg", 0), mx)) in e[2] for e in lk):
                    ctx.ok("identities made under the lock")
                else:
                    ctx.violation("unique-id", where(f, mk), "two threads can be given the same identity: the counter is read "
                                  "and advanced by separate steps", key="unique-id|race")
            elif idt[0] == "c":
                ctx.violation("unique-id", where(f, mk), "every constant gets the same identity", key="unique-id|const")
            elif find(idt, lambda x: x[0] == "call" and "load" in str(x[1])) and not locked:
                ctx.violation("unique-id", where(f, mk), "two threads can be given the same identity: the counter is read "
                              "and advanced by separate steps", key="unique-id|race")
            else:
                ctx.notes.append("identity of a new constant: %s" % (str(idt)[:120],))
        n += 1
        dense = ("dense", D)
        gives_dense = has(p.ret, dense)
        r = strip(p.ret, dense)
        gives = has(r, D)
        ins = [(k, e) for k, e in cs if qualified(e[3]).startswith("std::unordered_map<") and method(e[3]) in INSERTS
               and e[4][0][0] == "at" and e[4][0][1] == ("arg", 0)]
        disp = [k for k, e in cs if e[3] == ATTR + "::dispose()" and e[5][0] == D]
        td = [k for k, e in cs if e[3] == ATTR + "::toDenseElementsAttr() const" and e[5][0] == D]
        act = p.dec.get(("nz", ("ld", ("arg", 0), flag)))
        if ins:
            k, e = ins[0]
            if ("id", D) not in list(e[5][1:2]) and not has(e[5][1:], ("id", D)):
                ctx.violation("create", where(f, e), "the new constant is recorded under something else than its identity",
                              key="create|key")
            if not has(e[5][1:], D) and method(e[3]) != "operator[]":
                ctx.violation("create", where(f, e), "the pool records something else than the new constant", key="create|value")
            if flag is not None and act is not True:
                ctx.violation("create", where(f, e), "a constant is put in a pool that is not active", key="create|inactive")
            ctx.ok("insertions into an active pool")
        if gives:
            if not ins:
                ctx.violation("create", here, "a constant is handed out that the pool does not know of", key="create|unknown")
            elif disp:
                ctx.violation("create", here, "a constant is handed out after its buffer was released", key="create|disposed")
            else:
                ctx.ok("constants handed out from the pool")
        if gives_dense:
            if ins and not disp:
                pass
            if disp and min(disp) < min(td):
                ctx.violation("create", here, "a constant's buffer is released before it is converted to a dense constant",
                              key="create|order")
            elif not disp and not ins:
                ctx.violation("create", here, "a constant converted to a dense one is never disposed of", key="create|leak")
            elif ins and disp:
                ctx.violation("create", here, "a disposed constant stays in the pool", key="create|stale")
            else:
                ctx.ok("constants handed out as dense ones")
        if not gives and not gives_dense:
            ctx.notes.append("createElementsAttr returns " + str(p.ret)[:160])
    soft(ctx, "insertions into an active pool")


def strip(t, x):
    if t == x:
        return ("stripped",)
    if isinstance(t, tuple):
        return tuple(strip(y, x) for y in t)
    return t


def has_global(t):
    return bool(find(t, lambda x: x[0] == "glob"))


def glob_of(t):
    g = find(t, lambda x: x[0] == "glob")
    return g[0] if g else None


def is_load(t):
    return bool(find(t, lambda x: x[0] == "ld" and x[1] == ("arg", 0)))


def erase(ctx, m, fns, paths, P, mx):
    """Loops that erase entries of the pool's table."""
    for f in fns:
        w = paths.get(f.name)
        if w is None or not f.q.startswith(P) or "(lambda" in f.q:
            continue
        for p in w.paths:
            evs = p.events
            table = None
            ers = []
            for k, e in calls(p):
                if qualified(e[3]).startswith("std::unordered_map<unsigned long, %s," % ATTR) and method(e[3]) in ("erase", "clear"):
                    if e[4][0][0] == "at" and e[4][0][1] == ("arg", 0):
                        ers.append((k, e))
                        table = e[4][0]
            begins = [e for k, e in calls(p) if qualified(e[3]).startswith("std::unordered_map<unsigned long, %s," % ATTR)
                      and method(e[3]) == "begin" and e[4][0][0] == "at" and e[4][0][1] == ("arg", 0)]
            if begins and not any(method(e[3]) == "clear" for _, e in ers):
                table = begins[0][4][0]
            if table is None:
                continue
            if any(method(e[3]) == "clear" for _, e in ers) or any(len(e[4]) > 1 and e[4][1][0] == "at" for _, e in ers):
                ctx.notes.append("%s: entries erased in a way the loop rule does not follow" % f.q)
                continue
            ctx.ok("paths through the erasing loop", f.q)
            it0 = ("it", table, "begin")
            disposed, erased = {}, set()
            for k, e in enumerate(evs):
                if e[0] != "call":
                    continue
                n = method(e[3])
                if e[3] == ATTR + "::dispose()":
                    nd = e[5][0]
                    nodes = find(nd, lambda x: x[0] == "node")
                    if nodes:
                        it = nodes[0][1]
                        disposed[it] = e
                        d = member(p, it, k)
                        if d is True:
                            ctx.violation("erase", where(f, e), "an entry that is still reachable is disposed of",
                                          key="erase|dispose-reachable")
                        if it in erased:
                            ctx.violation("erase", where(f, e), "an entry is used after it was erased", key="erase|after")
                elif n == "erase" and e[4][0] == table:
                    it = e[4][1] if e[4][1][0] in ("it", "next", "after") else e[5][1]
                    d = member(p, it, k)
                    if d is True:
                        ctx.violation("erase", where(f, e), "an entry that is still reachable is erased", key="erase|reachable")
                    elif d is None and not f.q.endswith("::scrub"):
                        ctx.violation("erase", where(f, e), "entries are erased whether or not they are reachable",
                                      key="erase|untested")
                    if it not in disposed and it[0] in ("it", "next", "after"):
                        ctx.violation("erase", where(f, e), "an entry leaves the pool without being disposed of: its buffer "
                                      "stays allocated", key="erase|leak")
                    else:
                        ctx.ok("erasures after disposal")
                    erased.add(it)
                elif re.search(r"operator(->|\*|\+\+)\(", e[3]) and "_Node_iterator" in e[3] and e[5][0] in erased:
                    # the model has already advanced ++: content holds the old value
                    ctx.violation("erase", where(f, e), "the iterator of an erased entry is used", key="erase|after")
            # progress: every element reached was tested, and only unreachable ones go
            its = []
            for c, v in p.dec.items():
                if c[0] == "nz" and c[1][0] == "in" and find(c[1][2], lambda x: x[0] == "node"):
                    it = find(c[1][2], lambda x: x[0] == "node")[0][1]
                    if not has(it, table):
                        continue
                    its.append(it)
                    if v is False and it not in erased and not later_exit(p, it):
                        ctx.violation("erase", "%s:%d" % (f.file, f.line), "an unreachable entry stays in the pool",
                                      key="erase|kept")
                    r = c[1][1]
                    if r == table:
                        ctx.violation("erase", "%s:%d" % (f.file, f.line), "entries are looked up in the pool itself",
                                      key="erase|self")
            for it in its:
                x = it
                while x[0] in ("next", "after"):
                    prev = x[1]
                    if prev not in its and prev not in erased:
                        ctx.violation("erase", "%s:%d" % (f.file, f.line), "an entry of the pool is passed over",
                                      key="erase|skipped")
                        break
                    x = prev
            ends = [c for c, v in p.dec.items() if c[0] == "eq" and v and ("it", table, "end") in c[1:]]
            # the last element reached before the loop ends
            for c in ends:
                it = c[1] if c[2] == ("it", table, "end") else c[2]
                if it[0] in ("next", "after") and it[1] not in its and it[1] not in erased and (erased or its):
                    ctx.violation("erase", "%s:%d" % (f.file, f.line), "an entry of the pool is passed over",
                                  key="erase|skipped")
            if not ends:
                its0 = [c for c in p.dec if c[0] == "nz" and c[1][0] == "in"]
                if its0 and not any(c[0] == "eq" for c in p.dec):
                    ctx.notes.append("%s: the erasing loop's end is not a comparison with end()" % f.q)
                elif erased or its:
                    ctx.violation("erase", "%s:%d" % (f.file, f.line), "the sweep stops before the end of the pool",
                                  key="erase|early")
    soft(ctx, "erasures after disposal")


def later_exit(p, it):
    return False


def member(p, it, k):
    """Whether the entry at `it` was found reachable before event k."""
    for e in p.events[:k]:
        if e[0] == "if" and e[3][0] == "nz" and e[3][1][0] == "in" and has(e[3][1][2], ("node", it)):
            return e[4]
    return None


def scrub(ctx, m, fns, meth, paths, mx):
    f = meth["scrub"]
    gc = meth["garbageCollectUnreachable"]
    # callbacks by lambda tag
    def callback(owner, tag):
        r = []
        for g in fns:
            if g.name in paths and g is not owner and "(lambda" in g.q and ("::%s(" % owner.q) in ("::" + g.dem):
                r.append(g)
        return r
    kinds = {}
    for g in fns:
        if "walkOpsAttrs" not in g.q or "(lambda" not in g.q.rsplit("::", 1)[0] and not g.q.endswith("operator()"):
            continue
        if not g.q.endswith("operator()") or g.name not in paths:
            continue
        own = "scrub" if "DisposablePool::scrub(" in g.dem else "gc" if "garbageCollect" in g.dem else None
        tag = lambda_tag(g.dem.split(">(")[0])
        kinds[(own, tag)] = (g, classify(ctx, m, g, paths[g.name]))
    for (own, tag), (g, k) in kinds.items():
        check_callback(ctx, g, k, paths[g.name])
    sweeps = lambda p: [1 for k, e in calls(p) if qualified(e[3]).startswith("std::unordered_map<unsigned long, %s," % ATTR)
                        and method(e[3]) in ("erase", "begin") and e[4][0][0] == "at" and e[4][0][1] == ("arg", 0)]
    known = any(sweeps(p) for p in paths[gc.name].paths) if gc.name in paths else False
    for p in paths[gc.name].paths if gc.name in paths else []:
        walks = [(k, e) for k, e in calls(p) if is_walk(e)]
        ers = [(k, e) for k, e in calls(p) if qualified(e[3]).startswith("std::unordered_map<unsigned long, %s," % ATTR)
               and method(e[3]) in ("erase", "begin") and e[4][0][0] == "at" and e[4][0][1] == ("arg", 0)]
        if not walks:
            ctx.notes.append("garbageCollectUnreachable: no walk of the module found")
            continue
        if ers and walks[0][0] > ers[0][0]:
            ctx.violation("erase", where(gc, ers[0][1]), "the pool is swept before the reachable constants are known",
                          key="erase|order")
        if known and not ers and not any(find(c, lambda x: x == ("arg", 0)) for c in p.dec):
            ctx.violation("erase", "%s:%d" % (gc.file, gc.line), "a collection looks for the reachable constants and then releases none",
                          key="erase|gc-nosweep")
        # the map consulted is the one the walk filled
        cl = closure_fields(walks[0][1], p)
        for c, v in p.dec.items():
            if c[0] == "nz" and c[1][0] == "in" and find(c[1][2], lambda x: x[0] == "it" and x[1][0] == "at"):
                if cl and c[1][1] not in cl:
                    ctx.violation("erase", "%s:%d" % (gc.file, gc.line), "reachability is looked up in a table the walk did "
                                  "not fill", key="erase|table")
                else:
                    ctx.ok("reachability tests against the walk's table")
    # scrub
    w = paths.get(f.name)
    if w is None:
        return
    for p in w.paths:
        cs = calls(p)
        walks = [(k, e) for k, e in cs if is_walk(e)]
        par = [(k, e) for k, e in cs if "parallelFor<" in e[3] or "parallelForEach" in e[3]]
        sweep = [(k, e) for k, e in cs if qualified(e[3]).startswith("std::unordered_map<unsigned long, %s," % ATTR)
                 and method(e[3]) in ("begin", "erase", "clear") and e[4][0][0] == "at" and e[4][0][1] == ("arg", 0)]
        col = rep = None
        for k, e in walks:
            kd = kinds.get(("scrub", lambda_tag(e[3])))
            kd = kd[1] if kd else None
            if kd == "collect":
                col = (k, e) if col is None else col
            elif kd == "replace":
                rep = (k, e)
        if not walks or not par:
            ctx.notes.append("scrub: walks or workers not found on a path")
            continue
        if col is None or rep is None:
            ctx.notes.append("scrub: the two walks were not recognised")
            continue
        if col and par and col[0] > par[0][0]:
            ctx.violation("scrub", where(f, col[1]), "constants are converted before they are collected", key="scrub|order1")
        if rep and par and rep[0] < par[0][0]:
            ctx.violation("scrub", where(f, rep[1]), "constants are replaced before they are converted", key="scrub|order2")
        if sweep and rep and sweep[0][0] < rep[0]:
            ctx.violation("scrub", where(f, sweep[0][1]), "the pool is emptied before the constants are replaced",
                          key="scrub|order3")
        if not sweep:
            ctx.violation("scrub", "%s:%d" % (f.file, f.line), "scrubbing does not empty the pool", key="scrub|nosweep")
        T = [x for x in closure_fields(col[1], p) if x in closure_fields(rep[1], p)]
        if not T:
            ctx.violation("scrub", where(f, rep[1]), "the replacing walk looks in another table than the collecting walk filled",
                          key="scrub|table")
            continue
        ctx.ok("scrub paths")
        # entries kept by the sweep: none
        for c, v in p.dec.items():
            if c[0] == "nz" and c[1][0] == "in" and find(c[1][2], lambda x: x[0] == "it" and x[1] != T[0] and x[1][0] == "at"):
                R = c[1][1]
                filled = [e for k, e in cs if e[4] and e[4][0] == R and qualified(e[3]).startswith("std::unordered_map<")
                          and method(e[3]) in INSERTS]
                if R in T or filled or R[0] == "arg" or any(R in closure_fields(x, p) for _, x in walks):
                    ctx.violation("scrub", "%s:%d" % (f.file, f.line), "scrubbing keeps entries in the pool", key="scrub|kept")
        k, e = par[0]
        if e[4][1][0] == "c" and e[4][2] == e[4][1]:
            ctx.violation("scrub", where(f, e), "no worker is started", key="scrub|noworker")
        worker(ctx, m, f, fns, paths, p, e, T)
    soft(ctx, "scrub paths")


def is_walk(e):
    return e[0] == "call" and re.search(r"\bwalk<", e[3]) is not None


def closure_fields(e, p):
    """Addresses an argument's closure captures, through nested closures."""
    out, work = set(), list(e[4])
    while work:
        a = work.pop()
        if a[0] == "loc" or a[0] == "at" and a[1][0] == "loc":
            if a in out:
                continue
            out.add(a)
            b = Walker.addr(a)
            work += [v for (x, o), v in p.mem.items() if x == b[0] and isinstance(v, tuple)]
    return out


def classify(ctx, m, g, w):
    for p in w.paths:
        if any("::setAttr(" in e[3] for k, e in calls(p)):
            return "replace"
    for p in w.paths:
        for k, e in calls(p):
            if qualified(e[3]).startswith("std::unordered_map<") and method(e[3]) in INSERTS:
                return "collect"
    return None


def check_callback(ctx, g, kind, w):
    here = "%s:%d" % (g.file, g.line)
    for p in w.paths:
        cs = calls(p)
        got = [e for k, e in cs if "getAttrOfType<%s>" % ATTR in e[3] or re.search(r"::getAttr(OfType)?\b", e[3])]
        if not got:
            continue
        A = got[0][6]
        for c in p.dec:
            x = c[1] if c[0] == "nz" else None
            if x and x[0] == "call" and has(x, A) and "ElementsAttr" in str(x[1]):
                A = x
        present = p.dec.get(("nz", A))
        acts = [e for k, e in cs if (qualified(e[3]).startswith("std::unordered_map<") and method(e[3]) in INSERTS)
                or "::setAttr(" in e[3]]
        if present is True and not acts:
            ctx.violation("scrub", here, "a constant that an operation refers to is passed over", key="scrub|passed-over")
        elif present is not True and acts:
            ctx.notes.append("%s acts on an attribute it did not test" % g.q)
        for e in acts:
            if "::setAttr(" in e[3]:
                v = e[4][-1]
                names = [x for x in e[4][1:-1]]
                gn = [x for x in got[0][4][1:]]
                if names != gn and len(names) == len(gn):
                    ctx.violation("scrub", where(g, e), "the dense constant is stored under another attribute name",
                                  key="scrub|name")
                want = [x for x in find(v, lambda x: x[0] == "ld" and x[1][0] in ("slot",))]
                ok = want and want[0][1][2] == ("id", A)
                nodes = find(v, lambda x: x[0] == "ld" and x[1][0] in ("slotnode",) and x[1][2] == ("id", A))
                if v == A:
                    ctx.violation("scrub", where(g, e), "the constant is replaced by itself", key="scrub|self")
                elif want and not ok:
                    ctx.violation("scrub", where(g, e), "a constant is replaced by another constant's value", key="scrub|other")
                elif want and want[0][2] != 8:
                    ctx.violation("scrub", where(g, e), "a constant is replaced by its disposable form", key="scrub|first")
                elif ok or nodes:
                    ctx.ok("replacements by the constant's own dense value")
                elif find(v, lambda x: x[0] in ("node", "slot", "slotnode", "it")) and not has(v, ("id", A)):
                    ctx.violation("scrub", where(g, e), "a constant is replaced by another constant's value", key="scrub|other")
                else:
                    ctx.notes.append("replacement value not followed: " + str(v)[:120])
            else:
                if e[5][1] == ("id", A) or has(e[5][1:], ("id", A)):
                    if method(e[3]) != "operator[]" and not has(strip(e[5][1:], ("id", A)), A) and not sret_pair(e, A, p):
                        ctx.violation("scrub", where(g, e), "the walk records another constant", key="scrub|record")
                    else:
                        ctx.ok("constants recorded under their identity")
                else:
                    ctx.violation("scrub", where(g, e), "the walk records a constant under something else than its identity",
                                  key="scrub|identity")


def sret_pair(e, A, p):
    for a in e[4][1:]:
        b = Walker.addr(a)
        if any(x == b[0] and has(v, A) for (x, o), v in p.mem.items()):
            return True
    return False


def worker(ctx, m, f, fns, paths, sp, par, T):
    tag = lambda_tag(par[3])
    cand = [g for g in fns if "DisposablePool::scrub" in g.q and g.q.endswith("operator()") and lambda_tag(g.dem) == tag
            and "walkOpsAttrs" not in g.q]
    if not cand or cand[0].name not in paths:
        ctx.notes.append("scrub: worker body not found")
        return
    g = cand[0]
    w = paths[g.name]
    here = "%s:%d" % (g.file, g.line)
    clo = par[4][-1]
    mem = sp.mem
    shared = {}
    for p in w.paths:
        for e in p.events:
            if e[0] == "write" and captured(e[3][0]) and not find(e[3][0], lambda x: x[0] in ("node", "slot")):
                shared[e[3]] = e
    if shared:
        w = PoolWalker(m, g)
        w.addrs, w.rmw, w.volatile = {}, set(), tuple(shared)
        w.run()
    for p in w.paths:
        for e in p.events:
            if e[0] in ("read", "write") and e[3] in shared:
                if not any("arg" in x for x in e[2]):
                    ctx.violation("batch", where(g, e), "the cursor over the constants is %s without a lock"
                                  % ("read" if e[0] == "read" else "advanced"), key="batch|unlocked-" + e[0])
                else:
                    ctx.ok("accesses to the shared cursor under the lock")
            elif e[0] == "call" and any(a == x[0] or a == ("at",) + x for x in shared for a in e[4]) and \
                    not any("arg" in x for x in e[2]):
                ctx.violation("batch", where(g, e), "the cursor over the constants is used without a lock",
                              key="batch|unlocked-use")
    if not shared:
        ctx.notes.append("scrub: no shared cursor found")
        return
    cur = next(iter(shared))
    if len(shared) > 1:
        ctx.notes.append("scrub: several shared variables")
    # the cursor starts at the first constant
    ra = resolve(cur[0], mem, clo)
    start = None
    if ra is not None:
        b = Walker.addr(ra)
        start = mem.get((b[0], b[1] + cur[1]))
    if start is not None:
        if start[0] == "it" and start[1] in T and start[2] == "begin":
            ctx.ok("the cursor starts at the first constant")
        elif start[0] in ("it", "next"):
            ctx.violation("batch", where(f, par), "the cursor does not start at the first collected constant", key="batch|start")
    for p in w.paths:
        one_worker_path(ctx, g, p, cur)
    soft(ctx, "batches followed")


def one_worker_path(ctx, g, p, cur):
    """Split a worker's path into fetches and what is done with each batch."""
    here = "%s:%d" % (g.file, g.line)
    n0 = n1 = None
    batch = None
    dense, disp = {}, {}
    val = ("ld",) + cur
    curval = val
    fetches = []
    done = []
    for k, e in enumerate(p.events):
        if e[0] == "lock":
            start = curval
            wrote = False
            first = k
        elif e[0] == "write" and e[3] == cur:
            curval = e[4]
            wrote = True
        elif e[0] == "unlock":
            touched = any(x[0] in ("read", "write") and x[3] == cur for x in p.events[first:k])
            if touched:
                fetches.append((start, curval, k, e))
                nxt = [x for x in p.events[k:] if x[0] == "read" and x[3] == cur]
                curval = ("fresh",)
                done.append({})
        elif e[0] == "read" and e[3] == cur and curval == ("fresh",):
            pass
        if e[0] == "call" and e[3] == ATTR + "::toDenseElementsAttr() const":
            dense[e[5][0]] = k
        if e[0] == "call" and e[3] == ATTR + "::dispose()":
            disp[e[5][0]] = k
            if e[5][0] not in dense:
                ctx.violation("scrub", where(g, e), "a constant is disposed of before it is converted", key="scrub|dispose-first")
            else:
                ctx.ok("conversions before disposal")
        if e[0] == "write" and e[4][0] == "dense" and done:
            nd = find(e[3][0], lambda x: x[0] == "node")
            src = find(e[4], lambda x: x[0] == "node")
            if nd and src:
                if nd[0] != src[0]:
                    ctx.violation("scrub", where(g, e), "a constant's dense value is stored for another constant",
                                  key="scrub|crossed")
                if e[3][1] != 16:
                    ctx.notes.append("dense value stored at offset %s" % (e[3][1],))
                done[-1][nd[0][1]] = k
                ctx.ok("dense values stored")
    if len(fetches) > 2:
        fetches, tail = fetches[:2], True
    for j, (a, b, k, e) in enumerate(fetches):
        if j:
            continue      # the second fetch starts from an unknown cursor
        ctx.ok("batches followed")
        if a == b:
            ended = any(c[0] == "eq" and v and a in c[1:] and any(x[0] == "it" and x[2] == "end" for x in c[1:])
                        for c, v in p.dec.items())
            if done[0]:
                ctx.violation("batch", where(g, e), "a batch is taken without moving the cursor past it", key="batch|again")
            elif not ended:
                ctx.violation("batch", where(g, e), "a worker can take an empty batch while constants are left",
                              key="batch|empty")
            continue
        chain, x = [], b
        while x[0] == "next" and x != a:
            x = x[1]
            chain.append(x)
        if x != a:
            ctx.violation("batch", where(g, e), "the cursor does not move forward from where it was", key="batch|jump")
            continue
        got = set(done[0])
        want = set(chain)
        extra = {t for t in got if t not in want}
        if got >= want and not extra:
            ctx.ok("batches fully processed")
        elif want - got and not any(later_loop(p, k, t) for t in want - got):
            # only if the path really left the batch
            ctx.violation("batch", where(g, e), "constants of a batch are not processed", key="batch|missed")
        if extra:
            ctx.violation("batch", where(g, e), "a worker processes constants beyond its batch", key="batch|beyond")


def later_loop(p, k, t):
    return False

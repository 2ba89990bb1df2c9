"""Allocator summaries: which repository functions hand a fresh resource to
their caller.  Computed bottom-up over the un-inlined program, so that large
functions can be analysed with such calls left in place."""
from . import build
from .engine import Engine, Monitor, AnalysisBroken, ACQUIRE, TENSOR_ACQ, KINDS, opvars

STD = [r"std::unique_ptr<", r"std::__uniq_ptr", r"std::_Tuple_impl<", r"std::get<", r"std::__get_helper",
       r"std::_Head_base<", r"std::tuple<", r"std::forward<", r"std::move<", r"std::make_unique<",
       r"std::default_delete<", r"__gnu_cxx::__normal_iterator", r"__gnu_cxx::operator[!=]=",
       r"std::initializer_list<.*>::(begin|end|size|initializer_list)"]
KEEP = ["omTensorCreate", "omTensorCreateWithOwnership", "omTensorCreateEmpty", "omTensorCreateUntyped",
        "omTensorDestroy", "omTensorListCreate", "omTensorListDestroy", "omTensorListDestroyShallow",
        "omTensorGetDataPtr", "omTensorGetShape", "omTensorGetStrides", "omTensorGetRank",
        "omTensorGetDataType", "omTensorGetNumElems", "omTensorGetBufferSize"]
RELEVANT = sorted({x for x in list(ACQUIRE) + list(TENSOR_ACQ) + [r for k in KINDS.values() for r in k.release]
                   if not x.startswith("_Z")} | {"realloc", "posix_memalign"})


class _Ret(Monitor):
    def __init__(self):
        self.kinds, self.null, self.other, self.thrown = set(), False, False, False

    def exit(self, eng, st, kind, i, val):
        if kind != "ret":
            self.thrown = True
            return
        if val is None:
            self.other = True
            return
        r = val[1] if val[0] == "res" else None
        if r and r in st.res and st.res[r][1] == "live":
            self.kinds.add(st.res[r][0])
            # an argument kept inside the result: not a plain allocator
            for (o, off), v in st.mem.items():
                if o == r and v[0] == "sym" and v[1][0] == "arg" and eng.fn.isptr(v[1][1]):
                    self.other = True
        elif val == ("int", 0) or val[0] == "fail" and val[1] == 0:
            self.null = True
        else:
            self.other = True


def order(m):
    fns = {f.name: f for f in m.fns.values() if not f.decl and f.repo}
    for f in fns.values():
        f.prep()
    callees = {n: [i.get("callee") for _, i in f.calls() if i.get("callee") in fns] for n, f in fns.items()}
    out, state = [], {}

    def visit(n):
        if n in state:
            return
        state[n] = 1
        for c in callees[n]:
            visit(c)
        out.append(fns[n])
    for n in fns:
        visit(n)
    return out, callees


def allocators(group, **kw):
    """{linkage name: kind} plus the set of names to keep out of line."""
    m = build.load(group, keepall=True, inline_std=STD, **kw)
    fns, callees = order(m)
    acq = {}
    reach = set()
    base = set(ACQUIRE) | set(TENSOR_ACQ)
    for f in fns:
        cs = {i.get("callee") for _, i in f.calls()}
        if cs & (base | reach | set(acq)):
            reach.add(f.name)
        if f.name in TENSOR_ACQ or f.q in KEEP:
            continue
        if f.d.get("ret") != "ptr" or not (cs & (base | set(acq))):
            continue
        mon = _Ret()
        e = Engine(f, mon, leak=False, nullcheck=False, max_states=8000)
        e.acq.update(acq)
        try:
            e.run()
        except AnalysisBroken:
            continue
        if mon.other or len(mon.kinds) != 1:
            continue
        k = KINDS[next(iter(mon.kinds))]
        if k.name == "new object":
            continue
        acq[f.name] = k
    return acq, m

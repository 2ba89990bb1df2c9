"""E02: an element type means the same in every layer of the runtime."""
import ast
import concurrent.futures
import glob
import json
import os
import re
import subprocess
import warnings

from .. import build, normal
from ..engine import AnalysisBroken

# number: bytes, MLIR name in a signature, numpy name, C++ type, mangled name
TYPES = {
    1: ("FLOAT", 4, "f32", "float32", "f"), 2: ("UINT8", 1, "ui8", "uint8", "h"), 3: ("INT8", 1, "i8", "int8", "a"),
    4: ("UINT16", 2, "ui16", "uint16", "t"), 5: ("INT16", 2, "i16", "int16", "s"), 6: ("INT32", 4, "i32", "int32", "i"),
    7: ("INT64", 8, "i64", "int64", "l"), 8: ("STRING", 8, "string", None, "PKc"), 9: ("BOOL", 1, "i1", "bool_", "b"),
    10: ("FLOAT16", 2, "f16", "float16", None), 11: ("DOUBLE", 8, "f64", "float64", "d"), 12: ("UINT32", 4, "ui32", "uint32", "j"),
    13: ("UINT64", 8, "ui64", "uint64", "m"), 14: ("COMPLEX64", 8, None, "complex64", "Cf"), 15: ("COMPLEX128", 16, None, "complex128", "Cd"),
    16: ("BFLOAT16", 2, "bf16", "bfloat16", None), 17: ("FLOAT8E4M3FN", 1, None, None, None), 18: ("FLOAT8E4M3FNUZ", 1, None, None, None),
    19: ("FLOAT8E5M2", 1, None, None, None), 20: ("FLOAT8E5M2FNUZ", 1, None, None, None), 21: ("UINT4", 1, None, None, None),
    22: ("INT4", 1, None, None, None),
}
# mangled C++ names that may stand for a type, beyond the canonical one
MANGLED = {"f": 1, "h": 2, "a": 3, "c": 3, "t": 4, "s": 5, "i": 6, "l": 7, "x": 7, "PKc": 8, "PKcS": 8, "b": 9, "d": 11, "j": 12, "m": 13, "y": 13,
           "Cf": 14, "Cd": 15, "St7complexIfE": 14, "St7complexIdE": 15, "N9onnx_mlir8float_16E": 10,
           "bool": 9, "char": 3, "int": 6, "__int64": 7, "float": 1, "double": 11}
ALIASES = {"float": 1, "double": 11}
NUMPY = {"bool": 9, "bool_": 9, "str": 8, "str_": 8, "object": 8, "O": 8}
NUMPY.update({v[3]: k for k, v in TYPES.items() if v[3]})
CODES = {"b1": 9, "i1": 3, "u1": 2, "i2": 5, "u2": 4, "i4": 6, "u4": 12, "i8": 7, "u8": 13, "f2": 10, "f4": 1, "f8": 11, "c8": 14, "c16": 15}
NUMPY.update(CODES)
NUMPY.update({"float": 11, "double": 11, "single": 1, "half": 10, "int": 7, "uint": 13, "byte": 3, "ubyte": 2, "short": 5, "ushort": 4, "intc": 6,
              "uintc": 12, "longlong": 7, "ulonglong": 13, "csingle": 14, "cdouble": 15, "complex": 15, "?": 9, "f": 1, "d": 11, "e": 10, "F": 14,
              "D": 15, "b": 3, "B": 2, "h": 5, "H": 4, "i": 6, "I": 12, "l": 7, "L": 13, "q": 7, "Q": 13})
LH, OT, ODT, META = "src/Runtime/OMTensorListHelper.cpp", "src/Runtime/OMTensor.inc", "include/onnx-mlir/Runtime/OnnxDataType.h", \
    "include/onnx-mlir/Runtime/OnnxDataTypeMetaData.inc"
OTH = "include/onnx-mlir/Runtime/OMTensor.h"
PY = "src/Runtime/python/PyExecutionSession.cpp"


class Probes:
    def __init__(self):
        self.src, self.meta = [], {}

    def add(self, name, ret, body, want, kind, what, where):
        """`want`: the constant the probe must fold to."""
        self.meta[name] = (want, kind, what, where)
        self.src.append('extern "C" %s probe_%s() { return %s; }' % (ret, name, body))


def generate():
    p = Probes()
    p.src += ['#include "src/Runtime/OMTensor.cpp"', '#include "src/Runtime/OMTensorListHelper.cpp"',
              '#define RAW(T) long T##_[sizeof(struct OMTensor) / 8]; struct OMTensor *T = (struct OMTensor *)T##_; memset(T##_, 0, sizeof(T##_))']
    for k, (tag, size, mlir, np, mang) in sorted(TYPES.items()):
        T = "(OM_DATA_TYPE)%d" % k
        p.add("num_%d" % k, "int", "(int)ONNX_TYPE_" + tag, k, "numbers", "the number of element type " + tag, META)
        p.add("size_%d" % k, "long", "getDataTypeSize(%s)" % T, size, "widths", "the size of element type " + tag, OTH)
        p.add("tab_%d" % k, "long", "OM_DATA_TYPE_SIZE[%d]" % k, size, "widths", "the entry of the size table for element type " + tag, META)
        if mlir:
            p.add("sig_%d" % k, "int", 'typeStringToOMDataType(std::string("%s"))' % mlir, k, "names", 'the type named "%s" in a signature' % mlir, LH)
        p.add("back_%d" % k, "int", "({ const char *s = omDataTypeToString(%s); typeStringToOMDataType(std::string(s)); })" % T, k,
              "names", "the type named as element type %s is" % tag, LH)
        if np:
            p.add("np_%d" % k, "int", 'runONNXModelNameToOMType(std::string("%s"))' % np, k, "names", 'the type a bound override names "%s"' % np, LH)
        p.add("bytes_%d" % k, "long", "({ RAW(t); long s[1] = {7}; t->_shape = s; t->_rank = 1; t->_dataType = %s; omTensorGetBufferSize(t); })" % T, 7 * size, "widths", "the number of bytes of seven elements of type " + tag, OT)
        p.add("store_%d" % k, "int", "({ RAW(t); omTensorSetDataType(t, %s); (int)omTensorGetDataType(t); })" % T,
              k, "numbers", "the type read from a tensor marked as " + tag, OT)
    for n, k in sorted(ALIASES.items()):
        p.add("alias_" + n, "int", 'typeStringToOMDataType(std::string("%s"))' % n, k, "names", 'the type named "%s" in a signature' % n, LH)
    for n, k in (("bool", 9),):
        p.add("npalias_" + n, "int", 'runONNXModelNameToOMType(std::string("%s"))' % n, k, "names", 'the type a bound override names "%s"' % n, LH)
    for i, n in enumerate(("", "f31", "i128", "ui1", "int", "F32", "f", "ui", "OUT OF BOUND", "f320")):
        p.add("unk_%d" % i, "int", 'typeStringToOMDataType(std::string("%s"))' % n, 0, "unknown", 'the type of the unknown name "%s"' % n, LH)
        p.add("npunk_%d" % i, "int", 'runONNXModelNameToOMType(std::string("%s"))' % n, 0, "unknown", 'the type of the unknown name "%s"' % n, LH)
    for k in (-2147483647, -1, 0, 23, 24, 1000, 2147483647):
        p.add("size_x%d" % (k & 0xffffffff), "long", "getDataTypeSize((OM_DATA_TYPE)%d)" % k, 0, "unknown", "the size of the unknown type number %d" % k, OTH)
    return p


def folded(ctx, name, p, includes=()):
    src = os.path.join(build.scratch(), name)
    for attempt in range(5):
        with open(src, "w") as f:
            f.write("\n".join(p.src) + "\n")
        try:
            return normal.bodies(src, build.files("src/Runtime/OnnxDataType.cpp"), extra=normal.folding() + ["-fexceptions", "-fcxx-exceptions"], optflags=normal.UNROLL)
        except normal.CompileError as e:
            bad = set()
            for m in re.finditer(r"^" + re.escape(src) + r":(\d+):", str(e), re.M):
                k = re.search(r"probe_(\w+)\(", p.src[int(m.group(1)) - 1])
                if k:
                    bad.add(k.group(1))
            if not bad:
                raise AnalysisBroken("the probes do not compile: " + str(e)[:1500])
            ctx.notes.append("left out, does not compile: " + ", ".join(sorted(bad)[:30]))
            for b in bad:
                p.meta.pop(b, None)
            p.src = [s for s in p.src if not (re.search(r"probe_(\w+)\(", s) and re.search(r"probe_(\w+)\(", s).group(1) in bad)]
    raise AnalysisBroken("the probes do not compile")


def tables(ctx):
    p = generate()
    ctx.units |= {LH, OT, ODT, META, OTH}
    b = folded(ctx, "rtypes_probe.cpp", p)
    und = []
    for n, (want, kind, what, where) in p.meta.items():
        body = b.get("probe_" + n)
        if body is None:
            raise AnalysisBroken("no normal form for " + n)
        ctx.ok(kind, what)
        c = normal.constant(body)
        if c is None:
            if "unreachable" in body and "ret " not in body:
                ctx.violation("table", where + ":1", "%s is not defined" % what, key="table|" + n)
            else:
                und.append(n)
            continue
        c = c.split()[-1]
        if c in ("undef", "poison"):
            ctx.violation("table", where + ":1", "%s is read from outside the table" % what, key="table|" + n)
            continue
        c = int(c)
        if c != want:
            ctx.violation("table", where + ":1", "%s is %d, not %d" % (what, c, want), key="table|" + n)
        else:
            ctx.ok("folded")
    if und:
        ctx.notes.append("not folded to a constant: " + ", ".join(und[:60]))


# ---------------------------------------------------------------- C++ type names

def cppmap(ctx):
    src = os.path.join(build.scratch(), "cppmap.cpp")
    with open(src, "w") as f:
        f.write('#include "onnx-mlir/Runtime/OnnxDataType.h"\n')
    fl = [x for x in build.flags(src) if x not in ("-g",)]
    r = subprocess.run([build.CLANGXX] + fl + ["-fsyntax-only", "-Xclang", "-ast-dump=json", "-Xclang", "-ast-dump-filter=OM_DATA_TYPE_CPP_TO_ONNX", src],
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode:
        raise AnalysisBroken("clang: " + r.stderr[:500])
    t = r.stdout
    i = t.find("{")
    if i < 0:
        ctx.notes.append("no map from C++ type names found")
        return
    pairs = []

    def strings(n):
        if n.get("kind") == "StringLiteral":
            yield json.loads(n["value"])
        for c in n.get("inner", ()):
            yield from strings(c)

    def enums(n):
        if n.get("kind") == "DeclRefExpr" and n.get("referencedDecl", {}).get("kind") == "EnumConstantDecl":
            yield n["referencedDecl"]["name"], n
        for c in n.get("inner", ()):
            yield from enums(c)

    def walk(n):
        s, e = list(strings(n)), list(enums(n))
        if len(s) == 1 and len(e) == 1:
            pairs.append((s[0], e[0][0]))
            return
        for c in n.get("inner", ()):
            walk(c)
    walk(json.loads(t[i:]) if t.count("\n{\n") == 0 else json.JSONDecoder().raw_decode(t[i:])[0])
    names = {"ONNX_TYPE_" + v[0]: k for k, v in TYPES.items()}
    seen = set()
    for s, e in pairs:
        ctx.ok("C++ type names", "%s -> %s" % (s, e))
        if s in MANGLED and names.get(e) != MANGLED[s]:
            ctx.violation("C++ types", ODT + ":1", "the C++ type with the mangled name \"%s\" is given the element type %s, not %s" %
                          (s, e.replace("ONNX_TYPE_", ""), TYPES[MANGLED[s]][0]), key="cpp|" + s)
        seen.add(s)
    for k, v in TYPES.items():
        if pairs and v[4] and v[4] not in seen and k != 15 and k != 14:
            ctx.violation("C++ types", ODT + ":1", "the C++ type with the mangled name \"%s\" has no element type" % v[4], key="cpp|missing|" + v[4])


# ---------------------------------------------------------------- Python bindings

class Spec:
    """The bindings' run function, specialised for one answer of the environment."""

    def __init__(self, ctx):
        path = build.files(PY)[0]
        ctx.units.add(PY)
        out = os.path.join(build.scratch(), "py.ll")
        fl = [x for x in build.flags(path, asserts=False) if x not in ("-g", "-fno-discard-value-names", "-fno-builtin")]
        r = subprocess.run([build.CLANGXX] + fl + ["-D_GLIBCXX_EXTERN_TEMPLATE=0", "-emit-llvm", "-S", path, "-o", out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise AnalysisBroken("does not compile: %s\n%s" % (PY, r.stdout[-1500:]))
        t = open(out).read()
        entry = re.findall(r"^define [^\n]*@(_ZN9onnx_mlir18PyExecutionSession\d+pyRun\w*?RKSt6vector\w+)\(", t, re.M)
        if not entry:
            raise AnalysisBroken("the bindings' run function was not found")
        self.api = os.path.join(build.scratch(), "py.api")
        with open(self.api, "w") as f:
            f.write("\n".join(set(entry)) + "\n")
        small = os.path.join(build.scratch(), "py.small.ll")
        self.opt("internalize,globaldce", out, small)
        self.text = open(small).read()
        self.isinst = re.compile(r"^define [^\n]*@_ZN8pybind1110isinstanceINS_7array_tI(\w+?)Li\d+E[^(\s]*\([^\n]*\{\n", re.M)
        self.kind = re.compile(r"^define [^\n]*@_ZNK8pybind115dtype4kindEv\([^\n]*\{\n", re.M)
        self.types = sorted({m.group(1) for m in self.isinst.finditer(self.text)})

    def opt(self, passes, src, dst):
        r = subprocess.run([normal.OPT, "-S", "-passes=" + passes, "-internalize-public-api-file=" + self.api, src, "-o", dst],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise AnalysisBroken("opt: " + r.stdout[-800:])

    @staticmethod
    def body(t, m, new):
        e = t.index("\n}\n", m.end() - 1)
        return t[:m.end()] + new + t[e + 1:]

    def specialise(self, T=None, kind=0, dtype=None):
        t = self.text
        for rx, val in ((self.isinst, lambda m: "  ret i1 %s\n" % ("true" if m.group(1) == T else "false")),
                        (self.kind, lambda m: "  ret i8 %d\n" % kind)):
            pos = 0
            while True:
                m = rx.search(t, pos)
                if not m:
                    break
                t = self.body(t, m, val(m))
                pos = m.end()
        if dtype is not None:
            t, n = re.subn(r"^declare ([^\n]*?)@omTensorGetDataType\(([^)]*)\)[^\n]*\n", "define internal i32 @omTensorGetDataType(ptr %%0) {\n  ret i32 %d\n}\n" % dtype, t, flags=re.M)
            # keep the construction of the numpy type visible
            for m in list(re.finditer(r"^define ([^\n]*?)@(_ZN8pybind115dtypeC\dEPKc)\(([^\n]*?)\)([^\n]*)\{\n", t, re.M))[::-1]:
                e = t.index("\n}\n", m.end() - 1)
                t = t[:m.start()] + "declare void @%s(ptr, ptr)\n" % m.group(2) + t[e + 3:]
        tag = re.sub(r"\W", "_", "%s_%s_%s" % (T, kind, dtype))
        src, dst = (os.path.join(build.scratch(), "s_%s%s.ll" % (tag, x)) for x in ("", "o"))
        with open(src, "w") as f:
            f.write(t)
        self.opt("internalize,globaldce,default<O2>", src, dst)
        r = open(dst).read()
        os.unlink(src)
        os.unlink(dst)
        return r


def inputs(ctx, s):
    """The element type given to a numpy array of each type."""
    jobs = [(T, 0) for T in s.types] + [(None, ord("O")), (None, ord("V"))]

    def one(j):
        t = s.specialise(j[0], j[1])
        calls = re.findall(r"(?:call|invoke)[^\n]*@(omTensorCreate\w*)\(([^\n]*)", t)
        return j, [(n, re.findall(r"(?:^|, )i32(?: \w+)* (%?[\w.-]+)", a)) for n, a in calls if n != "omTensorCreateUntyped"]
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, jobs))
    seen = 0
    for (T, kind), calls in res:
        got = {a[0] if a else "?" for _, a in calls}
        if T is None and kind == ord("V"):
            ctx.ok("python inputs", "a numpy array of an unsupported type")
            for g in sorted(got):
                if re.match(r"-?\d+$", g) and 1 <= int(g) <= 22:
                    ctx.violation("python inputs", PY + ":1", "a numpy array of an unsupported type is passed as %s" % TYPES[int(g)][0], key="pyin|unsupported")
            continue
        want = 8 if T is None else MANGLED.get(T)
        if want is None:
            ctx.notes.append("no expectation for numpy arrays of C++ type " + T)
            continue
        what = "numpy arrays of %s" % ("objects" if T is None else TYPES[want][3])
        ctx.ok("python inputs", what)
        seen += 1
        if not got:
            ctx.notes.append("%s reach no tensor" % what)
        for g in sorted(got):
            if not re.match(r"-?\d+$", g):
                ctx.notes.append("the type of %s does not fold" % what)
            elif int(g) != want:
                ctx.violation("python inputs", PY + ":1", "%s are passed to the model as %s, not %s" %
                              (what, TYPES.get(int(g), ("type %s" % g,))[0], TYPES[want][0]), key="pyin|%s" % TYPES[want][0])
            else:
                ctx.ok("folded")
    return seen


def outputs(ctx, s):
    """The numpy type given to an output of each element type."""
    strs = {}

    def one(k):
        t = s.specialise(dtype=k)
        consts = dict(re.findall(r'^@([\w.]+) = [^\n]*constant \[\d+ x i8\] c"([^"]*)\\00"', t, re.M))
        names = []
        for a in re.findall(r"(?:call|invoke)[^\n]*@_ZN8pybind115dtypeC\dEPKc\(ptr[^,]*, ptr([^)]*)\)", t):
            m = re.search(r"@([\w.]+)", a)
            names.append(consts.get(m.group(1)) if m else None)
        return k, names
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, sorted(TYPES)))
    for k, names in res:
        tag = TYPES[k][0]
        ctx.ok("python outputs", "outputs of type " + tag)
        if not names and TYPES[k][3] is not None and k != 8 and k != 16:
            ctx.notes.append("no numpy type for outputs of type " + tag)
        for n in names:
            if n is None:
                ctx.notes.append("the numpy type of outputs of type %s does not fold" % tag)
            elif NUMPY.get(n.lstrip("<=|"), k if k >= 16 else -1) != k:
                ctx.violation("python outputs", PY + ":1", "outputs of type %s are given the numpy type %s" % (tag, n), key="pyout|" + tag)
            else:
                ctx.ok("folded")


# ---------------------------------------------------------------- Python scripts

MLIR = {v[2]: k for k, v in TYPES.items() if v[2]}


def scripts(ctx):
    found = 0
    for f in sorted(glob.glob(os.path.join(build.REPO, "utils/*.py")) + glob.glob(os.path.join(build.REPO, "src/Runtime/python/*.py"))):
        rel = os.path.relpath(f, build.REPO)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                tree = ast.parse(open(f).read())
        except SyntaxError as e:
            ctx.notes.append("does not parse: %s (%s)" % (rel, e))
            continue
        for d in ast.walk(tree):
            if not isinstance(d, ast.Dict):
                continue
            keys = [k.value if isinstance(k, ast.Constant) else None for k in d.keys]
            if len([k for k in keys if k in MLIR]) < 6:
                continue
            vals = {k: npname(v) for k, v in zip(keys, d.values)}
            if not any(v in NUMPY for v in vals.values()):
                continue
            found += 1
            ctx.units.add(rel)
            for k, v, node in zip(keys, (npname(v) for v in d.values), d.values):
                if k in MLIR and v in NUMPY:
                    ctx.ok("script types", "%s: %s" % (rel, k))
                    if NUMPY[v] != MLIR[k]:
                        ctx.violation("scripts", "%s:%d" % (rel, node.lineno), "the element type \"%s\" of a signature is given the numpy type %s" % (k, v),
                                      key="script|%s|%s" % (rel, k))
                elif k in MLIR:
                    ctx.notes.append("%s:%d: no numpy type recognised for %s" % (rel, node.lineno, k))
    if not found:
        ctx.notes.append("no table from signature types to numpy types found in the scripts")


def npname(v):
    """The numpy type an expression names, or None."""
    if isinstance(v, ast.Constant) and isinstance(v.value, str):
        return v.value
    if isinstance(v, ast.Call) and len(v.args) == 1 and isinstance(v.func, (ast.Attribute, ast.Name)) and \
            (v.func.attr if isinstance(v.func, ast.Attribute) else v.func.id) == "dtype":
        return npname(v.args[0])
    if isinstance(v, ast.Attribute):
        return v.attr
    if isinstance(v, ast.Name) and v.id in ("bool", "str", "object"):
        return v.id
    return None


# ---------------------------------------------------------------- Java

JT, JR = "src/Runtime/jni/src/com/ibm/onnxmlir/OMTensor.java", "src/Runtime/jni/src/com/ibm/onnxmlir/OMRunner.java"
JDATA = {"byte[]": (1, {3, 2, 9}), "short[]": (2, {5, 4}), "int[]": (4, {6, 12}), "long[]": (8, {7, 13}), "float[]": (4, {1}), "double[]": (8, {11})}


def java(ctx):
    fs = [os.path.join(build.REPO, f) for f in (JT, JR)]
    if not all(map(os.path.exists, fs)):
        ctx.notes.append("no Java sources")
        return
    r = subprocess.run(["java", os.path.join(build.VERIF, "tools/JavaDump.java")] + fs, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode:
        raise AnalysisBroken("JavaDump: " + r.stderr[-800:])
    ctx.units |= {JT, JR}
    d = json.loads(r.stdout)
    cls = {}
    for unit in d:
        for c in unit:
            cls[c[1]] = c[2]
    env = {}
    for c in cls.values():
        for m in c:
            if m[0] == "var" and m[3] and m[3][0] == "lit":
                env[m[1]] = m[3][1]
    tags = {v[0]: k for k, v in TYPES.items()}
    for n, v in sorted(env.items()):
        m = re.match(r"ONNX_TYPE_(\w+)$", n)
        if m and m.group(1) in tags:
            ctx.ok("java", "the constant " + n)
            if v != tags[m.group(1)]:
                ctx.violation("java", JT + ":1", "the number of element type %s is %s, not %d" % (m.group(1), v, tags[m.group(1)]), key="java|num|" + n)
    for m in cls.get("OMTensor", []):
        if m[0] == "var" and m[3] and m[3][0] == "array":
            vals = [x[1] if x[0] == "lit" else None for x in m[3][1]]
            for k, v in enumerate(vals):
                if k not in TYPES or v is None:
                    continue
                if m[2] == "int[]" and "SIZE" in m[1]:
                    ctx.ok("java", "%s[%d]" % (m[1], k))
                    if v != TYPES[k][1] and not (k == 8 and v == 0):
                        ctx.violation("java", JT + ":1", "the size of element type %s is %d, not %d" % (TYPES[k][0], v, TYPES[k][1]), key="java|size|%d" % k)
                elif m[2] == "String[]" and "NAME" in m[1]:
                    ctx.ok("java", "%s[%d]" % (m[1], k))
                    if v != TYPES[k][0]:
                        ctx.violation("java", JT + ":1", "element type %s is named %s" % (TYPES[k][0], v), key="java|name|%d" % k)
        if m[0] == "method" and m[4]:
            setter(ctx, m, env)
            getter(ctx, m, env)
    for m in cls.get("OMRunner", []):
        if m[0] == "var" and m[3]:
            runner(ctx, m, env)


def val(e, env):
    if e[0] == "lit":
        return e[1]
    if e[0] == "id":
        return env.get(e[1])
    if e[0] == "sel":
        return env.get(e[2])
    if e[0] == "bin":
        a, b = val(e[2], env), val(e[3], env)
        if e[1] in ("CONDITIONAL_AND", "CONDITIONAL_OR"):
            stop = e[1] == "CONDITIONAL_OR"
            return stop if a is stop or b is stop else None if a is None or b is None else not stop
        if a is None or b is None:
            return None
        return {"EQUAL_TO": lambda: a == b, "NOT_EQUAL_TO": lambda: a != b, "LESS_THAN": lambda: a < b,
                "GREATER_THAN": lambda: a > b, "LESS_THAN_EQUAL": lambda: a <= b, "GREATER_THAN_EQUAL": lambda: a >= b,
                "PLUS": lambda: a + b if type(a) is type(b) else None}.get(e[1], lambda: None)()
    if e[0] == "un" and e[1] == "LOGICAL_COMPLEMENT":
        a = val(e[2], env)
        return None if a is None else not a
    return None


def trees(e, kind):
    if isinstance(e, list):
        if e and e[0] == kind:
            yield e
        for x in e:
            yield from trees(x, kind)


def setter(ctx, m, env):
    _, name, ret, params, body = m
    if not (name.startswith("set") and name.endswith("Data") and len(params) == 1 and params[0][2] in JDATA):
        return
    width, ok = JDATA[params[0][2]]
    if "Bool" in name:
        ok = {9}
    elif params[0][2] == "byte[]":
        ok = {3, 2}
    for a in trees(body, "assign"):
        if a[1] == ["id", "_dataType"]:
            v = val(a[2], env)
            if v is None:
                continue
            ctx.ok("java", name)
            if v not in ok:
                ctx.violation("java", JT + ":1", "%s marks the tensor as %s" % (name, TYPES.get(v, (v,))[0]), key="java|set|" + name)
    for c in trees(body, "call"):
        if c[1][-1] == "allocateDirect" and len(c[2]) == 1 and params[0][2] != "ByteBuffer":
            e = c[2][0]
            w = 1 if e[0] == "sel" else None
            if e[0] == "bin" and e[1] == "MULTIPLY":
                w = next((x[1] for x in e[2:] if x[0] == "lit"), None)
            if w is not None:
                ctx.ok("java", name)
                if w != width:
                    ctx.violation("java", JT + ":1", "%s reserves %s bytes for elements of %d bytes" % (name, w, width), key="java|alloc|" + name)


def getter(ctx, m, env):
    _, name, ret, params, body = m
    if not (name.startswith("get") and name.endswith("Data") and not params and ret in JDATA):
        return
    width, ok = JDATA[ret]
    if "Bool" in name:
        ok = {9}
    elif ret == "byte[]":
        ok = {3, 2}
    first = body[1][0] if body[1] else None
    if not first or first[0] != "if" or not any(trees(first[2], "throw")):
        ctx.notes.append("no test of the element type recognised in " + name)
        return
    for k in sorted(TYPES):
        v = val(first[1], dict(env, _dataType=k))
        if v is None:
            continue
        ctx.ok("java", "%s on %s" % (name, TYPES[k][0]))
        if v is False and k not in ok:
            ctx.violation("java", JT + ":1", "%s accepts a tensor of type %s" % (name, TYPES[k][0]), key="java|get|%s|%d" % (name, k))
        elif v is True and k in ok:
            ctx.violation("java", JT + ":1", "%s rejects a tensor of type %s" % (name, TYPES[k][0]), key="java|get|%s|%d" % (name, k))




def runner(ctx, m, env):
    for c in trees(m[3], "call"):
        if c[1][-1] != "put" or len(c[2]) != 2:
            continue
        code, num = None, None
        for x in c[2]:
            v = val(x, env)
            if isinstance(v, int) and not isinstance(v, bool):
                num = v
            for l in trees(x, "lit"):
                if isinstance(l[1], str):
                    code = l[1].lstrip("|<>")
        if code in CODES and num is not None:
            ctx.ok("java", "%s: %s" % (m[1], code))
            if CODES[code] != num:
                ctx.violation("java", JR + ":1", "the numpy type code %s stands for %s in %s" % (code, TYPES.get(num, (num,))[0], m[1]), key="java|%s|%s" % (m[1], code))


def rtypes(ctx, tier):
    ctx.rule("table", "every number, size and name of an element type in the C and C++ runtime folds to the one ONNX and the model signature give it")
    ctx.rule("C++ types", "the map from C++ types gives each the element type of its representation")
    ctx.rule("python inputs", "specialised for one numpy type, the bindings create a tensor of that element type and nothing else")
    ctx.rule("python outputs", "specialised for one element type, the bindings give the output that type's numpy type")
    ctx.rule("scripts", "tables from signature types to numpy types in the Python scripts pair a type with itself")
    ctx.rule("java", "constants, size and name tables, typed setters and getters and the numpy type codes of the Java API agree with ONNX")
    tables(ctx)
    cppmap(ctx)
    s = Spec(ctx)
    inputs(ctx, s)
    outputs(ctx, s)
    scripts(ctx)
    java(ctx)
    ctx.need("numbers", 40)
    ctx.need("widths", 60)
    ctx.need("names", 12)
    ctx.need("python outputs", 20)
    return ("Each probe asks one table or conversion function of the runtime about one constant type number or name and is folded by clang's optimiser; "
            "the bindings' run function is specialised for every numpy type and element type and the remaining calls are inspected; scripts and Java sources are "
            "decided on their syntax trees.")

"""Front end: compile /repo's sources to bitcode and normalise them with irx."""
import concurrent.futures
import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile

from .engine import Module, AnalysisBroken

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SA_REPO", "/repo")
CLANG = "clang-18"
CLANGXX = "clang++-18"
IRX = os.path.join(VERIF, "build", "irx")

_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="sa.")
        import atexit
        atexit.register(shutil.rmtree, _scratch, True)
        # the two headers CMake would generate, so that nothing depends on a
        # build tree being present
        inc = os.path.join(_scratch, "inc")
        os.makedirs(os.path.join(inc, "src/Accelerators"))
        with open(os.path.join(inc, "src/Accelerators/Accelerators.inc"), "w") as f:
            f.write("#define APPLY_TO_ACCELERATORS(MACRO, ...) \n"
                    "#define APPLY_TO_NO_ACCELERATORS(MACRO) MACRO \n")
        src = os.path.join(REPO, "src/Compiler/ExternalUtil.hpp.in")
        if os.path.exists(src):
            with open(src) as f:
                t = f.read()
            import re
            t = re.sub(r"\$<[^<>]*(<[^<>]*>)*[^<>]*>", "/x", t)
            t = re.sub(r"@[A-Za-z0-9_]+@", "/x", t)
            t = re.sub(r"\$\{[A-Za-z0-9_]+\}", "/x", t)
            with open(os.path.join(inc, "ExternalUtil.hpp"), "w") as f:
                f.write(t)
    return _scratch


def ensure_irx():
    src = os.path.join(VERIF, "tools", "irx.cpp")
    if os.path.exists(IRX) and os.path.getmtime(IRX) >= os.path.getmtime(src):
        return
    os.makedirs(os.path.dirname(IRX), exist_ok=True)
    tmp = IRX + ".%d" % os.getpid()
    cmd = ("%s -O1 -std=c++17 %s -o %s $(llvm-config-18 --cxxflags | sed 's/-std=[^ ]*//;s/-fno-exceptions//') "
           "$(llvm-config-18 --ldflags --libs)" % (CLANGXX, src, tmp))
    r = subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise AnalysisBroken("cannot build irx: " + r.stdout[-2000:])
    os.replace(tmp, IRX)


def pyinc():
    for d in sorted(glob.glob("/usr/include/python3*")):
        if os.path.exists(os.path.join(d, "Python.h")):
            return ["-isystem", d]
    return []


def flags(path, asserts=True):
    c = path.endswith(".c")
    f = ["-std=gnu17" if c else "-std=c++17", "-I" + REPO, "-I" + REPO + "/include",
         "-I" + scratch() + "/inc", "-I/usr/lib/llvm-20/include", "-DONNX_ML=1", "-DONNX_NAMESPACE=onnx",
         "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS", "-fPIC", "-O1",
         "-Xclang", "-disable-llvm-passes", "-g", "-fno-discard-value-names", "-fno-builtin", "-w"]
    if "/python/" in path:
        f += pyinc()
    if not asserts:
        f += ["-DNDEBUG"]
    return f


def compile_bc(path, asserts=True, extra=()):
    out = os.path.join(scratch(), path.replace("/", "_") + ("" if asserts else ".nd") + ".bc")
    if os.path.exists(out):
        return out
    cc = CLANG if path.endswith(".c") else CLANGXX
    cmd = [cc] + flags(path, asserts) + list(extra) + ["-emit-llvm", "-c", path, "-o", out]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise AnalysisBroken("does not compile: %s\n%s" % (path, r.stdout[-3000:]))
    return out


def files(*pats):
    r = []
    for p in pats:
        g = sorted(glob.glob(os.path.join(REPO, p)))
        if not g:
            raise AnalysisBroken("no source matches " + p)
        r += g
    return r


SRC = {
    "crt": (["src/Runtime/*.c", "src/Support/SmallFPConversion.c"], []),
    "rtxx": (["src/Runtime/*.cpp", "src/Support/SmallFPConversion.c"], []),
    "pyrt": (["src/Runtime/*.cpp", "src/Runtime/python/PyExecutionSession*.cpp", "src/Support/SmallFPConversion.c"],
             []),
    "driver": (["src/Compiler/Command.cpp", "src/Compiler/CommandUtils.cpp", "src/Compiler/OMCompile.cpp"], []),
    "pycompile": (["src/Compiler/Command.cpp", "src/Compiler/CommandUtils.cpp", "src/Compiler/OMCompile.cpp",
                   "src/Runtime/python/PyOMCompile*.cpp"], []),
    "option": (["src/Compiler/OptionUtils.cpp"], []),
    "options": (["src/Compiler/CompilerOptions.cpp", "src/Compiler/JsonConfigObject.cpp"], []),
    "decoder": (["src/Tools/binary-decoder/*.cpp"], []),
    "elements": (["src/Dialect/ONNX/ElementsAttr/*.cpp", "src/Support/SmallFP.cpp", "src/Support/TypeUtilities.cpp",
                  "src/Support/SmallFPConversion.c"], []),
    "support": (["src/Support/SmallFP.cpp", "src/Support/TypeUtilities.cpp", "src/Support/Diagnostic.cpp",
                 "src/Support/SmallFPConversion.c"], []),
}

_loaded = {}


def sources(group):
    pats, skip = SRC[group]
    r = [f for f in files(*pats)]
    if group in ("rtxx", "pyrt"):
        pass
    return r


def load(group, keep=(), keepall=False, specs=(), inline=(), asserts=True, extra_src=(), only=None, pipeline=None,
         inline_std=None, relevant=None, small=60):
    """Compile the group's sources and return the normalised Module."""
    key = json.dumps([group, sorted(keep), keepall, list(specs), sorted(inline), asserts, list(extra_src), only,
                      pipeline, inline_std, relevant, small])
    if key in _loaded:
        return _loaded[key]
    ensure_irx()
    srcs = sources(group) if group else []
    if only:
        srcs = [s for s in srcs if os.path.basename(s) in only]
    srcs = srcs + list(extra_src)
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        bcs = list(ex.map(lambda s: compile_bc(s, asserts), srcs))
    cfg = {"inputs": bcs, "repo": REPO, "keep": list(keep), "keepall": keepall, "specs": list(specs)}
    if pipeline:
        cfg["pipeline"] = pipeline
    if inline_std:
        cfg["inline_std"] = inline_std
    if relevant:
        cfg["relevant"] = relevant
        cfg["small"] = small
    n = len(_loaded)
    cj = os.path.join(scratch(), "cfg%d.json" % n)
    oj = os.path.join(scratch(), "out%d.json" % n)
    with open(cj, "w") as f:
        json.dump(cfg, f)
    r = subprocess.run([IRX, cj, oj], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise AnalysisBroken("irx failed: " + r.stdout[-2000:])
    with open(oj) as f:
        m = Module(json.load(f))
    os.unlink(oj)
    m.units = [os.path.relpath(s, REPO) for s in srcs]
    m.log = r.stdout
    _loaded[key] = m
    return m

"""Comparison of functions in LLVM's optimised normal form.

Each obligation is a pair of functions in one translation unit: `probe_<name>`
reaches the code under analysis, `ref_<name>` states what it must compute.  Both
are specialised by the optimiser (inlining, constant propagation, dead code
elimination; nothing is executed) and must become the same function.  Where the
two normal forms differ, a pair is a violation only if the optimiser can fold
them to different results for one constant argument, or both are constants;
otherwise it stays undecided."""
import os
import re
import subprocess

from . import build
from .engine import AnalysisBroken

OPT = "opt-18"
LINK = "llvm-link-18"


def compile_units(src, units, std="c++17", extra=()):
    out = []
    for s in [src] + list(units):
        o = os.path.join(build.scratch(), "n_" + re.sub(r"\W", "_", s) + ".bc")
        if not os.path.exists(o) or s == src:
            c = s.endswith(".c")
            cmd = [build.CLANG if c else build.CLANGXX]
            f = [x for x in build.flags(s, asserts=False) if x not in ("-g", "-fno-discard-value-names", "-fPIC", "-fno-builtin")]
            f = [("-std=" + std if x.startswith("-std=") and not c else x) for x in f]
            cmd += f + ["-O2", "-ferror-limit=0", "-fno-exceptions", "-fno-threadsafe-statics", "-fno-math-errno", "-fno-access-control"] + list(extra) + ["-emit-llvm", "-c", s, "-o", o]
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                raise CompileError(r.stdout)
        out.append(o)
    return out


class CompileError(Exception):
    pass


def bodies(src, units, std="c++17", extra=(), optflags=()):
    """name -> normalised body text of every probe_/ref_ function."""
    bcs = compile_units(src, units, std, extra)
    linked = os.path.join(build.scratch(), "n_linked.bc")
    r = subprocess.run([LINK, "-o", linked] + bcs, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise AnalysisBroken("llvm-link: " + r.stdout[-1500:])
    ll = os.path.join(build.scratch(), "n_opt.ll")
    keep = "internalize-public-api-list"
    names = os.path.join(build.scratch(), "n_names")
    d = subprocess.run("llvm-nm-18 --defined-only -j %s" % linked, shell=True, stdout=subprocess.PIPE, text=True).stdout.split()
    with open(names, "w") as f:
        f.write("\n".join(x for x in d if x.startswith(("probe_", "ref_"))) + "\n")
    cmd = [OPT, "-S", "-o", ll, "-passes=internalize,default<O2>,default<O2>,strip", "-internalize-public-api-file=" + names,
           "-inline-threshold=4000"] + list(optflags) + [linked]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise AnalysisBroken("opt: " + r.stdout[-1500:])
    return parse(open(ll).read())


META = re.compile(r", ![a-zA-Z.]+ ![0-9]+|, !(?:tbaa|range|noundef|nonnull)[^,\n]*")


def parse(text):
    res = {}
    attrs = re.compile(r"\b(noundef|nonnull|nocapture|readonly|writeonly|readnone|local_unnamed_addr|unnamed_addr|dso_local|"
                       r"signext|zeroext|returned|noalias|inreg|immarg|nofree|nosync|mustprogress|tail|notail|musttail|fastcc|"
                       r"align \d+|dereferenceable\(\d+\)|dereferenceable_or_null\(\d+\)|captures\([a-z]*\)|nuw|nsw|exact|disjoint|nneg|"
                       r"range\([^)]*\)|writable|dead_on_unwind|initializes\([^)]*\)) ?")
    for m in re.finditer(r"^define (.*?)@\"?([\w.$]+)\"?\((.*?)\)([^\n]*)\{\n(.*?)^\}", text, re.S | re.M):
        name = m.group(2)
        if not name.startswith(("probe_", "ref_")):
            continue
        lines = [attrs.sub("", m.group(1)).strip() + "(" + attrs.sub("", m.group(3)) + ")"]
        for l in m.group(5).split("\n"):
            if re.search(r"call void @llvm\.(lifetime|assume|experimental\.noalias)", l):
                continue
            l = l.split(" ; preds")[0].split(" ;")[0]
            l = META.sub("", l)
            l = re.sub(r" #\d+", "", l)
            l = attrs.sub("", l)
            if l.strip():
                lines.append(re.sub(r"\s+", " ", l).strip())
        res[name] = renumber("\n".join(lines)).replace("@" + name, "@self")
    return res


def renumber(t):
    """Number values and blocks in order of appearance."""
    mp = {}

    def sub(m):
        return mp.setdefault(m.group(1), "%%v%d" % len(mp))
    lines = []
    for l in t.split("\n"):
        mm = re.match(r"^(\d+):", l)
        if mm:
            l = "%" + mm.group(1) + ":" + l[mm.end():]
        lines.append(l)
    return re.sub(r"%(\"[^\"]+\"|[\w.$]+)", lambda m: m.group(0) if m.group(1).startswith(("class.", "struct.", "union.", "\"class", "\"struct", "\"union")) else sub(m),
                  "\n".join(lines))


def constant(body):
    """The constant a normalised body returns on every path that returns, or None."""
    rets = set(re.findall(r"^ret (.+)$", body, re.M))
    if len(rets) == 1:
        v = rets.pop()
        if "%" not in v and v != "void":
            return v
    return None


# Makes the comparison of strings with literals foldable: the standard strings are
# instantiated in the unit and memcmp is a loop the optimiser can unroll.
FOLD_H = """#pragma once
#ifdef __cplusplus
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#endif
#include <string.h>
#include <strings.h>
#ifdef __cplusplus
#define NX noexcept
extern "C" {
#else
#define NX
#endif
__attribute__((always_inline, no_builtin)) inline int memcmp(const void *a, const void *b, size_t n) NX {
  const unsigned char *x = (const unsigned char *)a, *y = (const unsigned char *)b;
  for (size_t i = 0; i < n; ++i) if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1;
  return 0; }
__attribute__((always_inline, no_builtin)) inline int bcmp(const void *a, const void *b, size_t n) NX {
  const unsigned char *x = (const unsigned char *)a, *y = (const unsigned char *)b;
  for (size_t i = 0; i < n; ++i) if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1;
  return 0; }
__attribute__((always_inline, no_builtin)) inline int strcmp(const char *a, const char *b) NX {
  for (;; ++a, ++b) if (*a != *b || !*a) return (unsigned char)*a - (unsigned char)*b; }
__attribute__((always_inline, no_builtin)) inline int strncmp(const char *a, const char *b, size_t n) NX {
  for (; n; ++a, ++b, --n) if (*a != *b || !*a) return (unsigned char)*a - (unsigned char)*b;
  return 0; }
__attribute__((always_inline, no_builtin)) inline int strcasecmp(const char *a, const char *b) NX {
  for (;; ++a, ++b) { int x = (unsigned char)*a, y = (unsigned char)*b; if (x >= 'A' && x <= 'Z') x += 32; if (y >= 'A' && y <= 'Z') y += 32; if (x != y || !x) return x - y; } }
void *fold_memchr(const void *a, int c, size_t n) NX __asm__("memchr");
__attribute__((always_inline, no_builtin, used)) inline void *fold_memchr(const void *a, int c, size_t n) NX {
  const unsigned char *x = (const unsigned char *)a;
  for (size_t i = 0; i < n; ++i) if (x[i] == (unsigned char)c) return (void *)(x + i);
  return 0; }
#ifdef __cplusplus
}
#endif
"""
UNROLL = ("-unroll-threshold=100000", "-unroll-full-max-count=64")


def folding():
    """Compiler options for foldable strings."""
    h = os.path.join(build.scratch(), "fold.h")
    with open(h, "w") as f:
        f.write(FOLD_H)
    r = ["-include", h, "-fno-builtin-memcmp", "-fno-builtin-bcmp", "-fno-builtin-strcmp", "-fno-builtin-strncmp", "-fno-builtin-memchr"]
    for u in UNROLL:
        r += ["-mllvm", u]
    return r + ["-mllvm", "-inline-threshold=4000"]

"""E01: every layer of the compiler means the same by an element type."""
import os
import re
import subprocess

from .. import build, normal
from ..engine import AnalysisBroken

# tag, ONNX number, C++ type, kind (f, s, u), bits, MLIR type
F, S, U = "f", "s", "u"
TYPES = [
    ("FLOAT", 1, "float", F, 32, "Float32Type::get(c)"),
    ("UINT8", 2, "uint8_t", U, 8, "IntegerType::get(c, 8, IntegerType::Unsigned)"),
    ("INT8", 3, "int8_t", S, 8, "IntegerType::get(c, 8)"),
    ("UINT16", 4, "uint16_t", U, 16, "IntegerType::get(c, 16, IntegerType::Unsigned)"),
    ("INT16", 5, "int16_t", S, 16, "IntegerType::get(c, 16)"),
    ("INT32", 6, "int32_t", S, 32, "IntegerType::get(c, 32)"),
    ("INT64", 7, "int64_t", S, 64, "IntegerType::get(c, 64)"),
    ("BOOL", 9, "bool", U, 1, "IntegerType::get(c, 1)"),
    ("FLOAT16", 10, "float_16", F, 16, "Float16Type::get(c)"),
    ("DOUBLE", 11, "double", F, 64, "Float64Type::get(c)"),
    ("UINT32", 12, "uint32_t", U, 32, "IntegerType::get(c, 32, IntegerType::Unsigned)"),
    ("UINT64", 13, "uint64_t", U, 64, "IntegerType::get(c, 64, IntegerType::Unsigned)"),
    ("BFLOAT16", 16, "bfloat_16", F, 16, "BFloat16Type::get(c)"),
    ("FLOAT8E4M3FN", 17, "float_8e4m3fn", F, 8, "Float8E4M3FNType::get(c)"),
    ("FLOAT8E4M3FNUZ", 18, "float_8e4m3fnuz", F, 8, "Float8E4M3FNUZType::get(c)"),
    ("FLOAT8E5M2", 19, "float_8e5m2", F, 8, "Float8E5M2Type::get(c)"),
    ("FLOAT8E5M2FNUZ", 20, "float_8e5m2fnuz", F, 8, "Float8E5M2FNUZType::get(c)"),
]
SEM = {"FLOAT16": "IEEEhalf", "BFLOAT16": "BFloat", "FLOAT8E4M3FN": "Float8E4M3FN", "FLOAT8E4M3FNUZ": "Float8E4M3FNUZ",
       "FLOAT8E5M2": "Float8E5M2", "FLOAT8E5M2FNUZ": "Float8E5M2FNUZ"}
MAXIMUM = {"FLOAT16": "65504.0f", "BFLOAT16": "3.38953139e38f", "FLOAT8E4M3FN": "448.0f", "FLOAT8E4M3FNUZ": "240.0f",
           "FLOAT8E5M2": "57344.0f", "FLOAT8E5M2FNUZ": "57344.0f"}
WIDE = {F: ("double", "dbl", 11), S: ("int64_t", "i64", 7), U: ("uint64_t", "u64", 13)}

HEAD = r'''
#include "mlir/IR/BuiltinTypeInterfaces.h"
static int mFloat;
extern "C" char model_concept;
namespace mlir {
template <> inline FloatType::Concept *AbstractType::getInterface<FloatType>() const {
  return mFloat ? (FloatType::Concept *)&model_concept : nullptr; }
}
#include "src/Dialect/ONNX/ElementsAttr/BType.hpp"
#include "src/Dialect/ONNX/ElementsAttr/WideNum.hpp"
#include "src/Dialect/ONNX/ElementsAttr/DisposableElementsAttr.hpp"
#include "src/Support/SmallFP.hpp"
#include "mlir/IR/Builders.h"
#include "mlir/IR/BuiltinAttributes.h"
#include "mlir/IR/BuiltinTypes.h"
#include <string.h>
using namespace onnx_mlir;
using mlir::IntegerType; using mlir::Type; using mlir::MLIRContext;
using mlir::Float16Type; using mlir::Float32Type; using mlir::Float64Type; using mlir::BFloat16Type;
using mlir::Float8E4M3FNType; using mlir::Float8E4M3FNUZType; using mlir::Float8E5M2Type; using mlir::Float8E5M2FNUZType;
using llvm::APFloat; using llvm::APInt;
#define P(R, N, ...) extern "C" R N(__VA_ARGS__)
static inline uint64_t bits(WideNum w) { uint64_t u; memcpy(&u, &w, 8); return u; }
static inline WideNum wide(uint64_t u) { WideNum w; memcpy(&w, &u, 8); return w; }
static inline double todbl(uint64_t u) { double d; memcpy(&d, &u, 8); return d; }
static inline uint64_t ofdbl(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
// A model of the parts of MLIR's types that the code under analysis may ask.
static unsigned mWidth; static int mSign;
namespace mlir {
unsigned IntegerType::getWidth() const { return mWidth; }
IntegerType::SignednessSemantics IntegerType::getSignedness() const { return (IntegerType::SignednessSemantics)mSign; }
bool Type::isInteger() const { return !mFloat; }
bool Type::isInteger(unsigned w) const { return !mFloat && mWidth == w; }
bool Type::isSignlessInteger() const { return !mFloat && mSign == 0; }
bool Type::isSignlessInteger(unsigned w) const { return !mFloat && mSign == 0 && mWidth == w; }
bool Type::isSignedInteger() const { return !mFloat && mSign == 1; }
bool Type::isSignedInteger(unsigned w) const { return !mFloat && mSign == 1 && mWidth == w; }
bool Type::isUnsignedInteger() const { return !mFloat && mSign == 2; }
bool Type::isUnsignedInteger(unsigned w) const { return !mFloat && mSign == 2 && mWidth == w; }
bool Type::isF32() const { return mFloat == 1; }
bool Type::isF16() const { return mFloat == 10; }
bool Type::isF64() const { return mFloat == 11; }
bool Type::isBF16() const { return mFloat == 16; }
unsigned Type::getIntOrFloatBitWidth() const { return mWidth; }
bool Type::isIntOrFloat() const { return true; }
FloatType Builder::getF16Type() { return FloatType(Float16Type::get(context), nullptr); }
FloatType Builder::getF32Type() { return FloatType(Float32Type::get(context), nullptr); }
FloatType Builder::getF64Type() { return FloatType(Float64Type::get(context), nullptr); }
FloatType Builder::getBF16Type() { return FloatType(BFloat16Type::get(context), nullptr); }
IntegerType Builder::getI1Type() { return IntegerType::get(context, 1); }
IntegerType Builder::getI8Type() { return IntegerType::get(context, 8); }
IntegerType Builder::getI16Type() { return IntegerType::get(context, 16); }
IntegerType Builder::getI32Type() { return IntegerType::get(context, 32); }
IntegerType Builder::getI64Type() { return IntegerType::get(context, 64); }
IntegerType Builder::getIntegerType(unsigned w) { return IntegerType::get(context, w); }
IntegerType Builder::getIntegerType(unsigned w, bool s) {
  return IntegerType::get(context, w, s ? IntegerType::Signed : IntegerType::Unsigned); }
} // namespace mlir
// A model of arbitrary-precision floats: a format and an uninterpreted value.
#define PURE extern "C" __attribute__((const, nothrow))
PURE uint64_t model_ofbits(const void *, uint64_t); PURE uint64_t model_bits(const void *, uint64_t);
PURE uint64_t model_offloat(float); PURE uint64_t model_ofdouble(double); PURE int model_category(const void *, uint64_t);
PURE uint64_t model_convert(const void *, uint64_t, const void *, int); PURE float model_tofloat(const void *, uint64_t);
PURE double model_todouble(const void *, uint64_t); PURE bool model_loses(const void *, uint64_t, const void *, int);
#define SEM(X) extern "C" char sem_##X; const llvm::fltSemantics &llvm::APFloatBase::X() { return *(const llvm::fltSemantics *)&sem_##X; }
SEM(IEEEhalf) SEM(BFloat) SEM(IEEEsingle) SEM(IEEEdouble) SEM(IEEEquad) SEM(PPCDoubleDouble) SEM(PPCDoubleDoubleLegacy) SEM(Float8E5M2)
SEM(Float8E5M2FNUZ) SEM(Float8E4M3) SEM(Float8E4M3FN) SEM(Float8E4M3FNUZ) SEM(Float8E4M3B11FNUZ) SEM(Float8E3M4) SEM(FloatTF32)
SEM(Float8E8M0FNU) SEM(Float6E3M2FN) SEM(Float6E2M3FN) SEM(Float4E2M1FN) SEM(x87DoubleExtended)
static inline unsigned widthOf(const void *s) {
  return s == &sem_IEEEhalf || s == &sem_BFloat ? 16 : s == &sem_IEEEsingle ? 32 : s == &sem_IEEEdouble ? 64 : 8; }
namespace llvm { namespace detail {
static inline void fill(IEEEFloat *f, const fltSemantics *s, uint64_t v) {
  memset((void *)f, 0, sizeof *f); f->semantics = s; f->significand.part = v; f->category = (APFloatBase::fltCategory)(model_category(s, v) & 3); }
IEEEFloat::IEEEFloat(const IEEEFloat &r) { semantics = r.semantics; significand.part = r.significand.part; exponent = r.exponent; category = r.category; sign = r.sign; }
IEEEFloat::IEEEFloat(IEEEFloat &&r) { semantics = r.semantics; significand.part = r.significand.part; exponent = r.exponent; category = r.category; sign = r.sign; }
IEEEFloat &IEEEFloat::operator=(const IEEEFloat &r) { semantics = r.semantics; significand.part = r.significand.part; exponent = r.exponent; category = r.category; sign = r.sign; return *this; }
IEEEFloat &IEEEFloat::operator=(IEEEFloat &&r) { semantics = r.semantics; significand.part = r.significand.part; exponent = r.exponent; category = r.category; sign = r.sign; return *this; }
IEEEFloat::~IEEEFloat() {}
IEEEFloat::IEEEFloat(const fltSemantics &s, const APInt &a) {
  uint64_t raw = a.U.VAL; unsigned w = a.BitWidth; if (w < 64) raw &= (1ULL << w) - 1; fill(this, &s, model_ofbits(&s, raw)); }
IEEEFloat::IEEEFloat(float x) { fill(this, &APFloatBase::IEEEsingle(), model_offloat(x)); }
IEEEFloat::IEEEFloat(double x) { fill(this, &APFloatBase::IEEEdouble(), model_ofdouble(x)); }
APInt IEEEFloat::bitcastToAPInt() const {
  unsigned w = widthOf(semantics); uint64_t b = model_bits(semantics, significand.part);
  if (w < 64) b &= (1ULL << w) - 1; return APInt(w, b); }
float IEEEFloat::convertToFloat() const { return model_tofloat(semantics, significand.part); }
double IEEEFloat::convertToDouble() const { return model_todouble(semantics, significand.part); }
} // namespace detail
APFloat::opStatus APFloat::convert(const fltSemantics &s, roundingMode m, bool *loses) {
  *loses = model_loses(U.semantics, U.IEEE.significand.part, &s, (int)m);
  detail::fill(&U.IEEE, &s, model_convert(U.semantics, U.IEEE.significand.part, &s, (int)m)); return opOK; }
float APFloat::convertToFloat() const { return model_tofloat(U.semantics, U.IEEE.significand.part); }
double APFloat::convertToDouble() const { return model_todouble(U.semantics, U.IEEE.significand.part); }
} // namespace llvm
namespace llvm { APFloat::Storage::Storage(detail::IEEEFloat f, const fltSemantics &s) { new (&IEEE) detail::IEEEFloat(f); IEEE.semantics = &s; } }
static inline void ieee(const llvm::APFloat *a) { if ((const void *)&a->getSemantics() == (const void *)&sem_PPCDoubleDouble) __builtin_unreachable(); }
static inline void word(const llvm::APInt *a) { if (a->getBitWidth() > 64 || a->getBitWidth() < 1) __builtin_unreachable(); }
template <class T> static inline void is(Type t, int fl, unsigned w, int s) { mFloat = fl; mWidth = w; mSign = s;
  if (!(t.getTypeID() == mlir::TypeID::get<T>())) __builtin_unreachable(); }
'''


class Pairs:
    def __init__(self):
        self.src = [HEAD]
        self.meta = {}

    def pair(self, name, ret, params, probe, ref, kind, what, where, samples=(), marks=None):
        """probe/ref: C++ expressions or `{...}` bodies over the parameters."""
        assert name not in self.meta, name
        for pre, e in (("probe_", probe), ("ref_", ref)):
            body = e if e.startswith("{") else "{ return %s; }" % e
            self.src.append("P(%s, %s%s, %s) %s" % (ret, pre, name, params, body))
        for k, args in enumerate(samples):
            for pre in ("probe_", "ref_"):
                self.src.append("P(%s, %s%s__s%d) { return %s%s(%s); }" % (ret, pre, name, k, pre, name, args))
        self.meta[name] = (kind, what, where, list(samples), marks)


IVALS = ["0", "1", "2", "127", "128", "200", "255", "256", "-1", "-2", "-128", "-129", "32767", "32768", "40000", "65535", "65536",
         "-32769", "2147483647LL", "2147483648LL", "3000000000LL", "4294967295LL", "4294967296LL", "-2147483649LL",
         "0x7fffffffffffffffLL", "0x8000000000000000ULL", "0x123456789abcdef0ULL"]
DVALS = ["0.0", "1.0", "-1.0", "0.5", "-2.5", "100.0", "16777217.0", "0.1", "-70000.0"]
WVALS = ["(uint64_t)(%s)" % v for v in IVALS] + ["ofdbl(%s)" % v for v in DVALS]

BH = "src/Dialect/ONNX/ElementsAttr/BType.hpp"
BC = "src/Dialect/ONNX/ElementsAttr/BType.cpp"
WH = "src/Dialect/ONNX/ElementsAttr/WideNum.hpp"
WC = "src/Dialect/ONNX/ElementsAttr/WideNum.cpp"
SH = "src/Support/SmallFP.hpp"
SC = "src/Support/SmallFP.cpp"
DI = "src/Dialect/ONNX/ElementsAttr/DisposableElementsAttr.hpp.inc"


def generate():
    p = Pairs()
    yes = lambda b: "true" if b else "false"
    for tag, num, cpp, kind, nbits, get in TYPES:
        B = "BType::" + tag
        by = max(1, nbits // 8)
        tr = "BTypeTrait<%s>" % B
        facts = {"isFloat": kind == F, "isInt": kind != F, "isIntOrFloat": True, "isSignedInt": kind == S,
                 "isUnsignedInt": kind == U}
        p.pair("number_" + tag, "int", "", "(int)" + B, str(num), "tables", "the number of %s" % tag, BH)
        p.pair("onnx_" + tag, "int", "", "onnxDataTypeOfBType(%s)" % B, str(num), "tables", "the ONNX number of %s" % tag, BH)
        p.pair("ofonnx_" + tag, "int", "", "(int)btypeOfOnnxDataType(%d)" % num, str(num), "tables",
               "the tag of ONNX number %d" % num, BH)
        for f, v in facts.items():
            p.pair("%s_%s" % (f, tag), "bool", "", "%s::%s" % (tr, f), yes(v), "tables", "%s of %s" % (f, tag), BH)
            p.pair("q_%s_%s" % (f, tag), "bool", "", "%sBType(%s)" % (f, B), yes(v), "tables", "%sBType of %s" % (f, tag), BC)
        for f, v in (("bitwidth", nbits), ("bytewidth", by)):
            p.pair("%s_%s" % (f, tag), "unsigned", "", "%s::%s" % (tr, f), str(v), "tables", "%s of %s" % (f, tag), BH)
            p.pair("q_%s_%s" % (f, tag), "unsigned", "", "%sOfBType(%s)" % (f, B), str(v), "tables", "%sOfBType of %s" % (f, tag), BC)
        p.pair("cpp_" + tag, "bool", "", "std::is_same_v<CppType<%s>, %s>" % (B, cpp), "true", "tables", "the C++ type of " + tag, BH)
        p.pair("size_" + tag, "unsigned", "", "sizeof(CppType<%s>)" % B, str(by), "tables", "the size of the C++ type of " + tag, BH)
        p.pair("ofcpp_" + tag, "int", "", "(int)toBType<%s>" % cpp, str(num), "tables", "the tag of C++ type " + cpp, BH)
        p.pair("ofcppref_" + tag, "int", "", "(int)toBType<const %s &>" % cpp, str(num), "tables", "the tag of a reference to " + cpp, BH)
        p.pair("widetype_" + tag, "bool", "", "std::is_same_v<WideType<%s>, %s>" % (B, WIDE[kind][0]), "true", "tables",
               "the wide type of " + tag, BH)
        p.pair("q_wide_" + tag, "int", "", "(int)wideBTypeOfBType(%s)" % B, str(WIDE[kind][2]), "tables", "wideBTypeOfBType of " + tag, BC)
        p.pair("dispatch_" + tag, "int", "", "dispatchByBType(%s, [](auto b) { return (int)BType(b); })" % B, str(num), "tables",
               "what a dispatch on %s selects" % tag, BH)
        # conversions between tags and MLIR types
        p.pair("mlir_" + tag, "Type", "MLIRContext *c", "mlirTypeOfBType(%s, c)" % B, get, "types", "the MLIR type of " + tag, BC,
               marks=r"\w+Type3get")
        p.pair("mlircpp_" + tag, "Type", "MLIRContext *c", "toMlirType<%s>(c)" % cpp, get, "types", "the MLIR type of C++ type " + cpp,
               BH, marks=r"\w+Type3get")
        if kind == F:
            p.pair("ofmlir_" + tag, "int", "Type t", "{ is<%s>(t, %d, %d, 0); return (int)btypeOfMlirType(t); }" %
                   (get.split("::")[0], num, nbits), "{ is<%s>(t, %d, %d, 0); return %d; }" % (get.split("::")[0], num, nbits, num), "types", "the tag of MLIR type " + get.split("::")[0], BC)
        else:
            for sg, sn in ((0, "signless"), (1, "signed"), (2, "unsigned")):
                if nbits == 1 and sg or (nbits > 1 and (sg == 2) != (kind == U)):
                    continue
                p.pair("ofmlir_%s_%s" % (tag, sn), "int", "Type t",
                       "{ is<IntegerType>(t, 0, %d, %d); return (int)btypeOfMlirType(t); }" %
                       (nbits, sg), "{ is<IntegerType>(t, 0, %d, %d); return %d; }" % (nbits, sg, num), "types", "the tag of the %s %d-bit MLIR integer type" % (sn, nbits), BC)
        # widening and narrowing
        m = WIDE[kind][1]
        src = {"dbl": "todbl(w)", "i64": "(int64_t)w", "u64": "w"}[m]
        smp = [v for v in WVALS if (kind == F) == v.startswith("ofdbl")]
        small = tag in SEM
        raw = cpp if not small else "uint%d_t" % nbits
        if small:
            p.pair("narrow_" + tag, raw, "uint64_t w", "wide(w).narrow<%s>().bitcastToUInt()" % B,
                   "%s::fromFloat((float)todbl(w)).bitcastToUInt()" % cpp, "numbers", "narrowing to " + tag, WH, smp, SEMMARK)
            p.pair("widen_" + tag, "uint64_t", raw + " x", "bits(WideNum::widen<%s>(%s::bitcastFromUInt(x)))" % (B, cpp),
                   "ofdbl((double)%s::bitcastFromUInt(x).toFloat())" % cpp, "numbers", "widening " + tag, WH, [], SEMMARK)
        else:
            p.pair("narrow_" + tag, raw, "uint64_t w", "wide(w).narrow<%s>()" % B, "(%s)(%s)" % (raw, src), "numbers",
                   "narrowing to " + tag, WH, smp)
            x = {"dbl": "ofdbl((double)x)", "i64": "(uint64_t)(int64_t)x", "u64": "(uint64_t)x"}[m]
            p.pair("widen_" + tag, "uint64_t", raw + " x", "bits(WideNum::widen<%s>(x))" % B, x, "numbers", "widening " + tag, WH,
                   ["(%s)(%s)" % (raw, v) for v in (DVALS if kind == F else IVALS)])
        for t in ("double", "float", "int64_t", "uint64_t", "int32_t", "uint32_t", "int8_t", "uint8_t", "bool"):
            p.pair("to_%s_%s" % (tag, t), t, "uint64_t w", "wide(w).to<%s>(%s)" % (t, B), "static_cast<%s>(%s)" % (t, src), "numbers",
                   "reading a wide %s as %s" % (tag, t), WH, WVALS[:12] if kind != F else ["ofdbl(%s)" % v for v in ("0.0", "1.0", "2.5", "100.0")])
            x = {"dbl": "ofdbl((double)x)", "i64": "(uint64_t)(int64_t)x", "u64": "(uint64_t)x"}[m]
            p.pair("from_%s_%s" % (tag, t), "uint64_t", t + " x", "bits(WideNum::from<%s>(%s, x))" % (t, B), x, "numbers",
                   "making a wide %s from %s" % (tag, t), WH, ["(%s)%s" % (t, v) for v in ("0", "1", "100", "3", "-1" if t[0] != "u" else "7")])
        # arbitrary precision
        if kind == F:
            ref = {"DOUBLE": "APFloat(todbl(w))", "FLOAT": "APFloat((float)todbl(w))"}.get(
                tag, "APFloat(APFloat::%s(), APInt(%d, (uint64_t)%s((float)todbl(w)).bitcastToUInt()))" % (SEM.get(tag), nbits, cpp))
            p.pair("toap_" + tag, "void", "uint64_t w, APFloat *o", "{ new (o) APFloat(wide(w).toAPFloat(%s)); }" % B,
                   "{ new (o) APFloat(%s); }" % ref, "numbers", "a wide %s as an arbitrary-precision float" % tag, WC, [], SEMMARK)
            p.pair("num_" + tag, "void", "uint64_t w, APFloat *o, Type t", "{ new (o) APFloat(mlir::detail::getNumber<APFloat>(t, %s, wide(w))); }" % B,
                   "{ new (o) APFloat(%s); }" % ref, "numbers", "an element of type %s as an arbitrary-precision float" % tag, DI, [], SEMMARK)
        else:
            for nm, e, wh in (("toap_", "wide(w).toAPInt(%s)" % B, WC), ("num_", "mlir::detail::getNumber<APInt>(Type(), %s, wide(w))" % B, DI)):
                p.pair(nm + tag, "uint64_t", "uint64_t w", "%s.getZExtValue()" % e,
                       "w & %s" % hex((1 << nbits) - 1) if nbits < 64 else "w", "numbers", "a wide %s as an arbitrary-precision integer" % tag, wh,
                       ["(uint64_t)" + v for v in IVALS])
                p.pair(nm + "w_" + tag, "unsigned", "uint64_t w", "%s.getBitWidth()" % e, str(nbits), "numbers",
                       "the width of a %s as an arbitrary-precision integer" % tag, wh, ["1"])
        p.pair("numw_" + tag, "uint64_t", "uint64_t w", "bits(mlir::detail::getNumber<WideNum>(Type(), %s, wide(w)))" % B, "w", "numbers",
               "an element of type %s as a wide number" % tag, DI, smp)
        for t in ("double", "int64_t", "bool"):
            p.pair("num_%s_%s" % (tag, t), t, "uint64_t w", "mlir::detail::getNumber<%s>(Type(), %s, wide(w))" % (t, B), "static_cast<%s>(%s)" % (t, src),
                   "numbers", "an element of type %s as %s" % (tag, t), DI, WVALS[:12] if kind != F else ["ofdbl(%s)" % v for v in ("0.0", "1.0", "2.5")])
        # small floats
        if small:
            sem = "APFloat::%s()" % SEM[tag]
            p.pair("sem_" + tag, "const void *", "", "&%s::semantics()" % cpp, "&" + sem, "formats", "the format of " + cpp, SH, [], SEMMARK)
            p.pair("max_" + tag, "float", "", cpp + "::max", MAXIMUM[tag], "formats", "the largest value of " + cpp, SH)
            p.pair("issmall_" + tag, "bool", "", "isSmallFPType<%s>" % cpp, "true", "formats", cpp + " is a small float type", SH)
            p.pair("bits_" + tag, raw, raw + " u", "%s::bitcastFromUInt(u).bitcastToUInt()" % cpp, "u", "formats", "the bits of " + cpp, SH,
                   ["(%s)%s" % (raw, v) for v in ("0", "1", "128", "255", "40000")])
            p.pair("ofap_" + tag, raw, "const APFloat *a", "{ ieee(a); return %s::fromAPFloat(*a).bitcastToUInt(); }" % cpp,
                   "{ ieee(a); APFloat f(*a); bool i; f.convert(%s, APFloat::rmNearestTiesToEven, &i); return (%s)f.bitcastToAPInt().getZExtValue(); }" %
                   (sem, raw), "formats", "%s from an arbitrary-precision float" % cpp, SC, [], SEMMARK)
            p.pair("apof_" + tag, "void", raw + " u, APFloat *o", "{ new (o) APFloat(%s::bitcastFromUInt(u).toAPFloat()); }" % cpp,
                   "{ new (o) APFloat(%s, APInt(%d, (uint64_t)u)); }" % (sem, nbits), "formats", "%s as an arbitrary-precision float" % cpp, SC, [], SEMMARK)
            conv = {"FLOAT16": ("om_f16_to_f32", "om_f32_to_f16"), "BFLOAT16": ("om_bf16_to_f32", "om_f32_to_bf16")}.get(tag)
            if conv:
                tf, ff = "%s(u)" % conv[0], "%s(f)" % conv[1]
            else:
                tf = "APFloat(%s, APInt(%d, (uint64_t)u)).convertToFloat()" % (sem, nbits)
                ff = "{ APFloat a(f); bool i; a.convert(%s, APFloat::rmNearestTiesToEven, &i); return (%s)a.bitcastToAPInt().getZExtValue(); }" % (sem, raw)
            p.pair("tof_" + tag, "float", raw + " u", "%s::bitcastFromUInt(u).toFloat()" % cpp, tf, "formats", "%s to float" % cpp, SH, [], SEMMARK)
            p.pair("off_" + tag, raw, "float f", "%s::fromFloat(f).bitcastToUInt()" % cpp, ff, "formats", "%s from float" % cpp, SH, [], SEMMARK)
            p.pair("cast_" + tag, raw, "double d", "static_cast<%s>(d).bitcastToUInt()" % cpp, "%s::fromFloat((float)d).bitcastToUInt()" % cpp,
                   "formats", "%s from double" % cpp, SH, DVALS, SEMMARK)
            p.pair("casti_" + tag, "int64_t", raw + " u", "static_cast<int64_t>(%s::bitcastFromUInt(u))" % cpp,
                   "(int64_t)%s::bitcastFromUInt(u).toFloat()" % cpp, "formats", "%s to integer" % cpp, SH, [], SEMMARK)
            p.pair("eq_" + tag, "bool", "%s u, %s v" % (raw, raw), "%s::bitcastFromUInt(u) == %s::bitcastFromUInt(v)" % (cpp, cpp),
                   "%s::bitcastFromUInt(u).toFloat() == %s::bitcastFromUInt(v).toFloat()" % (cpp, cpp), "formats", "equality of " + cpp, SH, [], SEMMARK)
            p.pair("ne_" + tag, "bool", "%s u, %s v" % (raw, raw), "%s::bitcastFromUInt(u) != %s::bitcastFromUInt(v)" % (cpp, cpp),
                   "!(%s::bitcastFromUInt(u).toFloat() == %s::bitcastFromUInt(v).toFloat())" % (cpp, cpp), "formats", "inequality of " + cpp, SH, [], SEMMARK)
            qnan, minus = {"FLOAT16": (0x7e00, 0x8000), "BFLOAT16": (0x7fc0, 0x8000), "FLOAT8E4M3FN": (0x7f, 0x80), "FLOAT8E5M2": (0x7e, 0x80)}.get(tag, (0x80, 0))
            for nm, u, v, want in (("nan", qnan, qnan, "false"), ("zeros", 0, minus, "true"), ("same", 1, 1, "true"), ("differ", 1, 2, "false")):
                for op in ("==", "!="):
                    p.pair("fact_%s_%s_%s" % (nm, "eq" if op == "==" else "ne", tag), "bool", "", "%s::bitcastFromUInt(%d) %s %s::bitcastFromUInt(%d)" %
                           (cpp, u, op, cpp, v), want if op == "==" else "!" + want, "comparisons",
                           "comparison of the %s bit patterns %d and %d" % (cpp, u, v), SH)
            e, mm = {"FLOAT16": (0x7c00, 0x3ff), "BFLOAT16": (0x7f80, 0x7f)}.get(tag, (0, 0))
            nan = "(u & 0x%x) == 0x%x && (u & 0x%x) != 0" % (e, e, mm) if e else "APFloat(%s, APInt(%d, (uint64_t)u)).isNaN()" % (sem, nbits)
            p.pair("nan_" + tag, "bool", raw + " u", "%s::bitcastFromUInt(u).isNaN()" % cpp, nan, "formats", "isNaN of " + cpp, SH,
                   ["(uint16_t)%d" % v for s in (0, 0x8000) for v in (*[s | e | 1 << k for k in range(10) if 1 << k <= mm], 0, 1, s, s | e, s | e | 1, s | e | (mm + 1) // 2, s | e | mm, s | mm, s | e >> 1, s | (e - (mm + 1)),
                                                                       s | (e - (mm + 1)) | mm, s | 0x200, s | (e & (e << 1)))]
                   if e else [], SEMMARK)
    # wide numbers of arbitrary precision
    p.pair("fromapf", "uint64_t", "const APFloat *a", "{ ieee(a); return bits(WideNum::fromAPFloat(*a)); }", "{ ieee(a); return ofdbl(a->convertToDouble()); }", "numbers",
           "a wide number from an arbitrary-precision float", WC, [], SEMMARK)
    p.pair("fromaps", "uint64_t", "const APInt *a", "{ word(a); return bits(WideNum::fromAPInt(*a, true)); }", "{ word(a); return (uint64_t)a->getSExtValue(); }", "numbers",
           "a wide number from a signed arbitrary-precision integer", WC)
    p.pair("fromapu", "uint64_t", "const APInt *a", "{ word(a); return bits(WideNum::fromAPInt(*a, false)); }", "{ word(a); return a->getZExtValue(); }", "numbers",
           "a wide number from an unsigned arbitrary-precision integer", WC)
    for w, v in ((8, 200), (8, 100), (1, 1), (16, 40000), (32, 3000000000), (64, 1 << 63)):
        sv = v - (1 << w) if v >> (w - 1) else v
        p.pair("fromaps_%d_%d" % (w, v), "uint64_t", "", "bits(WideNum::fromAPInt(APInt(%d, %dULL), true))" % (w, v), "(uint64_t)%dLL" % sv
               if sv != -(1 << 63) else "0x8000000000000000ULL",
               "numbers", "a wide number from the signed %d-bit integer %d" % (w, sv), WC)
        p.pair("fromapu_%d_%d" % (w, v), "uint64_t", "", "bits(WideNum::fromAPInt(APInt(%d, %dULL), false))" % (w, v), "%dULL" % v,
               "numbers", "a wide number from the unsigned %d-bit integer %d" % (w, v), WC)
    # functions on wide numbers of a type
    for nm, fl, w, sg, want in (("f32", 1, 32, 0, 2), ("f64", 11, 64, 0, 2), ("bf16", 16, 16, 0, 2), ("bool", 0, 1, 0, 0), ("i8", 0, 8, 0, 1),
                                ("i32", 0, 32, 0, 1), ("i64", 0, 64, 0, 1), ("si16", 0, 16, 1, 1), ("u8", 0, 8, 2, 3), ("u64", 0, 64, 2, 3)):
        cls = {1: "Float32Type", 11: "Float64Type", 16: "BFloat16Type", 0: "IntegerType"}[fl]
        for fn in ("wideZeroDispatch", "wideZeroDispatchNonBool"):
            wv = 1 if fn.endswith("NonBool") and nm == "bool" else want
            p.pair("%s_%s" % (fn, nm), "int", "Type t",
                   "{ is<%s>(t, %d, %d, %d); return %s(t, [](auto z) -> int { using Z = decltype(z); "
                   "return std::is_same_v<Z, bool> ? 0 : std::is_same_v<Z, int64_t> ? 1 : std::is_same_v<Z, double> ? 2 : "
                   "std::is_same_v<Z, uint64_t> ? 3 : 4; }); }" % (cls, fl, w, sg, fn), "{ is<%s>(t, %d, %d, %d); return %d; }" % (cls, fl, w, sg, wv), "numbers",
                   "the wide C++ type %s selects for %s" % (fn, nm), WH)
    for t, m in (("double", "todbl(%s)"), ("int64_t", "(int64_t)%s"), ("uint64_t", "%s"), ("bool", "(%s != 0)")):
        r = {"double": "ofdbl(%s)", "int64_t": "(uint64_t)(%s)", "uint64_t": "(%s)", "bool": "(uint64_t)(%s)"}[t]
        p.src.append("struct Sub_%s { static %s eval(%s a, %s b) { return a == b ? a : b; } };" % (t, t, t, t))
        p.pair("wrapped_" + t, "uint64_t", "uint64_t a, uint64_t b", "bits(WideNumWrappedFunction<Sub_%s>::eval(wide(a), wide(b)))" % t,
               r % ("Sub_%s::eval(%s, %s)" % (t, m % "a", m % "b")), "numbers", "a function on %s applied to wide numbers" % t, WH,
               ["%s, %s" % (a, b) for a in ("1", "ofdbl(2.5)") for b in ("2", "ofdbl(0.0)", "(uint64_t)-1")])
    return p


def compiled(ctx, p, src, units):
    """Probes that do not compile any more (a renamed helper) are left out and noted; `need` bounds how many may be."""
    for attempt in range(4):
        with open(src, "w") as f:
            f.write("\n".join(p.src) + "\n")
        try:
            return normal.bodies(src, units)
        except normal.CompileError as e:
            lines = "\n".join(p.src).split("\n")
            bad = set()
            for m in re.finditer(r"^" + re.escape(src) + r":(\d+):", str(e), re.M):
                k = re.search(r"P\([^,]*, (?:probe|ref)_(\w+?)(?:__s\d+)?,", lines[int(m.group(1)) - 1])
                if k:
                    bad.add(k.group(1))
            bad &= set(p.meta)
            if not bad:
                raise AnalysisBroken("the probes do not compile: " + str(e)[:1500])
            ctx.notes.append("left out, does not compile: " + ", ".join(sorted(bad)[:40]))
            for n in bad:
                del p.meta[n]
            gone = re.compile(r"P\([^,]*, (?:probe|ref)_(?:%s)(?:__s\d+)?," % "|".join(map(re.escape, bad)))
            p.src = p.src[:1] + [l for l in p.src[1:] if not gone.match(l)]
    raise AnalysisBroken("the probes do not compile")


SEMMARK = r"sem_\w+|om_\w+"


def elements(ctx, tier):
    ctx.rule("agree", "every probe of the element type tables and number conversions has the same optimised normal form as its specification")
    p = generate()
    src = os.path.join(build.scratch(), "elements_probe.cpp")
    units = build.files(BC, WC, SC)
    ctx.units |= {BH, BC, WH, WC, SH, SC, DI}
    b = compiled(ctx, p, src, units)
    und = decide(ctx, p, b)
    ctx.need("tables", 250)
    ctx.need("numbers", 300)
    ctx.need("formats", 60)
    ctx.need("types", 50)
    if und:
        ctx.notes.append("undecided (normal forms differ without a refutation): " + ", ".join(und[:60]))
    return ("Each probe calls the code under analysis with a constant type tag (all tags enumerated) or a modelled MLIR type; clang's "
            "optimiser specialises probe and specification and their normal forms are compared.")


def decide(ctx, p, b):
    und = []
    for n, (kind, what, where, samples, marks) in p.meta.items():
        pr, rf = b.get("probe_" + n), b.get("ref_" + n)
        if pr is None or rf is None:
            raise AnalysisBroken("no normal form for " + n)
        ctx.ok(kind, what)
        if pr == rf:
            ctx.ok("proved equal")
            continue
        c, r = normal.constant(pr), normal.constant(rf)
        bad = None
        if c is not None and r is not None:
            bad = "is %s, not %s" % (c.split()[-1], r.split()[-1])
        elif r is not None and "unreachable" in pr and "ret " not in pr:
            bad = "is not defined"
        for k, s in enumerate(samples):
            if bad:
                break
            c, r = b.get("probe_%s__s%d" % (n, k)), b.get("ref_%s__s%d" % (n, k))
            sp, sr = c, r
            c, r = c and normal.constant(c), r and normal.constant(r)
            if sp and sr and marks and re.search(marks, sp) and sp != sr and shape(sp) == shape(sr) and "(%" not in sp:
                bad = "differs: for %s it is computed from %s, not from %s" % (s, sorted(numbers(sp) - numbers(sr))[:3], sorted(numbers(sr) - numbers(sp))[:3])
            elif c is not None and r is not None and c != r:
                bad = "differs: for %s it is %s, not %s" % (s, c.split()[-1], r.split()[-1])
        if not bad and marks:
            mp, mr = set(re.findall(marks, pr)), set(re.findall(marks, rf))
            if mp != mr and mp and mr:
                short = lambda s: ", ".join(sorted(x.replace("sem_", "") for x in s))
                bad = "uses %s where %s is meant" % (short(mp - mr) or "no more than " + short(mp), short(mr - mp) or short(mr))
            elif mp and mp == mr:
                k = numbers(pr), numbers(rf)
                if shape(pr) == shape(rf) and k[0] != k[1]:
                    bad = "differs in a constant: %s instead of %s" % (sorted(k[0] - k[1])[:3], sorted(k[1] - k[0])[:3])
        if bad:
            ctx.violation("agree", where + ":1", "%s %s" % (what, bad), key="agree|" + n)
        elif kind != "comparisons":  # these follow from equality being that of the values
            und.append(n)
    return und


NUM = r"(?<![%\w.])(?:0x[0-9A-Fa-f]+|-?\d+(?:\.\d+e[+-]\d+)?)\b"


def numbers(t):
    return set(re.findall(NUM, t))


def shape(t):
    return re.sub(NUM, "N", t)

// Contracts of the functions the verifier does not enter: LLVM intrinsics, the C/C++
// runtime, libm, streams, and the lfv_* specification intrinsics.
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Intrinsics.h>

#include <cmath>
#include <cstring>
#include <iostream>

#include "exec.h"

using namespace llvm;
namespace lfv {
static const int SH = 32;
static inline uint64_t baseOf(uint32_t id) { return (uint64_t)id << SH; }

std::string Exec::ename(State& s, std::vector<Val>& a, size_t i0) {
  std::string n = cstr(s, concretize(s, a[i0], "a name"));
  for (size_t i = i0 + 1; i < i0 + 3; ++i) {
    int64_t v = (int64_t)(int32_t)(uint32_t)concretize(s, a[i], "a name index");
    if (v >= 0) n += "_" + std::to_string(v);
  }
  return n;
}

namespace {
enum BK {
  BK_NONE, BK_MALLOC, BK_CALLOC, BK_REALLOC, BK_ALIGNED, BK_FREE, BK_MEMCPY, BK_MEMSET, BK_MEMCMP, BK_MEMCHR, BK_STRLEN, BK_STRCMP,
  BK_ABORT, BK_ASSERT, BK_TERMINATE, BK_ALLOCEXC, BK_FREEEXC, BK_THROW, BK_BEGINCATCH, BK_ENDCATCH, BK_RETHROW, BK_GUARDACQ, BK_GUARDREL, BK_ZERO, BK_RET0ARG,
  BK_PUREVIRT, BK_DYNCAST, BK_STDTHROW, BK_SRETSTRING, BK_SRETZERO16, BK_WHAT, BK_LIBM1, BK_LIBM2, BK_FREXP, BK_LDEXP, BK_STUBUNSUP, BK_GETEXCPTR,
  BK_LREAL, BK_LREALIN, BK_LINT, BK_LCHOOSE, BK_LASSUME, BK_LENSURE, BK_LEQ, BK_LDERIV, BK_LCOVER, BK_LFUN, BK_LFUNI, BK_LEXPECT, BK_LSYMB, BK_LNOTE, BK_LPROVABLE, BK_LFORALL, BK_LDERIVH
};
struct BInfo { BK k; std::string arg; };
BInfo classify(const std::string& n) {
  static const std::map<std::string, BK> ex = {
      {"malloc", BK_MALLOC}, {"_Znwm", BK_MALLOC}, {"_Znam", BK_MALLOC}, {"_ZnwmRKSt9nothrow_t", BK_MALLOC}, {"_ZnamRKSt9nothrow_t", BK_MALLOC}, {"calloc", BK_CALLOC}, {"realloc", BK_REALLOC},
      {"_ZnwmSt11align_val_t", BK_MALLOC}, {"_ZdlPvSt11align_val_t", BK_FREE}, {"_ZdlPvmSt11align_val_t", BK_FREE}, {"aligned_alloc", BK_ALIGNED},
      {"free", BK_FREE}, {"_ZdlPv", BK_FREE}, {"_ZdlPvm", BK_FREE}, {"_ZdaPv", BK_FREE}, {"_ZdaPvm", BK_FREE},
      {"memcpy", BK_MEMCPY}, {"memmove", BK_MEMCPY}, {"memset", BK_MEMSET}, {"memcmp", BK_MEMCMP}, {"bcmp", BK_MEMCMP}, {"memchr", BK_MEMCHR}, {"strlen", BK_STRLEN}, {"strcmp", BK_STRCMP},
      {"abort", BK_ABORT}, {"exit", BK_ABORT}, {"__assert_fail", BK_ASSERT}, {"lfv_assertion_failed", BK_ASSERT}, {"_ZSt9terminatev", BK_TERMINATE}, {"__cxa_allocate_exception", BK_ALLOCEXC}, {"__cxa_free_exception", BK_FREEEXC}, {"__cxa_throw", BK_THROW},
      {"__cxa_begin_catch", BK_BEGINCATCH}, {"__cxa_end_catch", BK_ENDCATCH}, {"__cxa_rethrow", BK_RETHROW}, {"__cxa_guard_acquire", BK_GUARDACQ}, {"__cxa_guard_release", BK_GUARDREL}, {"__cxa_guard_abort", BK_ZERO},
      {"__cxa_atexit", BK_ZERO}, {"__cxa_pure_virtual", BK_PUREVIRT}, {"__dynamic_cast", BK_DYNCAST}, {"frexp", BK_FREXP}, {"ldexp", BK_LDEXP}, {"_ZSt21ios_base_library_initv", BK_ZERO}, {"__cxa_get_exception_ptr", BK_GETEXCPTR},
      {"__clang_call_terminate", BK_TERMINATE}, {"pthread_mutex_lock", BK_ZERO}, {"pthread_mutex_unlock", BK_ZERO}, {"pthread_rwlock_rdlock", BK_ZERO}, {"pthread_rwlock_wrlock", BK_ZERO}, {"pthread_rwlock_unlock", BK_ZERO}, {"clock", BK_ZERO},
      {"lfv_real", BK_LREAL}, {"lfv_int", BK_LINT}, {"lfv_choose", BK_LCHOOSE}, {"lfv_assume", BK_LASSUME}, {"lfv_ensure", BK_LENSURE}, {"lfv_eq", BK_LEQ}, {"lfv_deriv_at0", BK_LDERIV}, {"lfv_cover", BK_LCOVER},
      {"lfv_fun", BK_LFUN}, {"lfv_fun_int", BK_LFUNI}, {"lfv_expect_abort", BK_LEXPECT}, {"lfv_symbolic", BK_LSYMB}, {"lfv_note", BK_LNOTE}, {"lfv_provable", BK_LPROVABLE}};
  auto it = ex.find(n);
  if (it != ex.end()) return {it->second, ""};
  static const std::set<std::string> m1 = {"sin", "cos", "tan", "asin", "acos", "atan", "exp", "log", "log2", "log10", "sinh", "cosh", "tanh", "cbrt", "floor", "ceil", "round", "trunc", "fabs", "sqrt", "tgamma", "lgamma", "exp2", "log1p", "expm1", "rint", "nearbyint"};
  if (m1.count(n)) return {BK_LIBM1, n};
  static const std::set<std::string> m2 = {"pow", "atan2", "fmod", "hypot", "fmin", "fmax"};
  if (m2.count(n)) return {BK_LIBM2, n};
  if (n.find("_ZN2lf4base15AssertionFailed") == 0 || n.find("_ZN5boost16assertion_failed") == 0 || n.find("_ZN5boost20assertion_failed_msg") == 0) return {BK_ASSERT, ""};
  if (n.find("_ZSt") == 0 && n.find("__throw_") != std::string::npos) return {BK_STDTHROW, n};
  if (n.find("_ZN2lf4base10InitLogger") == 0) return {BK_SRETZERO16, ""};
  if ((n.find("_ZNKSt") == 0 || n.find("_ZNKRSt") == 0 || n.find("_ZNOSt") == 0) && (n.find("basic_stringstream") < 30 || n.find("basic_stringbuf") < 30 || n.find("basic_ostringstream") < 30))
    if (n.find("3strEv") != std::string::npos) return {BK_SRETSTRING, ""};
  std::string d = demangle(n);
  auto has = [&](const char* x) { return d.find(x) != std::string::npos; };
  if (has("::what() const")) return {BK_WHAT, ""};
  if (has("basic_ostream") || has("basic_iostream") || has("basic_istream") || has("basic_stringstream") || has("basic_ostringstream") || has("basic_stringbuf") || has("basic_streambuf") || has("basic_ios<") || has("ios_base") || has("std::locale") || has("basic_filebuf") || has("basic_ofstream") || has("__basic_file") || has("std::ctype<")) return {BK_RET0ARG, ""};
  if (d.find("std::") == 0 && (has("_error::") || has("std::exception::") || has("out_of_range::") || has("bad_alloc::") || has("invalid_argument::"))) return {BK_RET0ARG, ""};
  return {BK_NONE, ""};
}
}  // namespace

static std::unordered_map<Function*, BInfo>& cls() { static auto* p = new std::unordered_map<Function*, BInfo>; return *p; }
bool isStreamFn(Function* F) {
  auto n = F->getName().str();
  if (n.find("_ZNSt") != 0 && n.find("_ZNKSt") != 0 && n.find("_ZNKRSt") != 0 && n.find("_ZNOSt") != 0 && n.find("_ZNSi") != 0 && n.find("_ZNSo") != 0 && n.find("_ZNSs") != 0 && n.find("_ZSt") != 0 && n.find("_ZNSd") != 0) return false;
  auto k = classify(n).k;
  return k == BK_RET0ARG || k == BK_SRETSTRING;
}
bool isAssertFn(Function* F) { auto n = F->getName().str(); return classify(n).k == BK_ASSERT; }

bool Exec::builtin(State& s, Function* F, CInst& c, std::vector<Val>& a, Val& out, bool& handled) {
  handled = true;
  auto ptr = [&](size_t i) { return concretize(s, a[i], "an address"); };
  auto num = [&](size_t i) { return concretize(s, a[i], "a size"); };
  if (F->isIntrinsic()) {
    R.externals.size();
    auto w = c.w;
    auto fp1 = [&](const char* nm, double (*f)(double)) {
      auto one = [&](const Val& x0) -> Val {
        Val x = coerce(x0, 1, 64);
        if (x.k == Val::UNDEF) return x;
        if (x.k == Val::FP) return Val::F(f(x.d), x.w);
        T t = toR(x);
        if (!strcmp(nm, "sqrt")) return fromR(rSqrt(t));
        if (!strcmp(nm, "fabs")) return fromR(rAbs(t));
        if (!strcmp(nm, "floor")) return fromR(rOfInt(iFloor(t)));
        if (!strcmp(nm, "ceil")) return fromR(rNeg(rOfInt(iFloor(rNeg(t)))));
        if (!strcmp(nm, "trunc")) return fromR(rOfInt(iTrunc(t)));
        return fromR(rUn(nm, t));
      };
      if (a[0].k == Val::AGG) { std::vector<Val> e; for (auto& x : *a[0].agg) e.push_back(one(x)); out.k = Val::AGG; out.agg = new std::vector<Val>(e); }
      else out = one(a[0]);
      return true;
    };
    switch (F->getIntrinsicID()) {
      case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::assume:
      case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::donothing: case Intrinsic::prefetch: case Intrinsic::dbg_label: case Intrinsic::stackrestore: case Intrinsic::var_annotation:
        return true;
      case Intrinsic::stacksave: out = Val::I(64, 0); return true;
      case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy: out = a[0]; return true;
      case Intrinsic::threadlocal_address: out = a[0]; return true;
      case Intrinsic::frexp: {
        if (a[0].k != Val::FP) throw Unsupported("frexp");
        int e; double d = std::frexp(a[0].d, &e);
        out = Val(); out.k = Val::AGG; out.agg = new std::vector<Val>{Val::F(d, a[0].w), Val::I(32, (uint32_t)e)}; return true; }
      case Intrinsic::ldexp: { int64_t e = (int32_t)(uint32_t)num(1); if (a[0].k == Val::FP) { out = Val::F(std::ldexp(a[0].d, (int)e), a[0].w); return true; } out = fromR(rMul(toR(a[0]), rConst(std::ldexp(1.0, (int)e)))); return true; }
      case Intrinsic::is_constant: out = Val::I(1, 0); return true;
      case Intrinsic::objectsize: out = Val::I(w, (u128)-1); return true;
      case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { uint64_t n = num(2); if (n) copyMem(s, ptr(0), ptr(1), n); return true; }
      case Intrinsic::memset: {
        uint64_t n = num(2); if (n) { uint64_t v = concretize(s, a[1], "a byte"); setMem(s, ptr(0), (uint8_t)v, n); } return true; }
      case Intrinsic::trap: pathEvent(s, "assertion", "trap"); return false;
      case Intrinsic::eh_typeid_for: out = Val::I(32, (uint32_t)(a[0].u >> SH) + 1); return true;
      case Intrinsic::sqrt: return fp1("sqrt", std::sqrt);
      case Intrinsic::fabs: return fp1("fabs", std::fabs);
      case Intrinsic::sin: return fp1("sin", std::sin);
      case Intrinsic::cos: return fp1("cos", std::cos);
      case Intrinsic::exp: return fp1("exp", std::exp);
      case Intrinsic::exp2: return fp1("exp2", std::exp2);
      case Intrinsic::log: return fp1("log", std::log);
      case Intrinsic::log2: return fp1("log2", std::log2);
      case Intrinsic::log10: return fp1("log10", std::log10);
      case Intrinsic::floor: return fp1("floor", std::floor);
      case Intrinsic::ceil: return fp1("ceil", std::ceil);
      case Intrinsic::trunc: return fp1("trunc", std::trunc);
      case Intrinsic::round: return fp1("round", std::round);
      case Intrinsic::rint: return fp1("rint", std::rint);
      case Intrinsic::pow: case Intrinsic::powi: {
        if (F->getIntrinsicID() == Intrinsic::powi || (a[1].k == Val::FP && a[1].d == std::floor(a[1].d) && std::fabs(a[1].d) <= 64 && !a[0].conc())) {
          int64_t n = F->getIntrinsicID() == Intrinsic::powi ? (int64_t)(int32_t)(uint32_t)num(1) : (int64_t)a[1].d;
          if (a[0].k == Val::FP) { out = Val::F(std::pow(a[0].d, (double)n), a[0].w); return true; }
          T r = rConst(1), b = toR(a[0]);
          for (int64_t i = 0; i < std::llabs(n); ++i) r = rMul(r, b);
          out = fromR(n < 0 ? rDiv(rConst(1), r) : r);
          return true;
        }
        if (a[0].k == Val::FP && a[1].k == Val::FP) out = Val::F(std::pow(a[0].d, a[1].d)); else out = fromR(rBin("pow", toR(a[0]), toR(a[1])));
        return true;
      }
      case Intrinsic::fma: case Intrinsic::fmuladd: {
        if (a[0].k == Val::AGG) throw Unsupported("vector fma");
        if (a[0].k == Val::FP && a[1].k == Val::FP && a[2].k == Val::FP) { out = Val::F(F->getIntrinsicID() == Intrinsic::fma ? std::fma(a[0].d, a[1].d, a[2].d) : a[0].d * a[1].d + a[2].d, a[0].w); return true; }
        if (a[0].k == Val::UNDEF || a[1].k == Val::UNDEF || a[2].k == Val::UNDEF) { out = Val(); out.w = 64; return true; }
        out = fromR(rAdd(rMul(toR(a[0]), toR(a[1])), toR(a[2]))); return true; }
      case Intrinsic::copysign: {
        if (a[0].k == Val::FP && a[1].k == Val::FP) { out = Val::F(std::copysign(a[0].d, a[1].d), a[0].w); return true; }
        T x = rAbs(toR(a[0])); out = fromR(rIte(bRLe(rConst(0), toR(a[1])), x, rNeg(x))); return true; }
      case Intrinsic::minnum: case Intrinsic::maxnum: case Intrinsic::minimum: case Intrinsic::maximum: {
        bool mx = F->getIntrinsicID() == Intrinsic::maxnum || F->getIntrinsicID() == Intrinsic::maximum;
        if (a[0].k == Val::FP && a[1].k == Val::FP) { out = Val::F(mx ? std::fmax(a[0].d, a[1].d) : std::fmin(a[0].d, a[1].d)); return true; }
        T p = toR(a[0]), q = toR(a[1]); out = fromR(rIte(bRLe(p, q), mx ? q : p, mx ? p : q)); return true; }
      case Intrinsic::is_fpclass: {
        if (a[0].k == Val::FP) {
          uint64_t m = num(1); double d = a[0].d; bool r = false;
          if ((m & 3) && std::isnan(d)) r = true;
          if ((m & 0x4) && std::isinf(d) && d < 0) r = true;
          if ((m & 0x200) && std::isinf(d) && d > 0) r = true;
          if ((m & 0x8) && std::isnormal(d) && d < 0) r = true;
          if ((m & 0x100) && std::isnormal(d) && d > 0) r = true;
          if ((m & 0x60) && d == 0) r = true;
          out = Val::I(1, r); return true;
        }
        uint64_t m = num(1);
        out = Val::I(1, (m & 0x1f8) == 0x1f8); if ((m & 0x1f8) != 0 && (m & 0x1f8) != 0x1f8) throw Unsupported("is_fpclass"); return true; }
      case Intrinsic::smax: case Intrinsic::smin: case Intrinsic::umax: case Intrinsic::umin: {
        if (a[0].k == Val::AGG) throw Unsupported("vector min/max");
        auto id = F->getIntrinsicID();
        int pred = id == Intrinsic::smax ? CmpInst::ICMP_SGT : id == Intrinsic::smin ? CmpInst::ICMP_SLT : id == Intrinsic::umax ? CmpInst::ICMP_UGT : CmpInst::ICMP_ULT;
        if (a[0].k == Val::UNDEF || a[1].k == Val::UNDEF) { out = Val(); out.w = (uint8_t)w; return true; }
        T b = toB(icmp(s, pred, a[0], a[1]));
        if (isTrue(b)) out = a[0]; else if (isFalse(b)) out = a[1]; else out = fromT(w, iIte(b, toT(a[0]), toT(a[1])));
        return true; }
      case Intrinsic::abs: {
        if (a[0].k == Val::INT) { T t = toT(a[0]); out = fromT(w, t->c < 0 ? iNeg(t) : t); return true; }
        T t = toS(s, a[0]); out = fromT(w, iIte(bLe(iConst(0), t), t, iNeg(t))); return true; }
      case Intrinsic::uadd_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
        auto id = F->getIntrinsicID();
        int W = (int)F->getFunctionType()->getParamType(0)->getIntegerBitWidth();
        bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
        T x = sg ? toS(s, a[0]) : toU(s, a[0]), y = sg ? toS(s, a[1]) : toU(s, a[1]);
        T r = (id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow) ? iAdd(x, y) : (id == Intrinsic::usub_with_overflow || id == Intrinsic::ssub_with_overflow) ? iSub(x, y) : iMul(x, y);
        i128 lo = sg ? -(((i128)1) << (W - 1)) : 0, hi = sg ? (((i128)1) << (W - 1)) - 1 : (((i128)1) << W) - 1;
        T ok = bAnd(bLe(iConst(lo), r), bLe(r, iConst(hi)));
        if (!isTrue(ok) && !isFalse(ok) && prove(s, ok, 2000)) ok = bConst(true);
        out.k = Val::AGG; out.agg = new std::vector<Val>{fromT(W, r), fromB(bNot(ok))};
        return true; }
      case Intrinsic::usub_sat: { T x = toU(s, a[0]), y = toU(s, a[1]); T b = bLe(y, x); if (isTrue(b)) out = fromT(w, iSub(x, y)); else if (isFalse(b)) out = Val::I(w, 0); else out = fromT(w, iIte(b, iSub(x, y), iConst(0))); return true; }
      case Intrinsic::uadd_sat: { T x = toU(s, a[0]), y = toU(s, a[1]); i128 mx = (((i128)1) << w) - 1; T q = iAdd(x, y); T b = bLe(q, iConst(mx)); if (isTrue(b)) out = fromT(w, q); else out = fromT(w, iIte(b, q, iConst(mx))); return true; }
      case Intrinsic::fshl: case Intrinsic::fshr: {
        uint64_t k = num(2) % w;
        if (a[0].k == Val::INT && a[1].k == Val::INT) {
          u128 x = a[0].u, y = a[1].u;
          if (F->getIntrinsicID() == Intrinsic::fshr) { if (k == 0) out = Val::I(w, y); else out = Val::I(w, (x << (w - k)) | (y >> k)); }
          else { if (k == 0) out = Val::I(w, x); else out = Val::I(w, (x << k) | (y >> (w - k))); }
          return true;
        }
        T x = toU(s, a[0]), y = toU(s, a[1]);
        if (F->getIntrinsicID() == Intrinsic::fshr) k = (w - k) % w;  // fshr by k == fshl by w-k
        if (k == 0) { out = F->getIntrinsicID() == Intrinsic::fshr ? a[1] : a[0]; return true; }
        out = fromT(w, iAdd(iScale(iMod(x, iConst(((i128)1) << (w - k))), ((i128)1) << k), iDiv(y, iConst(((i128)1) << (w - k)))));
        return true; }
      case Intrinsic::ctpop: case Intrinsic::ctlz: case Intrinsic::cttz: case Intrinsic::bswap: {
        uint64_t v = num(0); int W = w;
        auto id = F->getIntrinsicID();
        if (id == Intrinsic::ctpop) out = Val::I(w, (u128)__builtin_popcountll(v));
        else if (id == Intrinsic::ctlz) out = Val::I(w, v ? (u128)(__builtin_clzll(v) - (64 - W)) : (u128)W);
        else if (id == Intrinsic::cttz) out = Val::I(w, v ? (u128)__builtin_ctzll(v) : (u128)W);
        else throw Unsupported("bswap");
        return true; }
      case Intrinsic::lround: case Intrinsic::llround: if (a[0].k == Val::FP) { out = Val::I(w, (u128)(i128)std::llround(a[0].d)); return true; } throw Unsupported("lround");
      case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_fadd: case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and:
      default: {
        auto nm = F->getName();
        if (nm.startswith("llvm.x86.subborrow.") || nm.startswith("llvm.x86.addcarry.")) {
          int W = nm.endswith("64") ? 64 : 32;
          u128 cin = num(0) ? 1 : 0, x = num(1), y = num(2), M = (((u128)1) << W), r;
          bool c;
          if (nm.startswith("llvm.x86.addcarry.")) { r = x + y + cin; c = r >= M; } else { c = x < y + cin; r = x + M - y - cin; }
          out = Val(); out.k = Val::AGG; out.agg = new std::vector<Val>{Val::I(8, c), Val::I(W, r & (M - 1))};
          return true;
        }
        throw Unsupported("intrinsic " + nm.str()); }
    }
  }
  auto it = cls().find(F);
  if (it == cls().end()) it = cls().emplace(F, classify(F->getName().str())).first;
  const BInfo& bi = it->second;
  if (bi.k != BK_NONE && bi.k < BK_LREAL && (bi.k == BK_RET0ARG || bi.k == BK_LIBM1 || bi.k == BK_LIBM2 || bi.k == BK_SRETSTRING)) { if (!F->isDeclaration() && bi.k != BK_RET0ARG) { handled = false; return true; } R.externals.insert(F->getName().str()); }
  switch (bi.k) {
    case BK_NONE: handled = false; return true;
    case BK_MALLOC: { uint64_t n = num(0); out = Val::I(64, baseOf(alloc(s, n, "heap", true))); return true; }
    case BK_ALIGNED: { uint64_t n = num(1); out = Val::I(64, baseOf(alloc(s, n, "heap", true))); return true; }
    case BK_CALLOC: { uint64_t n = num(0) * num(1); uint64_t p = baseOf(alloc(s, n, "heap", true)); setMem(s, p, 0, n); out = Val::I(64, p); return true; }
    case BK_REALLOC: {
      uint64_t p = ptr(0), n = num(1);
      uint64_t q = baseOf(alloc(s, n, "heap", true));
      if (p) { Obj* o = s.mem.rd((uint32_t)(p >> SH)); copyMem(s, q, p, std::min<uint64_t>(o->size, n)); Obj& w = wobj(s, (uint32_t)(p >> SH)); w.freed = true; }
      out = Val::I(64, q); return true; }
    case BK_FREE: {
      uint64_t p = ptr(0);
      if (!p) return true;
      Obj* o = s.mem.rd((uint32_t)(p >> SH));
      if (!o || (uint32_t)p != 0 || !o->heap) { pathEvent(s, "memory", "free of a pointer that was not allocated"); return false; }
      if (o->freed) { pathEvent(s, "memory", "double free"); return false; }
      Obj& w = wobj(s, (uint32_t)(p >> SH));
      w.freed = true; std::vector<uint8_t>().swap(w.data); std::vector<uint8_t>().swap(w.st); w.sym.clear();
      return true; }
    case BK_MEMCPY: { uint64_t n = num(2); if (n) copyMem(s, ptr(0), ptr(1), n); out = a[0]; return true; }
    case BK_MEMSET: { uint64_t n = num(2); if (n) setMem(s, ptr(0), (uint8_t)num(1), n); out = a[0]; return true; }
    case BK_MEMCMP: {
      uint64_t n = num(2), p = ptr(0), q = ptr(1); int r = 0;
      T acc = bConst(true); bool sym = false;
      Type* i8 = Type::getInt8Ty(M.getContext());
      for (uint64_t i = 0; i < n && !r; ++i) {
        Val x = load(s, p + i, i8, 1, 0, 8), y = load(s, q + i, i8, 1, 0, 8);
        if (x.k == Val::INT && y.k == Val::INT) { if (x.u != y.u) { r = x.u < y.u ? -1 : 1; if (sym) { sym = true; acc = bConst(false); } break; } }
        else { sym = true; acc = bAnd(acc, bEq(toU(s, x), toU(s, y))); }
      }
      if (sym) { if (r) { out = Val::I(32, 1); return true; } out = fromT(32, iIte(acc, iConst(0), iConst(1))); return true; }  // only the equality is used
      out = Val::I(32, (u128)(i128)r); return true; }
    case BK_MEMCHR: {
      uint64_t p = ptr(0), n = num(2); uint8_t ch = (uint8_t)num(1);
      for (uint64_t i = 0; i < n; ++i) { Obj* o = check(s, p + i, 1, "read", false); if (o->st[(uint32_t)(p + i)] != 1) throw Unsupported("memchr"); if (o->data[(uint32_t)(p + i)] == ch) { out = Val::I(64, p + i); return true; } }
      out = Val::I(64, 0); return true; }
    case BK_STRLEN: out = Val::I(64, cstr(s, ptr(0)).size()); return true;
    case BK_STRCMP: { int r = strcmp(cstr(s, ptr(0)).c_str(), cstr(s, ptr(1)).c_str()); out = Val::I(32, (u128)(i128)(r < 0 ? -1 : r > 0)); return true; }
    case BK_ABORT: pathEvent(s, "assertion", "abort()"); return false;
    case BK_ASSERT: {
      std::string msg;
      try {  // std::string argument: pointer + length
        uint64_t p = a.empty() ? 0 : ptr(0);
        if (!p) msg = ""; else if (F->getName().find("_ZN2lf") == 0) { Val d = load(s, p, nullptr, 8, 0, 64); msg = cstr(s, (uint64_t)d.u); } else msg = cstr(s, p);
      } catch (Unsupported&) { }
      pathEvent(s, "assertion", msg); return false; }
    case BK_TERMINATE: pathEvent(s, "assertion", "std::terminate"); return false;
    case BK_ALLOCEXC: out = Val::I(64, baseOf(alloc(s, num(0), "exception", true))); return true;
    case BK_FREEEXC: return true;
    case BK_THROW: throwExc(s, ptr(0), ptr(1)); return false;
    case BK_BEGINCATCH: s.caught.push_back(ptr(0)); out = a[0]; return true;
    case BK_GETEXCPTR: out = a[0]; return true;
    case BK_ENDCATCH: if (!s.caught.empty()) s.caught.pop_back(); return true;
    case BK_RETHROW: { if (s.caught.empty()) { pathEvent(s, "exception", "rethrow without exception"); return false; } uint64_t e = s.caught.back(); throwExc(s, e, s.excTypes[e]); return false; }
    case BK_GUARDACQ: {
      uint64_t p = ptr(0); Val v = load(s, p, Type::getInt8Ty(M.getContext()), 1, 0, 8);
      out = Val::I(32, v.u ? 0 : 1); return true; }
    case BK_GUARDREL: { uint8_t one = 1; storeBytes(s, ptr(0), &one, 1); return true; }
    case BK_ZERO: if (c.tk == 0) out = Val::I(c.w, 0); return true;
    case BK_RET0ARG: {
      if (c.tk == 0 && !a.empty() && c.ty->isPointerTy()) out = a[0];
      else if (c.tk == 0) out = Val::I(c.w, 0);
      return true; }
    case BK_PUREVIRT: pathEvent(s, "assertion", "pure virtual function called"); return false;
    case BK_SRETZERO16: setMem(s, ptr(0), 0, 16); return true;
    case BK_WHAT: { uint64_t p = baseOf(alloc(s, 1, "what", false)); setMem(s, p, 0, 1); out = Val::I(64, p); return true; }
    case BK_SRETSTRING: {  // an unspecified (here: empty) std::string
      uint64_t p = ptr(0); uint64_t b = p + 16, z = 0;
      storeBytes(s, p, &b, 8); storeBytes(s, p + 8, &z, 8); storeBytes(s, p + 16, &z, 8); return true; }
    case BK_STDTHROW: {
      const std::string& n = bi.arg;
      std::string cls = n.find("bad_alloc") != std::string::npos || n.find("bad_array") != std::string::npos ? "St9bad_alloc" : n.find("length_error") != std::string::npos ? "St12length_error"
          : n.find("out_of_range") != std::string::npos ? "St12out_of_range" : n.find("invalid_argument") != std::string::npos ? "St16invalid_argument" : n.find("bad_cast") != std::string::npos ? "St8bad_cast"
          : n.find("bad_function_call") != std::string::npos ? "St17bad_function_call" : n.find("bad_variant") != std::string::npos ? "St18bad_variant_access" : n.find("bad_optional") != std::string::npos ? "St19bad_optional_access" : n.find("logic_error") != std::string::npos ? "St11logic_error" : "St13runtime_error";
      uint64_t ti = 0;
      if (auto* g = M.getNamedValue("_ZTI" + cls)) ti = gaddr[g];
      uint64_t e = baseOf(alloc(s, 16, "exception", true));
      if (!ti) { ti = baseOf(alloc(s, 16, "_ZTI" + cls, false)); }
      throwExc(s, e, ti); return false; }
    case BK_DYNCAST: {
      uint64_t p = ptr(0), dst = ptr(2);
      if (!p) { out = Val::I(64, 0); return true; }
      auto rd = [&](uint64_t x) -> uint64_t { Val v = load(s, x, nullptr, 8, 0, 64); if (v.k != Val::INT) throw Unsupported("dynamic_cast"); return (uint64_t)v.u; };
      uint64_t vp = rd(p);
      int64_t top = (int64_t)rd(vp - 16);
      uint64_t ti = rd(vp - 8), full = p + (uint64_t)top;
      std::set<uint64_t> found;
      auto nm = [&](uint64_t t) { Obj* o = s.mem.rd((uint32_t)(t >> SH)); return o ? o->name : std::string(); };
      std::function<void(uint64_t, uint64_t)> walk = [&](uint64_t t, uint64_t at) {
        if (t == dst || nm(t) == nm(dst)) { found.insert(at); return; }
        Obj* o = s.mem.rd((uint32_t)(t >> SH));
        if (!o || o->external || o->size < 24) return;
        uint64_t kind = rd(t);
        std::string kn = nm(kind);
        if (kn.find("__si_class") != std::string::npos) walk(rd(t + 16), at);
        else if (kn.find("__vmi_class") != std::string::npos) {
          uint32_t n = (uint32_t)(rd(t + 16) >> 32);
          for (uint32_t i = 0; i < n; ++i) {
            uint64_t b = rd(t + 24 + 16 * i); int64_t of = (int64_t)rd(t + 32 + 16 * i);
            bool virt = of & 1; int64_t off = of >> 8;
            if (virt) off = (int64_t)rd(rd(at) + (uint64_t)off);
            walk(b, at + (uint64_t)off);
          }
        }
      };
      walk(ti, full);
      out = Val::I(64, found.size() == 1 ? *found.begin() : 0);
      return true; }
    case BK_LIBM1: {
      Val x = coerce(a[0], 1, 64);
      if (x.k == Val::UNDEF) { out = x; return true; }
      if (x.k == Val::FP) out = Val::F(libm1(bi.arg, x.d), 64);
      else {
        T t = toR(x);
        if (bi.arg == "sqrt") out = fromR(rSqrt(t)); else if (bi.arg == "fabs") out = fromR(rAbs(t)); else if (bi.arg == "floor") out = fromR(rOfInt(iFloor(t))); else if (bi.arg == "ceil") out = fromR(rNeg(rOfInt(iFloor(rNeg(t))))); else if (bi.arg == "trunc") out = fromR(rOfInt(iTrunc(t)));
        else out = fromR(rUn(bi.arg, t));
      }
      return true; }
    case BK_LIBM2: {
      Val x = coerce(a[0], 1, 64), y = coerce(a[1], 1, 64);
      if (x.k == Val::FP && y.k == Val::FP) { out = Val::F(libm2(bi.arg, x.d, y.d), 64); return true; }
      T p = toR(x), q = toR(y);
      if (bi.arg == "pow" && y.k == Val::FP && y.d == std::floor(y.d) && std::fabs(y.d) <= 64) {
        T r = rConst(1); int n = (int)std::fabs(y.d); for (int i = 0; i < n; ++i) r = rMul(r, p);
        out = fromR(y.d < 0 ? rDiv(rConst(1), r) : r); return true;
      }
      if (bi.arg == "fmin") { out = fromR(rIte(bRLe(p, q), p, q)); return true; }
      if (bi.arg == "fmax") { out = fromR(rIte(bRLe(p, q), q, p)); return true; }
      if (bi.arg == "hypot") { out = fromR(rSqrt(rAdd(rMul(p, p), rMul(q, q)))); return true; }
      out = fromR(rBin(bi.arg, p, q)); return true; }
    case BK_FREXP: { if (a[0].k != Val::FP) throw Unsupported("frexp"); int e; double d = std::frexp(a[0].d, &e); storeBytes(s, ptr(1), &e, 4); out = Val::F(d); return true; }
    case BK_LDEXP: { int64_t e = (int32_t)(uint32_t)num(1); if (a[0].k == Val::FP) { out = Val::F(std::ldexp(a[0].d, (int)e)); return true; } out = fromR(rMul(toR(a[0]), rConst(std::ldexp(1.0, (int)e)))); return true; }
    // ---------------------------------------------------------------- specification intrinsics
    case BK_LREAL: {
      std::string n = ename(s, a, 0);
      if (a[3].k != Val::FP || a[4].k != Val::FP) throw Unsupported("symbolic range of an input");
      out = fromR(rSym(n, a[3].d, a[4].d)); return true; }
    case BK_LINT: {
      std::string n = ename(s, a, 0);
      i128 lo = (i128)(int64_t)num(3), hi = (i128)(int64_t)num(4);
      if (lo == hi) { out = Val::I(64, (u128)lo); return true; }
      out = fromT(64, iSym(n, lo, hi)); return true; }
    case BK_LCHOOSE: {
      std::string n = ename(s, a, 0);
      long k = (long)num(3);
      if (k <= 0) throw PathEnd{};
      std::string key = "choose:" + n;
      // a fork re-executes this call with its answer in the counters
      auto itc = s.counters.find("answer");
      long ans;
      if (itc != s.counters.end()) { ans = itc->second; s.counters.erase(itc); }
      else {
        size_t depth = s.choices.size();
        if (depth < fixedChoice.size()) { ans = fixedChoice[depth]; if (ans >= k) throw PathEnd{}; }
        else {
          if (depth < splitDepth) { splitOut = std::max(splitOut, k); throw PathEnd{}; }
          for (long i = k - 1; i >= 1; --i) { SP o = fork(s); o->counters["answer"] = i; work.push_back(o); }
          ans = 0;
        }
      }
      s.choices.push_back({n, ans});
      out = Val::I(64, (u128)ans); return true; }
    case BK_LASSUME: {
      T b = toB(a[0]);
      if (isTrue(b)) return true;
      if (isFalse(b)) throw PathEnd{};
      bool unk = false;
      if (!feasible(s, b, &unk)) throw PathEnd{};
      if (!addPC(s, b)) throw PathEnd{};
      return true; }
    case BK_LENSURE: {
      std::string n = cstr(s, ptr(0));
      if (a[1].k == Val::UNDEF) { pathEvent(s, "undefined", "obligation " + n + " depends on an undefined value"); return false; }
      ensure(s, n, toB(a[1])); return true; }
    case BK_LEQ: {
      std::string n = cstr(s, ptr(0));
      if (a[1].k == Val::UNDEF || a[2].k == Val::UNDEF) { pathEvent(s, "undefined", "obligation " + n + " depends on an undefined value"); return false; }
      if ((a[1].k == Val::FP && !std::isfinite(a[1].d)) || (a[2].k == Val::FP && !std::isfinite(a[2].d))) { ensure(s, n, bConst(a[1].k == Val::FP && a[2].k == Val::FP && (a[1].d == a[2].d))); return true; }
      if (a[3].k != Val::FP) throw Unsupported("symbolic tolerance");
      ensureEq(s, n, toR(a[1]), toR(a[2]), a[3].d); return true; }
    case BK_LDERIV: {  // (name, value, f(x+h), h): d/dh f(x+h) at h=0 equals value
      std::string n = cstr(s, ptr(0));
      if (a[1].k == Val::UNDEF || a[2].k == Val::UNDEF) { pathEvent(s, "undefined", "obligation " + n + " depends on an undefined value"); return false; }
      T h = toR(a[3]);
      if (h->op != R_SYM) throw Unsupported("derivative with respect to a non-symbol");
      T d;
      try { d = derive(toR(a[2]), h); } catch (std::exception& e) { throw Unsupported(e.what()); }
      Subst S; S.m[h] = rConst(0);
      ensureEq(s, n, toR(a[1]), S(d), a[4].d); return true; }
    case BK_LCOVER: R.covers[cstr(s, ptr(0))] += s.seeds.empty() ? 0 : 1; if (s.seeds.empty()) { Ans q = s.pc.empty() ? Ans::Sat : solve(s.pc, bConst(true), 8000, nullptr); if (q == Ans::Unsat) throw PathEnd{}; if (q == Ans::Sat) R.covers[cstr(s, ptr(0))]++; } return true;
    case BK_LFUN: {
      std::string n = cstr(s, ptr(0)); uint64_t k = num(1), p = ptr(2);
      std::vector<T> args; bool allc = true; (void)allc;
      for (uint64_t i = 0; i < k; ++i) { Val v = load(s, p + 8 * i, Type::getDoubleTy(M.getContext()), 8, 1, 64); if (v.k == Val::UNDEF) pathEvent(s, "undefined", "undefined argument"); args.push_back(toR(v)); }
      out = fromR(rApp(n, args)); return true; }
    case BK_LFUNI: {
      std::string n = cstr(s, ptr(0)); uint64_t k = num(1), p = ptr(2);
      std::vector<T> args;
      for (uint64_t i = 0; i < k; ++i) { Val v = load(s, p + 8 * i, Type::getInt64Ty(M.getContext()), 8, 0, 64); args.push_back(toS(s, v)); }
      out = fromT(64, iApp(n, args, (i128)(int64_t)num(3), (i128)(int64_t)num(4))); return true; }
    case BK_LEXPECT: s.expectAbort = (num(0) != 0); return true;
    case BK_LSYMB: out = Val::I(32, 1); return true;
    case BK_LNOTE: { std::string n = cstr(s, ptr(0)); if (trace) std::cerr << "note " << n << " = " << (a[1].k == Val::FP ? std::to_string(a[1].d) : a[1].k == Val::UNDEF ? "undef" : show(toR(a[1]))) << "\n"; return true; }
    case BK_LPROVABLE: { out = Val::I(1, prove(s, toB(a[0]), 3000)); return true; }
    default: break;
  }
  throw Unsupported("builtin " + F->getName().str());
}
}  // namespace lfv

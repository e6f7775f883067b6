// Specification language of the contracts in /verif/harness.  Under the verifier the
// lfv_* functions introduce universally quantified inputs and proof obligations; in a
// native build (rt/native.cc) they read a counterexample / random sample and evaluate.
#pragma once
#include <cstdint>
#include <string>
extern "C" {
double lfv_real(const char* name, int i, int j, double lo, double hi);  // any real; lo..hi is only a sampling hint
long lfv_int(const char* name, int i, int j, long lo, long hi);         // any integer in [lo,hi]
long lfv_choose(const char* name, int i, int j, long n);                // any of 0..n-1, by exhaustive case split
void lfv_assume(bool);
void lfv_ensure(const char* name, bool);
void lfv_eq(const char* name, double a, double b, double tol);          // a == b over the reals
void lfv_deriv_at0(const char* name, double val, double fh, double h, double tol);
void lfv_cover(const char* name);
double lfv_fun(const char* name, int n, const double* args);            // uninterpreted function
long lfv_fun_int(const char* name, int n, const long* args, long lo, long hi);
void lfv_expect_abort(int on);
int lfv_symbolic();
void lfv_note(const char* name, double v);
bool lfv_provable(bool);
double lfv_native_h();
}
namespace lfv {
inline double real(const char* n, int i = -1, int j = -1, double lo = -1.0, double hi = 1.0) { return lfv_real(n, i, j, lo, hi); }
double real(const char*, double, double) = delete;
double real(const char*, int, double, double) = delete;
// a real constrained to lo <= x <= hi
inline double realIn(const char* n, double lo, double hi, int i = -1, int j = -1) {
  double x = lfv_real(n, i, j, lo, hi);
  lfv_assume(x >= lo);
  lfv_assume(x <= hi);
  return x;
}
inline long integer(const char* n, long lo, long hi, int i = -1, int j = -1) { return lfv_int(n, i, j, lo, hi); }
inline long choose(const char* n, long k, int i = -1, int j = -1) { return lfv_choose(n, i, j, k); }
inline void assume(bool b) { lfv_assume(b); }
inline void ensure(const char* n, bool b) { lfv_ensure(n, b); }
inline void eq(const char* n, double a, double b, double tol = 1e-11) { lfv_eq(n, a, b, tol); }
inline void cover(const char* n) { lfv_cover(n); }
// d/dh f(h) at 0 equals val
template <class F>
void deriv(const char* n, double val, F&& f, double tol = 1e-11) {
  if (lfv_symbolic()) {
    double h = lfv_real("h", -1, -1, 0.001, 0.002);
    lfv_deriv_at0(n, val, f(h), h, tol);
  } else {
    double h = 1e-5;
    double d = (f(h) - f(-h)) / (2 * h);
    lfv_eq(n, val, d, 1e-5);
  }
}
// the call must be rejected: by a failing assertion (abort) or by an exception
template <class F>
void rejects(const char* n, F&& f) {
  bool thrown = false;
  lfv_expect_abort(1);
  try { f(); } catch (...) { thrown = true; }
  lfv_expect_abort(0);
  lfv_ensure(n, thrown);
}
}  // namespace lfv
#define LFV_UNIT(name) extern "C" void prove_##name()

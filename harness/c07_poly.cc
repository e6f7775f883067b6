// C07: the orthogonal polynomial families satisfy their defining identities.
#include <lf/fe/fe.h>
#include <lf/quad/quad.h>

#include <cmath>

#include "lfv.h"
using namespace lf::fe;
using lf::base::RefEl;

// binomial coefficient (r over k) for real r
static double binom(double r, int k) {
  double v = 1;
  for (int i = 0; i < k; ++i) v = v * (r - i) / (i + 1);
  return v;
}
// shifted Jacobi polynomial by its closed form sum_s C(n+a,n-s) C(n+b,s) (x-1)^s x^(n-s)
static double jac(int n, double a, double b, double x) {
  double v = 0;
  for (int s = 0; s <= n; ++s) {
    double m = binom(n + a, n - s) * binom(n + b, s);
    for (int i = 0; i < s; ++i) m *= x - 1;
    for (int i = s; i < n; ++i) m *= x;
    v += m;
  }
  return v;
}
static double ipow(double x, int n) { double v = 1; for (int i = 0; i < n; ++i) v *= x; return v; }

static void legendre(int n) {
  const double x = lfv::real("x"), t = lfv::realIn("t", 0.0, 2.0);
  // closed form, homogenised: sum_s C(n,s)^2 (x-t)^s x^(n-s)
  double v = 0;
  for (int s = 0; s <= n; ++s) v += binom(n, s) * binom(n, s) * ipow(x - t, s) * ipow(x, n - s);
  lfv::eq("Legendre: closed form", Legendre(n, x, t), v, 1e-9);
  lfv::eq("Legendre: scaling parameter defaults to one", Legendre(n, x), Legendre(n, x, 1.0));
  if (n >= 2) lfv::eq("Legendre: recurrence", n * Legendre(n, x, t), (2 * n - 1) * (2 * x - t) * Legendre(n - 1, x, t) - (n - 1) * t * t * Legendre(n - 2, x, t), 1e-9);
  lfv::eq("Legendre: value one at the right end", Legendre(n, 1.0), 1.0);
  lfv::eq("Legendre: value +-1 at the left end", Legendre(n, 0.0), n % 2 ? -1.0 : 1.0);
  lfv::deriv("LegendreDx is the derivative of Legendre", LegendreDx(n, x, t), [&](double h) { return Legendre(n, x + h, t); }, 1e-9);
  lfv::eq("LegendreDx: scaling parameter defaults to one", LegendreDx(n, x), LegendreDx(n, x, 1.0));
  if (n >= 1) {
    lfv::deriv("ILegendreDx is the x-derivative of ILegendre", ILegendreDx(n, x, t), [&](double h) { return ILegendre(n, x + h, t); }, 1e-9);
    lfv::eq("ILegendre integrates Legendre", ILegendreDx(n, x, t), Legendre(n - 1, x, t), 1e-9);
    lfv::deriv("ILegendreDt is the t-derivative of ILegendre", ILegendreDt(n, x, t), [&](double h) { return ILegendre(n, x, t + h); }, 1e-9);
    lfv::eq("ILegendre vanishes at the left end", ILegendre(n, 0.0, t), 0.0, 1e-9);
    if (n >= 2) lfv::eq("ILegendre vanishes at the right end", ILegendre(n, t, t), 0.0, 1e-9);
    lfv::eq("ILegendre: scaling parameter defaults to one", ILegendre(n, x), ILegendre(n, x, 1.0));
    lfv::eq("ILegendreDx: scaling parameter defaults to one", ILegendreDx(n, x), ILegendreDx(n, x, 1.0));
    lfv::eq("ILegendreDt: scaling parameter defaults to one", ILegendreDt(n, x), ILegendreDt(n, x, 1.0));
  }
  lfv::cover("legendre");
}
#ifndef NLEG
#define NLEG 12
#define NLEGT 18
#define NJAC 7
#define NJACT 10
#define NJACI 9
#endif
LFV_UNIT(legendre__s1) { legendre((int)lfv::choose("n", NLEG + 1)); }
LFV_UNIT(T_legendre__s1) { legendre(NLEG + 1 + (int)lfv::choose("n", NLEGT - NLEG)); }

// arbitrary real parameters alpha, beta > -1
static void jacobi(int n) {
  const double x = lfv::real("x"), a = lfv::real("alpha", -1, -1, -0.5, 6.0), b = lfv::real("beta", -1, -1, -0.5, 6.0);
  lfv::assume(a > -1.0);
  lfv::assume(b > -1.0);
  lfv::eq("Jacobi: closed form", Jacobi(n, a, b, x), jac(n, a, b, x), 1e-8);
  lfv::cover("jacobi");
}
LFV_UNIT(jacobi__s1) { jacobi((int)lfv::choose("n", 5)); }
LFV_UNIT(T_jacobi__s1) { jacobi(5 + (int)lfv::choose("n", 2)); }
// beta = 0, arbitrary real alpha > -1
static void jacobi0(int n) {
  const double x = lfv::real("x"), a = lfv::real("alpha", -1, -1, -0.5, 8.0);
  lfv::assume(a > -1.0);
  lfv::eq("Jacobi(n,alpha,x) has beta = 0", Jacobi(n, a, x), jac(n, a, 0.0, x), 1e-7);
  lfv::deriv("JacobiDx is the derivative of Jacobi", JacobiDx(n, a, x), [&](double h) { return Jacobi(n, a, x + h); }, 1e-7);
  if (n >= 1) {
    lfv::deriv("IJacobiDx is the derivative of IJacobi", IJacobiDx(n, a, x), [&](double h) { return IJacobi(n, a, x + h); }, 1e-7);
    lfv::eq("IJacobi integrates Jacobi", IJacobiDx(n, a, x), jac(n - 1, a, 0.0, x), 1e-7);
    lfv::eq("IJacobi vanishes at the left end", IJacobi(n, a, 0.0), 0.0, 1e-7);
  }
  lfv::cover("jacobi0");
}
LFV_UNIT(jacobi0__s1) { jacobi0((int)lfv::choose("n", NJAC + 1)); }
LFV_UNIT(T_jacobi0__s1) { jacobi0(NJAC + 1 + (int)lfv::choose("n", NJACT - NJAC)); }
// the parameters the hierarchical elements use: even integers
static void jacobiInt(int n, int k) {
  const double x = lfv::real("x"), a = k;
  lfv::eq("Jacobi for integer alpha", Jacobi(n, a, x), jac(n, a, 0.0, x), 1e-6);
  lfv::deriv("JacobiDx for integer alpha", JacobiDx(n, a, x), [&](double h) { return Jacobi(n, a, x + h); }, 1e-6);
  if (n >= 1) {
    lfv::deriv("IJacobiDx for integer alpha", IJacobiDx(n, a, x), [&](double h) { return IJacobi(n, a, x + h); }, 1e-6);
    lfv::eq("IJacobi for integer alpha integrates Jacobi", IJacobiDx(n, a, x), jac(n - 1, a, 0.0, x), 1e-6);
    lfv::eq("IJacobi for integer alpha vanishes at the left end", IJacobi(n, a, 0.0), 0.0, 1e-9);
  }
  lfv::cover("jacobiInt");
}
LFV_UNIT(jacobi_int__s1) { const int n = (int)lfv::choose("n", NJACI + 1); jacobiInt(n, (int)lfv::choose("alpha", 21)); }

// orthogonality and normalisation, by a Gauss rule of sufficient degree
LFV_UNIT(orthogonality__s1) {
  const int n = (int)lfv::choose("n", 13), m = (int)lfv::choose("m", 13);
  const lf::quad::QuadRule q = lf::quad::make_QuadRule(RefEl::kSegment(), n + m + 12);
  double s = 0;
  for (int i = 0; i < (int)q.NumPoints(); ++i) s += q.Weights()(i) * Legendre(n, q.Points()(0, i)) * Legendre(m, q.Points()(0, i));
  lfv::eq("Legendre: orthogonal, with square norm 1/(2n+1)", s, n == m ? 1.0 / (2 * n + 1) : 0.0, 1e-11);
  for (int a = 0; a <= 12; a += 2) {
    s = 0;
    for (int i = 0; i < (int)q.NumPoints(); ++i) { const double x = q.Points()(0, i); s += q.Weights()(i) * ipow(1 - x, a) * Jacobi(n, a, x) * Jacobi(m, a, x); }
    lfv::eq("Jacobi: orthogonal for the weight (1-x)^alpha, with square norm 1/(2n+alpha+1)", s, n == m ? 1.0 / (2 * n + a + 1) : 0.0, 1e-10);
  }
  lfv::cover("orthogonality");
}

// C05: quadrature rules are exact up to their stated degree.
#include <lf/quad/gauss_quadrature.h>
#include <lf/quad/quad.h>

#include <cmath>
#include <vector>

#include "lfv.h"
using lf::base::RefEl;
using lf::quad::QuadRule;

// Every polynomial of the space is a linear combination of the monomials below and both the
// integral and the rule are linear: exactness on the monomials is exactness on the space.
static void exact(const QuadRule& q, RefEl r, unsigned atLeast) {
  const int d = (int)r.Dimension();
  lfv::ensure("reference element of the rule", q.RefEl() == r);
  lfv::ensure("declared degree is at least the requested degree", q.Degree() >= atLeast);
  lfv::ensure("Order is Degree + 1", q.Order() == q.Degree() + 1);
  const int n = (int)q.NumPoints();
  lfv::ensure("as many weights as points", n > 0 && q.Weights().size() == n && q.Points().rows() == d && q.Points().cols() == n);
  const Eigen::MatrixXd& P = q.Points();
  const Eigen::VectorXd& W = q.Weights();
  for (int i = 0; i < n; ++i) {
    for (int k = 0; k < d; ++k) lfv::ensure("points lie in the reference element", P(k, i) >= 0.0 && P(k, i) <= 1.0);
    if (r == RefEl::kTria()) lfv::ensure("points lie in the reference triangle", P(0, i) + P(1, i) <= 1.0 + 1e-15);
  }
  lfv::cover("exact");
  const int D = (int)q.Degree();
  std::vector<double> wx(n), wxy(n);
  for (int i = 0; i < n; ++i) wx[i] = W(i);
  for (int a = 0; a <= D; ++a) {
    if (d == 1) {
      double s = 0;
      for (int i = 0; i < n; ++i) { s += wx[i]; wx[i] *= P(0, i); }
      lfv::eq("monomials up to the declared degree are integrated exactly", s, 1.0 / (a + 1), 2e-13);
      continue;
    }
    double ref = 1.0;  // triangle: a! b! / (a+b+2)!  ; square: 1/((a+1)(b+1))
    if (r == RefEl::kTria()) { ref = 1.0 / ((a + 1.0) * (a + 2.0)); }
    const int top = r == RefEl::kTria() ? D - a : D;
    for (int i = 0; i < n; ++i) wxy[i] = wx[i];
    for (int b = 0; b <= top; ++b) {
      double s = 0;
      for (int i = 0; i < n; ++i) { s += wxy[i]; wxy[i] *= P(1, i); }
      lfv::eq("monomials up to the declared degree are integrated exactly", s, r == RefEl::kTria() ? ref : 1.0 / ((a + 1.0) * (b + 1.0)), 2e-13);
      ref *= (b + 1.0) / (a + b + 3.0);
    }
    for (int i = 0; i < n; ++i) wx[i] *= P(0, i);
  }
}
static RefEl refel(long k) { return k == 0 ? RefEl::kSegment() : k == 1 ? RefEl::kTria() : RefEl::kQuad(); }
// make_QuadRule
LFV_UNIT(segment__s1) { const unsigned n = (unsigned)lfv::choose("degree", 41); exact(lf::quad::make_QuadRule(RefEl::kSegment(), n), RefEl::kSegment(), n); }
LFV_UNIT(quad__s1) { const unsigned n = (unsigned)lfv::choose("degree", 26); exact(lf::quad::make_QuadRule(RefEl::kQuad(), n), RefEl::kQuad(), n); }
LFV_UNIT(tria__s1) { const unsigned n = (unsigned)lfv::choose("degree", 54); exact(lf::quad::make_QuadRule(RefEl::kTria(), n), RefEl::kTria(), n); }
LFV_UNIT(T_segment__s1) { const unsigned n = 41 + (unsigned)lfv::choose("degree", 60); exact(lf::quad::make_QuadRule(RefEl::kSegment(), n), RefEl::kSegment(), n); }
LFV_UNIT(T_quad__s1) { const unsigned n = 26 + (unsigned)lfv::choose("degree", 16); exact(lf::quad::make_QuadRule(RefEl::kQuad(), n), RefEl::kQuad(), n); }
LFV_UNIT(T_tria__s1) { const unsigned n = 54 + (unsigned)lfv::choose("degree", 8); exact(lf::quad::make_QuadRule(RefEl::kTria(), n), RefEl::kTria(), n); }
// named rules
LFV_UNIT(named_rules) {
  switch (lfv::choose("rule", 11)) {
    case 0: exact(lf::quad::make_TriaQR_MidpointRule(), RefEl::kTria(), 1); break;
    case 1: exact(lf::quad::make_TriaQR_P1O2(), RefEl::kTria(), 1); break;
    case 2: exact(lf::quad::make_TriaQR_EdgeMidpointRule(), RefEl::kTria(), 2); break;
    case 3: exact(lf::quad::make_TriaQR_P3O3(), RefEl::kTria(), 2); break;
    case 4: exact(lf::quad::make_TriaQR_P7O6(), RefEl::kTria(), 5); break;
    case 5: exact(lf::quad::make_TriaQR_P6O4(), RefEl::kTria(), 3); break;
    case 6: exact(lf::quad::make_QuadQR_MidpointRule(), RefEl::kQuad(), 1); break;
    case 7: exact(lf::quad::make_QuadQR_P1O2(), RefEl::kQuad(), 1); break;
    case 8: exact(lf::quad::make_QuadQR_EdgeMidpointRule(), RefEl::kQuad(), 1); break;
    case 9: exact(lf::quad::make_QuadQR_P4O2(), RefEl::kQuad(), 1); break;
    case 10: exact(lf::quad::make_QuadQR_P4O4(), RefEl::kQuad(), 3); break;
  }
}
LFV_UNIT(named_rule_sizes) {
  lfv::ensure("P1O2", lf::quad::make_TriaQR_P1O2().NumPoints() == 1 && lf::quad::make_QuadQR_P1O2().NumPoints() == 1);
  lfv::ensure("P3O3", lf::quad::make_TriaQR_P3O3().NumPoints() == 3);
  lfv::ensure("P7O6", lf::quad::make_TriaQR_P7O6().NumPoints() == 7);
  lfv::ensure("P6O4", lf::quad::make_TriaQR_P6O4().NumPoints() == 6);
  lfv::ensure("P4O2", lf::quad::make_QuadQR_P4O2().NumPoints() == 4);
  lfv::ensure("P4O4", lf::quad::make_QuadQR_P4O4().NumPoints() == 4);
  lfv::cover("sizes");
}
LFV_UNIT(nodal_rules) {
  const RefEl r = refel(lfv::choose("refel", 3));
  const QuadRule q = lf::quad::make_QuadRuleNodal(r);
  exact(q, r, 1);
  lfv::ensure("nodal rule: points are the vertices", q.Points() == r.NodeCoords());
}
LFV_UNIT(unsupported) {
  const unsigned n = (unsigned)lfv::integer("degree", 0, 1L << 20);
  lfv::cover("unsupported");
  lfv::rejects("no rule for a point", [&] { (void)lf::quad::make_QuadRule(RefEl::kPoint(), n); });
}
// 1D rules: Gauss-Legendre on [0,1], Gauss-Jacobi on [-1,1]
LFV_UNIT(gauss_legendre__s1) {
  const unsigned n = 1 + (unsigned)lfv::choose("points", 20);
  const auto [p, w] = lf::quad::GaussLegendre(n);
  lfv::ensure("sizes", p.size() == (int)n && w.size() == (int)n);
  exact(QuadRule(RefEl::kSegment(), p.transpose(), w, 2 * n - 1), RefEl::kSegment(), 2 * n - 1);
  for (unsigned i = 0; i < n; ++i) {
    lfv::ensure("weights are positive", w(i) > 0.0);
    for (unsigned j = 0; j < i; ++j) lfv::ensure("points are distinct", p(i) != p(j));
  }
}
LFV_UNIT(gauss_jacobi__s3) {
  static const double E[4] = {0.0, 1.0, 2.0, 0.5};
  const unsigned n = 1 + (unsigned)lfv::choose("points", 9);
  const double a = E[lfv::choose("alpha", 4)], b = E[lfv::choose("beta", 4)];
  const auto [p, w] = lf::quad::GaussJacobi(n, a, b);
  lfv::ensure("sizes", p.size() == (int)n && w.size() == (int)n);
  // moments of (1+x)^k: B(a+1, b+k+1) 2^(a+b+k+1), by the recurrence in k
  double m = std::pow(2.0, a + b + 1) * std::tgamma(a + 1) * std::tgamma(b + 1) / std::tgamma(a + b + 2);
  std::vector<double> v(n);
  for (unsigned i = 0; i < n; ++i) { v[i] = w(i); lfv::ensure("points lie in [-1,1]", p(i) > -1.0 && p(i) < 1.0); }
  for (unsigned k = 0; k <= 2 * n - 1; ++k) {
    double s = 0;
    for (unsigned i = 0; i < n; ++i) { s += v[i]; v[i] *= 1.0 + p(i); }
    lfv::eq("Gauss-Jacobi is exact up to degree 2n-1", s / m, 1.0, 1e-11);
    m *= 2.0 * (b + k + 1) / (a + b + k + 2);
  }
  lfv::cover("jacobi");
}
// QuadRuleCache: same rule whatever was requested before, and references stay valid
static bool sameRule(const QuadRule& a, const QuadRule& b) {
  return a.RefEl() == b.RefEl() && a.Degree() == b.Degree() && a.Points().rows() == b.Points().rows() && a.Points().cols() == b.Points().cols() && a.Points() == b.Points() && a.Weights() == b.Weights();
}
LFV_UNIT(cache__s2) {
  static const unsigned DEG[4] = {0, 1, 3, 12};
  lf::quad::QuadRuleCache c;
  RefEl r[3] = {RefEl::kTria(), RefEl::kTria(), RefEl::kTria()};
  unsigned d[3];
  const QuadRule* q[3];
  for (int i = 0; i < 3; ++i) {
    r[i] = refel(lfv::choose("refel", 3, i));
    d[i] = DEG[lfv::choose("degree", 4, i)];
    q[i] = &c.Get(r[i], d[i]);
    lfv::ensure("rule for the requested element", q[i]->RefEl() == r[i]);
    lfv::ensure("rule of the requested degree", q[i]->Degree() >= d[i]);
  }
  for (int i = 0; i < 3; ++i) {
    lfv::ensure("references stay valid and name the rule of make_QuadRule", sameRule(*q[i], lf::quad::make_QuadRule(r[i], d[i])));
    lfv::ensure("a later request returns the same object", &c.Get(r[i], d[i]) == q[i]);
  }
  lfv::cover("cache");
}

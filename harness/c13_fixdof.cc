// C13: fixing solution components yields an equivalent constrained system.
#include <lf/assemble/assemble.h>
#include <lf/assemble/fix_dof.h>

#include "lfv.h"
using Coo = lf::assemble::COOMatrix<double>;
using lf::assemble::gdof_idx_t;

struct System {
  int n = 0;
  Coo A{1, 1};
  Eigen::VectorXd b;
  Eigen::MatrixXd A0;
  Eigen::VectorXd b0, val;
  bool fixed[8] = {};
};
// a full system of size n, every entry split into two triplets on the diagonal, plus `extra` repeated entries
static System make(int n) {
  System s;
  s.n = n;
  s.A = Coo(n, n);
  s.b.resize(n);
  s.b0.resize(n);
  s.val.resize(n);
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j) {
      s.A.AddToEntry(i, j, lfv::real("a", i, j));
      if (i == j || i == j + 1) s.A.AddToEntry(i, j, lfv::real("d", i, j));
    }
  for (int i = 0; i < n; ++i) {
    s.b0(i) = s.b(i) = lfv::real("b", i);
    s.val(i) = lfv::real("val", i);
    s.fixed[i] = lfv::choose("fixed", 2, i) == 1;
  }
  s.A0 = s.A.makeDense();
  return s;
}
// eliminated: unknowns flagged are also removed from the other equations
static void check(System& s, bool eliminated) {
  const int n = s.n;
  lfv::ensure("the system keeps its size", s.A.rows() == n && s.A.cols() == n && s.b.size() == n);
  const Eigen::MatrixXd M = s.A.makeDense();
  Eigen::VectorXd x(n);
  for (int i = 0; i < n; ++i) x(i) = lfv::real("x", i);
  for (int i = 0; i < n; ++i) {
    if (s.fixed[i]) {
      for (int j = 0; j < n; ++j) lfv::eq("flagged equations become x_i = value (matrix)", M(i, j), i == j ? 1.0 : 0.0);
      lfv::eq("flagged equations become x_i = value (right-hand side)", s.b(i), s.val(i));
    } else {
      // residual of the modified equation at any x with the prescribed values = residual of the original equation
      double r = -s.b(i), r0 = -s.b0(i);
      for (int j = 0; j < n; ++j) {
        const double xj = s.fixed[j] ? s.val(j) : x(j);
        r += M(i, j) * xj;
        r0 += s.A0(i, j) * xj;
      }
      lfv::eq("other equations are the original ones with the prescribed values inserted", r, r0);
      for (int j = 0; j < n; ++j)
        if (!s.fixed[j]) lfv::eq("coefficients of unflagged unknowns are unchanged", M(i, j), s.A0(i, j));
        else if (eliminated) lfv::eq("flagged columns are eliminated", M(i, j), 0.0);
        else lfv::eq("flagged columns are kept", M(i, j), s.A0(i, j));
    }
  }
  lfv::cover("fixed");
}
static void flagged(int n) {
  System s = make(n);
  auto sel = [&](gdof_idx_t i) { return std::make_pair(s.fixed[i], s.val(i)); };
  lf::assemble::FixFlaggedSolutionComponents<double>(sel, s.A, s.b);
  check(s, true);
}
static void alt(int n) {
  System s = make(n);
  auto sel = [&](gdof_idx_t i) { return std::make_pair(s.fixed[i], s.val(i)); };
  lf::assemble::FixFlaggedSolutionCompAlt<double>(sel, s.A, s.b);
  check(s, false);
}
static void lse(int n) {
  System s = make(n);
  lf::assemble::fixed_components_t<double> f;
  // any order of the prescribed components
  const bool reverse = lfv::choose("order", 2) == 1;
  for (int k = 0; k < n; ++k) { const int i = reverse ? n - 1 - k : k; if (s.fixed[i]) f.emplace_back(i, s.val(i)); }
  lf::assemble::FixSolutionComponentsLse<double>(f, s.A, s.b);
  check(s, false);
}
#define SIZES(F) \
  LFV_UNIT(F##_1) { F(1); } \
  LFV_UNIT(F##_2__s2) { F(2); } \
  LFV_UNIT(F##_3__s3) { F(3); } \
  LFV_UNIT(F##_4__s4) { F(4); } \
  LFV_UNIT(F##_5__s5) { F(5); } \
  LFV_UNIT(F##_6__s6) { F(6); } \
  LFV_UNIT(T_##F##_8__s8) { F(8); }
SIZES(flagged)
SIZES(alt)
SIZES(lse)
// values supplied for components that are not flagged are not looked at
LFV_UNIT(selector_values) {
  const int k = (int)lfv::choose("variant", 2);
  System s = make(2);
  auto sel = [&](gdof_idx_t i) { return std::make_pair(s.fixed[i], s.fixed[i] ? s.val(i) : lfv::real("junk", (int)i)); };
  if (k == 0) lf::assemble::FixFlaggedSolutionComponents<double>(sel, s.A, s.b);
  else lf::assemble::FixFlaggedSolutionCompAlt<double>(sel, s.A, s.b);
  check(s, k == 0);
}
LFV_UNIT(rejected__s1) {
  const int k = (int)lfv::choose("case", 4);
  Coo A(k == 0 ? 3 : 2, 2);
  A.AddToEntry(0, 0, 1.0);
  Eigen::VectorXd b(k == 1 ? 1 : 2);
  b.setZero();
  const unsigned idx = (unsigned)lfv::integer("idx", 2, 1L << 31);
  lf::assemble::fixed_components_t<double> f;
  f.emplace_back(k == 3 ? idx : 0U, 1.0);
  auto sel = [&](gdof_idx_t i) { return std::make_pair(i == 0, 1.0); };
  lfv::cover("rejected");
  if (k == 3) lfv::rejects("indices outside the system are rejected", [&] { lf::assemble::FixSolutionComponentsLse<double>(f, A, b); });
  else if (k == 2) lfv::rejects("a short right-hand side is rejected", [&] { Eigen::VectorXd c(1); c.setZero(); lf::assemble::FixFlaggedSolutionCompAlt<double>(sel, A, c); });
  else lfv::rejects("non-square systems and wrong right-hand sides are rejected", [&] { lf::assemble::FixFlaggedSolutionComponents<double>(sel, A, b); });
}

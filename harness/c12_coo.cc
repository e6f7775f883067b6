// C12: triplet matrices represent the sum of their entries.
#include <lf/assemble/coomatrix.h>

#include <Eigen/Sparse>

#include "lfv.h"
using lf::assemble::COOMatrix;
using Coo = COOMatrix<double>;

static const int K = 3;  // indices of the entries: 0..K-1
// ghost: the represented matrix
struct Ghost {
  int rows, cols;
  double m[K + 1][K + 1] = {};
  bool touched[K + 1][K + 1] = {};
};
static void add(Coo& A, Ghost& g, int n) {
  const int i = (int)lfv::choose("i", K, n), j = (int)lfv::choose("j", K, n);
  const double v = lfv::real("v", n);
  A.AddToEntry(i, j, v);
  g.m[i][j] += v;
  g.touched[i][j] = true;
  if (i + 1 > g.rows) g.rows = i + 1;
  if (j + 1 > g.cols) g.cols = j + 1;
}
static void represents(const Coo& A, const Ghost& g) {
  lfv::ensure("dimensions cover the declared size and all entries", (int)A.rows() == g.rows && (int)A.cols() == g.cols);
  const Eigen::MatrixXd D = A.makeDense();
  lfv::ensure("shape of makeDense", D.rows() == g.rows && D.cols() == g.cols);
  for (int i = 0; i < g.rows; ++i) for (int j = 0; j < g.cols; ++j) lfv::eq("makeDense is the represented matrix", D(i, j), g.m[i][j]);
  const Eigen::SparseMatrix<double> S = A.makeSparse();
  lfv::ensure("shape of makeSparse", S.rows() == g.rows && S.cols() == g.cols);
  for (int i = 0; i < g.rows; ++i) for (int j = 0; j < g.cols; ++j) lfv::eq("makeSparse is the represented matrix", S.coeff(i, j), g.m[i][j]);
  Eigen::VectorXd x(g.cols), y(g.rows), y0(g.rows);
  for (int j = 0; j < g.cols; ++j) x(j) = lfv::real("x", j);
  for (int i = 0; i < g.rows; ++i) y(i) = y0(i) = lfv::real("y", i);
  const double alpha = lfv::real("alpha");
  const Eigen::VectorXd r = A.MatVecMult(alpha, x);
  A.MatVecMult(alpha, x, y);
  lfv::ensure("size of the matrix-vector product", r.size() == g.rows && y.size() == g.rows);
  for (int i = 0; i < g.rows; ++i) {
    double s = 0;
    for (int j = 0; j < g.cols; ++j) s += g.m[i][j] * alpha * x(j);
    lfv::eq("MatVecMult is the scaled product", r(i), s);
    lfv::eq("in-place MatVecMult adds the scaled product", y(i), y0(i) + s);
  }
  double t[K + 1][K + 1] = {};
  for (const auto& e : A.triplets()) {
    lfv::ensure("triplets lie inside the matrix", e.row() >= 0 && e.row() < g.rows && e.col() >= 0 && e.col() < g.cols);
    t[e.row()][e.col()] += e.value();
  }
  for (int i = 0; i < g.rows; ++i) for (int j = 0; j < g.cols; ++j) lfv::eq("triplets sum to the represented matrix", t[i][j], g.m[i][j]);
}
// every history of additions, clearing and selective zeroing
static void history(int before, int after) {
  Ghost g;
  g.rows = 1 + (int)lfv::choose("rows", 2);
  g.cols = 1 + (int)lfv::choose("cols", 2);
  Coo A(g.rows, g.cols);
  for (int n = 0; n < before; ++n) add(A, g, n);
  switch (lfv::choose("operation", 3)) {
    case 0: break;
    case 1:
      A.setZero();
      for (auto& r : g.m) for (double& v : r) v = 0;
      break;
    case 2: {
      // an arbitrary predicate
      auto pred = [](unsigned i, unsigned j) { const long a[2] = {(long)i, (long)j}; return lfv_fun_int("pred", 2, a, 0, 1) != 0; };
      A.setZero(pred);
      for (int i = 0; i < K; ++i) for (int j = 0; j < K; ++j) if (g.touched[i][j] && pred(i, j)) g.m[i][j] = 0;
      break;
    }
  }
  for (int n = 0; n < after; ++n) add(A, g, before + n);
  represents(A, g);
  lfv::cover("history");
}
LFV_UNIT(history_0_1__s2) { history(0, 1); }
LFV_UNIT(history_1_1__s2) { history(1, 1); }
LFV_UNIT(history_2_0__s3) { history(2, 0); }
LFV_UNIT(history_2_1__s4) { history(2, 1); }
LFV_UNIT(history_3_0__s4) { history(3, 0); }
LFV_UNIT(T_history_3_1__s6) { history(3, 1); }
LFV_UNIT(T_history_4_0__s6) { history(4, 0); }
// sizes: any declared size and any entry
LFV_UNIT(sizes) {
  const unsigned r = (unsigned)lfv::integer("rows", 0, 1L << 30), c = (unsigned)lfv::integer("cols", 0, 1L << 30);
  Coo A(r, c);
  lfv::ensure("declared size", A.rows() == (long)r && A.cols() == (long)c);
  lfv::ensure("no entries at first", A.triplets().empty());
  long R = r, C = c;
  for (int n = 0; n < 3; ++n) {
    const long i = lfv::integer("i", 0, 1L << 30, n), j = lfv::integer("j", 0, 1L << 30, n);
    const double v = lfv::real("v", n);
    A.AddToEntry((unsigned)i, (unsigned)j, v);
    R = i + 1 > R ? i + 1 : R;
    C = j + 1 > C ? j + 1 : C;
    lfv::ensure("dimensions are the largest index or the declared size", A.rows() == R && A.cols() == C);
    lfv::ensure("one triplet per addition", (int)A.triplets().size() == n + 1 && A.triplets()[n].row() == i && A.triplets()[n].col() == j);
    lfv::eq("value of the triplet", A.triplets()[n].value(), v);
  }
  A.setZero();
  lfv::ensure("clearing keeps the size", A.triplets().empty() && A.rows() == R && A.cols() == C);
  lfv::cover("sizes");
}
LFV_UNIT(rejected_matvec__s1) {
  const int k = (int)lfv::choose("case", 3);
  Coo A(2, 3);
  A.AddToEntry(0, 1, lfv::real("v"));
  Eigen::VectorXd x(k == 0 ? 2 : 3), y(k == 1 ? 1 : 2);
  x.setZero();
  y.setZero();
  lfv::cover("rejected_matvec");
  if (k == 2) lfv::rejects("makeSparse of an empty matrix is rejected", [&] { (void)Coo(0, 3).makeSparse(); });
  else lfv::rejects("vectors that are too short are rejected", [&] { A.MatVecMult(1.0, x, y); });
}
// copies are independent of the original
LFV_UNIT(copies) {
  Ghost g;
  g.rows = 1; g.cols = 1;
  Coo A(1, 1);
  add(A, g, 0);
  Coo B(A);
  Ghost h = g;
  add(B, h, 1);
  represents(A, g);
  represents(B, h);
  A = B;
  represents(A, h);
  lfv::cover("copies");
}

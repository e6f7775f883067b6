// C02: the metric data of every geometry are consistent with its mapping.
#include "geom_common.h"
using namespace lfvg;

static void differential(Shape s, int wd) {
  const MatrixXd c = nodes(s, wd);
  if (s == TRI1 || s == QUAD1 || s == PARA) assumeNonDegenerate(s, c);
  const std::unique_ptr<Geometry> g = make(s, c);
  const int d = (int)refElOf(s).Dimension();
  const int n = 1 + (int)lfv::choose("npoints", 3);
  const MatrixXd p = points(d, n);
  lfv::ensure("DimGlobal is the world dimension", (int)g->DimGlobal() == wd);
  lfv::ensure("DimLocal is the dimension of the reference element", (int)g->DimLocal() == d);
  lfv::ensure("RefEl", g->RefEl() == refElOf(s));
  const MatrixXd G = g->Global(p);
  const MatrixXd J = g->Jacobian(p);
  lfv::ensure("Global: shape of the result", G.rows() == wd && G.cols() == n);
  lfv::ensure("Jacobian: shape of the result", J.rows() == wd && J.cols() == n * d);
  for (int q = 0; q < n; ++q)
    for (int j = 0; j < d; ++j)
      for (int k = 0; k < wd; ++k)
        lfv::deriv("Jacobian is the derivative of Global", J(k, q * d + j), [&](double h) {
          // evaluated strictly inside the reference element to satisfy its precondition
          MatrixXd x(d, 1);
          for (int i = 0; i < d; ++i) x(i, 0) = p(i, q);
          x(j, 0) = x(j, 0) + h;
          lfv::assume(x(j, 0) >= 0.0);
          lfv::assume(x(j, 0) <= 1.0);
          return g->Global(x)(k, 0);
        });
  lfv::cover("differential");
}
static void metric(Shape s, int wd) {
  const MatrixXd c = nodes(s, wd);
  if (s == TRI1 || s == QUAD1 || s == PARA) assumeNonDegenerate(s, c);
  const std::unique_ptr<Geometry> g = make(s, c);
  const int d = (int)refElOf(s).Dimension();
  const int n = 1 + (int)lfv::choose("npoints", 2);
  const MatrixXd p = points(d, n);
  const MatrixXd J = g->Jacobian(p);
  const VectorXd ie = g->IntegrationElement(p);
  lfv::ensure("IntegrationElement: size of the result", ie.size() == n);
  for (int q = 0; q < n; ++q) {
    double gr[2][2] = {{1, 0}, {0, 1}};
    for (int i = 0; i < d; ++i)
      for (int j = 0; j < d; ++j) { gr[i][j] = 0; for (int k = 0; k < wd; ++k) gr[i][j] += J(k, q * d + i) * J(k, q * d + j); }
    const double det = gr[0][0] * gr[1][1] - gr[0][1] * gr[1][0];
    // lemma: the Gram determinant is a sum of squares, hence >= 0; with the two
    // obligations below IntegrationElement = sqrt(det(J^T J))
    double minors = d == 0 ? 1.0 : 0.0;
    if (d == 1) for (int k = 0; k < wd; ++k) minors += sq(J(k, q));
    if (d == 2) for (int k = 0; k < wd; ++k) for (int l = 0; l < k; ++l) minors += sq(J(k, 2 * q) * J(l, 2 * q + 1) - J(l, 2 * q) * J(k, 2 * q + 1));
    lfv::eq("lemma: det(J^T J) is a sum of squares", det, minors);
    lfv::eq("IntegrationElement^4 = det(J^T J)^2", sq(sq(ie(q))), sq(det));
    lfv::ensure("IntegrationElement >= 0", ie(q) >= 0.0);
    lfv::assume(det != 0.0);
    if (q == 0) lfv::cover("metric");
  }
  const MatrixXd JI = g->JacobianInverseGramian(p);
  lfv::ensure("JacobianInverseGramian: shape of the result", JI.rows() == wd && JI.cols() == n * d);
  for (int q = 0; q < n; ++q) {
    double X[2][2] = {{0, 0}, {0, 0}};
    for (int i = 0; i < d; ++i)
      for (int j = 0; j < d; ++j) {
        double v = 0;
        for (int k = 0; k < wd; ++k) { v += JI(k, q * d + i) * J(k, q * d + j); X[i][j] += JI(k, q * d + i) * JI(k, q * d + j); }
        lfv::eq("JacobianInverseGramian^T J = I", v, i == j ? 1.0 : 0.0);
      }
    if (wd > d)
      for (int k = 0; k < wd; ++k)
        for (int j = 0; j < d; ++j) {
          double v = 0;
          for (int i = 0; i < d; ++i) v += J(k, q * d + i) * X[i][j];
          lfv::eq("columns of JacobianInverseGramian are in the range of J", v, JI(k, q * d + j));
        }
  }
}
#define ALL(NAME, S, W) \
  LFV_UNIT(diff_##NAME) { differential(S, W); } \
  LFV_UNIT(metric_##NAME) { metric(S, W); }
ALL(segment_o1_1d, SEG1, 1)
ALL(segment_o1_2d, SEG1, 2)
ALL(segment_o1_3d, SEG1, 3)
ALL(segment_o2_1d, SEG2, 1)
ALL(segment_o2_2d, SEG2, 2)
ALL(segment_o2_3d, SEG2, 3)
ALL(tria_o1_2d, TRI1, 2)
ALL(tria_o1_3d, TRI1, 3)
ALL(tria_o2_2d, TRI2, 2)
ALL(tria_o2_3d, TRI2, 3)
ALL(quad_o1_2d, QUAD1, 2)
ALL(quad_o1_3d, QUAD1, 3)
ALL(parallelogram_2d, PARA, 2)
ALL(parallelogram_3d, PARA, 3)
ALL(quad_o2_2d, QUAD2, 2)
ALL(quad_o2_3d, QUAD2, 3)

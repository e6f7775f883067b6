// C06: Lagrangian finite elements satisfy the nodal basis axioms.
#include <lf/fe/fe.h>
#include <lf/uscalfe/lagr_fe.h>
#include <lf/uscalfe/precomputed_scalar_reference_finite_element.h>

#include "geom_common.h"
using namespace lfvg;
using lf::fe::ScalarReferenceFiniteElement;
using FE = ScalarReferenceFiniteElement<double>;

// expected evaluation nodes: vertices, then the interior nodes of the edges in the
// direction of the edge, then the interior nodes of the cell
static int interiorNodes(RefEl r, int p) { return r == RefEl::kPoint() ? 1 : r == RefEl::kSegment() ? p - 1 : r == RefEl::kTria() ? (p - 1) * (p - 2) / 2 : (p - 1) * (p - 1); }
static int inner(RefEl r, int p) { return r == RefEl::kPoint() ? 1 : interiorNodes(r, p); }

static void counts(const FE& fe, RefEl r, int p) {
  const int d = (int)r.Dimension();
  lfv::ensure("RefEl", fe.RefEl() == r);
  lfv::ensure("Degree", (int)fe.Degree() == p);
  lfv::ensure("Dimension", (int)fe.Dimension() == d);
  int tot = 0;
  for (int cd = 0; cd <= d; ++cd)
    for (int i = 0; i < (int)r.NumSubEntities(cd); ++i) {
      const int n = (int)fe.NumRefShapeFunctions(cd, i);
      lfv::ensure("shape functions per sub-entity", n == inner(r.SubType(cd, i), p));
      lfv::ensure("NumRefShapeFunctions(codim) agrees with the sub-entity counts", (int)fe.NumRefShapeFunctions(cd) == n);
      tot += n;
    }
  lfv::ensure("counts add up to the total", (int)fe.NumRefShapeFunctions() == tot);
  lfv::ensure("as many evaluation nodes as shape functions", (int)fe.NumEvaluationNodes() == tot);
  const MatrixXd N = fe.EvaluationNodes();
  lfv::ensure("shape of EvaluationNodes", N.rows() == d && N.cols() == tot);
  const MatrixXd V = r.NodeCoords();
  int c = 0;
  for (int i = 0; i < (int)r.NumNodes(); ++i, ++c)
    for (int k = 0; k < d; ++k) lfv::eq("first evaluation nodes are the vertices", N(k, c), V(k, i));
  if (d == 2)
    for (int e = 0; e < (int)r.NumNodes(); ++e)
      for (int j = 1; j < p; ++j, ++c)
        for (int k = 0; k < 2; ++k) lfv::eq("evaluation nodes of an edge lie on it, in its direction", N(k, c), V(k, e) + (double)j / p * (V(k, (e + 1) % (int)r.NumNodes()) - V(k, e)));
  if (d == 1)
    for (int j = 1; j < p; ++j, ++c) lfv::eq("interior evaluation nodes of a segment", N(0, c), (double)j / p);
  if (d == 2)
    for (; c < tot; ++c) {
      lfv::ensure("remaining evaluation nodes are interior", N(0, c) > 0.01 && N(1, c) > 0.01 && (r == RefEl::kTria() ? N(0, c) + N(1, c) < 0.99 : N(0, c) < 0.99 && N(1, c) < 0.99));
      for (int j = 0; j < c; ++j) lfv::ensure("evaluation nodes are distinct", std::fabs(N(0, c) - N(0, j)) + std::fabs(N(1, c) - N(1, j)) > 0.01);
    }
  lfv::ensure("all evaluation nodes accounted for", c == tot);
  const MatrixXd B = fe.EvalReferenceShapeFunctions(N);
  lfv::ensure("shape of EvalReferenceShapeFunctions(nodes)", B.rows() == tot && B.cols() == tot);
  for (int i = 0; i < tot; ++i) for (int j = 0; j < tot; ++j) lfv::eq("shape functions are one at their node and zero at the others", B(i, j), i == j ? 1.0 : 0.0);
  Eigen::RowVectorXd vals(tot);
  for (int i = 0; i < tot; ++i) vals(i) = lfv::real("u", i);
  const Eigen::RowVectorXd dofs = fe.NodalValuesToDofs(vals);
  lfv::ensure("size of NodalValuesToDofs", dofs.cols() == tot);
  for (int i = 0; i < tot; ++i) lfv::eq("NodalValuesToDofs is the identity", dofs(i), vals(i));
  lfv::cover("counts");
}
static void pointwise(const FE& fe, RefEl r, int p) {
  const int d = (int)r.Dimension(), n = (int)fe.NumRefShapeFunctions();
  const int m = 1 + (int)lfv::choose("npoints", 3);
  const MatrixXd x = points(d, m);
  const MatrixXd B = fe.EvalReferenceShapeFunctions(x);
  const MatrixXd G = fe.GradientsReferenceShapeFunctions(x);
  lfv::ensure("shape of EvalReferenceShapeFunctions", B.rows() == n && B.cols() == m);
  lfv::ensure("shape of GradientsReferenceShapeFunctions", G.rows() == n && G.cols() == m * d);
  const MatrixXd N = fe.EvaluationNodes();
  for (int q = 0; q < m; ++q) {
    double s = 0;
    for (int i = 0; i < n; ++i) s += B(i, q);
    lfv::eq("shape functions sum to one", s, 1.0);
    for (int k = 0; k < d; ++k) {
      double g = 0;
      for (int i = 0; i < n; ++i) g += G(i, q * d + k);
      lfv::eq("gradients sum to zero", g, 0.0, 1e-9);
    }
    if (q == m - 1) {
      // reproduction of an arbitrary polynomial of the space
      double pv = 0, iv = 0;
      for (int a = 0; a <= p; ++a)
        for (int b = 0; b <= (d == 1 ? 0 : r == RefEl::kTria() ? p - a : p); ++b) {
          const double c = lfv::real("c", a, b);
          auto mono = [&](const MatrixXd& z, int j) { double v = 1; for (int t = 0; t < a; ++t) v *= z(0, j); for (int t = 0; t < b; ++t) v *= z(1, j); return v; };
          pv += c * mono(x, q);
          for (int i = 0; i < n; ++i) iv += c * mono(N, i) * B(i, q);
        }
      lfv::eq("polynomials of the space are reproduced", iv, pv, 1e-10);
    }
    for (int i = 0; i < n; ++i)
      for (int k = 0; k < d; ++k)
        lfv::deriv("gradients are the derivatives of the values", G(i, q * d + k), [&](double h) {
          MatrixXd y(d, 1);
          for (int l = 0; l < d; ++l) y(l, 0) = x(l, q);
          y(k, 0) = y(k, 0) + h;
          return fe.EvalReferenceShapeFunctions(y)(i, 0);
        }, 1e-10);
  }
  lfv::cover("pointwise");
}
// a shape function vanishes on every sub-entity that does not carry it
static void support(const FE& fe, RefEl r, int p) {
  const int d = (int)r.Dimension(), n = (int)fe.NumRefShapeFunctions(), nv = (int)r.NumNodes();
  if (d == 2) {
    const int e = (int)lfv::choose("edge", nv);
    const double t = lfv::realIn("t", 0.0, 1.0);
    const MatrixXd V = r.NodeCoords();
    MatrixXd x(2, 1);
    for (int k = 0; k < 2; ++k) x(k, 0) = V(k, e) + t * (V(k, (e + 1) % nv) - V(k, e));
    const MatrixXd B = fe.EvalReferenceShapeFunctions(x);
    for (int i = 0; i < n; ++i) {
      const bool onEdge = i < nv ? i == e || i == (e + 1) % nv : i < nv + nv * (p - 1) ? (i - nv) / (p - 1) == e : false;
      if (!onEdge) lfv::eq("shape functions vanish on edges that do not carry them", B(i, 0), 0.0);
    }
    // trace on the edge: the Lagrange basis of the segment in the direction of the edge
    for (int j = 0; j <= p; ++j) {
      double v = 1;
      for (int l = 0; l <= p; ++l) if (l != j) v *= (t * p - l) / (double)(j - l);
      const int i = j == 0 ? e : j == p ? (e + 1) % nv : nv + e * (p - 1) + j - 1;
      lfv::eq("trace on an edge is the one-dimensional Lagrange basis", B(i, 0), v, 1e-10);
    }
  }
  lfv::cover("support");
  lfv::ensure("support", true);
}
// the element wrapped with a quadrature rule is the same element, with its values at the points of the rule
static void wrapped(const FE& fe, RefEl r, int p) {
  const int d = (int)r.Dimension(), n = (int)fe.NumRefShapeFunctions(), m = 1 + (int)lfv::choose("npoints", 3);
  const MatrixXd x = points(d, m);
  VectorXd w(m);
  for (int q = 0; q < m; ++q) w(q) = lfv::real("w", q);
  lf::uscalfe::PrecomputedScalarReferenceFiniteElement<double> none;
  lfv::ensure("a default constructed wrapper is not initialized", !none.isInitialized());
  lf::uscalfe::PrecomputedScalarReferenceFiniteElement<double> pf(&fe, lf::quad::QuadRule(r, x, w, 1));
  if (lfv::choose("moved", 2)) { none = std::move(pf); pf = std::move(none); }
  lfv::ensure("the wrapper is initialized", pf.isInitialized());
  counts(pf, r, p);
  const lf::quad::QuadRule& qr = pf.Qr();
  lfv::ensure("the wrapper keeps the quadrature rule", qr.RefEl() == r && (int)qr.NumPoints() == m && qr.Points().cols() == m && qr.Weights().size() == m);
  for (int q = 0; q < m; ++q) {
    for (int k = 0; k < d; ++k) lfv::eq("points of the rule", qr.Points()(k, q), x(k, q));
    lfv::eq("weights of the rule", qr.Weights()(q), w(q));
  }
  const MatrixXd B = fe.EvalReferenceShapeFunctions(x), G = fe.GradientsReferenceShapeFunctions(x);
  const MatrixXd &PB = pf.PrecompReferenceShapeFunctions(), &PG = pf.PrecompGradientsReferenceShapeFunctions();
  const MatrixXd WB = pf.EvalReferenceShapeFunctions(x), WG = pf.GradientsReferenceShapeFunctions(x);
  lfv::ensure("shape of the precomputed values", PB.rows() == n && PB.cols() == m && WB.rows() == n && WB.cols() == m);
  lfv::ensure("shape of the precomputed gradients", PG.rows() == n && PG.cols() == m * d && WG.rows() == n && WG.cols() == m * d);
  for (int i = 0; i < n; ++i) {
    for (int q = 0; q < m; ++q) lfv::eq("precomputed values are the values at the points of the rule", PB(i, q), B(i, q)), lfv::eq("values of the wrapper", WB(i, q), B(i, q));
    for (int q = 0; q < m * d; ++q) lfv::eq("precomputed gradients are the gradients at the points of the rule", PG(i, q), G(i, q)), lfv::eq("gradients of the wrapper", WG(i, q), G(i, q));
  }
  lfv::cover("wrapped");
}
#define ALL(NAME, CLS, R, P) \
  LFV_UNIT(wrapped_##NAME) { lf::uscalfe::CLS<double> fe; wrapped(fe, RefEl::R(), P); } \
  LFV_UNIT(counts_##NAME) { lf::uscalfe::CLS<double> fe; counts(fe, RefEl::R(), P); } \
  LFV_UNIT(pointwise_##NAME) { lf::uscalfe::CLS<double> fe; pointwise(fe, RefEl::R(), P); } \
  LFV_UNIT(support_##NAME) { lf::uscalfe::CLS<double> fe; support(fe, RefEl::R(), P); }
ALL(o1_segment, FeLagrangeO1Segment, kSegment, 1)
ALL(o1_tria, FeLagrangeO1Tria, kTria, 1)
ALL(o1_quad, FeLagrangeO1Quad, kQuad, 1)
ALL(o2_segment, FeLagrangeO2Segment, kSegment, 2)
ALL(o2_tria, FeLagrangeO2Tria, kTria, 2)
ALL(o2_quad, FeLagrangeO2Quad, kQuad, 2)
ALL(o3_segment, FeLagrangeO3Segment, kSegment, 3)
ALL(o3_tria, FeLagrangeO3Tria, kTria, 3)
ALL(o3_quad, FeLagrangeO3Quad, kQuad, 3)
LFV_UNIT(point) {
  const unsigned p = (unsigned)lfv::integer("degree", 0, 1L << 20);
  const lf::fe::FePoint<double> fp(p);
  const FE& fe = fp;
  lfv::ensure("FePoint: element and degree", fe.RefEl() == RefEl::kPoint() && fe.Degree() == p);
  lfv::ensure("FePoint: one shape function", fe.NumRefShapeFunctions() == 1 && fe.NumRefShapeFunctions(0, 0) == 1 && fe.NumEvaluationNodes() == 1);
  const int m = 1 + (int)lfv::choose("npoints", 3);
  const MatrixXd B = fe.EvalReferenceShapeFunctions(MatrixXd(0, m));
  lfv::ensure("FePoint: shape of the values", B.rows() == 1 && B.cols() == m);
  for (int j = 0; j < m; ++j) lfv::eq("FePoint: value one", B(0, j), 1.0);
  const MatrixXd N = fe.EvaluationNodes();
  lfv::ensure("FePoint: evaluation node", N.rows() == 0 && N.cols() == 1);
  Eigen::RowVectorXd v(1);
  v(0) = lfv::real("u");
  lfv::eq("FePoint: NodalValuesToDofs", fe.NodalValuesToDofs(v)(0), v(0));
  lfv::cover("point");
}

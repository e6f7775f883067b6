// C08: hierarchic finite elements are conforming and internally consistent.
#include <lf/fe/fe.h>

#include "geom_common.h"
using namespace lfvg;
using FE = lf::fe::ScalarReferenceFiniteElement<double>;
using lf::fe::FeHierarchicQuad;
using lf::fe::FeHierarchicSegment;
using lf::fe::FeHierarchicTria;
using lf::mesh::Orientation;

struct Config {
  RefEl r = RefEl::kSegment();
  int p = 1;             // interior degree
  int e[4] = {1, 1, 1, 1};  // edge degrees
  bool pos[4] = {true, true, true, true};
  int nv() const { return (int)r.NumNodes(); }
  int nInt() const { return r == RefEl::kTria() ? (p - 1) * (p - 2) / 2 : r == RefEl::kQuad() ? (p - 1) * (p - 1) : p - 1; }
  int total() const {
    int n = nv() + nInt();
    if (r.Dimension() == 2) for (int i = 0; i < nv(); ++i) n += e[i] - 1;
    return n;
  }
  int edgeOffset(int k) const { int n = nv(); for (int i = 0; i < k; ++i) n += e[i] - 1; return n; }
  int degree() const { int d = std::max(p, 1); if (r.Dimension() == 2) for (int i = 0; i < nv(); ++i) d = std::max(d, e[i]); return d; }
};
static lf::quad::QuadRuleCache cache;
static Orientation orient[4];
static const FE* build(const Config& c) {
  for (int i = 0; i < 4; ++i) orient[i] = c.pos[i] ? Orientation::positive : Orientation::negative;
  if (c.r == RefEl::kSegment()) return new FeHierarchicSegment<double>(c.p, cache);
  if (c.r == RefEl::kTria()) return new FeHierarchicTria<double>(c.p, {(unsigned)c.e[0], (unsigned)c.e[1], (unsigned)c.e[2]}, cache, std::span<const Orientation>(orient, 3));
  return new FeHierarchicQuad<double>(c.p, {(unsigned)c.e[0], (unsigned)c.e[1], (unsigned)c.e[2], (unsigned)c.e[3]}, cache, std::span<const Orientation>(orient, 4));
}
// edge e of the reference element at parameter t in [0,1], in the local direction
static MatrixXd onEdge(RefEl r, int e, double t) {
  const MatrixXd V = r.NodeCoords();
  const int n = (int)r.NumNodes();
  MatrixXd x(2, 1);
  for (int k = 0; k < 2; ++k) x(k, 0) = V(k, e) + t * (V(k, (e + 1) % n) - V(k, e));
  return x;
}
static void counts(const Config& c, const FE& fe) {
  const int d = (int)c.r.Dimension();
  lfv::ensure("RefEl", fe.RefEl() == c.r);
  lfv::ensure("Dimension", (int)fe.Dimension() == d);
  lfv::ensure("Degree is the largest degree", (int)fe.Degree() == c.degree());
  lfv::ensure("number of interior shape functions", (int)fe.NumRefShapeFunctions(0, 0) == c.nInt() && (int)fe.NumRefShapeFunctions(0) == c.nInt());
  int tot = c.nInt();
  if (d == 2)
    for (int i = 0; i < c.nv(); ++i) {
      lfv::ensure("degree minus one shape functions on an edge", (int)fe.NumRefShapeFunctions(1, i) == c.e[i] - 1);
      tot += (int)fe.NumRefShapeFunctions(1, i);
    }
  for (int i = 0; i < c.nv(); ++i) {
    lfv::ensure("one shape function on a vertex", (int)fe.NumRefShapeFunctions(d, i) == 1);
    tot += (int)fe.NumRefShapeFunctions(d, i);
  }
  lfv::ensure("counts add up to the total", (int)fe.NumRefShapeFunctions() == tot && tot == c.total());
  const MatrixXd N = fe.EvaluationNodes();
  lfv::ensure("NumEvaluationNodes is the number of evaluation nodes", N.rows() == d && N.cols() == (int)fe.NumEvaluationNodes());
  for (int j = 0; j < N.cols(); ++j) {
    bool in = true;
    for (int k = 0; k < d; ++k) in = in && N(k, j) > -1e-10 && N(k, j) < 1 + 1e-10;
    if (c.r == RefEl::kTria()) in = in && N(0, j) + N(1, j) < 1 + 1e-10;
    lfv::ensure("evaluation nodes lie in the reference element", in);
  }
  lfv::cover("counts");
}
// interpolation of an arbitrary function of the space
static void dual(const Config& c, const FE& fe) {
  const int n = (int)fe.NumRefShapeFunctions();
  const MatrixXd B = fe.EvalReferenceShapeFunctions(fe.EvaluationNodes());
  lfv::ensure("shape of EvalReferenceShapeFunctions(nodes)", B.rows() == n && B.cols() == (int)fe.NumEvaluationNodes());
  Eigen::RowVectorXd coef(n), vals(B.cols());
  for (int i = 0; i < n; ++i) coef(i) = lfv::real("c", i);
  for (int j = 0; j < B.cols(); ++j) {
    double s = 0;
    for (int i = 0; i < n; ++i) s += coef(i) * B(i, j);
    vals(j) = s;
  }
  const Eigen::RowVectorXd dofs = fe.NodalValuesToDofs(vals);
  lfv::ensure("size of NodalValuesToDofs", dofs.cols() == n);
  for (int i = 0; i < n; ++i) lfv::eq("nodal values are converted to the coefficients they were made of", dofs(i), coef(i), 1e-9);
  lfv::cover("dual");
}
static void pointwise(const Config& c, const FE& fe, int m) {
  const int d = (int)c.r.Dimension(), n = (int)fe.NumRefShapeFunctions();
  const MatrixXd x = points(d, m);
  const MatrixXd B = fe.EvalReferenceShapeFunctions(x);
  const MatrixXd G = fe.GradientsReferenceShapeFunctions(x);
  lfv::ensure("shape of EvalReferenceShapeFunctions", B.rows() == n && B.cols() == m);
  lfv::ensure("shape of GradientsReferenceShapeFunctions", G.rows() == n && G.cols() == m * d);
  for (int q = 0; q < m; ++q)
    for (int i = 0; i < n; ++i) {
      MatrixXd z(d, 1);
      for (int l = 0; l < d; ++l) z(l, 0) = x(l, q);
      if (m > 1 && i == n - 1) lfv::eq("values at a point do not depend on the other points", fe.EvalReferenceShapeFunctions(z)(i, 0), B(i, q), 1e-10);
      for (int k = 0; k < d; ++k)
        lfv::deriv("gradients are the derivatives of the values", G(i, q * d + k), [&](double h) {
          MatrixXd y(d, 1);
          for (int l = 0; l < d; ++l) y(l, 0) = x(l, q);
          y(k, 0) = y(k, 0) + h;
          return fe.EvalReferenceShapeFunctions(y)(i, 0);
        }, 1e-9);
    }
  double s = 0;
  for (int i = 0; i < c.nv(); ++i) s += B(i, 0);
  lfv::eq("vertex functions sum to one", s, 1.0, 1e-10);
  lfv::cover("pointwise");
}
static void conforming(const Config& c, const FE& fe) {
  const int d = (int)c.r.Dimension(), n = (int)fe.NumRefShapeFunctions(), nv = c.nv();
  const MatrixXd V = fe.EvalReferenceShapeFunctions(c.r.NodeCoords());
  for (int v = 0; v < nv; ++v)
    for (int i = 0; i < n; ++i) lfv::eq("vertex functions are one at their vertex, all others vanish at vertices", V(i, v), i == v ? 1.0 : 0.0, 1e-10);
  if (d == 2) {
    const double t = lfv::realIn("t", 0.0, 1.0);
    for (int e = 0; e < nv; ++e) {
      const MatrixXd B = fe.EvalReferenceShapeFunctions(onEdge(c.r, e, t));
      const int off = c.edgeOffset(e), len = c.e[e] - 1;
      for (int i = 0; i < n; ++i) {
        const bool mine = i == e || i == (e + 1) % nv || (i >= off && i < off + len);
        if (!mine) lfv::eq("shape functions vanish on edges that do not carry them", B(i, 0), 0.0, 1e-9);
      }
      lfv::eq("trace of the first vertex function", B(e, 0), 1 - t, 1e-10);
      lfv::eq("trace of the second vertex function", B((e + 1) % nv, 0), t, 1e-10);
      if (len > 0) {
        // the global direction of the edge; the unknowns of the edge are numbered along it
        const FeHierarchicSegment<double> seg(c.e[e], cache);
        MatrixXd s(1, 1);
        s(0, 0) = c.pos[e] ? t : 1 - t;
        const MatrixXd S = seg.EvalReferenceShapeFunctions(s);
        for (int j = 0; j < len; ++j) lfv::eq("trace of an edge function is the segment function in the direction of the edge", B(off + j, 0), S(2 + (c.pos[e] ? j : len - 1 - j), 0), 1e-9);
      }
    }
  }
  lfv::cover("conforming");
}
static void all(const Config& c) {
  const FE& fe = *build(c);
  counts(c, fe);
  dual(c, fe);
  conforming(c, fe);
  pointwise(c, fe, 1);
}
LFV_UNIT(segment__s1) {
  Config c;
  c.p = 1 + (int)lfv::choose("degree", 12);
  const FE& fe = *build(c);
  counts(c, fe);
  dual(c, fe);
  conforming(c, fe);
  pointwise(c, fe, 1 + (int)lfv::choose("npoints", 3));
}
static Config config(RefEl r, int p, int e0, int e1, int e2, int e3) {
  Config c;
  c.r = r;
  c.p = p;
  c.e[0] = e0; c.e[1] = e1; c.e[2] = e2; c.e[3] = e3;
  for (int i = 0; i < (int)r.NumNodes(); ++i) c.pos[i] = lfv::choose("orientation", 2, i) == 0;
  return c;
}
// every vector of degrees up to K, with every orientation of the edges
static Config vec(RefEl r, int K, int Kint) {
  const int p = 1 + (int)lfv::choose("interior degree", Kint);
  int e[4] = {1, 1, 1, 1};
  for (int i = 0; i < (int)r.NumNodes(); ++i) e[i] = 1 + (int)lfv::choose("edge degree", K, i);
  return config(r, p, e[0], e[1], e[2], e[3]);
}
LFV_UNIT(tria_vectors__s4) { const Config c = vec(RefEl::kTria(), 3, 4); all(c); }
LFV_UNIT(T_tria_vectors__s4) { const Config c = vec(RefEl::kTria(), 4, 5); all(c); }
LFV_UNIT(quad_vectors__s5) { const Config c = vec(RefEl::kQuad(), 2, 3); all(c); }
LFV_UNIT(T_quad_vectors__s5) { const Config c = vec(RefEl::kQuad(), 3, 3); all(c); }
// equal degrees and mixed degrees of higher order
static const int DEG[][5] = {{4, 4, 4, 4, 4}, {5, 5, 5, 5, 5}, {6, 6, 6, 6, 6}, {3, 5, 2, 4, 6}, {5, 1, 4, 2, 3}, {2, 6, 3, 5, 1}};
LFV_UNIT(tria_high__s2) { const int k = (int)lfv::choose("degrees", 6); const int* D = DEG[k]; const Config c = config(RefEl::kTria(), D[0], D[1], D[2], D[3], 1); all(c); }
LFV_UNIT(quad_high__s2) { const int k = (int)lfv::choose("degrees", 6); const int* D = DEG[k]; const Config c = config(RefEl::kQuad(), D[0], D[1], D[2], D[3], D[4]); all(c); }
LFV_UNIT(T_tria_8__s2) { const int k = 7 + (int)lfv::choose("degree", 3); const Config c = config(RefEl::kTria(), k, k, k, k, 1); all(c); }
LFV_UNIT(T_quad_8__s2) { const int k = 7 + (int)lfv::choose("degree", 2); const Config c = config(RefEl::kQuad(), k, k, k, k, k); all(c); }
// several points per call
LFV_UNIT(points__s1) {
  const int q = (int)lfv::choose("element", 2);
  const Config c = config(q ? RefEl::kQuad() : RefEl::kTria(), 4, 3, 4, 2, 3);
  pointwise(c, *build(c), 2 + (int)lfv::choose("npoints", 2));
}

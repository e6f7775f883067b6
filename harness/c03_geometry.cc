// C03: geometries interpolate their nodes and restrict exactly to their sub-entities.
#include "geom_common.h"
using namespace lfvg;

static std::unique_ptr<Geometry> build(Shape s, int wd, MatrixXd& c) {
  c = nodes(s, wd);
  if (s == TRI1 || s == QUAD1 || s == PARA) assumeNonDegenerate(s, c);
  return make(s, c);
}
static int nVerts(Shape s) { return (int)refElOf(s).NumNodes(); }

static void interpolation(Shape s, int wd) {
  MatrixXd c;
  const std::unique_ptr<Geometry> g = build(s, wd, c);
  const MatrixXd r = refNodes(s);
  lfv::ensure("DimGlobal", (int)g->DimGlobal() == wd);
  lfv::ensure("RefEl", g->RefEl() == refElOf(s));
  const MatrixXd G = g->Global(r);
  lfv::ensure("shape of Global(reference nodes)", G.rows() == wd && G.cols() == r.cols());
  for (int j = 0; j < r.cols(); ++j)
    for (int k = 0; k < wd; ++k) lfv::eq("Global maps the reference nodes to the node coordinates", G(k, j), c(k, j));
  const MatrixXd C = lf::geometry::Corners(*g);
  lfv::ensure("shape of Corners", C.rows() == wd && C.cols() == nVerts(s));
  for (int j = 0; j < nVerts(s); ++j)
    for (int k = 0; k < wd; ++k) lfv::eq("Corners are the vertices", C(k, j), c(k, j));
  if (g->isAffine()) {
    const int d = (int)g->DimLocal();
    MatrixXd p = points(d, 1), q = points(d, 1, "q");
    const MatrixXd Jp = g->Jacobian(p), Jq = g->Jacobian(q);
    for (int i = 0; i < d; ++i) for (int k = 0; k < wd; ++k) lfv::eq("isAffine implies a constant Jacobian", Jp(k, i), Jq(k, i));
  }
  lfv::ensure("affine shapes say so", !(s == SEG1 || s == TRI1 || s == PARA || s == POINT) || g->isAffine());
  lfv::cover("interpolation");
}

// reference coordinates of point t of sub-entity i of the given codimension
static MatrixXd embed(Shape s, int codim, int i, const MatrixXd& t) {
  const int d = (int)refElOf(s).Dimension();
  const MatrixXd r = refNodes(s);
  if (codim == 0) return t;
  MatrixXd x(d, t.cols());
  const int nv = nVerts(s);
  for (int q = 0; q < t.cols(); ++q)
    for (int k = 0; k < d; ++k) {
      if (codim == d) x(k, q) = r(k, i);
      else x(k, q) = (1.0 - t(0, q)) * r(k, i) + t(0, q) * r(k, (i + 1) % nv);
    }
  return x;
}
static void restriction(Shape s, int wd) {
  MatrixXd c;
  const std::unique_ptr<Geometry> g = build(s, wd, c);
  const int d = (int)refElOf(s).Dimension();
  const int codim = (int)lfv::choose("codim", d + 1);
  const int n = codim == 0 ? 1 : nVerts(s);
  const int i = (int)lfv::choose("index", n);
  const std::unique_ptr<Geometry> sub = g->SubGeometry(codim, i);
  lfv::ensure("sub-geometry exists", sub != nullptr);
  lfv::ensure("type of the sub-geometry", sub->RefEl() == refElOf(s).SubType(codim, i));
  lfv::ensure("dimensions of the sub-geometry", (int)sub->DimLocal() == d - codim && (int)sub->DimGlobal() == wd);
  lfv::ensure("sub-geometry of an affine geometry is affine", !g->isAffine() || sub->isAffine());
  const MatrixXd t = d == codim ? MatrixXd(0, 1) : points(d - codim, 1);
  const MatrixXd a = sub->Global(t);
  const MatrixXd b = g->Global(embed(s, codim, i, t));
  for (int k = 0; k < wd; ++k) lfv::eq("SubGeometry is the restriction of the parent mapping", a(k, 0), b(k, 0));
  if (d - codim == 1) {
    const MatrixXd ja = sub->Jacobian(t);
    const MatrixXd jb = g->Jacobian(embed(s, codim, i, t));
    const MatrixXd r = refNodes(s);
    for (int k = 0; k < wd; ++k) {
      double v = 0;
      for (int m = 0; m < d; ++m) v += jb(k, m) * (codim == 0 ? 1.0 : r(m, (i + 1) % n) - r(m, i));
      lfv::eq("Jacobian of the sub-geometry is the directional derivative of the parent", ja(k, 0), v);
    }
  }
  lfv::cover("restriction");
}
static void badIndex(Shape s, int wd) {
  MatrixXd c;
  const std::unique_ptr<Geometry> g = build(s, wd, c);
  const int d = (int)refElOf(s).Dimension();
  // every codimension beyond the dimension of the entity is rejected
  const long bad = lfv::integer("codim", d + 1, 4294967295L);
  const long any = lfv::integer("index", 0, 4294967295L);
  lfv::cover("badIndex");
  lfv::rejects("codim > dim is rejected", [&] { (void)g->SubGeometry((lf::base::dim_t)bad, (lf::base::dim_t)any); });
}
static void badIndex2(Shape s, int wd) {
  MatrixXd c;
  const std::unique_ptr<Geometry> g = build(s, wd, c);
  const int d = (int)refElOf(s).Dimension();
  const int codim = (int)lfv::choose("codim", d + 1);
  const int ncols = (int)c.cols();
  // a vertex query may name any node of the geometry, an edge query only an edge
  const int limit = codim == 0 ? 1 : (codim == d ? ncols : nVerts(s));
  const long i = lfv::integer("index", limit, 4294967295L);
  lfv::cover("badIndex2");
  lfv::rejects("sub-entity index out of range is rejected", [&] { (void)g->SubGeometry(codim, (lf::base::dim_t)i); });
}
// Volume
static void volume(Shape s, int wd) {
  MatrixXd c;
  const std::unique_ptr<Geometry> g = build(s, wd, c);
  const double v = lf::geometry::Volume(*g);
  if (s == POINT) { lfv::eq("volume of a point", v, 1.0); lfv::cover("volume"); return; }
  auto cross2 = [&](int a, int b, int e) {  // squared area of the parallelogram spanned at a
    double uu = 0, vv = 0, uv = 0;
    for (int k = 0; k < wd; ++k) { const double x = c(k, b) - c(k, a), y = c(k, e) - c(k, a); uu += x * x; vv += y * y; uv += x * y; }
    return uu * vv - uv * uv;
  };
  if (s == SEG1) lfv::eq("Volume^4 = length^4", sq(sq(v)), sq(dist2(c, 0, 1)));
  if (s == TRI1) lfv::eq("(2 Volume)^4 = parallelogram area^4", sq(sq(2 * v)), sq(cross2(0, 1, 2)));
  if (s == PARA) lfv::eq("Volume^4 = parallelogram area^4", sq(sq(v)), sq(cross2(0, 1, 3)));
  if (s == QUAD1 && wd == 2) {
    double a = 0;  // shoelace formula
    for (int i = 0; i < 4; ++i) a += 0.5 * (c(0, i) * c(1, (i + 1) % 4) - c(0, (i + 1) % 4) * c(1, i));
    // the midpoint rule integrates the bilinear determinant exactly
    lfv::eq("Volume^4 = polygon area^4", sq(sq(v)), sq(sq(a)));
  }
  lfv::ensure("Volume >= 0", v >= 0.0);
  lfv::cover("volume");
}
// degenerate shapes are rejected by the constructors
static void degenerate(Shape s, int wd) {
  MatrixXd c = nodes(s, wd);
  const int nv = nVerts(s);
  const int kind = (int)lfv::choose("kind", nv + 1);
  if (kind < nv) {
    if (s == PARA) {
      // collapse the edge and keep the parallelogram condition
      if (kind % 2 == 0) for (int k = 0; k < wd; ++k) { c(k, 1) = c(k, 0); c(k, 3) = c(k, 2); }
      else for (int k = 0; k < wd; ++k) { c(k, 2) = c(k, 1); c(k, 3) = c(k, 0); }
    } else {
      for (int k = 0; k < wd; ++k) c(k, (kind + 1) % nv) = c(k, kind);
    }
  } else {
    // all vertices on one line
    const double t = lfv::real("t"), u = lfv::real("u");
    for (int k = 0; k < wd; ++k) {
      c(k, 2) = c(k, 0) + t * (c(k, 1) - c(k, 0));
      if (nv == 4) c(k, 3) = s == PARA ? c(k, 0) + c(k, 2) - c(k, 1) : c(k, 0) + u * (c(k, 1) - c(k, 0));
    }
  }
  lfv::cover("degenerate");
  lfv::rejects("degenerate cell is rejected", [&] { (void)make(s, c); });
}
static void notParallelogram(int wd) {
  MatrixXd c = nodes(QUAD1, wd);
  assumeNonDegenerate(QUAD1, c);
  double dd = 0, dg = 0;
  for (int k = 0; k < wd; ++k) { dd += sq(c(k, 3) - c(k, 2) + c(k, 1) - c(k, 0)); dg += sq(c(k, 2) - c(k, 0)); }
  lfv::assume(!(std::sqrt(dd) < 1e-8 * std::sqrt(dg)));
  lfv::cover("notParallelogram");
  lfv::rejects("four points that are no parallelogram are rejected", [&] { (void)make(PARA, c); });
}
static void threePoints(int wd) {
  const MatrixXd c = nodes(PARA, wd);
  assumeNonDegenerate(PARA, c);
  const lf::geometry::Parallelogram g(VectorXd(c.col(0)), VectorXd(c.col(1)), VectorXd(c.col(3)));
  const MatrixXd G = g.Global(refNodes(PARA));
  for (int j = 0; j < 4; ++j)
    for (int k = 0; k < wd; ++k) lfv::eq("Parallelogram(p0,p1,p2) has the corners p0, p1, p1+p2-p0, p2", G(k, j), c(k, j));
  lfv::cover("threePoints");
}
#define ALL(NAME, S, W) \
  LFV_UNIT(interp_##NAME) { interpolation(S, W); } \
  LFV_UNIT(restrict_##NAME) { restriction(S, W); } \
  LFV_UNIT(badcodim_##NAME) { badIndex(S, W); } \
  LFV_UNIT(badindex_##NAME) { badIndex2(S, W); } \
  LFV_UNIT(volume_##NAME) { volume(S, W); }
ALL(point_1d, POINT, 1)
ALL(point_2d, POINT, 2)
ALL(point_3d, POINT, 3)
ALL(segment_o1_1d, SEG1, 1)
ALL(segment_o1_2d, SEG1, 2)
ALL(segment_o1_3d, SEG1, 3)
ALL(segment_o2_1d, SEG2, 1)
ALL(segment_o2_2d, SEG2, 2)
ALL(segment_o2_3d, SEG2, 3)
ALL(tria_o1_2d, TRI1, 2)
ALL(tria_o1_3d, TRI1, 3)
ALL(tria_o2_2d, TRI2, 2)
ALL(tria_o2_3d, TRI2, 3)
ALL(quad_o1_2d, QUAD1, 2)
ALL(quad_o1_3d, QUAD1, 3)
ALL(parallelogram_2d, PARA, 2)
ALL(parallelogram_3d, PARA, 3)
ALL(quad_o2_2d, QUAD2, 2)
ALL(quad_o2_3d, QUAD2, 3)
#define DEG(NAME, S, W) LFV_UNIT(degenerate_##NAME) { degenerate(S, W); }
DEG(tria_o1_2d, TRI1, 2)
DEG(tria_o1_3d, TRI1, 3)
DEG(quad_o1_2d, QUAD1, 2)
DEG(quad_o1_3d, QUAD1, 3)
DEG(parallelogram_2d, PARA, 2)
DEG(parallelogram_3d, PARA, 3)
LFV_UNIT(not_a_parallelogram_2d) { notParallelogram(2); }
LFV_UNIT(not_a_parallelogram_3d) { notParallelogram(3); }
LFV_UNIT(parallelogram_3points_2d) { threePoints(2); }
LFV_UNIT(parallelogram_3points_3d) { threePoints(3); }

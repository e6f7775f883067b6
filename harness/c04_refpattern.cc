// C04: refinement patterns tile the reference element and agree on the parent's edges;
// child geometries are the images of the child polygons under the parent mapping.
#include "c04_common.h"
#include "geom_common.h"
using namespace lfvg;
using namespace lfvr;
using IMat = Eigen::Matrix<int, Eigen::Dynamic, Eigen::Dynamic>;

// contract: the constructors reject degenerate children (proved in C03); here children are
// required to be non-degenerate
extern "C" bool lfv_contract_for__ZN2lf8geometry27assertNonDegenerateTriangleERKN5Eigen6MatrixIdLin1ELi3ELi0ELin1ELi3EEEd(const void*, double) { return true; }
extern "C" bool lfv_contract_for__ZN2lf8geometry23assertNonDegenerateQuadERKN5Eigen6MatrixIdLin1ELi4ELi0ELin1ELi4EEEd(const void*, double) { return true; }

struct P2 { long x, y; };
static long cr(P2 a, P2 b, P2 c) { return (b.x - a.x) * (c.y - a.y) - (b.y - a.y) * (c.x - a.x); }
static bool onSeg(P2 a, P2 b, P2 p) {
  return cr(a, b, p) == 0 && std::min(a.x, b.x) <= p.x && p.x <= std::max(a.x, b.x) && std::min(a.y, b.y) <= p.y && p.y <= std::max(a.y, b.y);
}
static bool same(P2 a, P2 b) { return a.x == b.x && a.y == b.y; }
using Poly = std::vector<P2>;
static long area2(const Poly& p) { long s = 0; for (size_t i = 1; i + 1 < p.size(); ++i) s += cr(p[0], p[i], p[i + 1]); return s; }
// convex polygons: interiors disjoint iff some edge line separates them
static bool separated(const Poly& a, const Poly& b) {
  const long sa = area2(a) > 0 ? 1 : -1;
  for (size_t i = 0; i < a.size(); ++i) {
    bool all = true;
    for (auto& q : b) all = all && sa * cr(a[i], a[(i + 1) % a.size()], q) <= 0;
    if (all) return true;
  }
  return false;
}
static Poly poly(const IMat& m) { Poly r; for (int j = 0; j < m.cols(); ++j) r.push_back({m(0, j), m(1, j)}); return r; }

static void tiling(RefEl r) {
  const auto pats = patterns(r);
  const Pat pt = pats[lfv::choose("pattern", (long)pats.size())];
  const Hybrid2DRefinementPattern rp = pattern(r, pt);
  const bool tria = r == RefEl::kTria();
  const long N = rp.LatticeConst();
  lfv::ensure("RefEl of the pattern", rp.RefEl() == r);
  lfv::ensure("refpat is the pattern", rp.refpat() == pt.p);
  lfv::ensure("lattice constant is a positive multiple of 6", N > 0 && N % 6 == 0);
  if (pt.anchor >= 0) lfv::ensure("anchor", (int)rp.anchor() == pt.anchor);
  const auto cells = rp.ChildPolygons(0), edges = rp.ChildPolygons(1), pts = rp.ChildPolygons(2);
  lfv::ensure("NumChildren(0) is the number of child cells", rp.NumChildren(0) == cells.size());
  lfv::ensure("NumChildren(1) is the number of interior child edges", rp.NumChildren(1) == edges.size());
  lfv::ensure("NumChildren(2) is the number of interior child nodes", rp.NumChildren(2) == pts.size());
  lfv::cover("tiling");
  if (pt.p == lf::refinement::rp_nil) {
    lfv::ensure("no refinement: no children", cells.empty() && edges.empty() && pts.empty());
    return;
  }
  const Poly parent = tria ? Poly{{0, 0}, {N, 0}, {0, N}} : Poly{{0, 0}, {N, 0}, {N, N}, {0, N}};
  const int n = (int)parent.size();
  std::vector<Poly> ch;
  long sum = 0;
  for (auto& m : cells) {
    lfv::ensure("child cell is a triangle or quadrilateral", m.rows() == 2 && (m.cols() == 3 || (m.cols() == 4 && !tria)));
    ch.push_back(poly(m));
  }
  for (auto& c : ch) {
    for (auto& p : c) for (int k = 0; k < n; ++k) lfv::ensure("child cell lies in the parent", cr(parent[k], parent[(k + 1) % n], p) >= 0);
    const long a = area2(c);
    lfv::ensure("child cell has positive volume", a != 0);
    for (size_t i = 0; i < c.size(); ++i) lfv::ensure("child cell is convex", cr(c[i], c[(i + 1) % c.size()], c[(i + 2) % c.size()]) * (a > 0 ? 1 : -1) > 0);
    sum += a > 0 ? a : -a;
  }
  lfv::ensure("volumes of the child cells add up to the parent volume", sum == area2(parent));
  for (size_t i = 0; i < ch.size(); ++i) for (size_t j = 0; j < i; ++j) lfv::ensure("child cells do not overlap", separated(ch[i], ch[j]) || separated(ch[j], ch[i]));
  // edges of the children: on the boundary of the parent, or interior child edge of exactly two
  std::vector<int> used(edges.size(), 0);
  std::vector<std::vector<long>> cuts(n);
  auto onBoundary = [&](P2 a, P2 b) { for (int k = 0; k < n; ++k) if (onSeg(parent[k], parent[(k + 1) % n], a) && onSeg(parent[k], parent[(k + 1) % n], b)) return k; return -1; };
  for (auto& e : edges) {
    lfv::ensure("interior child edge is a segment", e.rows() == 2 && e.cols() == 2);
    lfv::ensure("interior child edge is not on the boundary", onBoundary({e(0, 0), e(1, 0)}, {e(0, 1), e(1, 1)}) < 0);
  }
  for (auto& c : ch)
    for (size_t i = 0; i < c.size(); ++i) {
      const P2 a = c[i], b = c[(i + 1) % c.size()];
      const int k = onBoundary(a, b);
      if (k >= 0) {
        // the subdivision announced for the parent edge
        const P2 s = parent[k], e = parent[(k + 1) % n], m = {(s.x + e.x) / 2, (s.y + e.y) / 2};
        if (pt.split >> k & 1)
          lfv::ensure("split parent edge carries exactly its two halves", (same(a, s) && same(b, m)) || (same(a, m) && same(b, s)) || (same(a, m) && same(b, e)) || (same(a, e) && same(b, m)));
        else
          lfv::ensure("unsplit parent edge carries one child edge", (same(a, s) && same(b, e)) || (same(a, e) && same(b, s)));
      } else {
        int hits = 0;
        for (size_t q = 0; q < edges.size(); ++q) {
          const P2 x = {edges[q](0, 0), edges[q](1, 0)}, y = {edges[q](0, 1), edges[q](1, 1)};
          if ((same(a, x) && same(b, y)) || (same(a, y) && same(b, x))) { ++hits; ++used[q]; }
        }
        lfv::ensure("interior edge of a child cell is listed exactly once", hits == 1);
      }
    }
  for (int u : used) lfv::ensure("interior child edge bounds exactly two child cells", u == 2);
  // interior nodes
  for (auto& p : pts) {
    lfv::ensure("interior child node is a point", p.rows() == 2 && p.cols() == 1);
    for (int k = 0; k < n; ++k) lfv::ensure("interior child node is interior", cr(parent[k], parent[(k + 1) % n], {p(0, 0), p(1, 0)}) > 0);
  }
  for (auto& c : ch)
    for (auto& v : c) {
      bool bd = false;
      for (int k = 0; k < n; ++k) bd = bd || onSeg(parent[k], parent[(k + 1) % n], v);
      int hits = 0;
      for (auto& p : pts) hits += same(v, {p(0, 0), p(1, 0)});
      lfv::ensure("interior vertices of child cells are the interior child nodes", hits == (bd ? 0 : 1));
    }
  for (auto& p : pts) {
    int hits = 0;
    for (auto& c : ch) for (auto& v : c) hits += same(v, {p(0, 0), p(1, 0)});
    lfv::ensure("interior child node is a vertex of a child cell", hits > 0);
  }
}
static void tilingLow() {
  for (RefEl r : {RefEl::kPoint(), RefEl::kSegment()}) {
    const auto pats = patterns(r);
    for (auto& pt : pats) {
      const Hybrid2DRefinementPattern rp = pattern(r, pt);
      const int N = rp.LatticeConst();
      for (int cd = 0; cd <= (int)r.Dimension(); ++cd) lfv::ensure("NumChildren = number of child polygons", rp.NumChildren(cd) == rp.ChildPolygons(cd).size());
      if (r == RefEl::kPoint()) { lfv::ensure("a point is copied or not", rp.NumChildren(0) == (pt.p == lf::refinement::rp_nil ? 0 : 1)); continue; }
      const auto c = rp.ChildPolygons(0), m = rp.ChildPolygons(1);
      const int k = pt.p == lf::refinement::rp_nil ? 0 : pt.p == lf::refinement::rp_copy ? 1 : 2;
      lfv::ensure("number of parts of a segment", (int)c.size() == k && (int)m.size() == (k == 2 ? 1 : 0));
      for (int i = 0; i < k; ++i) lfv::ensure("parts of a segment in order", c[i].rows() == 1 && c[i].cols() == 2 && c[i](0, 0) == i * N / k && c[i](0, 1) == (i + 1) * N / k);
      if (k == 2) lfv::ensure("midpoint of a segment", m[0].rows() == 1 && m[0].cols() == 1 && 2 * m[0](0, 0) == N);
    }
  }
  lfv::cover("tilingLow");
}
LFV_UNIT(tiling_tria) { tiling(RefEl::kTria()); }
LFV_UNIT(tiling_quad) { tiling(RefEl::kQuad()); }
LFV_UNIT(tiling_low) { tilingLow(); }
LFV_UNIT(bad_anchor) {
  const RefEl r = lfv::choose("tria", 2) ? RefEl::kTria() : RefEl::kQuad();
  const long a = lfv::integer("anchor", r.NumSubEntities(1), 1L << 31);
  lfv::cover("bad_anchor");
  lfv::rejects("anchor out of range is rejected", [&] { Hybrid2DRefinementPattern p(r, lf::refinement::rp_bisect, (unsigned)a); });
}
LFV_UNIT(bad_anchor2) {
  const RefEl r = lfv::choose("tria", 2) ? RefEl::kTria() : RefEl::kQuad();
  const long a = lfv::integer("anchor", r.NumSubEntities(1), 1L << 31);
  Hybrid2DRefinementPattern p(r);
  lfv::cover("bad_anchor2");
  lfv::rejects("setAnchor out of range is rejected", [&] { p.setRefPattern(lf::refinement::rp_bisect).setAnchor((unsigned)a); });
}
LFV_UNIT(missing_anchor) {
  using namespace lf::refinement;
  static const RefPat need[] = {rp_bisect, rp_trisect, rp_trisect_left, rp_quadsect, rp_threeedge};
  Hybrid2DRefinementPattern p(RefEl::kTria(), need[lfv::choose("pattern", 5)]);
  lfv::cover("missing_anchor");
  lfv::rejects("a pattern that needs an anchor is rejected without one", [&] { (void)p.refpat(); });
}
LFV_UNIT(bad_codim) {
  static const RefEl all[] = {RefEl::kPoint(), RefEl::kSegment(), RefEl::kTria(), RefEl::kQuad()};
  const RefEl r = all[lfv::choose("refel", 4)];
  const long cd = lfv::integer("codim", r.Dimension() + 1, 1L << 31);
  const Hybrid2DRefinementPattern p(r, lf::refinement::rp_copy);
  const bool polys = lfv::choose("polygons", 2);
  lfv::cover("bad_codim");
  lfv::rejects("codimension out of range is rejected", [&] { if (polys) (void)p.ChildPolygons((unsigned)cd); else (void)p.NumChildren((unsigned)cd); });
}

// ------------------------------------------------------------------ child geometries
// reference point t of the child -> reference point of the parent, by the lattice polygon
static VectorXd inParent(const IMat& m, double h, const VectorXd& t) {
  VectorXd x(m.rows());
  for (int k = 0; k < m.rows(); ++k) {
    double v = 0;
    if (m.cols() == 1) v = h * m(k, 0);
    if (m.cols() == 2) v = (1 - t(0)) * h * m(k, 0) + t(0) * h * m(k, 1);
    if (m.cols() == 3) v = (1 - t(0) - t(1)) * h * m(k, 0) + t(0) * h * m(k, 1) + t(1) * h * m(k, 2);
    if (m.cols() == 4) v = (1 - t(0)) * (1 - t(1)) * h * m(k, 0) + t(0) * (1 - t(1)) * h * m(k, 1) + t(0) * t(1) * h * m(k, 2) + (1 - t(0)) * t(1) * h * m(k, 3);
    x(k) = v;
  }
  return x;
}
static bool affinePoly(const IMat& m) {
  if (m.cols() != 4) return true;
  for (int k = 0; k < 2; ++k) if (m(k, 0) - m(k, 1) + m(k, 2) - m(k, 3) != 0) return false;
  return true;
}
// every side of the polygon parallel to a coordinate axis
static bool axisParallel(const IMat& m) {
  for (int j = 0; j < m.cols() && m.cols() > 1; ++j) {
    const int i = (j + 1) % m.cols();
    if (m(0, i) != m(0, j) && m(1, i) != m(1, j)) return false;
  }
  return true;
}
static void children(Shape s, int wd, int codim) {
  const RefEl r = refElOf(s);
  const auto pats = patterns(r);
  const Pat pt = pats[lfv::choose("pattern", (long)pats.size())];
  if (s == POINT && pt.p == lf::refinement::rp_nil) lfv::assume(false);
  const Hybrid2DRefinementPattern rp = pattern(r, pt);
  const MatrixXd c = nodes(s, wd);
  if (s == TRI1 || s == QUAD1 || s == PARA) for (int i = 0; i < (int)r.NumNodes(); ++i) for (int j = 0; j < i; ++j) lfv::assume(std::sqrt(dist2(c, i, j)) > 0.0);
  const std::unique_ptr<Geometry> g = make(s, c);
  const int d = (int)r.Dimension();
  const auto pol = rp.ChildPolygons(codim);
  // requires: child cells are non-degenerate (distinct opposite vertices)
  if (s == PARA && codim == 0)
    for (auto& m : pol) {
      if (m.cols() != 4) continue;
      double v = 0;
      for (int k = 0; k < wd; ++k) v += sq((m(0, 2) - m(0, 0)) / 6.0 * (c(k, 1) - c(k, 0)) + (m(1, 2) - m(1, 0)) / 6.0 * (c(k, 3) - c(k, 0)));
      lfv::assume(std::sqrt(v) > 0.0);
    }
  const auto geo = g->ChildGeometry(rp, codim);
  lfv::ensure("number of child geometries", geo.size() == rp.NumChildren(codim) && geo.size() == pol.size());
  lfv::cover("children");
  const double h = 1.0 / rp.LatticeConst();
  for (size_t q = 0; q < geo.size(); ++q) {
    const RefEl cr = d - codim == 0 ? RefEl::kPoint() : d - codim == 1 ? RefEl::kSegment() : pol[q].cols() == 3 ? RefEl::kTria() : RefEl::kQuad();
    lfv::ensure("type of the child", geo[q]->RefEl() == cr && (int)geo[q]->DimGlobal() == wd);
    lfv::ensure("children of affine cells are affine exactly where the polygon is", !g->isAffine() || !affinePoly(pol[q]) || geo[q]->isAffine());
    // the whole child is the image when the composition stays in the polynomial space of the child
    const bool tensor = s == QUAD1 || s == QUAD2;
    const bool whole = g->isAffine() ? true : affinePoly(pol[q]) && (!tensor || (axisParallel(pol[q]) && pol[q].cols() != 3));
    MatrixXd t;
    if (whole) t = cr == RefEl::kPoint() ? MatrixXd(0, 1) : points((int)cr.Dimension(), 1);
    else {
      const Shape cs = s == QUAD2 ? (cr == RefEl::kSegment() ? SEG2 : cr == RefEl::kTria() ? TRI2 : cr == RefEl::kQuad() ? QUAD2 : POINT)
                                  : (cr == RefEl::kSegment() ? SEG1 : cr == RefEl::kTria() ? TRI1 : cr == RefEl::kQuad() ? QUAD1 : POINT);
      t = refNodes(cs);
    }
    const MatrixXd a = geo[q]->Global(t);
    for (int j = 0; j < t.cols(); ++j) {
      MatrixXd x(d, 1);
      const VectorXd xj = inParent(pol[q], h, t.col(j));
      for (int k = 0; k < d; ++k) x(k, 0) = xj(k);
      if (whole && d > 0) for (int k = 0; k < d; ++k) { lfv::assume(x(k, 0) >= 0.0); lfv::assume(x(k, 0) <= 1.0); }
      const MatrixXd b = g->Global(x);
      for (int k = 0; k < wd; ++k) lfv::eq("child geometry is the image of the child polygon", a(k, j), b(k, 0));
    }
  }
}
#define CH(NAME, S, W, D) \
  LFV_UNIT(children0_##NAME##__s1) { children(S, W, 0); } \
  LFV_UNIT(children1_##NAME##__s1) { if (D >= 1) children(S, W, 1); else lfv::ensure("no such codimension", true), lfv::cover("none"); } \
  LFV_UNIT(children2_##NAME##__s1) { if (D >= 2) children(S, W, 2); else lfv::ensure("no such codimension", true), lfv::cover("none"); }
CH(point_2d, POINT, 2, 0)
CH(segment_o1_2d, SEG1, 2, 1)
CH(segment_o2_2d, SEG2, 2, 1)
CH(tria_o1_2d, TRI1, 2, 2)
CH(tria_o1_3d, TRI1, 3, 2)
CH(tria_o2_2d, TRI2, 2, 2)
CH(quad_o1_2d, QUAD1, 2, 2)
CH(quad_o1_3d, QUAD1, 3, 2)
CH(parallelogram_2d, PARA, 2, 2)
CH(parallelogram_3d, PARA, 3, 2)
CH(quad_o2_2d, QUAD2, 2, 2)

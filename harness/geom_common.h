// Inputs and helpers shared by the geometry contracts.
#pragma once
#include <lf/geometry/geometry.h>

#include <memory>
#include <string>

#include "lfv.h"

namespace lfvg {
using Eigen::MatrixXd;
using Eigen::VectorXd;
using lf::base::RefEl;
using lf::geometry::Geometry;

enum Shape { POINT, SEG1, SEG2, TRI1, TRI2, QUAD1, PARA, QUAD2, NSHAPES };
inline RefEl refElOf(Shape s) {
  switch (s) {
    case POINT: return RefEl::kPoint();
    case SEG1: case SEG2: return RefEl::kSegment();
    case TRI1: case TRI2: return RefEl::kTria();
    default: return RefEl::kQuad();
  }
}
inline int numNodes(Shape s) {
  switch (s) { case POINT: return 1; case SEG1: return 2; case SEG2: return 3; case TRI1: return 3; case TRI2: return 6; case QUAD1: case PARA: return 4; default: return 8; }
}
// reference coordinates of the geometry nodes (vertices, then edge midpoints)
inline MatrixXd refNodes(Shape s) {
  static const double seg[3] = {0, 1, 0.5};
  static const double tri[6][2] = {{0, 0}, {1, 0}, {0, 1}, {0.5, 0}, {0.5, 0.5}, {0, 0.5}};
  static const double quad[8][2] = {{0, 0}, {1, 0}, {1, 1}, {0, 1}, {0.5, 0}, {1, 0.5}, {0.5, 1}, {0, 0.5}};
  const int n = numNodes(s);
  if (s == POINT) return MatrixXd(0, 1);
  if (s == SEG1 || s == SEG2) { MatrixXd r(1, n); for (int i = 0; i < n; ++i) r(0, i) = seg[i]; return r; }
  MatrixXd r(2, n);
  for (int i = 0; i < n; ++i) for (int k = 0; k < 2; ++k) r(k, i) = (s == TRI1 || s == TRI2) ? tri[i][k] : quad[i][k];
  return r;
}
// arbitrary node coordinates in the given world dimension (sampled near the reference shape)
inline MatrixXd nodes(Shape s, int wd, const char* name = "x", double spread = 0.35) {
  const MatrixXd ref = refNodes(s);
  const int n = numNodes(s);
  MatrixXd c(wd, n);
  for (int j = 0; j < n; ++j)
    for (int k = 0; k < wd; ++k) {
      const double b = k < ref.rows() ? ref(k, j) : 0.0;
      c(k, j) = lfv::real(name, k, j, b - spread, b + spread);
    }
  if (s == PARA) for (int k = 0; k < wd; ++k) c(k, 3) = c(k, 0) + c(k, 2) - c(k, 1);
  return c;
}
inline double sq(double x) { return x * x; }
inline double dist2(const MatrixXd& c, int i, int j) { double s = 0; for (int k = 0; k < c.rows(); ++k) s += sq(c(k, j) - c(k, i)); return s; }
// requires: the shape is not degenerate (relative tolerance of the library)
inline void assumeNonDegenerate(Shape s, const MatrixXd& c) {
  const int nv = s == TRI1 || s == TRI2 ? 3 : 4;
  if (s == POINT || s == SEG1 || s == SEG2) return;
  double circ = 0;
  for (int i = 0; i < nv; ++i) circ += dist2(c, i, (i + 1) % nv);
  for (int i = 0; i < nv; ++i) lfv::assume(dist2(c, i, (i + 1) % nv) > 1e-8 * circ);
  auto area = [&](int a, int b, int d) {
    if (c.rows() == 2) return std::fabs((c(0, b) - c(0, a)) * (c(1, d) - c(1, a)) - (c(1, b) - c(1, a)) * (c(0, d) - c(0, a)));
    double u[3], v[3];
    for (int k = 0; k < 3; ++k) { u[k] = c(k, b) - c(k, a); v[k] = c(k, d) - c(k, a); }
    return std::sqrt(sq(u[1] * v[2] - u[2] * v[1]) + sq(u[2] * v[0] - u[0] * v[2]) + sq(u[0] * v[1] - u[1] * v[0]));
  };
  if (s == PARA) lfv::assume(std::sqrt(dist2(c, 0, 2)) > 0.0);
  if (nv == 3) lfv::assume(area(0, 1, 2) > 1e-8 * circ);
  else lfv::assume(area(0, 1, 2) + area(0, 3, 2) > 1e-8 * circ);
}
inline std::unique_ptr<Geometry> make(Shape s, const MatrixXd& c) {
  using namespace lf::geometry;
  switch (s) {
    case POINT: return std::make_unique<Point>(c);
    case SEG1: return std::make_unique<SegmentO1>(c);
    case SEG2: return std::make_unique<SegmentO2>(c);
    case TRI1: return std::make_unique<TriaO1>(c);
    case TRI2: return std::make_unique<TriaO2>(c);
    case QUAD1: return std::make_unique<QuadO1>(c);
    case PARA: return std::make_unique<Parallelogram>(c);
    default: return std::make_unique<QuadO2>(c);
  }
}
// arbitrary points of the reference element (0 <= coordinates <= 1)
inline MatrixXd points(int d, int n, const char* name = "p") {
  MatrixXd p(d, n);
  for (int j = 0; j < n; ++j) for (int i = 0; i < d; ++i) p(i, j) = lfv::realIn(name, 0.0, 1.0, i, j);
  return p;
}
}  // namespace lfvg

// C16: structured mesh builders tile their domain.
#include <lf/mesh/utils/utils.h>

#include "mesh_common.h"

#ifdef LFV_VERIFY
// Assumed contract: rectangles are not so thin that the scale-dependent degeneracy tests reject the cells; that cells
// have positive area is proved here.
extern "C" bool lfv_contract_for__ZN2lf8geometry27assertNonDegenerateTriangleERKN5Eigen6MatrixIdLin1ELi3ELi0ELin1ELi3EEEd(const void*, double) { return true; }
extern "C" bool lfv_contract_for__ZN2lf8geometry23assertNonDegenerateQuadERKN5Eigen6MatrixIdLin1ELi4ELi0ELin1ELi4EEEd(const void*, double) { return true; }
#endif

namespace {
using namespace lfvm;
using namespace lf::mesh::utils;
using Eigen::Vector2d;
using MeshP = std::shared_ptr<lf::mesh::Mesh>;

struct Rect {
  double x0, y0, x1, y1;
};
Rect anyRect() { return {lfv::real("x0"), lfv::real("y0"), lfv::real("x1"), lfv::real("y1")}; }
// an admissible rectangle
Rect goodRect() {
  const double w = lfv::real("width", -1, -1, 0.5, 1.5), h = lfv::real("height", -1, -1, 2.0, 3.0);
  lfv::assume(w > 0);
  lfv::assume(h > 0);
  const double x = lfv::real("x0"), y = lfv::real("y0");
  return {x, y, x + w, y + h};
}
template <class B>
MeshP build(const Rect& r, U nx, U ny, int world, int style) {
  B b(std::make_unique<lf::mesh::hybrid2d::MeshFactory>(world));
  if (style == 0) b.setBottomLeftCorner(r.x0, r.y0).setTopRightCorner(r.x1, r.y1).setNumXCells(nx).setNumYCells(ny);
  if (style == 1) b.setNumYCells(ny).setNumXCells(nx).setTopRightCorner(Vector2d(r.x1, r.y1)).setBottomLeftCorner(Vector2d(r.x0, r.y0));
  if (style == 2) {
    b.setNumXCells(nx + 1).setNumYCells(1).setTopRightCorner(r.x0, r.y0).setBottomLeftCorner(std::array<double, 2>{r.x1, r.y1});
    b.setTopRightCorner(std::array<double, 2>{r.x1, r.y1}).setBottomLeftCorner(r.x0, r.y0).setNumYCells(ny).setNumXCells(nx);
  }
  return b.Build();
}
// the cells and vertices of a mesh as a description
Spec describe(const lf::mesh::Mesh& m) {
  Spec s;
  s.nn = m.NumEntities(2);
  for (const Entity* c : m.Entities(0)) {
    Cell d;
    for (const Entity* p : c->SubEntities(2)) d.n.push_back(m.Index(*p));
    s.cells.push_back(d);
  }
  return s;
}
U cellsOfEdge(const Spec& s, U a, U b) {
  U n = 0;
  for (const Cell& c : s.cells)
    for (size_t j = 0; j < c.n.size(); ++j) {
      const U u = c.n[j], v = c.n[(j + 1) % c.n.size()];
      n += (u == a && v == b) || (u == b && v == a);
    }
  return n;
}
// a cell is the part of the plane enclosed by its vertices: its map is the affine (multilinear) one and keeps the orientation
void cellGeometry(const Entity& e, const MatrixXd& corner) {
  const int n = (int)corner.cols();
  MatrixXd x(2, 1);
  x << lfv::realIn("s", 0, 1), lfv::realIn("t", 0, 1);
  const double s = x(0, 0), t = x(1, 0);
  if (n == 3) lfv::assume(s + t <= 1);
  const double w3[3] = {1 - s - t, s, t}, w4[4] = {(1 - s) * (1 - t), s * (1 - t), s * t, (1 - s) * t};
  const MatrixXd g = e.Geometry()->Global(x);
  for (int q = 0; q < 2; ++q) {
    double v = 0;
    for (int i = 0; i < n; ++i) v += (n == 3 ? w3[i] : w4[i]) * corner(q, i);
    lfv::eq("the geometry of a cell is spanned by its vertices", g(q, 0), v);
  }
  const MatrixXd J = e.Geometry()->Jacobian(x);
  lfv::ensure("cells are not degenerate and positively oriented", J(0, 0) * J(1, 1) - J(0, 1) * J(1, 0) > 0);
}
void planar(const MeshP& m, const Rect& r, U nx, U ny, bool tria) {
  lfv::ensure("a mesh is built for every admissible grid", m != nullptr);
  lfv::cover("admissible grid");
  if (!m) return;
  const U nc = nx * ny * (tria ? 2 : 1), ne = nx * (ny + 1) + (nx + 1) * ny + (tria ? nx * ny : 0), nv = (nx + 1) * (ny + 1);
  lfv::ensure("number of cells", m->NumEntities(0) == nc && m->NumEntities(tria ? RefEl::kTria() : RefEl::kQuad()) == nc);
  lfv::ensure("number of edges", m->NumEntities(1) == ne);
  lfv::ensure("number of vertices", m->NumEntities(2) == nv);
  if (m->NumEntities(0) != nc || m->NumEntities(2) != nv) return;
  const Spec s = describe(*m);
  checkMesh(*m, s);
  auto X = [&](U i) { return r.x0 + (r.x1 - r.x0) * i / nx; };
  auto Y = [&](U j) { return r.y0 + (r.y1 - r.y0) * j / ny; };
  // the vertices are the grid points, in lexicographic order
  checkVertices(*m, [&](int q, int v) { return q == 0 ? X(v % (nx + 1)) : Y(v / (nx + 1)); });
  for (U v = 0; v < nv; ++v) {
    const MatrixXd g = m->EntityByIndex(2, v)->Geometry()->Global(MatrixXd(0, 1));
    lfv::eq("vertices are the points of the grid in lexicographic order", g(0, 0), X(v % (nx + 1)));
    lfv::eq("vertices are the points of the grid in lexicographic order", g(1, 0), Y(v / (nx + 1)));
  }
  // the cells tile the boxes of the grid
  std::vector<std::vector<U>> box(nx * ny);
  for (U c = 0; c < nc; ++c) {
    U i0 = nx, j0 = ny, i1 = 0, j1 = 0;
    for (U v : s.cells[c].n) { const U i = v % (nx + 1), j = v / (nx + 1); i0 = std::min(i0, i); i1 = std::max(i1, i); j0 = std::min(j0, j); j1 = std::max(j1, j); }
    const bool one = i1 == i0 + 1 && j1 == j0 + 1;
    lfv::ensure("every cell lies in one box of the grid", one);
    if (one) box[i0 + j0 * nx].push_back(c);
    const Entity& e = *m->EntityByIndex(0, c);
    MatrixXd corner(2, s.cells[c].n.size());
    for (size_t k = 0; k < s.cells[c].n.size(); ++k) { const U v = s.cells[c].n[k]; corner(0, k) = X(v % (nx + 1)); corner(1, k) = Y(v / (nx + 1)); }
    cellGeometry(e, corner);
  }
  for (U b = 0; b < nx * ny; ++b) {
    lfv::ensure("every box is covered by its cells", box[b].size() == (tria ? 2 : 1));
    if (!tria || box[b].size() != 2) continue;
    // two triangles with different corners opposite to the common diagonal
    U common = 0;
    for (U u : s.cells[box[b][0]].n) for (U v : s.cells[box[b][1]].n) common += u == v;
    const U i = b % nx, j = b / nx;
    const U corner[4] = {i + j * (nx + 1), i + 1 + j * (nx + 1), i + 1 + (j + 1) * (nx + 1), i + (j + 1) * (nx + 1)};
    U miss[2] = {9, 9};
    for (int k = 0; k < 2; ++k) for (U q = 0; q < 4; ++q) { bool in = false; for (U v : s.cells[box[b][k]].n) in = in || v == corner[q]; if (!in) miss[k] = q; }
    lfv::ensure("the triangles of a box share its diagonal and do not overlap", common == 2 && miss[0] < 4 && miss[1] < 4 && (miss[0] + 2) % 4 == miss[1]);
    lfv::ensure("the cell above the diagonal precedes the one below", (miss[box[b][0] < box[b][1] ? 0 : 1] == 1) && std::min(box[b][0], box[b][1]) % 2 == 0);
  }
  // boundary
  for (const Entity* e : m->Entities(1)) {
    const U a = m->Index(*e->SubEntities(1)[0]), b = m->Index(*e->SubEntities(1)[1]), n = cellsOfEdge(s, a, b);
    const U ia = a % (nx + 1), ja = a / (nx + 1), ib = b % (nx + 1), jb = b / (nx + 1);
    const bool bnd = (ia == ib && (ia == 0 || ia == nx)) || (ja == jb && (ja == 0 || ja == ny));
    lfv::ensure("an edge is on the boundary exactly if it is on the boundary of the rectangle", n == (bnd ? 1 : 2));
    MatrixXd x(1, 1);
    x << lfv::realIn("t", 0, 1);
    const MatrixXd g = e->Geometry()->Global(x);
    lfv::eq("edges are straight", g(0, 0), (1 - x(0, 0)) * X(ia) + x(0, 0) * X(ib));
    lfv::eq("edges are straight", g(1, 0), (1 - x(0, 0)) * Y(ja) + x(0, 0) * Y(jb));
  }
  if (tria) {
    auto kind = [&](U k) {
      const Entity& e = *m->EntityByIndex(1, k);
      const U a = m->Index(*e.SubEntities(1)[0]), b = m->Index(*e.SubEntities(1)[1]);
      return a / (nx + 1) == b / (nx + 1) ? 0 : a % (nx + 1) == b % (nx + 1) ? 1 : 2;
    };
    for (U k = 0; k + 1 < ne; ++k) lfv::ensure("horizontal edges come first, then vertical edges, then diagonals", kind(k) <= kind(k + 1));
  }
}
template <class B>
void planarCase(bool tria, U lo, U hi) {
  const U nx = lo + (U)lfv::choose("nx", hi - lo + 1), ny = lo + (U)lfv::choose("ny", hi - lo + 1);
  const Rect r = goodRect();
  planar(build<B>(r, nx, ny, 2, (int)lfv::choose("order of the settings", 3)), r, nx, ny, tria);
}
template <class B>
void planarLong(bool tria, U n) {
  const bool tall = lfv::choose("tall", 2) == 1;
  const Rect r = goodRect();
  const U k = 1 + (U)lfv::choose("length", n);
  planar(build<B>(r, tall ? 1 : k, tall ? k : 1, 2, 0), r, tall ? 1 : k, tall ? k : 1, tria);
}
template <class B>
void none(int world) {
  const U nx = (U)lfv::choose("nx", 4), ny = (U)lfv::choose("ny", 4);
  const Rect r = anyRect();
  lfv::assume(nx * ny == 0 || r.x1 <= r.x0 || r.y1 <= r.y0);
  lfv::cover("inadmissible grid");
  lfv::ensure("no mesh for an empty grid or rectangle", build<B>(r, nx, ny, world, (int)lfv::choose("order of the settings", 3)) == nullptr);
}
void torus(const MeshP& m, const Rect& r, U nx, U ny) {
  lfv::ensure("a mesh is built for every admissible grid", m != nullptr);
  lfv::cover("admissible grid");
  if (!m) return;
  lfv::ensure("number of cells", m->NumEntities(0) == nx * ny && m->NumEntities(RefEl::kQuad()) == nx * ny);
  lfv::ensure("number of edges", m->NumEntities(1) == 2 * nx * ny);
  lfv::ensure("number of vertices", m->NumEntities(2) == nx * ny);
  if (m->NumEntities(0) != nx * ny || m->NumEntities(2) != nx * ny) return;
  const Spec s = describe(*m);
  checkMesh(*m, s, 3);
  const double pi = 3.14159265358979323846;
  auto pos = [&](int q, int v) {
    const double th = 2 * pi * (v % nx) / nx, ph = 2 * pi * (v / nx) / ny, a = (r.x1 - r.x0) / (2 * pi), R = (r.y1 - r.y0) / (2 * pi);
    const double ct = std::cos(th), st = std::sin(th), cp = std::cos(ph), sp = std::sin(ph);
    return q == 0 ? (R + a * ct) * cp : q == 1 ? (R + a * ct) * sp : a * st;
  };
  checkVertices(*m, pos, 3);
  for (U j = 0; j < ny; ++j)
    for (U i = 0; i < nx; ++i) {
      const U w[4] = {i + j * nx, (i + 1) % nx + j * nx, (i + 1) % nx + (j + 1) % ny * nx, i + (j + 1) % ny * nx};
      U n = 0;
      for (const Cell& c : s.cells)
        for (U k = 0; k < 4; ++k) n += c.n[k] == w[0] && c.n[(k + 1) % 4] == w[1] && c.n[(k + 2) % 4] == w[2] && c.n[(k + 3) % 4] == w[3];
      lfv::ensure("there is exactly one cell for every box of the periodic grid", n == 1);
    }
  for (const Entity* e : m->Entities(1)) lfv::ensure("the torus has no boundary", cellsOfEdge(s, m->Index(*e->SubEntities(1)[0]), m->Index(*e->SubEntities(1)[1])) == 2);
}
}  // namespace

LFV_UNIT(tria_grid__s2) { planarCase<TPTriagMeshBuilder>(true, 1, 3); }
LFV_UNIT(quad_grid__s2) { planarCase<TPQuadMeshBuilder>(false, 1, 3); }
LFV_UNIT(tria_long__s2) { planarLong<TPTriagMeshBuilder>(true, 7); }
LFV_UNIT(quad_long__s2) { planarLong<TPQuadMeshBuilder>(false, 8); }
LFV_UNIT(T_tria_grid__s2) { planarCase<TPTriagMeshBuilder>(true, 1, 6); }
LFV_UNIT(T_quad_grid__s2) { planarCase<TPQuadMeshBuilder>(false, 1, 6); }
LFV_UNIT(tria_none__s2) { none<TPTriagMeshBuilder>(2); }
LFV_UNIT(quad_none__s2) { none<TPQuadMeshBuilder>(2); }
LFV_UNIT(torus_none__s2) { none<TorusMeshBuilder>(3); }
LFV_UNIT(torus_grid__s2) {
  const U nx = 3 + (U)lfv::choose("nx", 3), ny = 3 + (U)lfv::choose("ny", 3);
  const Rect r = goodRect();
  torus(build<TorusMeshBuilder>(r, nx, ny, 3, (int)lfv::choose("order of the settings", 3)), r, nx, ny);
}
LFV_UNIT(T_torus_grid__s2) {
  const U nx = 3 + (U)lfv::choose("nx", 6), ny = 3 + (U)lfv::choose("ny", 6);
  const Rect r = goodRect();
  torus(build<TorusMeshBuilder>(r, nx, ny, 3, 0), r, nx, ny);
}
// fewer than three cells in a direction: the identification of opposite sides is not a mesh
LFV_UNIT(torus_small__s2) {
  const U nx = (U)lfv::choose("nx", 5), ny = (U)lfv::choose("ny", 5);
  lfv::assume(nx < 3 || ny < 3);
  const Rect r = goodRect();
  lfv::cover("small torus");
  bool none = false;
  lfv::rejects("a torus that cannot be meshed conformingly is rejected or yields no mesh", [&] {
    none = build<TorusMeshBuilder>(r, nx, ny, 3, 0) == nullptr;
    if (none) throw 1;
  });
}
LFV_UNIT(wrong_world) {
  const long k = lfv::choose("builder", 3);
  lfv::cover("wrong dimension of the world");
  lfv::rejects("factories for the wrong dimension are rejected", [&] {
    if (k == 0) { TPTriagMeshBuilder b(std::make_unique<lf::mesh::hybrid2d::MeshFactory>(3)); }
    if (k == 1) { TPQuadMeshBuilder b(std::make_unique<lf::mesh::hybrid2d::MeshFactory>(3)); }
    if (k == 2) { TorusMeshBuilder b(std::make_unique<lf::mesh::hybrid2d::MeshFactory>(2)); }
  });
}

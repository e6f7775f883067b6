// C09: mesh construction yields a consistent cell complex.
#include "mesh_common.h"
using namespace lfvm;
using lf::mesh::hybrid2d::MeshFactory;

static auto stubPos = [](int q, int k) { return q == 0 ? px(k) : py(k); };
// builds with stub geometries (tag 1000+i for inserted edges, i for cells)
struct Inserted { std::shared_ptr<lf::mesh::Mesh> mesh; };
static std::shared_ptr<lf::mesh::Mesh> build(const Spec& s, bool check, const bool* cellGeo, bool edgesFirst = true) {
  MeshFactory f(2, check);
  for (U i = 0; i < s.nn; ++i) {
    const U k = f.AddPoint(std::make_unique<StubGeo>(RefEl::kPoint(), std::vector<U>{i}, 2000 + i));
    lfv::ensure("AddPoint returns the index of the node", k == i);
  }
  auto addEdges = [&] {
    U i = 0;
    for (const Edge& e : s.edges) {
      const std::array<U, 2> n{e.a, e.b};
      const U k = f.AddEntity(RefEl::kSegment(), n, std::make_unique<StubGeo>(RefEl::kSegment(), std::vector<U>{e.a, e.b}, 1000 + i));
      lfv::ensure("AddEntity returns the index of the edge", k == i);
      ++i;
    }
  };
  if (edgesFirst) addEdges();
  U i = 0;
  for (const Cell& c : s.cells) {
    std::unique_ptr<lf::geometry::Geometry> g;
    if (cellGeo[i]) g = std::make_unique<StubGeo>(refEl(c), c.n, i);
    const U k = f.AddEntity(refEl(c), std::span<const U>(c.n.data(), c.n.size()), std::move(g));
    lfv::ensure("AddEntity returns the index of the cell", k == i);
    ++i;
  }
  if (!edgesFirst) addEdges();
  lfv::ensure("world dimension of the factory", f.DimWorld() == 2 && f.DimMesh() == 2);
  return f.Build();
}
static const bool ALLGEO[8] = {true, true, true, true, true, true, true, true};
static const StubGeo* stub(const Entity& e) { return dynamic_cast<const StubGeo*>(e.Geometry()); }
static void checkStubs(const lf::mesh::Mesh& m, const Spec& s, const bool* cellGeo) {
  checkVertices(m, stubPos);
  for (U i = 0; i < s.cells.size(); ++i) if (cellGeo[i]) lfv::ensure("cells keep the inserted geometry", stub(*m.EntityByIndex(0, i)) != nullptr && stub(*m.EntityByIndex(0, i))->tag_ == (int)i);
  for (U i = 0; i < s.edges.size(); ++i) lfv::ensure("inserted edges keep the inserted geometry", stub(*m.EntityByIndex(1, i)) != nullptr && stub(*m.EntityByIndex(1, i))->tag_ == (int)(1000 + i));
  for (U i = 0; i < s.nn; ++i) lfv::ensure("points keep the inserted geometry", stub(*m.EntityByIndex(2, i)) != nullptr && stub(*m.EntityByIndex(2, i))->tag_ == (int)(2000 + i));
  // an edge without own geometry takes it from a cell it belongs to, if any of them has one
  for (U i = s.edges.size(); i < m.NumEntities(1); ++i) {
    const Entity& e = *m.EntityByIndex(1, i);
    bool any = false, from = false;
    U k = 0;
    for (const Entity* c : m.Entities(0)) {
      for (const Entity* x : c->SubEntities(1)) if (x == &e && cellGeo[k]) { any = true; from = from || (stub(e) != nullptr && stub(e)->tag_ == (int)k); }
      ++k;
    }
    lfv::ensure("other edges take their geometry from an adjacent cell", any ? from : stub(e) == nullptr);
  }
}
static void run(const Spec& s, const bool* cellGeo, bool edgesFirst = true) {
  const bool c = complete(s);
  auto m = build(s, c, cellGeo, edgesFirst);
  checkMesh(*m, s);
  checkStubs(*m, s, cellGeo);
  lfv::cover("mesh");
}
// every pair of cells over N nodes
static void pairs(int N) {
  Spec s;
  s.nn = N;
  for (int i = 0; i < 2; ++i) {
    const int len = 3 + (int)lfv::choose("type", 2, i);
    s.cells.push_back({tuple(lfv::choose("nodes", numTuples(len, N), i), len, N)});
  }
  run(s, ALLGEO);
}
LFV_UNIT(pairs_4__s4) { pairs(4); }
LFV_UNIT(T_pairs_5__s4) { pairs(5); }
// complexes whose cells share vertices and edges in all the usual ways
static const std::vector<Spec>& complexes() {
  static const std::vector<Spec> v = {
      {3, {{{0, 1, 2}}}, {}},
      {4, {{{0, 1, 2, 3}}}, {}},
      {4, {{{0, 1, 2}}, {{0, 2, 3}}}, {}},
      {5, {{{0, 1, 2}}, {{0, 2, 3, 4}}}, {}},
      {6, {{{0, 1, 2, 3}}, {{1, 4, 5, 2}}}, {}},
      {5, {{{0, 1, 2}}, {{2, 3, 4}}}, {}},
      {7, {{{0, 1, 2}}, {{3, 4, 5, 6}}}, {}},
      {5, {{{0, 1, 4}}, {{1, 2, 4}}, {{2, 3, 4}}, {{3, 0, 4}}}, {}},
      {6, {{{0, 1, 4, 3}}, {{1, 2, 4}}, {{2, 5, 4}}}, {}},
      {7, {{{0, 1, 4, 3}}, {{1, 2, 5, 4}}, {{3, 4, 6}}, {{4, 5, 6}}}, {}},
  };
  return v;
}
// every numbering of the vertices of each cell, every order of two cells, any cell with or without geometry
LFV_UNIT(numberings__s3) {
  const int k = (int)lfv::choose("complex", 7);
  Spec s = complexes()[k];
  bool geo[4];
  for (size_t i = 0; i < s.cells.size(); ++i) {
    s.cells[i] = symmetric(s.cells[i], lfv::choose("numbering", 2 * (long)s.cells[i].n.size(), (int)i));
    geo[i] = lfv::choose("geometry", 2, (int)i) == 1;
  }
  run(s, geo);
}
LFV_UNIT(numberings_many__s2) {
  const int k = 7 + (int)lfv::choose("complex", 3);
  Spec s = complexes()[k];
  bool geo[4] = {};
  // the same rotation in all cells or one cell reflected; cells inserted in any rotation of the order
  const long r = lfv::choose("numbering", 4), w = lfv::choose("reflected", 5);
  const size_t n = s.cells.size();
  for (size_t i = 0; i < n; ++i) {
    const long len = (long)s.cells[i].n.size();
    s.cells[i] = symmetric(s.cells[i], (long)i == w ? len + r % len : r % len);
    geo[i] = lfv::choose("geometry", 2, (int)i) == 1;
  }
  std::rotate(s.cells.begin(), s.cells.begin() + lfv::choose("order", (long)n), s.cells.end());
  run(s, geo);
}
// explicitly inserted edges: any subset, any direction, before or after the cells, in either order
static void withEdges(int k) {
  Spec s = complexes()[k];
  const std::vector<Edge> all = expectedEdges(s);
  for (size_t i = 0; i < all.size(); ++i) {
    const long st = lfv::choose("edge", 3, (int)i);
    if (st == 1) s.edges.push_back(all[i]);
    if (st == 2) s.edges.push_back({all[i].b, all[i].a});
  }
  if (lfv::choose("edge order", 2) == 1) std::reverse(s.edges.begin(), s.edges.end());
  bool geo[4] = {true, true, true, true};
  geo[0] = lfv::choose("geometry", 2) == 1;
  run(s, geo, lfv::choose("edges first", 2) == 1);
}
LFV_UNIT(edges_tria__s3) { withEdges(0); }
LFV_UNIT(edges_quad__s4) { withEdges(1); }
LFV_UNIT(edges_trias__s5) { withEdges(2); }
LFV_UNIT(T_edges_hybrid__s6) { withEdges(3); }
LFV_UNIT(T_edges_quads__s6) { withEdges(4); }
// edges that belong to no cell, unused nodes
LFV_UNIT(incomplete) {
  const bool check = lfv::choose("check completeness", 2) == 1;
  const int k = (int)lfv::choose("case", 3);
  Spec s = complexes()[2];
  if (k != 1) s.nn = 5;
  if (k == 1) s.edges.push_back({1, 3});
  if (k == 2) { s.edges.push_back({0, 4}); }
  if (!check) {
    auto m = build(s, false, ALLGEO);
    checkMesh(*m, s);
    checkStubs(*m, s, ALLGEO);
    lfv::cover("incomplete");
  } else {
    lfv::cover("incomplete");
    lfv::rejects("incomplete meshes are rejected if completeness is requested", [&] { build(s, true, ALLGEO); });
  }
}
// invalid insertions
LFV_UNIT(rejected__s1) {
  const int k = (int)lfv::choose("case", 9);
  MeshFactory f(2, false);
  for (U i = 0; i < 4; ++i) f.AddPoint(std::make_unique<StubGeo>(RefEl::kPoint(), std::vector<U>{i}, 2000 + i));
  const U bad = (U)lfv::integer("index", 4, (1L << 32) - 1);
  const std::array<U, 4> n4{0, 1, 2, bad};
  const std::array<U, 5> n5{0, 1, 2, 3, 0};
  auto seg = [&](U a, U b) { return std::make_unique<StubGeo>(RefEl::kSegment(), std::vector<U>{a, b}, 0); };
  lfv::cover("rejected");
  switch (k) {
    case 0: lfv::rejects("cells with unknown nodes are rejected", [&] { f.AddEntity(RefEl::kQuad(), n4, nullptr); }); break;
    case 1: lfv::rejects("cells with too few nodes are rejected", [&] { f.AddEntity(RefEl::kQuad(), std::span<const U>(n5.data(), 3), nullptr); }); break;
    case 2: lfv::rejects("cells with too many nodes are rejected", [&] { f.AddEntity(RefEl::kTria(), std::span<const U>(n5.data(), 4), nullptr); }); break;
    case 3: lfv::rejects("edges with unknown nodes are rejected", [&] { f.AddEntity(RefEl::kSegment(), std::span<const U>(n4.data() + 2, 2), seg(2, 3)); }); break;
    case 4: lfv::rejects("points cannot be inserted as entities", [&] { f.AddEntity(RefEl::kPoint(), std::span<const U>(n5.data(), 1), nullptr); }); break;
    case 5: lfv::rejects("geometries of the wrong type are rejected", [&] { f.AddEntity(RefEl::kTria(), std::span<const U>(n5.data(), 3), seg(0, 1)); }); break;
    case 6: {
      f.AddEntity(RefEl::kTria(), std::span<const U>(n5.data(), 3), nullptr);
      f.AddEntity(RefEl::kSegment(), std::span<const U>(n5.data(), 2), seg(0, 1));
      const std::array<U, 2> r{1, 0};
      f.AddEntity(RefEl::kSegment(), r, seg(1, 0));
      lfv::rejects("the same edge inserted twice is rejected", [&] { f.Build(); });
      break;
    }
    case 7: lfv::rejects("edges with one node are rejected", [&] { f.AddEntity(RefEl::kSegment(), std::span<const U>(n5.data(), 1), seg(0, 1)); }); break;
    case 8: lfv::rejects("points need a geometry", [&] { f.AddPoint(std::unique_ptr<lf::geometry::Geometry>()); }); break;
  }
}
// the factory is empty after Build
LFV_UNIT(reuse) {
  MeshFactory f(2, true);
  Spec s = complexes()[3];
  for (int round = 0; round < 2; ++round) {
    for (U i = 0; i < s.nn; ++i) { VectorXd p(2); p(0) = px(i); p(1) = py(i); lfv::ensure("numbering of nodes starts at zero", f.AddPoint(p) == i); }
    U i = 0;
    for (const Cell& c : s.cells) lfv::ensure("numbering of cells starts at zero", f.AddEntity(refEl(c), std::span<const U>(c.n.data(), c.n.size()), nullptr) == i++);
    auto m = f.Build();
    checkMesh(*m, s);
    checkVertices(*m, stubPos);
    s = complexes()[2];
  }
  lfv::cover("reuse");
}
// a mesh does not contain the entities of another one
LFV_UNIT(contains) {
  auto m = build(complexes()[3], true, ALLGEO), m2 = build(complexes()[3], true, ALLGEO);
  for (U cd = 0; cd <= 2; ++cd)
    for (const Entity* e : m2->Entities(cd)) lfv::ensure("entities of other meshes are not contained", !m->Contains(*e));
  lfv::cover("contains");
}
// arbitrary positions of the nodes; geometry derived from the nodes
static MatrixXd coords(const Spec& s, const MatrixXd& base) {
  MatrixXd x(2, s.nn);
  for (U i = 0; i < s.nn; ++i) for (int q = 0; q < 2; ++q) x(q, i) = lfv::real("x", q, (int)i, base(q, i) - 0.2, base(q, i) + 0.2);
  for (const Cell& c : s.cells) {
    MatrixXd y(2, c.n.size());
    for (size_t j = 0; j < c.n.size(); ++j) y.col(j) = x.col(c.n[j]);
    lfvg::assumeNonDegenerate(c.n.size() == 3 ? lfvg::TRI1 : lfvg::QUAD1, y);
  }
  return x;
}
static void straight(const lf::mesh::Mesh& m, const MatrixXd& x) {
  for (U cd = 0; cd <= 2; ++cd)
    for (const Entity* e : m.Entities(cd)) {
      const MatrixXd p = lfvg::points(2 - cd, 1);
      const MatrixXd g = e->Geometry()->Global(p);
      double w[4] = {1, 0, 0, 0};
      if (cd == 1) { w[0] = 1 - p(0, 0); w[1] = p(0, 0); }
      if (cd == 0 && e->RefEl() == RefEl::kTria()) { w[0] = 1 - p(0, 0) - p(1, 0); w[1] = p(0, 0); w[2] = p(1, 0); }
      if (cd == 0 && e->RefEl() == RefEl::kQuad()) { w[0] = (1 - p(0, 0)) * (1 - p(1, 0)); w[1] = p(0, 0) * (1 - p(1, 0)); w[2] = p(0, 0) * p(1, 0); w[3] = (1 - p(0, 0)) * p(1, 0); }
      auto sn = e->SubEntities(2 - cd);
      for (int q = 0; q < 2; ++q) {
        double v = 0;
        for (U i = 0; i < sn.size(); ++i) v += w[i] * x(q, m.Index(*sn[i]));
        lfv::eq("derived geometries interpolate the positions of the nodes", g(q, 0), v);
      }
    }
}
static const double BASE[7][2] = {{0, 0}, {1, 0}, {1, 1}, {0, 1}, {2, 0}, {2, 1}, {1, 2}};
static void derived(const Spec& s, std::vector<int> at) {
  MatrixXd base(2, s.nn);
  for (U i = 0; i < s.nn; ++i) for (int q = 0; q < 2; ++q) base(q, i) = BASE[at[i]][q];
  const MatrixXd x = coords(s, base);
  MeshFactory f(2, true);
  for (U i = 0; i < s.nn; ++i) f.AddPoint(VectorXd(x.col(i)));
  for (const Cell& c : s.cells) f.AddEntity(refEl(c), std::span<const U>(c.n.data(), c.n.size()), nullptr);
  auto m = f.Build();
  checkMesh(*m, s);
  checkVertices(*m, [&](int q, int k) { return x(q, k); });
  straight(*m, x);
  lfv::cover("derived");
}
LFV_UNIT(derived_trias) { derived({4, {{{0, 1, 2}}, {{2, 3, 0}}}, {}}, {0, 1, 2, 3}); }
LFV_UNIT(derived_hybrid) { derived({6, {{{0, 1, 2, 3}}, {{1, 4, 2}}, {{5, 2, 4}}}, {}}, {0, 1, 2, 3, 4, 5}); }
// curved cells hand their edge geometry to the edges; arbitrary positions
LFV_UNIT(curved__s1) {
  const long flip = lfv::choose("numbering of the second cell", 6);
  const long geo = 1 + lfv::choose("cells with geometry", 3);
  Spec s{4, {{{0, 1, 2}}, symmetric({{2, 3, 0}}, flip)}, {}};
  MatrixXd base(2, 4);
  for (U i = 0; i < 4; ++i) for (int q = 0; q < 2; ++q) base(q, i) = BASE[i][q];
  const MatrixXd x = coords(s, base);
  // common midpoints of all pairs of nodes
  auto mid = [&](U a, U b, int q) { const U lo = std::min(a, b), hi = std::max(a, b); return (x(q, lo) + x(q, hi)) / 2 + lfv::real("bend", (int)(4 * lo + hi), q, -0.05, 0.05); };
  MeshFactory f(2, true);
  for (U i = 0; i < 4; ++i) f.AddPoint(VectorXd(x.col(i)));
  for (int c = 0; c < 2; ++c) {
    const Cell& d = s.cells[c];
    std::unique_ptr<lf::geometry::Geometry> g;
    if (geo >> c & 1) {
      MatrixXd y(2, 6);
      for (int j = 0; j < 3; ++j) for (int q = 0; q < 2; ++q) { y(q, j) = x(q, d.n[j]); y(q, 3 + j) = mid(d.n[j], d.n[(j + 1) % 3], q); }
      g = std::make_unique<lf::geometry::TriaO2>(y);
    }
    f.AddEntity(RefEl::kTria(), std::span<const U>(d.n.data(), 3), std::move(g));
  }
  auto m = f.Build();
  checkMesh(*m, s);
  checkVertices(*m, [&](int q, int k) { return x(q, k); });
  const MatrixXd t = lfvg::points(1, 1, "t");
  U k = 0;
  for (const Entity* c : m->Entities(0)) {
    if (geo >> k & 1)
      for (U j = 0; j < 3; ++j) {
        const Entity* e = c->SubEntities(1)[j];
        // the shape of a shared edge is that of the cell with a geometry, run through in the direction of the edge
        const double l = c->RelativeOrientations()[j] == Orientation::positive ? t(0, 0) : 1 - t(0, 0);
        MatrixXd p(2, 1);
        const MatrixXd V = RefEl::kTria().NodeCoords();
        for (int q = 0; q < 2; ++q) p(q, 0) = V(q, j) + l * (V(q, (j + 1) % 3) - V(q, j));
        const MatrixXd gc = c->Geometry()->Global(p), ge = e->Geometry()->Global(t);
        for (int q = 0; q < 2; ++q) lfv::eq("edges have the shape of the adjacent cell", ge(q, 0), gc(q, 0));
      }
    ++k;
  }
  lfv::cover("curved");
}

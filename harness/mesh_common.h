// Mesh descriptions, stub geometries and consistency contracts shared by the mesh harnesses.
#pragma once
#include <lf/mesh/hybrid2d/hybrid2d.h>
#include <lf/mesh/mesh.h>

#include <algorithm>
#include <array>
#include <memory>
#include <vector>

#include "geom_common.h"

#ifdef LFV_VERIFY
// Assumed contract: a logger exists and is switched off (logging has no effect on the mesh).
extern "C" inline __attribute__((used)) std::shared_ptr<spdlog::logger> lfv_contract_for__ZN2lf4base10InitLoggerERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(const std::string&) {
  alignas(16) static unsigned char raw[sizeof(spdlog::logger)];
  for (unsigned char& c : raw) c = 6;
  return std::shared_ptr<spdlog::logger>(std::shared_ptr<void>(), reinterpret_cast<spdlog::logger*>(raw));
}
#endif

namespace lfvm {
using Eigen::MatrixXd;
using Eigen::VectorXd;
using lf::base::RefEl;
using lf::mesh::Entity;
using lf::mesh::Orientation;
using U = unsigned;

inline double px(int k) { return k; }
inline double py(int k) { return (double)k * k / 8; }

// a geometry that only knows the mesh nodes of its vertices, and a tag
class StubGeo : public lf::geometry::Geometry {
 public:
  StubGeo(lf::base::RefEl r, std::vector<U> n, int tag) : r_(r), n_(std::move(n)), tag_(tag) {}
  dim_t DimLocal() const override { return r_.Dimension(); }
  dim_t DimGlobal() const override { return 2; }
  lf::base::RefEl RefEl() const override { return r_; }
  MatrixXd Global(const MatrixXd& x) const override {
    MatrixXd g(2, x.cols());
    for (int j = 0; j < x.cols(); ++j) {
      double w[4] = {1, 0, 0, 0};
      if (r_ == lf::base::RefEl::kSegment()) { w[0] = 1 - x(0, j); w[1] = x(0, j); }
      if (r_ == lf::base::RefEl::kTria()) { w[0] = 1 - x(0, j) - x(1, j); w[1] = x(0, j); w[2] = x(1, j); }
      if (r_ == lf::base::RefEl::kQuad()) { w[0] = (1 - x(0, j)) * (1 - x(1, j)); w[1] = x(0, j) * (1 - x(1, j)); w[2] = x(0, j) * x(1, j); w[3] = (1 - x(0, j)) * x(1, j); }
      g(0, j) = 0; g(1, j) = 0;
      for (size_t i = 0; i < n_.size(); ++i) { g(0, j) += w[i] * px(n_[i]); g(1, j) += w[i] * py(n_[i]); }
    }
    return g;
  }
  MatrixXd Jacobian(const MatrixXd&) const override { return MatrixXd(); }
  MatrixXd JacobianInverseGramian(const MatrixXd&) const override { return MatrixXd(); }
  VectorXd IntegrationElement(const MatrixXd&) const override { return VectorXd(); }
  std::unique_ptr<Geometry> SubGeometry(dim_t codim, dim_t i) const override {
    if (codim == 0) return std::make_unique<StubGeo>(*this);
    if (codim == r_.Dimension()) return std::make_unique<StubGeo>(lf::base::RefEl::kPoint(), std::vector<U>{n_[i]}, tag_);
    return std::make_unique<StubGeo>(lf::base::RefEl::kSegment(), std::vector<U>{n_[i], n_[(i + 1) % n_.size()]}, tag_);
  }
  std::vector<std::unique_ptr<Geometry>> ChildGeometry(const lf::geometry::RefinementPattern&, lf::base::dim_t) const override { return {}; }
  lf::base::RefEl r_;
  std::vector<U> n_;
  int tag_;
};

struct Cell { std::vector<U> n; };
struct Edge { U a, b; };
struct Spec {
  U nn = 0;
  std::vector<Cell> cells;
  std::vector<Edge> edges;  // explicitly inserted edges, in order of insertion
};
inline RefEl refEl(const Cell& c) { return c.n.size() == 3 ? RefEl::kTria() : RefEl::kQuad(); }
// expected edges: explicitly inserted, then any others
inline std::vector<Edge> expectedEdges(const Spec& s) {
  std::vector<Edge> e = s.edges;
  for (const Cell& c : s.cells)
    for (size_t j = 0; j < c.n.size(); ++j) {
      const U a = c.n[j], b = c.n[(j + 1) % c.n.size()];
      bool found = false;
      for (const Edge& f : e) found = found || (f.a == a && f.b == b) || (f.a == b && f.b == a);
      if (!found) e.push_back({a, b});
    }
  return e;
}
inline bool complete(const Spec& s) {
  std::vector<char> used(s.nn, 0);
  std::vector<Edge> ce;
  Spec t = s;
  t.edges.clear();
  ce = expectedEdges(t);
  for (const Edge& e : ce) used[e.a] = used[e.b] = 1;
  for (char u : used) if (!u) return false;
  for (const Edge& e : s.edges) {
    bool found = false;
    for (const Edge& f : ce) found = found || (f.a == e.a && f.b == e.b) || (f.a == e.b && f.b == e.a);
    if (!found) return false;
  }
  return true;
}
// consistency of a mesh with its description
inline void checkMesh(const lf::mesh::Mesh& m, const Spec& s, unsigned world = 2) {
  const std::vector<Edge> ex = expectedEdges(s);
  lfv::ensure("DimMesh", m.DimMesh() == 2);
  lfv::ensure("DimWorld", m.DimWorld() == world);
  lfv::ensure("one cell entity per inserted cell", m.NumEntities(0) == s.cells.size());
  lfv::ensure("every edge exists exactly once", m.NumEntities(1) == ex.size());
  lfv::ensure("one point entity per inserted node", m.NumEntities(2) == s.nn);
  U nt = 0;
  for (const Cell& c : s.cells) nt += c.n.size() == 3;
  lfv::ensure("entity counts per type", m.NumEntities(RefEl::kTria()) == nt && m.NumEntities(RefEl::kQuad()) == s.cells.size() - nt && m.NumEntities(RefEl::kSegment()) == ex.size() && m.NumEntities(RefEl::kPoint()) == s.nn);
  for (U cd = 0; cd <= 2; ++cd) {
    auto es = m.Entities(cd);
    lfv::ensure("iteration covers all entities", es.size() == m.NumEntities(cd));
    U k = 0;
    for (const Entity* e : es) {
      lfv::ensure("entities have the requested codimension", e != nullptr && e->Codim() == cd);
      lfv::ensure("iteration in index order", m.Index(*e) == k);
      lfv::ensure("EntityByIndex inverts Index", m.EntityByIndex(cd, k) == e);
      lfv::ensure("the mesh contains its entities", m.Contains(*e));
      lfv::ensure("an entity is its own sub-entity of relative codimension 0", e->SubEntities(0).size() == 1 && e->SubEntities(0)[0] == e);
      lfv::ensure("entities are equal to themselves only", *e == *e && (k == 0 || !(*e == *es[0])));
      lfv::ensure("entities have a geometry of their type", e->Geometry() != nullptr && e->Geometry()->RefEl() == e->RefEl() && e->Geometry()->DimGlobal() == world);
      ++k;
    }
  }
  auto P = m.Entities(2);
  // edges
  std::vector<char> seen(ex.size(), 0);
  U k = 0;
  for (const Entity* e : m.Entities(1)) {
    lfv::ensure("edges are segments with two end points", e->RefEl() == RefEl::kSegment() && e->SubEntities(1).size() == 2);
    const U a = m.Index(*e->SubEntities(1)[0]), b = m.Index(*e->SubEntities(1)[1]);
    lfv::ensure("end points are points of the mesh", a < s.nn && b < s.nn && P[a] == e->SubEntities(1)[0] && P[b] == e->SubEntities(1)[1]);
    U f = 0;
    while (f < ex.size() && !((ex[f].a == a && ex[f].b == b) || (ex[f].a == b && ex[f].b == a))) ++f;
    lfv::ensure("edges are inserted edges or edges of cells, once each", f < ex.size() && !seen[f]);
    if (f < ex.size()) seen[f] = 1;
    if (k < s.edges.size()) lfv::ensure("explicitly inserted edges keep their position as index and their direction", f == k && a == ex[f].a && b == ex[f].b);
    auto o = e->RelativeOrientations();
    lfv::ensure("orientations of the end points of an edge", o.size() == 2 && o[0] == Orientation::negative && o[1] == Orientation::positive);
    ++k;
  }
  // cells
  k = 0;
  for (const Entity* c : m.Entities(0)) {
    const Cell& d = s.cells[k];
    const U n = d.n.size();
    lfv::ensure("cells are indexed in the order of insertion and keep their type", c->RefEl() == refEl(d));
    auto sn = c->SubEntities(2);
    auto se = c->SubEntities(1);
    auto so = c->RelativeOrientations();
    lfv::ensure("numbers of sub-entities", sn.size() == n && se.size() == n && so.size() == n);
    for (U j = 0; j < n; ++j) {
      lfv::ensure("corners are the given nodes in the given order", sn[j] == P[d.n[j]]);
      const U a = m.Index(*se[j]->SubEntities(1)[0]), b = m.Index(*se[j]->SubEntities(1)[1]);
      const U u = d.n[j], v = d.n[(j + 1) % n];
      lfv::ensure("edge j connects vertices j and j+1", (a == u && b == v) || (a == v && b == u));
      lfv::ensure("edges of cells are edges of the mesh", m.EntityByIndex(1, m.Index(*se[j])) == se[j]);
      lfv::ensure("relative orientation is positive exactly if the edge starts at vertex j", (so[j] == Orientation::positive) == (a == u));
    }
    ++k;
  }
  for (const Entity* p : P) lfv::ensure("points are points", p->RefEl() == RefEl::kPoint());
}
// geometries agree with the positions of the nodes
template <class POS>
inline void checkVertices(const lf::mesh::Mesh& m, POS pos, int world = 2) {
  for (U cd = 0; cd <= 2; ++cd)
    for (const Entity* e : m.Entities(cd)) {
      const MatrixXd g = e->Geometry()->Global(e->RefEl().NodeCoords());
      auto sn = e->SubEntities(2 - cd);
      for (U i = 0; i < sn.size(); ++i)
        for (int q = 0; q < world; ++q) lfv::eq("the geometry maps reference vertex i to the position of vertex i", g(q, i), pos(q, (int)m.Index(*sn[i])));
    }
}
// the k-th injective tuple of length len over {0,..,n-1}
inline std::vector<U> tuple(long k, int len, int n) {
  std::vector<U> pool, r;
  for (int i = 0; i < n; ++i) pool.push_back(i);
  for (int i = 0; i < len; ++i) {
    const int m = n - i;
    r.push_back(pool[k % m]);
    pool.erase(pool.begin() + k % m);
    k /= m;
  }
  return r;
}
inline long numTuples(int len, int n) { long r = 1; for (int i = 0; i < len; ++i) r *= n - i; return r; }
// the k-th of the 2n symmetric numberings of the vertices of a polygon
inline Cell symmetric(const Cell& c, long k) {
  const int n = (int)c.n.size();
  Cell r;
  for (int i = 0; i < n; ++i) r.n.push_back(c.n[k < n ? (i + k) % n : (2 * n - i + k - n) % n]);
  return r;
}
}  // namespace lfvm

// Meshes that satisfy the contract of the Mesh interface (C09) and nothing else: any connectivity,
// any direction of every edge, optional geometries.
#pragma once
#include "mesh_common.h"

namespace lfvm {
class StubEntity : public lf::mesh::Entity {
 public:
  unsigned Codim() const override { return codim_; }
  std::span<const Entity* const> SubEntities(unsigned rel) const override {
    LF_VERIFY_MSG(rel <= ref_.Dimension(), "relative codimension out of range");
    return {sub_[rel].data(), sub_[rel].size()};
  }
  std::span<const Orientation> RelativeOrientations() const override { return {orient_.data(), orient_.size()}; }
  const lf::geometry::Geometry* Geometry() const override { return geo_.get(); }
  lf::base::RefEl RefEl() const override { return ref_; }
  bool operator==(const Entity& o) const override { return this == &o; }
  unsigned codim_ = 0, index_ = 0;
  lf::base::RefEl ref_ = lf::base::RefEl::kPoint();
  std::vector<const Entity*> sub_[3];
  std::vector<Orientation> orient_;
  std::unique_ptr<lf::geometry::Geometry> geo_;
};
class StubMesh : public lf::mesh::Mesh {
 public:
  unsigned DimMesh() const override { return 2; }
  unsigned DimWorld() const override { return 2; }
  std::span<const Entity* const> Entities(unsigned c) const override { LF_VERIFY_MSG(c <= 2, "codim"); return {p_[c].data(), p_[c].size()}; }
  size_type NumEntities(unsigned c) const override { LF_VERIFY_MSG(c <= 2, "codim"); return (size_type)p_[c].size(); }
  size_type NumEntities(RefEl r) const override {
    size_type n = 0;
    for (auto& v : e_) for (auto& e : v) n += e->RefEl() == r;
    return n;
  }
  size_type Index(const Entity& e) const override { LF_VERIFY_MSG(Contains(e), "entity of another mesh"); return static_cast<const StubEntity&>(e).index_; }
  const Entity* EntityByIndex(dim_t c, lf::base::glb_idx_t i) const override { LF_VERIFY_MSG(c <= 2 && i < p_[c].size(), "index"); return p_[c][i]; }
  bool Contains(const Entity& e) const override {
    for (auto& v : p_) for (auto* q : v) if (q == &e) return true;
    return false;
  }
  std::vector<std::unique_ptr<StubEntity>> e_[3];
  std::vector<const Entity*> p_[3];
  StubEntity& at(U c, U i) { return *e_[c][i]; }
};
// all edges in the given direction (explicit ones of the description first)
inline std::shared_ptr<StubMesh> stubMesh(const Spec& s, const std::vector<Edge>& edges) {
  auto m = std::make_shared<StubMesh>();
  auto add = [&](U c, RefEl r) -> StubEntity& {
    auto e = std::make_unique<StubEntity>();
    e->codim_ = c; e->index_ = (U)m->e_[c].size(); e->ref_ = r;
    e->sub_[0].push_back(e.get());
    m->p_[c].push_back(e.get());
    m->e_[c].push_back(std::move(e));
    return *m->e_[c].back();
  };
  for (U i = 0; i < s.nn; ++i) add(2, RefEl::kPoint());
  for (const Edge& d : edges) {
    StubEntity& e = add(1, RefEl::kSegment());
    e.sub_[1] = {m->p_[2][d.a], m->p_[2][d.b]};
    e.orient_ = {Orientation::negative, Orientation::positive};
  }
  for (const Cell& c : s.cells) {
    StubEntity& e = add(0, refEl(c));
    const size_t n = c.n.size();
    for (size_t j = 0; j < n; ++j) {
      const U a = c.n[j], b = c.n[(j + 1) % n];
      e.sub_[2].push_back(m->p_[2][a]);
      for (size_t k = 0; k < edges.size(); ++k)
        if ((edges[k].a == a && edges[k].b == b) || (edges[k].a == b && edges[k].b == a)) {
          e.sub_[1].push_back(m->p_[1][k]);
          e.orient_.push_back(edges[k].a == a ? Orientation::positive : Orientation::negative);
        }
    }
  }
  return m;
}
// any direction of every edge
inline std::shared_ptr<StubMesh> anyMesh(const Spec& s) {
  std::vector<Edge> e = expectedEdges(s);
  for (size_t i = 0; i < e.size(); ++i) if (lfv::choose("direction", 2, (int)i) == 1) std::swap(e[i].a, e[i].b);
  return stubMesh(s, e);
}
// a direction pattern out of four for every edge
inline std::shared_ptr<StubMesh> someMesh(const Spec& s) {
  std::vector<Edge> e = expectedEdges(s);
  const long k = lfv::choose("direction", 4);
  for (size_t i = 0; i < e.size(); ++i) if (k == 1 || (k == 2 && i % 2) || (k == 3 && i % 3 == 1)) std::swap(e[i].a, e[i].b);
  return stubMesh(s, e);
}
inline const std::vector<Spec>& complexes() {
  static const std::vector<Spec> v = {
      {3, {{{0, 1, 2}}}, {}},
      {4, {{{0, 1, 2, 3}}}, {}},
      {4, {{{0, 1, 2}}, {{0, 2, 3}}}, {}},
      {5, {{{0, 1, 2}}, {{0, 2, 3, 4}}}, {}},
      {6, {{{0, 1, 2, 3}}, {{1, 4, 5, 2}}}, {}},
      {5, {{{0, 1, 2}}, {{2, 3, 4}}}, {}},
      {7, {{{0, 1, 2}}, {{3, 4, 5, 6}}}, {}},
      {5, {{{0, 1, 4}}, {{1, 2, 4}}, {{2, 3, 4}}, {{3, 0, 4}}}, {}},
      {6, {{{0, 1, 4, 3}}, {{1, 2, 4}}, {{2, 5, 4}}}, {}},
      {7, {{{0, 1, 4, 3}}, {{1, 2, 5, 4}}, {{3, 4, 6}}, {{4, 5, 6}}}, {}},
  };
  return v;
}
}  // namespace lfvm

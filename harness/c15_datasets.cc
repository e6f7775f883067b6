// C15: data sets attached to a mesh, counts of super-entities and boundary flags.
#include <lf/mesh/utils/utils.h>

#include "stub_mesh.h"

namespace {
using namespace lfvm;
using namespace lf::mesh::utils;
using MeshP = std::shared_ptr<const lf::mesh::Mesh>;

const std::vector<Spec>& small() {
  static const std::vector<Spec> v(complexes().begin(), complexes().begin() + 6);
  return v;
}
// values the data sets store
struct RealV {
  using T = double;
  static T make(int k) { return lfv::real("value", k); }
  static void same(const char* n, T a, T b) { lfv::eq(n, a, b, 0); }
};
struct IntV {
  using T = unsigned;
  static T make(int k) { return (unsigned)lfv::integer("value", 0, 4294967295L, k); }
  static void same(const char* n, T a, T b) { lfv::ensure(n, a == b); }
};
struct BoolV {
  using T = bool;
  static T make(int k) { return lfv::choose("value", 2, k) == 1; }
  static void same(const char* n, T a, T b) { lfv::ensure(n, a == b); }
};
struct VecV {
  using T = Eigen::VectorXd;
  static T make(int k) { T v(2); v << lfv::real("value", k, 0), lfv::real("value", k, 1); return v; }
  static void same(const char* n, const T& a, const T& b) {
    lfv::ensure(n, a.size() == b.size());
    for (int i = 0; i < a.size() && i < b.size(); ++i) lfv::eq(n, a[i], b[i], 0);
  }
};
// a mesh that satisfies the interface contract, or one built by the hybrid2d factory
MeshP hybridMesh(const Spec& s) {
  lf::mesh::hybrid2d::MeshFactory f(2);
  for (U i = 0; i < s.nn; ++i) f.AddPoint(Eigen::Vector2d(px((int)i), py((int)i)));
  for (const Cell& c : s.cells) f.AddEntity(refEl(c), std::span<const U>(c.n.data(), c.n.size()), std::make_unique<StubGeo>(refEl(c), c.n, 0));
  return f.Build();
}
struct Slot { U cd, i; };
std::vector<Slot> slots(const lf::mesh::Mesh& m, int codim) {  // codim < 0: all
  std::vector<Slot> r;
  for (U c = 0; c <= 2; ++c)
    if (codim < 0 || (int)c == codim) for (U i = 0; i < m.NumEntities(c); ++i) r.push_back({c, i});
  return r;
}
// every history of writes a, b, a (entities a and b arbitrary) leaves exactly the last value per entity
template <class V, class DS>
void history(DS& ds, const lf::mesh::Mesh& m, const std::vector<Slot>& sl, std::vector<typename V::T> ghost, int nwrites = 3) {
  const DS& cds = ds;
  const MeshDataSet<typename V::T>& base = ds;
  const long a = lfv::choose("first entity", (long)sl.size()), b = lfv::choose("second entity", (long)sl.size());
  const long w[3] = {a, b, a};
  lfv::cover("history");
  bool final = false;
  auto all = [&](const char* n) {
    for (size_t k = 0; k < sl.size(); ++k) {
      const Entity& e = *m.EntityByIndex(sl[k].cd, sl[k].i);
      V::same(n, final ? base(e) : cds(e), ghost[k]);
    }
  };
  all("before any write every entity has the initial value");
  for (int s = 0; s < nwrites; ++s) {
    typename V::T v = V::make(s + 1);
    ds(*m.EntityByIndex(sl[w[s]].cd, sl[w[s]].i)) = v;
    ghost[w[s]] = v;
    final = s + 1 == nwrites;
    all("every entity has the last value stored for it");
  }
}
template <class DS>
void defined(DS& ds, const lf::mesh::Mesh& m, const lf::mesh::Mesh& other, int codim) {
  lfv::cover("definedness");
  for (U c = 0; c <= 2; ++c) {
    for (const Entity* e : m.Entities(c)) lfv::ensure("defined exactly on the entities it covers", ds.DefinedOn(*e) == (codim < 0 || (int)c == codim));
    for (const Entity* e : other.Entities(c)) lfv::ensure("not defined on entities of another mesh", !ds.DefinedOn(*e));
  }
}
template <class DS>
void rejectsForeign(DS& ds, const lf::mesh::Mesh& m, const lf::mesh::Mesh& other, int codim) {
  const U c = (U)lfv::choose("codimension of the entity", 3);
  const bool foreign = codim < 0 || (int)c == codim || lfv::choose("other mesh", 2) == 1;
  const Entity& e = *(foreign ? other : m).EntityByIndex(c, (U)lfv::choose("entity", (long)m.NumEntities(c)));
  const DS& cds = ds;
  const bool rd = lfv::choose("read", 2) == 1;
  lfv::cover("foreign entity");
  lfv::rejects("access to an entity that is not covered is rejected", [&] {
    if (rd) (void)cds(e); else (void)ds(e);
  });
}
MeshP pick(const Spec& s, bool hybrid) { return hybrid ? hybridMesh(s) : MeshP(someMesh(s)); }
template <class V>
void codimCase(bool hybrid, bool make) {
  const auto& C = small();
  const Spec& s = C[lfv::choose("complex", (long)C.size())];
  MeshP m = pick(s, hybrid);
  const int cd = (int)lfv::choose("codimension", 3);
  const auto sl = slots(*m, cd);
  typename V::T init = V::make(0);
  std::vector<typename V::T> ghost(sl.size(), init);
  if (make) { auto p = make_CodimMeshDataSet<typename V::T>(m, cd, init); history<V>(*p, *m, sl, ghost); }
  else { CodimMeshDataSet<typename V::T> ds(m, cd, init); history<V>(ds, *m, sl, ghost); }
}
template <class V>
void allCase(bool hybrid, bool make) {
  const auto& C = small();
  const Spec& s = C[lfv::choose("complex", hybrid ? 3 : (long)C.size())];
  MeshP m = pick(s, hybrid);
  const auto sl = slots(*m, -1);
  typename V::T init = V::make(0);
  std::vector<typename V::T> ghost(sl.size(), init);
  if (make) { auto p = make_AllCodimMeshDataSet<typename V::T>(m, init); history<V>(*p, *m, sl, ghost, 3); }
  else { AllCodimMeshDataSet<typename V::T> ds(m, init); history<V>(ds, *m, sl, ghost, 3); }
}
// numbers of incident entities according to the description of the mesh
struct Incidence {
  Spec s;
  std::vector<Edge> ed;
  explicit Incidence(const Spec& sp) : s(sp), ed(expectedEdges(sp)) {}
  static bool same(const Edge& e, U a, U b) { return (e.a == a && e.b == b) || (e.a == b && e.b == a); }
  U cellsOfEdge(U k) const {
    U n = 0;
    for (const Cell& c : s.cells) for (size_t j = 0; j < c.n.size(); ++j) n += same(ed[k], c.n[j], c.n[(j + 1) % c.n.size()]);
    return n;
  }
  U edgesOfNode(U v) const { U n = 0; for (const Edge& e : ed) n += e.a == v || e.b == v; return n; }
  U cellsOfNode(U v) const { U n = 0; for (const Cell& c : s.cells) for (U x : c.n) n += x == v; return n; }
  bool bndEdge(U k) const { return cellsOfEdge(k) == 1; }
  bool bndNode(U v) const { for (U k = 0; k < ed.size(); ++k) if ((ed[k].a == v || ed[k].b == v) && bndEdge(k)) return true; return false; }
  U count(U sub, U rel, U i) const {
    if (rel == 0) return 1;
    if (sub == 1) return cellsOfEdge(i);
    return rel == 1 ? edgesOfNode(i) : cellsOfNode(i);
  }
};
// hybrid2d meshes may number derived edges in any order: identify them by their end points
U ghostIndex(const Incidence& g, const lf::mesh::Mesh& m, const Entity& e, U cd) {
  if (cd != 1) return m.Index(e);
  const U a = m.Index(*e.SubEntities(1)[0]), b = m.Index(*e.SubEntities(1)[1]);
  U k = 0;
  while (k < g.ed.size() && !Incidence::same(g.ed[k], a, b)) ++k;
  return k;
}
void counts(const MeshP& m, const Spec& s) {
  const Incidence g(s);
  lfv::cover("incidences");
  for (U sub = 0; sub <= 2; ++sub)
    for (U rel = 0; rel <= sub; ++rel) {
      auto ds = CountNumSuperEntities(m, sub, rel);
      for (U c = 0; c <= 2; ++c)
        for (const Entity* e : m->Entities(c)) {
          lfv::ensure("counts are defined exactly for the entities of the requested codimension", ds.DefinedOn(*e) == (c == sub));
          if (c == sub) lfv::ensure("the count is the number of incident super-entities", ds(*e) == g.count(sub, rel, ghostIndex(g, *m, *e, c)));
        }
    }
}
void boundary(const MeshP& m, const Spec& s) {
  const Incidence g(s);
  lfv::cover("incidences");
  auto flag = [&](const Entity& e, U c) {
    const U i = ghostIndex(g, *m, e, c);
    return c == 1 ? g.bndEdge(i) : c == 2 ? g.bndNode(i) : false;
  };
  for (U cd = 1; cd <= 2; ++cd) {
    auto ds = flagEntitiesOnBoundary(m, cd);
    for (U c = 0; c <= 2; ++c)
      for (const Entity* e : m->Entities(c)) {
        lfv::ensure("flags are defined exactly for the entities of the requested codimension", ds.DefinedOn(*e) == (c == cd));
        if (c == cd) lfv::ensure("exactly the entities on the boundary are flagged", ds(*e) == flag(*e, c));
      }
  }
  auto all = flagEntitiesOnBoundary(m);
  for (U c = 0; c <= 2; ++c)
    for (const Entity* e : m->Entities(c)) lfv::ensure("exactly the entities on the boundary are flagged (all codimensions)", all.DefinedOn(*e) && all(*e) == flag(*e, c));
}
const Spec& spec(long more = 0) {
  static std::vector<Spec> v = complexes();
  static bool ext = [] {
    v.push_back({8, {{{0, 1, 4, 3}}, {{1, 2, 5, 4}}, {{3, 4, 7, 6}}}, {}});           // L shape
    v.push_back({5, {{{0, 1, 2}}, {{1, 3, 2}}, {{3, 4, 2}}}, {}});                       // fan
    v.push_back({9, {{{0, 1, 4, 3}}, {{1, 2, 5, 4}}, {{3, 4, 7, 6}}, {{4, 5, 8, 7}}}, {}});  // interior node
    v.push_back({6, {{{0, 1, 4}}, {{1, 5, 4}}, {{1, 2, 5}}, {{2, 3, 5}}, {{3, 0, 5}}, {{0, 4, 5}}}, {}});
    return true;
  }();
  (void)ext; (void)more;
  return v[lfv::choose("complex", (long)v.size())];
}
// a one-dimensional mesh: cells are segments, codimension 1 are the points
class StubMesh1 : public StubMesh {
 public:
  unsigned DimMesh() const override { return 1; }
  unsigned DimWorld() const override { return 1; }
  std::span<const Entity* const> Entities(unsigned c) const override { LF_VERIFY_MSG(c <= 1, "codim"); return {p_[c].data(), p_[c].size()}; }
  size_type NumEntities(unsigned c) const override { LF_VERIFY_MSG(c <= 1, "codim"); return (size_type)p_[c].size(); }
};
std::shared_ptr<StubMesh1> chain(U nn, const std::vector<Edge>& ed) {
  auto m = std::make_shared<StubMesh1>();
  auto add = [&](U c, RefEl r) -> StubEntity& {
    auto e = std::make_unique<StubEntity>();
    e->codim_ = c; e->index_ = (U)m->e_[c].size(); e->ref_ = r;
    e->sub_[0].push_back(e.get());
    m->p_[c].push_back(e.get());
    m->e_[c].push_back(std::move(e));
    return *m->e_[c].back();
  };
  for (U i = 0; i < nn; ++i) add(1, RefEl::kPoint());
  for (const Edge& d : ed) { StubEntity& e = add(0, RefEl::kSegment()); e.sub_[1] = {m->p_[1][d.a], m->p_[1][d.b]}; }
  return m;
}
}  // namespace

LFV_UNIT(codim_set_real__s1) { codimCase<RealV>(false, false); }
LFV_UNIT(codim_set_int__s1) { codimCase<IntV>(false, true); }
LFV_UNIT(codim_set_bool__s1) { codimCase<BoolV>(false, lfv::choose("factory", 2) == 1); }
LFV_UNIT(codim_set_vector__s1) { codimCase<VecV>(false, true); }
LFV_UNIT(codim_set_hybrid__s1) { codimCase<RealV>(true, false); }
LFV_UNIT(all_set_real__s1) { allCase<RealV>(false, false); }
LFV_UNIT(all_set_int__s1) { allCase<IntV>(false, true); }
LFV_UNIT(all_set_bool__s1) { allCase<BoolV>(false, false); }
LFV_UNIT(all_set_vector__s1) { allCase<VecV>(false, true); }
LFV_UNIT(all_set_hybrid__s1) { allCase<RealV>(true, true); }

// sets without an initial value
LFV_UNIT(unset__s1) {
  const auto& C = small();
  const Spec& s = C[lfv::choose("complex", (long)C.size())];
  MeshP m = someMesh(s);
  const long k = lfv::choose("kind", 4);
  if (k < 2) {
    const int cd = (int)lfv::choose("codimension", 3);
    CodimMeshDataSet<double> d0(m, cd);
    auto d1 = make_CodimMeshDataSet<double>(m, cd);
    CodimMeshDataSet<double>& d = k ? *d1 : d0;
    const auto sl = slots(*m, cd);
    std::vector<double> gh;
    for (size_t i = 0; i < sl.size(); ++i) { gh.push_back(lfv::real("start", (int)i)); d(*m->EntityByIndex(sl[i].cd, sl[i].i)) = gh.back(); }
    history<RealV>(d, *m, sl, gh, 1);
  } else {
    AllCodimMeshDataSet<double> d0(m);
    auto d1 = make_AllCodimMeshDataSet<double>(m);
    AllCodimMeshDataSet<double>& d = k == 2 ? d0 : *d1;
    const auto sl = slots(*m, -1);
    std::vector<double> gh;
    for (size_t i = 0; i < sl.size(); ++i) { gh.push_back(lfv::real("start", (int)i)); d(*m->EntityByIndex(sl[i].cd, sl[i].i)) = gh.back(); }
    history<RealV>(d, *m, sl, gh, 1);
  }
}
// references returned for different entities never alias, and stay valid
LFV_UNIT(references__s1) {
  const auto& C = small();
  const Spec& s = C[lfv::choose("complex", (long)C.size())];
  MeshP m = someMesh(s);
  AllCodimMeshDataSet<double> d(m, 0.);
  const auto sl = slots(*m, -1);
  lfv::cover("references");
  std::vector<double*> p;
  for (const Slot& x : sl) p.push_back(&d(*m->EntityByIndex(x.cd, x.i)));
  for (size_t i = 0; i < sl.size(); ++i) *p[i] = lfv::real("value", (int)i);
  for (size_t i = 0; i < sl.size(); ++i) lfv::eq("every entity has a slot of its own", d(*m->EntityByIndex(sl[i].cd, sl[i].i)), lfv::real("value", (int)i), 0);
  AllCodimMeshDataSet<double> e(std::move(d));
  for (size_t i = 0; i < sl.size(); ++i) lfv::eq("moving a data set keeps its values", e(*m->EntityByIndex(sl[i].cd, sl[i].i)), lfv::real("value", (int)i), 0);
}
// copies are independent
LFV_UNIT(copies__s1) {
  const auto& C = small();
  const Spec& s = C[lfv::choose("complex", (long)C.size())];
  MeshP m = someMesh(s);
  const U cd = (U)lfv::choose("codimension", 3);
  CodimMeshDataSet<double> d(m, cd, lfv::real("init"));
  const U k = (U)lfv::choose("entity", (long)m->NumEntities(cd));
  d(*m->EntityByIndex(cd, k)) = lfv::real("first");
  CodimMeshDataSet<double> e(d);
  e(*m->EntityByIndex(cd, k)) = lfv::real("second");
  lfv::cover("copy");
  for (U i = 0; i < m->NumEntities(cd); ++i) {
    const Entity& x = *m->EntityByIndex(cd, i);
    lfv::eq("the original keeps its values", d(x), i == k ? lfv::real("first") : lfv::real("init"), 0);
    lfv::eq("the copy has its own values", e(x), i == k ? lfv::real("second") : lfv::real("init"), 0);
    lfv::ensure("copies cover the same entities", e.DefinedOn(x));
  }
}
LFV_UNIT(defined__s2) {
  const auto& C = complexes();
  const long q = lfv::choose("complex", (long)C.size());
  const bool hybrid = lfv::choose("hybrid", 2) == 1;
  MeshP m = pick(C[q], hybrid), o = pick(C[lfv::choose("same connectivity", 2) ? q : (q + 1) % C.size()], hybrid);
  for (int cd = 0; cd <= 2; ++cd) { CodimMeshDataSet<double> d(m, cd, 0.); defined(d, *m, *o, cd); }
  AllCodimMeshDataSet<double> d(m, 0.);
  defined(d, *m, *o, -1);
}
LFV_UNIT(foreign_codim__s2) {
  const auto& C = small();
  const Spec& s = C[lfv::choose("complex", (long)C.size())];
  const bool hybrid = lfv::choose("hybrid", 2) == 1;
  MeshP m = pick(s, hybrid), o = pick(s, hybrid);
  const int cd = (int)lfv::choose("codimension", 3);
  CodimMeshDataSet<double> d(m, cd, 0.);
  rejectsForeign(d, *m, *o, cd);
}
LFV_UNIT(foreign_all__s2) {
  const auto& C = small();
  const Spec& s = C[lfv::choose("complex", (long)C.size())];
  const bool hybrid = lfv::choose("hybrid", 2) == 1;
  MeshP m = pick(s, hybrid), o = pick(s, hybrid);
  AllCodimMeshDataSet<double> d(m, 0.);
  rejectsForeign(d, *m, *o, -1);
}
LFV_UNIT(counts__s1) { const Spec& s = spec(); counts(someMesh(s), s); }
LFV_UNIT(counts_hybrid__s1) { const Spec& s = spec(); counts(hybridMesh(s), s); }
LFV_UNIT(boundary__s1) { const Spec& s = spec(); boundary(someMesh(s), s); }
LFV_UNIT(boundary_hybrid__s1) { const Spec& s = spec(); boundary(hybridMesh(s), s); }
LFV_UNIT(counts_1d) {
  const long k = lfv::choose("chain", 4);
  const std::vector<std::vector<Edge>> v = {{{0, 1}}, {{0, 1}, {1, 2}}, {{1, 0}, {2, 1}, {2, 3}}, {{0, 1}, {1, 2}, {2, 0}}};
  const U nn[4] = {2, 3, 4, 3};
  MeshP m = chain(nn[k], v[k]);
  lfv::cover("chain");
  auto cnt = CountNumSuperEntities(m, 1, 1);
  auto bd = flagEntitiesOnBoundary(m, 1);
  auto all = flagEntitiesOnBoundary(m);
  for (U i = 0; i < nn[k]; ++i) {
    const Entity& p = *m->EntityByIndex(1, i);
    U n = 0;
    for (const Edge& e : v[k]) n += (e.a == i) + (e.b == i);
    lfv::ensure("the count is the number of incident super-entities", cnt(p) == n);
    lfv::ensure("exactly the entities on the boundary are flagged", bd(p) == (n == 1) && all(p) == (n == 1));
  }
  for (const Entity* c : m->Entities(0)) lfv::ensure("cells are never on the boundary", !all(*c));
}
LFV_UNIT(reject_codim) {
  const Spec& s = complexes()[2];
  MeshP m = someMesh(s);
  const long k = lfv::choose("call", 4);
  lfv::cover("inadmissible codimension");
  if (k == 0) {
    const U sub = (U)lfv::integer("codim_sub", 3, 1000000), rel = (U)lfv::integer("codim_super", 0, 1000000);
    lfv::rejects("codimensions beyond the mesh dimension are rejected", [&] { auto d = CountNumSuperEntities(m, sub, rel); });
  } else if (k == 1) {
    const U sub = (U)lfv::integer("codim_sub", 0, 2), rel = (U)lfv::integer("codim_super", 0, 1000000);
    lfv::assume(rel > sub);
    lfv::rejects("super-entities of negative codimension are rejected", [&] { auto d = CountNumSuperEntities(m, sub, rel); });
  } else if (k == 2) {
    lfv::rejects("boundary flags for cells are rejected", [&] { auto d = flagEntitiesOnBoundary(m, 0); });
  } else {
    const U cd = (U)lfv::integer("codim", 3, 1000000);
    lfv::rejects("boundary flags beyond the mesh dimension are rejected", [&] { auto d = flagEntitiesOnBoundary(m, cd); });
  }
}

// C10: degree-of-freedom numbering.
#include <lf/assemble/assemble.h>
#include <lf/fe/fe.h>
#include <lf/uscalfe/uscalfe.h>

#include "stub_mesh.h"
using namespace lfvm;
using lf::assemble::DofHandler;
using lf::assemble::DynamicFEDofHandler;
using lf::assemble::UniformFEDofHandler;

// cnt(e): number of dofs attached to e; rev: reversed order on negatively oriented edges
template <class CNT>
static void checkDofs(const DofHandler& dh, const std::shared_ptr<const lf::mesh::Mesh>& mp, CNT cnt, bool rev) {
  const lf::mesh::Mesh& m = *mp;
  lfv::ensure("the handler refers to its mesh", dh.Mesh() == mp);
  // the global numbering: nodes, edges, cells, each in index order
  std::vector<U> first[3];
  U N = 0;
  for (int cd = 2; cd >= 0; --cd)
    for (const Entity* e : m.Entities(cd)) { first[cd].push_back(N); N += cnt(*e); }
  lfv::ensure("total number of dofs", dh.NumDofs() == N);
  auto own = [&](const Entity& e, std::vector<U>& l, bool reversed) {
    const U f = first[e.Codim()][m.Index(e)], n = cnt(e);
    for (U i = 0; i < n; ++i) l.push_back(f + (reversed ? n - 1 - i : i));
  };
  for (U cd = 0; cd <= 2; ++cd)
    for (const Entity* e : m.Entities(cd)) {
      std::vector<U> l;
      if (cd == 1) for (const Entity* p : e->SubEntities(1)) own(*p, l, false);
      if (cd == 0) {
        for (const Entity* p : e->SubEntities(2)) own(*p, l, false);
        U j = 0;
        for (const Entity* s : e->SubEntities(1)) { own(*s, l, rev && e->RelativeOrientations()[j] == Orientation::negative); ++j; }
      }
      own(*e, l, false);
      auto g = dh.GlobalDofIndices(*e);
      lfv::ensure("number of dofs of an entity", g.size() == l.size() && dh.NumLocalDofs(*e) == l.size());
      for (U i = 0; i < g.size() && i < l.size(); ++i) lfv::ensure("dofs of the sub-entities in canonical order", g[i] == l[i]);
      auto in = dh.InteriorGlobalDofIndices(*e);
      lfv::ensure("number of interior dofs", in.size() == cnt(*e) && dh.NumInteriorDofs(*e) == cnt(*e));
      for (U i = 0; i < in.size(); ++i) {
        lfv::ensure("interior dofs are numbered contiguously in index order of the entities", in[i] == first[cd][m.Index(*e)] + i);
        lfv::ensure("the owner of a dof is the entity whose interior set contains it", &dh.Entity(in[i]) == e);
      }
    }
  lfv::cover("dofs");
  const U bad = (U)lfv::integer("dof", N, (1L << 32) - 1);
  lfv::rejects("unknown dof indices are rejected", [&] { (void)&dh.Entity(bad); });
}
static U per(const Entity& e, const U* c) {
  switch (e.RefEl()) {
    case RefEl::kPoint(): return c[0];
    case RefEl::kSegment(): return c[1];
    case RefEl::kTria(): return c[2];
    default: return c[3];
  }
}
static void uniform(std::shared_ptr<StubMesh> m, const U* c, bool rev, int omit) {
  UniformFEDofHandler::dof_map_t map;
  const RefEl types[4] = {RefEl::kPoint(), RefEl::kSegment(), RefEl::kTria(), RefEl::kQuad()};
  for (int i = 0; i < 4; ++i) if (!(omit && c[i] == 0)) map[types[i]] = c[i];
  UniformFEDofHandler dh(m, map, rev);
  checkDofs(dh, m, [&](const Entity& e) { return per(e, c); }, rev);
}
static void layout(U* c, U np, U ne, U nt, U nq) {
  c[0] = (U)lfv::choose("dofs per node", np);
  c[1] = (U)lfv::choose("dofs per edge", ne);
  c[2] = (U)lfv::choose("dofs per triangle", nt);
  c[3] = (U)lfv::choose("dofs per quadrilateral", nq);
}
LFV_UNIT(uniform_small__s3) {
  const int k = (int)lfv::choose("complex", 2);
  U c[4];
  layout(c, 4, 5, k == 0 ? 4 : 2, k == 1 ? 4 : 2);
  const bool rev = lfv::choose("orientation", 2) == 1;
  const int omit = (int)lfv::choose("omit", 2);
  uniform(anyMesh(complexes()[k]), c, rev, omit);
}
LFV_UNIT(uniform_pairs__s4) {
  const int k = 2 + (int)lfv::choose("complex", 5);
  U c[4];
  layout(c, 3, 4, 3, 3);
  const bool rev = lfv::choose("orientation", 2) == 1;
  uniform(someMesh(complexes()[k]), c, rev, 0);
}
LFV_UNIT(uniform_many__s3) {
  const int k = 7 + (int)lfv::choose("complex", 3);
  U c[4];
  layout(c, 3, 4, 2, 3);
  uniform(someMesh(complexes()[k]), c, true, 0);
}
// any number of dofs on every entity
static void dynamic(std::shared_ptr<StubMesh> m, std::vector<U> (&n)[3]) {
  auto cnt = [&](const Entity& e) -> lf::base::size_type { return n[e.Codim()][m->Index(e)]; };
  DynamicFEDofHandler dh(m, cnt);
  checkDofs(dh, m, cnt, true);
}
static void dynamicAny(const Spec& s, std::array<U, 3> max, bool allDirections) {
  auto m = allDirections ? anyMesh(s) : someMesh(s);
  std::vector<U> n[3];
  int k = 0;
  for (U cd = 0; cd <= 2; ++cd) for (U i = 0; i < m->NumEntities(cd); ++i) n[cd].push_back((U)lfv::choose("dofs", max[cd], k++));
  dynamic(m, n);
}
LFV_UNIT(dynamic_tria__s4) { dynamicAny(complexes()[0], {2, 4, 2}, true); }
LFV_UNIT(dynamic_quad__s5) { dynamicAny(complexes()[1], {2, 3, 2}, false); }
LFV_UNIT(dynamic_trias__s6) { dynamicAny(complexes()[2], {2, 3, 1}, false); }
LFV_UNIT(T_dynamic_hybrid__s6) { dynamicAny(complexes()[3], {2, 3, 1}, false); }
// entity dependent numbers on all complexes
LFV_UNIT(dynamic_many__s3) {
  const int k = (int)lfv::choose("complex", 10);
  const U a = (U)lfv::choose("factor", 4), b = (U)lfv::choose("offset", 4), q = 2 + (U)lfv::choose("modulus", 3);
  auto m = someMesh(complexes()[k]);
  std::vector<U> n[3];
  for (U cd = 0; cd <= 2; ++cd) for (U i = 0; i < m->NumEntities(cd); ++i) n[cd].push_back((a * i + b + cd) % q);
  dynamic(m, n);
}
// finite element spaces: layout per entity, local finite elements, conformity
template <class SPACE, class CNT>
static void checkSpace(const SPACE& fes, const std::shared_ptr<StubMesh>& m, CNT cnt) {
  checkDofs(fes.LocGlobMap(), m, cnt, true);
}
// the local functions of two cells with the same global coefficients have the same trace on a common edge
template <class SPACE>
static void conforming(const SPACE& fes, const StubMesh& m) {
  const DofHandler& dh = fes.LocGlobMap();
  std::vector<double> u;
  for (U i = 0; i < dh.NumDofs(); ++i) u.push_back(lfv::real("u", (int)i));
  const MatrixXd t = lfvg::points(1, 1, "t");
  auto eval = [&](const Entity& e, const MatrixXd& p) {
    auto* fe = fes.ShapeFunctionLayout(e);
    lfv::ensure("local finite element of an entity", fe != nullptr && fe->RefEl() == e.RefEl());
    lfv::ensure("as many local functions as dofs", fe->NumRefShapeFunctions() == dh.NumLocalDofs(e));
    lfv::ensure("as many own functions as interior dofs", fe->NumRefShapeFunctions(0, 0) == dh.NumInteriorDofs(e) && fes.NumRefShapeFunctions(e) == dh.NumInteriorDofs(e));
    const MatrixXd v = fe->EvalReferenceShapeFunctions(p);
    auto g = dh.GlobalDofIndices(e);
    double r = 0;
    for (U i = 0; i < g.size(); ++i) r += u[g[i]] * v(i, 0);
    return r;
  };
  for (const Entity* c : m.Entities(0)) {
    const MatrixXd V = c->RefEl().NodeCoords();
    const int n = (int)c->RefEl().NumNodes();
    for (int j = 0; j < n; ++j) {
      const double l = c->RelativeOrientations()[j] == Orientation::positive ? t(0, 0) : 1 - t(0, 0);
      MatrixXd p(2, 1);
      for (int q = 0; q < 2; ++q) p(q, 0) = V(q, j) + l * (V(q, (j + 1) % n) - V(q, j));
      lfv::eq("the trace of a finite element function on an edge is the function of the edge", eval(*c, p), eval(*c->SubEntities(1)[j], t), 1e-9);
      MatrixXd z(0, 1);
      lfv::eq("the value of a finite element function at a vertex is that of the vertex", eval(*c, V.col(j)), eval(*c->SubEntities(2)[j], z), 1e-9);
    }
  }
  lfv::cover("conforming");
}
template <class SPACE>
static void lagrange(int p) {
  const int k = (int)lfv::choose("complex", 5);
  auto m = k < 2 ? anyMesh(complexes()[k]) : someMesh(complexes()[k]);
  SPACE fes(m);
  lfv::ensure("the space refers to its mesh", fes.Mesh() == m);
  const U c[4] = {1, (U)(p - 1), (U)((p - 1) * (p - 2) / 2), (U)((p - 1) * (p - 1))};
  conforming(fes, *m);
  checkDofs(fes.LocGlobMap(), m, [&](const Entity& e) { return per(e, c); }, true);
}
LFV_UNIT(lagrange_1__s1) { lagrange<lf::uscalfe::FeSpaceLagrangeO1<double>>(1); }
LFV_UNIT(lagrange_2__s1) { lagrange<lf::uscalfe::FeSpaceLagrangeO2<double>>(2); }
LFV_UNIT(lagrange_3__s2) { lagrange<lf::uscalfe::FeSpaceLagrangeO3<double>>(3); }
static void hierarchic(int k, U maxEdge, U maxCell) {
  auto m = k < 2 ? anyMesh(complexes()[k]) : someMesh(complexes()[k]);
  std::vector<U> deg[2];
  int q = 0;
  for (U i = 0; i < m->NumEntities(1); ++i) deg[1].push_back(1 + (U)lfv::choose("degree", maxEdge, q++));
  for (U i = 0; i < m->NumEntities(0); ++i) deg[0].push_back(1 + (U)lfv::choose("degree", maxCell, q++));
  auto d = [&](const Entity& e) -> unsigned { return e.Codim() == 2 ? 1 : deg[e.Codim()][m->Index(e)]; };
  lf::fe::HierarchicScalarFESpace<double> fes(m, d);
  lfv::ensure("the space refers to its mesh", fes.Mesh() == m);
  auto cnt = [&](const Entity& e) -> U {
    const U p = d(e);
    switch (e.RefEl()) {
      case RefEl::kPoint(): return 1;
      case RefEl::kSegment(): return p - 1;
      case RefEl::kTria(): return p < 3 ? 0 : (p - 1) * (p - 2) / 2;
      default: return (p - 1) * (p - 1);
    }
  };
  conforming(fes, *m);
  checkDofs(fes.LocGlobMap(), m, cnt, true);
}
LFV_UNIT(hierarchic_tria__s3) { hierarchic(0, 3, 4); }
LFV_UNIT(hierarchic_quad__s4) { hierarchic(1, 2, 3); }
LFV_UNIT(T_hierarchic_quad3__s5) { hierarchic(1, 3, 3); }
LFV_UNIT(T_hierarchic_trias__s5) { hierarchic(2, 3, 2); }
LFV_UNIT(hierarchic_uniform__s1) {
  const int k = (int)lfv::choose("complex", 5);
  const U p = 1 + (U)lfv::choose("degree", 5);
  auto m = someMesh(complexes()[k]);
  lf::fe::HierarchicScalarFESpace<double> fes(m, p);
  conforming(fes, *m);
  const U c[4] = {1, p - 1, (p - 1) * (p - 2) / 2, (p - 1) * (p - 1)};
  checkDofs(fes.LocGlobMap(), m, [&](const Entity& e) { return per(e, c); }, true);
}

// C18: mesh hierarchies keep parent-child relations and conformity.
#include <lf/refinement/mesh_hierarchy.h>

#include "c04_common.h"
#include "mesh_common.h"

namespace {
long lengthMode = 0;  // 0: arbitrary edge lengths, otherwise the number of a table of lengths
}
#ifdef LFV_VERIFY
// Assumed contract: cells are non-degenerate (the constructors check it: C02, C03).
extern "C" bool lfv_contract_for__ZN2lf8geometry27assertNonDegenerateTriangleERKN5Eigen6MatrixIdLin1ELi3ELi0ELin1ELi3EEEd(const void*, double) { return true; }
extern "C" bool lfv_contract_for__ZN2lf8geometry23assertNonDegenerateQuadERKN5Eigen6MatrixIdLin1ELi4ELi0ELin1ELi4EEEd(const void*, double) { return true; }
// Contract of the metric factor of a segment: a positive number that depends on the segment only (its value: C02).
extern "C" Eigen::VectorXd lfv_contract_for__ZNK2lf8geometry9SegmentO118IntegrationElementERKN5Eigen6MatrixIdLin1ELin1ELi0ELin1ELin1EEE(const void* self, const Eigen::MatrixXd& x) {
  Eigen::VectorXd r(x.cols());
  const unsigned long a = (unsigned long)self;
  for (int i = 0; i < x.cols(); ++i) {
    if (lengthMode == 0) {
      const double k[1] = {(double)a};
      r[i] = lfv_fun("length", 1, k);
      lfv_assume(r[i] > 0);
    } else {
      r[i] = 1. + (double)(((a ^ (a >> 32)) * 2654435761ul * (unsigned long)lengthMode >> 16) % 997);
    }
  }
  return r;
}
#endif

namespace {
using namespace lfvm;
using lf::refinement::Hybrid2DRefinementPattern;
using lf::refinement::MeshHierarchy;
using lf::refinement::RefPat;
using IMat = Eigen::Matrix<int, Eigen::Dynamic, Eigen::Dynamic>;
using G = lf::geometry::Geometry;
const lf::base::glb_idx_t nil = lf::base::kIdxNil;

struct Base {
  U nn;
  double x[6], y[6];  // typical positions, for sampling
  std::vector<Cell> cells;
};
std::shared_ptr<lf::mesh::Mesh> baseMesh(const Base& b, int world = 2) {
  lf::mesh::hybrid2d::MeshFactory f(world);
  MatrixXd x(world, b.nn);
  for (U i = 0; i < b.nn; ++i) {
    Eigen::VectorXd p(world);
    for (int q = 0; q < world; ++q) { const double c = q == 0 ? b.x[i] : q == 1 ? b.y[i] : 0.; p[q] = x(q, i) = lfv::real("x", q, (int)i, c - 0.12, c + 0.12); }
    f.AddPoint(p);
  }
  for (const Cell& c : b.cells) {
    MatrixXd k(world, c.n.size());
    for (size_t j = 0; j < c.n.size(); ++j) for (int q = 0; q < world; ++q) k(q, j) = x(q, c.n[j]);
    std::unique_ptr<G> g;
    if (c.n.size() == 3) g = std::make_unique<lf::geometry::TriaO1>(k);
    else g = std::make_unique<lf::geometry::QuadO1>(k);
    f.AddEntity(refEl(c), std::span<const U>(c.n.data(), c.n.size()), std::move(g));
  }
  return f.Build();
}
std::shared_ptr<MeshHierarchy> hierarchy(const std::shared_ptr<lf::mesh::Mesh>& m, int world = 2) {
  return std::make_shared<MeshHierarchy>(m, std::make_unique<lf::mesh::hybrid2d::MeshFactory>(world));
}
Spec describe(const lf::mesh::Mesh& m) {
  Spec s;
  s.nn = m.NumEntities(2);
  for (const Entity* c : m.Entities(0)) {
    Cell d;
    for (const Entity* p : c->SubEntities(2)) d.n.push_back(m.Index(*p));
    s.cells.push_back(d);
  }
  for (const Entity* e : m.Entities(1)) s.edges.push_back({m.Index(*e->SubEntities(1)[0]), m.Index(*e->SubEntities(1)[1])});
  return s;
}
std::vector<U> cellsPerEdge(const lf::mesh::Mesh& m) {
  std::vector<U> n(m.NumEntities(1), 0);
  for (const Entity* c : m.Entities(0)) for (const Entity* e : c->SubEntities(1)) ++n[m.Index(*e)];
  return n;
}
MatrixXd lattice(const IMat& p, const Hybrid2DRefinementPattern& rp) {
  MatrixXd r(p.rows(), p.cols());
  for (int i = 0; i < p.rows(); ++i) for (int j = 0; j < p.cols(); ++j) r(i, j) = (double)p(i, j) / rp.LatticeConst();
  return r;
}
// a point of the reference element
MatrixXd anyPoint(RefEl r) {
  MatrixXd x(r.Dimension(), 1);
  for (U q = 0; q < r.Dimension(); ++q) x(q, 0) = lfv::real("xi", (int)q, -1, 0.1, 0.4);
  return x;
}
void samePositions(const char* n, const MatrixXd& a, const MatrixXd& b) {
  lfv::ensure(n, a.rows() == b.rows() && a.cols() == b.cols());
  for (int i = 0; i < b.rows(); ++i) for (int j = 0; j < b.cols(); ++j) lfv::eq(n, a(i, j), b(i, j));
}
// parent p has the child c of the fine mesh, with number k and the shape given by the pattern
struct Level {
  const MeshHierarchy& h;
  U l;  // fine level
  const lf::mesh::Mesh &C, &F;
  std::vector<U> listed[3];
  Level(const MeshHierarchy& hh, U level) : h(hh), l(level), C(*hh.getMesh(level - 1)), F(*hh.getMesh(level)) {
    for (U cd = 0; cd < 3; ++cd) listed[cd].assign(F.NumEntities(cd), 0);
  }
  void child(const Entity& p, U codim, U idx, U k, const IMat* poly, const Hybrid2DRefinementPattern& rp) {
    lfv::ensure("children are entities of the fine mesh", idx < F.NumEntities(codim));
    if (idx >= F.NumEntities(codim)) return;
    ++listed[codim][idx];
    const Entity& c = *F.EntityByIndex(codim, idx);
    const auto& pi = h.ParentInfos(l, codim)[idx];
    lfv::ensure("the child knows its parent", pi.parent_ptr == &p && h.ParentEntity(l, c) == &p);
    lfv::ensure("the child knows the index of its parent", pi.parent_index == C.Index(p));
    lfv::ensure("the child knows its number", pi.child_number == k);
    const G* rel = h.GeometryInParent(l, c);
    lfv::ensure("the position in the parent is known", rel != nullptr && rel == pi.rel_ref_geo_.get() && rel->RefEl() == c.RefEl() && rel->DimGlobal() == p.RefEl().Dimension());
    if (!rel) return;
    const MatrixXd nodes = c.RefEl().NodeCoords();
    MatrixXd corners(0, 1);
    if (poly) {
      corners = lattice(*poly, rp);
      lfv::ensure("the child has the shape given by the refinement pattern", corners.cols() == (int)c.RefEl().NumNodes());
      samePositions("the position in the parent is the one given by the refinement pattern", rel->Global(nodes), corners);
    }
    samePositions("the child is the image of its position in the parent", c.Geometry()->Global(nodes), p.Geometry()->Global(corners));
    // at every point, unless a triangle or oblique edge is cut out of a general quadrilateral
    if (p.RefEl() != RefEl::kQuad() || c.RefEl() == RefEl::kQuad()) {
      const MatrixXd x = anyPoint(c.RefEl());
      samePositions("points of the child are the images of their position in the parent", c.Geometry()->Global(x), p.Geometry()->Global(rel->Global(x)));
    }
  }
  void check(const std::vector<char>* marked, RefPat uniform) {
    lfv::ensure("sizes of the child tables", h.PointChildInfos(l - 1).size() == C.NumEntities(2) && h.EdgeChildInfos(l - 1).size() == C.NumEntities(1) && h.CellChildInfos(l - 1).size() == C.NumEntities(0));
    for (U cd = 0; cd < 3; ++cd) lfv::ensure("sizes of the parent tables", h.ParentInfos(l, cd).size() == F.NumEntities(cd));
    lfv::ensure("size of the table of refinement edges", h.RefinementEdges(l).size() == F.NumEntities(0));
    const Hybrid2DRefinementPattern pc(RefEl::kPoint(), lf::refinement::rp_copy);
    for (const Entity* p : C.Entities(2)) {
      const auto& ci = h.PointChildInfos(l - 1)[C.Index(*p)];
      lfv::ensure("points are copied", ci.ref_pat == lf::refinement::rp_copy);
      child(*p, 2, ci.child_point_idx, 0, nullptr, pc);
    }
    std::vector<char> split(C.NumEntities(1), 0);
    for (const Entity* e : C.Entities(1)) {
      const U i = C.Index(*e);
      const auto& ci = h.EdgeChildInfos(l - 1)[i];
      lfv::ensure("edges are copied or split", ci.ref_pat_ == lf::refinement::rp_copy || ci.ref_pat_ == lf::refinement::rp_split);
      split[i] = ci.ref_pat_ == lf::refinement::rp_split;
      if (marked) lfv::ensure("marked edges are split", !(*marked)[i] || split[i]);
      else lfv::ensure("uniform refinement splits every edge", split[i]);
      const Hybrid2DRefinementPattern rp(RefEl::kSegment(), ci.ref_pat_);
      const auto e0 = rp.ChildPolygons(0), e1 = rp.ChildPolygons(1);
      lfv::ensure("an edge has the children of its pattern", ci.child_edge_idx.size() == e0.size() && ci.child_point_idx.size() == e1.size() && e0.size() == (split[i] ? 2 : 1));
      for (U k = 0; k < e0.size() && k < ci.child_edge_idx.size(); ++k) child(*e, 1, ci.child_edge_idx[k], k, &e0[k], rp);
      for (U k = 0; k < e1.size() && k < ci.child_point_idx.size(); ++k) child(*e, 2, ci.child_point_idx[k], k, &e1[k], rp);
    }
    std::vector<char> needed(split.size(), 0);
    for (const Entity* c : C.Entities(0)) {
      const U i = C.Index(*c);
      const auto& ci = h.CellChildInfos(l - 1)[i];
      if (!marked) lfv::ensure("uniform refinement uses the given pattern", ci.ref_pat_ == uniform);
      const Hybrid2DRefinementPattern rp(c->RefEl(), ci.ref_pat_, ci.anchor_);
      const auto c0 = rp.ChildPolygons(0), c1 = rp.ChildPolygons(1), c2 = rp.ChildPolygons(2);
      lfv::ensure("a cell has the children of its pattern", ci.child_cell_idx.size() == c0.size() && ci.child_edge_idx.size() == c1.size() && ci.child_point_idx.size() == c2.size() && !c0.empty());
      for (U k = 0; k < c0.size() && k < ci.child_cell_idx.size(); ++k) child(*c, 0, ci.child_cell_idx[k], k, &c0[k], rp);
      for (U k = 0; k < c1.size() && k < ci.child_edge_idx.size(); ++k) child(*c, 1, ci.child_edge_idx[k], k, &c1[k], rp);
      for (U k = 0; k < c2.size() && k < ci.child_point_idx.size(); ++k) child(*c, 2, ci.child_point_idx[k], k, &c2[k], rp);
      // the pattern cuts exactly the split edges
      unsigned is = 0, cut = 0;
      auto se = c->SubEntities(1);
      for (U j = 0; j < se.size(); ++j) is |= (unsigned)split[C.Index(*se[j])] << j;
      for (const auto& pt : lfvr::patterns(c->RefEl()))
        if (pt.p == ci.ref_pat_ && (pt.anchor < 0 || pt.anchor == (int)ci.anchor_)) cut = pt.split;
      lfv::ensure("the pattern of a cell subdivides exactly its split edges", is == cut);
      if (c->RefEl() == RefEl::kTria()) {
        const U r = h.RefinementEdges(l - 1)[i];
        lfv::ensure("triangles have a refinement edge", r < 3);
        if (r < 3) {
          lfv::ensure("a triangle with a split edge has its refinement edge split", is == 0 || (is >> r & 1));
          needed[C.Index(*se[r])] |= (is & ~(1u << r)) != 0;
        }
      }
    }
    if (marked) for (U i = 0; i < split.size(); ++i) lfv::ensure("unmarked edges are split only as refinement edges of refined triangles", !split[i] || (*marked)[i] || needed[i]);
    for (U cd = 0; cd < 3; ++cd) for (U n : listed[cd]) lfv::ensure("every entity of the fine mesh is a child of exactly one parent", n == 1);
    // conformity: parts of an edge separate as many cells as the edge, new edges inside cells separate two
    const auto nc = cellsPerEdge(C), nf = cellsPerEdge(F);
    for (U i = 0; i < nf.size(); ++i) {
      const auto& pi = h.ParentInfos(l, 1)[i];
      if (!pi.parent_ptr) continue;
      if (pi.parent_ptr->Codim() == 1) lfv::ensure("the parts of an edge separate as many cells as the edge", nf[i] == nc[C.Index(*pi.parent_ptr)]);
      else lfv::ensure("new edges in the interior of a cell separate two cells", nf[i] == 2);
    }
    for (const Entity* c : F.Entities(0)) {
      const U r = h.RefinementEdges(l)[F.Index(*c)];
      lfv::ensure("triangles, and only triangles, have a refinement edge", c->RefEl() == RefEl::kTria() ? r < 3 : r == nil);
    }
    checkMesh(F, describe(F), F.DimWorld());
    checkVertices(F, [&](int q, int i) { return F.EntityByIndex(2, i)->Geometry()->Global(MatrixXd::Zero(0, 1))(q, 0); }, (int)F.DimWorld());
  }
};
void checkUniform(const MeshHierarchy& h, U l, RefPat p) { Level(h, l).check(nullptr, p); }
// mark, refine and check
void refineMarked(MeshHierarchy& h, const std::vector<char>& mark) {
  const U l = h.NumLevels();
  h.MarkEdges([&](const lf::mesh::Mesh& m, const Entity& e) { return mark[m.Index(e)] != 0; });
  h.RefineMarked();
  lfv::ensure("refinement adds one level", h.NumLevels() == l + 1);
  Level(h, l).check(&mark, lf::refinement::rp_nil);
}
std::vector<char> anyMarking(const char* name, U n) {
  std::vector<char> m(n);
  for (U i = 0; i < n; ++i) m[i] = lfv::choose(name, 2, (int)i) == 1;
  return m;
}
void checkBase(const MeshHierarchy& h, const std::shared_ptr<lf::mesh::Mesh>& m) {
  lfv::ensure("one level at first", h.NumLevels() == 1 && h.getMesh(0).get() == m.get() && h.getMeshes().size() == 1 && h.getMeshes()[0].get() == m.get());
  for (U cd = 0; cd < 3; ++cd) {
    lfv::ensure("entities of the coarsest mesh have no parents", h.ParentInfos(0, cd).size() == m->NumEntities(cd));
    for (const auto& p : h.ParentInfos(0, cd)) lfv::ensure("entities of the coarsest mesh have no parents", p.parent_ptr == nullptr && p.parent_index == nil && p.child_number == nil && p.rel_ref_geo_ == nullptr);
  }
  for (const Entity* c : m->Entities(0)) {
    const U r = h.RefinementEdges(0)[m->Index(*c)];
    if (c->RefEl() != RefEl::kTria()) { lfv::ensure("quadrilaterals have no refinement edge", r == nil); continue; }
    lfv::ensure("triangles have a refinement edge", r < 3);
    MatrixXd mid(1, 1);
    mid(0, 0) = 0.5;
    auto se = c->SubEntities(1);
    if (r < 3)
      for (U j = 0; j < 3; ++j) {
        const double a = se[r]->Geometry()->IntegrationElement(mid)[0], b = se[j]->Geometry()->IntegrationElement(mid)[0];
        lfv::ensure("the refinement edge is a longest edge", a >= b);
      }
  }
}
const Base kTria1 = {3, {0, 1, 0.1}, {0, 0.2, 1}, {{{0, 1, 2}}}};
const Base kQuad1 = {4, {0, 1, 1.2, 0.1}, {0, -0.1, 1, 0.8}, {{{0, 1, 2, 3}}}};
Base trias(long second) { return {4, {0, 1, 1.1, 0.1}, {0, -0.1, 1, 0.9}, {{{0, 1, 2}}, symmetric({{0, 2, 3}}, second)}}; }
Base mixed(long second) { return {5, {0, 1, 1.1, 0.1, 1.8}, {0, -0.1, 1, 0.9, 0.4}, {{{0, 1, 2, 3}}, symmetric({{1, 4, 2}}, second)}}; }
Base fan() { return {5, {0, 1, 1.1, 0.1, 0.5}, {0, -0.1, 1, 0.9, 0.6}, {{{0, 1, 4}}, {{2, 4, 1}}, {{4, 2, 3}}, {{0, 4, 3}}}}; }
Base quads() { return {6, {0, 1, 2.1, 0.1, 1.1, 2.2}, {0, -0.1, 0.1, 0.9, 1.1, 0.8}, {{{0, 1, 4, 3}}, {{4, 1, 2, 5}}}}; }
void oneStep(const Base& b, int world = 2) {
  auto m = baseMesh(b, world);
  auto h = hierarchy(m, world);
  checkBase(*h, m);
  const auto mark = anyMarking("marked", m->NumEntities(1));
  lfv::cover("refinement of marked edges");
  refineMarked(*h, mark);
}
const RefPat kUniform[2] = {lf::refinement::rp_regular, lf::refinement::rp_barycentric};
}  // namespace

LFV_UNIT(marked_tria__s2) { oneStep(kTria1); }
LFV_UNIT(marked_tria_3d__s2) { oneStep(kTria1, 3); }
LFV_UNIT(marked_quad__s3) { oneStep(kQuad1); }
LFV_UNIT(marked_trias__s4) { oneStep(trias(3 * lfv::choose("numbering", 2))); }
LFV_UNIT(marked_mixed__s4) { oneStep(mixed(4 * lfv::choose("numbering", 2))); }
LFV_UNIT(marked_fan__s5) {
  lengthMode = 1 + lfv::choose("lengths", 4);
  auto m = baseMesh(fan());
  auto h = hierarchy(m);
  std::vector<char> mark(m->NumEntities(1), 0);
  mark[lfv::choose("first", (long)mark.size())] = 1;
  mark[lfv::choose("second", (long)mark.size())] = 1;
  lfv::cover("refinement of marked edges");
  refineMarked(*h, mark);
}
LFV_UNIT(T_marked_trias__s6) { oneStep(trias(lfv::choose("numbering", 6))); }
LFV_UNIT(T_marked_mixed__s6) { oneStep(mixed(lfv::choose("numbering", 6))); }
LFV_UNIT(T_marked_quads__s6) { oneStep(quads()); }
LFV_UNIT(T_marked_fan__s6) { lengthMode = 1 + lfv::choose("lengths", 16); oneStep(fan()); }
// two refinements in a row
namespace {
void twoSteps(const Base& b, long modes, bool pairs) {
  lengthMode = 1 + lfv::choose("lengths", modes);
  auto m = baseMesh(b);
  auto h = hierarchy(m);
  refineMarked(*h, anyMarking("marked", m->NumEntities(1)));
  const U n = h->getMesh(1)->NumEntities(1);
  std::vector<char> mark(n, 0);
  mark[lfv::choose("second marking", n)] = 1;
  if (pairs) mark[lfv::choose("second marking 2", n)] = 1;
  lfv::cover("two refinements");
  refineMarked(*h, mark);
  // the first level is unchanged
  lfv::ensure("coarser meshes are kept", h->getMesh(0).get() == m.get() && h->getMeshes().size() == 3);
}
}  // namespace
LFV_UNIT(two_tria__s4) { twoSteps(kTria1, 2, false); }
LFV_UNIT(two_quad__s4) { twoSteps(kQuad1, 1, false); }
LFV_UNIT(T_two_tria__s5) { twoSteps(kTria1, 8, true); }
LFV_UNIT(T_two_quad__s5) { twoSteps(kQuad1, 4, true); }
LFV_UNIT(T_two_trias__s6) { twoSteps(trias(0), 4, false); }
// uniform refinement, also followed by another refinement of any kind
LFV_UNIT(uniform__s3) {
  lengthMode = 1 + lfv::choose("lengths", 2);
  const long mesh = lfv::choose("mesh", 3);
  auto m = baseMesh(mesh == 0 ? trias(0) : mesh == 1 ? mixed(4) : kQuad1);
  auto h = hierarchy(m);
  const RefPat p = kUniform[lfv::choose("pattern", 2)];
  h->RefineRegular(p);
  lfv::cover("uniform refinement");
  lfv::ensure("refinement adds one level", h->NumLevels() == 2);
  checkUniform(*h, 1, p);
  const long next = lfv::choose("next", 4);
  if (next < 2) {
    if (mesh == 1 || next == 1) return;
    h->RefineRegular(kUniform[next]);
    checkUniform(*h, 2, kUniform[next]);
  } else {
    // nothing marked: everything is copied; or one edge
    std::vector<char> mark(h->getMesh(1)->NumEntities(1), 0);
    if (next == 3) mark[mark.size() - 1] = 1;
    else mark.assign(mark.size(), 0);
    refineMarked(*h, mark);
    if (next == 2) lfv::ensure("without marked edges the mesh is copied", h->getMesh(2)->NumEntities(0) == h->getMesh(1)->NumEntities(0) && h->getMesh(2)->NumEntities(1) == h->getMesh(1)->NumEntities(1) && h->getMesh(2)->NumEntities(2) == h->getMesh(1)->NumEntities(2));
  }
}
// markings are forgotten after refinement
LFV_UNIT(unmark__s1) {
  lengthMode = 1;
  auto m = baseMesh(lfv::choose("mesh", 2) == 0 ? trias(0) : mixed(0));
  auto h = hierarchy(m);
  const bool twice = lfv::choose("marked twice", 2) == 1;
  std::vector<char> mark(m->NumEntities(1), 0);
  if (twice) h->MarkEdges([&](const lf::mesh::Mesh&, const Entity&) { return true; });  // replaced by the next marking
  mark[1] = 1;
  refineMarked(*h, mark);
  const U n[3] = {h->getMesh(1)->NumEntities(0), h->getMesh(1)->NumEntities(1), h->getMesh(1)->NumEntities(2)};
  h->RefineMarked();
  lfv::cover("refinement without marks");
  const std::vector<char> none(n[1], 0);
  Level(*h, 2).check(&none, lf::refinement::rp_nil);
  for (U cd = 0; cd < 3; ++cd) lfv::ensure("without marked edges the mesh is copied", h->getMesh(2)->NumEntities(cd) == n[cd]);
}
LFV_UNIT(generate__s2) {
  lengthMode = 1;
  const long mesh = lfv::choose("mesh", 2), pat = lfv::choose("pattern", 3);
  const U lev = (U)lfv::choose("levels", 3);
  auto m = baseMesh(mesh == 0 ? kTria1 : kQuad1);
  auto h = pat == 2 ? lf::refinement::GenerateMeshHierarchyByUniformRefinemnt(m, lev) : lf::refinement::GenerateMeshHierarchyByUniformRefinemnt(m, lev, kUniform[pat]);
  lfv::cover("uniform refinement");
  lfv::ensure("number of levels", h->NumLevels() == lev + 1 && h->getMesh(0).get() == m.get());
  for (U l = 1; l <= lev; ++l) checkUniform(*h, l, kUniform[pat % 2]);
}
LFV_UNIT(reject__s1) {
  lengthMode = 1;
  const long k = lfv::choose("case", 9);
  auto m = baseMesh(kTria1);
  auto h = hierarchy(m);
  h->RefineRegular();
  lfv::cover("rejected requests");
  const char* n = "requests out of range are rejected";
  const long l = lfv::integer("level", 2, 1l << 31);
  const Entity& c0 = *m->EntityByIndex(0, 0);
  if (k == 0) lfv::rejects(n, [&] { (void)h->getMesh((U)l); });
  if (k == 1) lfv::rejects(n, [&] { (void)h->ParentInfos((U)l, 0); });
  if (k == 2) lfv::rejects(n, [&] { (void)h->CellChildInfos((U)l); });
  if (k == 3) lfv::rejects(n, [&] { (void)h->EdgeChildInfos((U)l); });
  if (k == 4) lfv::rejects(n, [&] { (void)h->PointChildInfos((U)l); });
  if (k == 5) lfv::rejects(n, [&] { (void)h->ParentInfos(1, 3); });
  if (k == 6) lfv::rejects(n, [&] { (void)h->GeometryInParent(0, c0); });
  if (k == 7) lfv::rejects(n, [&] { (void)h->ParentEntity(0, c0); });
  if (k == 8) lfv::rejects(n, [&] { h->RefineRegular(lf::refinement::rp_bisect); });
}

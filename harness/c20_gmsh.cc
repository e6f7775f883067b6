// C20: the mesh read from a Gmsh description is the described one.  Parsing (Boost.Spirit) is not verified.
#include <lf/io/gmsh_reader.h>

#include "io_model.h"

using lf::io::GMshFileV2;
using lf::io::GMshFileV4;
using lf::io::GmshReader;

namespace {
GMshFileV2::ElementType type2(const Elem& e) {
  using T = GMshFileV2::ElementType;
  switch (e.v.size()) {
    case 1: return T::POINT;
    case 2: return e.order == 1 ? T::EDGE2 : T::EDGE3;
    case 3: return e.order == 1 ? T::TRIA3 : T::TRIA6;
    default: return e.order == 1 ? T::QUAD4 : e.centre ? T::QUAD9 : T::QUAD8;
  }
}
GMshFileV4::ElementType type4(const Elem& e) {
  using T = GMshFileV4::ElementType;
  switch (e.v.size()) {
    case 1: return T::POINT;
    case 2: return e.order == 1 ? T::EDGE2 : T::EDGE3;
    case 3: return e.order == 1 ? T::TRIA3 : T::TRIA6;
    default: return e.order == 1 ? T::QUAD4 : e.centre ? T::QUAD9 : T::QUAD8;
  }
}
// order of the nodes in the file and their numbers
struct Numbering { std::vector<U> fileOrder; std::vector<size_t> number; };
Numbering numbering(const Model& m, int style) {
  Numbering r;
  const U n = (U)m.x.size();
  for (U i = 0; i < n; ++i) r.fileOrder.push_back(style == 1 ? n - 1 - i : style == 2 ? (i + n / 2) % n : i);
  r.number.resize(n);
  for (U i = 0; i < n; ++i) r.number[i] = style == 0 ? i + 1 : style == 1 ? n - i : style == 2 ? 3 * ((i * 5 + 2) % 31) + 4 : i + 17;
  return r;
}
// the mesh must be the one of the model
void checkGmsh(const GmshReader& rd, const Model& m, const Numbering& nb, bool mainFromEdges) {
  auto mesh = rd.mesh();
  lfv::ensure("a mesh is built", mesh != nullptr);
  std::vector<char> isMain(m.x.size(), 0);
  for (const Elem& e : m.elems) if (e.dim == 2 || (e.dim == 1 && mainFromEdges)) for (U k : e.v) isMain[k] = 1;
  std::vector<U> idx(m.x.size(), 1000), node;
  for (U k : nb.fileOrder) if (isMain[k]) { idx[k] = (U)node.size(); node.push_back(k); }
  Spec s;
  s.nn = (U)node.size();
  std::vector<const Elem*> ce, ee;
  for (const Elem& e : m.elems) {
    if (e.dim == 2) { Cell c; for (U k : e.v) c.n.push_back(idx[k]); s.cells.push_back(c); ce.push_back(&e); }
    if (e.dim == 1) { s.edges.push_back({idx[e.v[0]], idx[e.v[1]]}); ee.push_back(&e); }
  }
  checkMesh(*mesh, s, (U)m.world);
  // positions: geometries interpolate the nodes of their elements
  for (U i = 0; i < s.nn; ++i) {
    const MatrixXd g = mesh->EntityByIndex(2, i)->Geometry()->Global(MatrixXd(0, 1));
    for (int q = 0; q < m.world; ++q) lfv::eq("vertices have the coordinates of their nodes", g(q, 0), m.x[node[i]][q]);
  }
  auto shape = [&](const Entity& e, const Elem& el) {
    MatrixXd r = e.RefEl().NodeCoords();
    const int n = (int)r.cols();
    if (el.order == 2) {
      const int k = n == 2 ? 1 : n;
      MatrixXd q(r.rows(), n + k);
      q.leftCols(n) = r;
      for (int i = 0; i < k; ++i) for (int d = 0; d < r.rows(); ++d) q(d, n + i) = 0.5 * (r(d, i) + r(d, (i + 1) % n));
      r = q;
    }
    const MatrixXd g = e.Geometry()->Global(r);
    for (int i = 0; i < r.cols(); ++i) for (int q = 0; q < m.world; ++q) lfv::eq("geometries interpolate the nodes of their elements", g(q, i), m.x[el.nodes[i]][q]);
  };
  for (U i = 0; i < ce.size(); ++i) shape(*mesh->EntityByIndex(0, i), *ce[i]);
  for (U i = 0; i < ee.size(); ++i) shape(*mesh->EntityByIndex(1, i), *ee[i]);
  // physical groups
  for (U c = 0; c <= 2; ++c)
    for (const Entity* e : mesh->Entities(c)) {
      const U i = mesh->Index(*e);
      std::vector<int> want;
      if (c == 0) want = ce[i]->phys;
      if (c == 1 && i < ee.size()) want = ee[i]->phys;
      if (c == 2) for (const Elem& el : m.elems) if (el.dim == 0 && idx[el.v[0]] == i) want.insert(want.end(), el.phys.begin(), el.phys.end());
      const auto got = rd.PhysicalEntityNr(*e);
      bool same = got.size() == want.size();
      for (size_t k = 0; same && k < got.size(); ++k) same = got[k] == (U)want[k];
      lfv::ensure("entities carry exactly the physical groups of their elements", same);
      for (int k : {10, 11, 20, 21, 22, 30, 31, 32}) lfv::ensure("IsPhysicalEntity", rd.IsPhysicalEntity(*e, (U)k) == (std::find(want.begin(), want.end(), k) != want.end()));
    }
}
GMshFileV2 file2(const Model& m, const Numbering& nb) {
  GMshFileV2 f;
  for (U k : nb.fileOrder) f.Nodes.emplace_back((U)nb.number[k], m.x[k]);
  U no = 1;
  for (const Elem& e : m.elems)
    for (int p : e.phys) {
      GMshFileV2::Element q;
      q.Number = no++;
      q.Type = type2(e);
      q.PhysicalEntityNr = p;
      q.ElementaryEntityNr = 1;
      for (U k : e.nodes) q.NodeNumbers.push_back((U)nb.number[k]);
      f.Elements.push_back(q);
    }
  return f;
}
void read2(const Model& m, const Numbering& nb) {
  GmshReader rd(std::make_unique<MeshFactory>(m.world), lf::io::GMshFileV2(file2(m, nb)));
  checkGmsh(rd, m, nb, true);
  lfv::cover("mesh read");
}
GMshFileV4 file4(const Model& m, const Numbering& nb, bool partitioned) {
  GMshFileV4 f;
  f.nodes.min_node_tag = *std::min_element(nb.number.begin(), nb.number.end());
  f.nodes.max_node_tag = *std::max_element(nb.number.begin(), nb.number.end());
  f.nodes.num_nodes = m.x.size();
  // two blocks of nodes
  f.nodes.node_blocks.resize(2);
  for (U i = 0; i < nb.fileOrder.size(); ++i) f.nodes.node_blocks[i < nb.fileOrder.size() / 3 ? 0 : 1].nodes.emplace_back(nb.number[nb.fileOrder[i]], m.x[nb.fileOrder[i]]);
  f.partitioned_entities.num_partitions = partitioned ? 2 : 0;
  // every run of elements of the same type and the same groups is a block of an entity of its own
  int tag = 3;
  const Elem* last = nullptr;
  size_t no = 1;
  for (const Elem& e : m.elems) {
    if (last == nullptr || type4(*last) != type4(e) || last->phys != e.phys) {
      GMshFileV4::ElementBlock b;
      b.dimension = e.dim;
      b.entity_tag = tag;
      b.element_type = type4(e);
      f.elements.element_blocks.push_back(b);
      auto add = [&](auto& points, auto& curves, auto& surfaces) {
        if (e.dim == 0) { points.emplace_back(); points.back().tag = tag; points.back().physical_tags = e.phys; }
        if (e.dim == 1) { curves.emplace_back(); curves.back().tag = tag; curves.back().physical_tags = e.phys; }
        if (e.dim == 2) { surfaces.emplace_back(); surfaces.back().tag = tag; surfaces.back().physical_tags = e.phys; }
      };
      if (partitioned) add(std::get<0>(f.partitioned_entities.partitioned_entities), std::get<1>(f.partitioned_entities.partitioned_entities), std::get<2>(f.partitioned_entities.partitioned_entities));
      else add(std::get<0>(f.entities), std::get<1>(f.entities), std::get<2>(f.entities));
      tag += 2;
      if (tag > 8) tag -= 5;
    }
    std::vector<size_t> n;
    for (U k : e.nodes) n.push_back(nb.number[k]);
    f.elements.element_blocks.back().elements.emplace_back(no++, n);
    last = &e;
  }
  return f;
}
void read4(const Model& m, const Numbering& nb, bool partitioned) {
  GmshReader rd(std::make_unique<MeshFactory>(m.world), lf::io::GMshFileV4(file4(m, nb, partitioned)));
  checkGmsh(rd, m, nb, false);
  lfv::cover("mesh read");
}
// every complex, element order, style of numbering, selection and place of the edges
void gmsh(int version, int world) {
  const int k = (int)lfv::choose("complex", (long)cellsOf().size()), o = (int)lfv::choose("element order", 3), st = (int)lfv::choose("numbering", 4);
  const int ed = (int)lfv::choose("edges", 4), pl = (int)lfv::choose("place", 3);
  const bool several = lfv::choose("several groups", 2) == 1;
  const Model m = model(world, k, o == 0 ? 1 : 2, o == 2, ed, pl, {}, st == 3, several);
  if (version == 2) read2(m, numbering(m, st));
  else read4(m, numbering(m, st), ed == 1);
}
// vertices in any order, in one or two groups; auxiliary and unused nodes are no vertices of the mesh
void gmshPoints(int version) {
  const int o = (int)lfv::choose("element order", 2), st = (int)lfv::choose("numbering", 4), pl = (int)lfv::choose("place", 3);
  const U a = (U)lfv::choose("first point", 5), b = (U)lfv::choose("second point", 5);
  if (a == b) { lfv::cover("mesh read"); return; }
  const int g = (int)lfv::choose("groups", 4);
  const std::vector<int> ga = g == 0 || g == 3 ? std::vector<int>{30} : std::vector<int>{30, 31}, gb = g == 2 ? std::vector<int>{32, 30} : std::vector<int>{32};
  std::vector<std::pair<U, std::vector<int>>> points = {{a, ga}, {b, gb}};
  if (g == 3) points.push_back({a, {31}});  // listed again later
  const Model m = model(2, 2, o + 1, false, 1, pl, points, true, false);
  if (version == 2) read2(m, numbering(m, st));
  else read4(m, numbering(m, st), g == 0);
}
// names of physical groups
struct Name { int dim, number; std::string name; };
template <class F>
long value(F&& f) {
  try { return f(); } catch (const lf::base::LfException&) { return -1; }
}
void names(int version, int n) {
  static const char* NM[3] = {"a", "b", "c"};
  std::vector<Name> v;
  for (int i = 0; i < n; ++i) {
    const int d = (int)lfv::choose("dimension", 3, i), no = 1 + (int)lfv::choose("number", 2, i), nm = (int)lfv::choose("name", 2, i);
    for (const Name& w : v) if (w.dim == d && (w.number == no || w.name == NM[nm])) { lfv::cover("names"); return; }
    v.push_back({d, no, NM[nm]});
  }
  const Model m = model(2, 0, 1, false, 0, 0, {}, false, false);
  const Numbering nb = numbering(m, 0);
  GMshFileV2 f2;
  GMshFileV4 f4;
  if (version == 2) {
    f2 = file2(m, nb);
    for (const Name& w : v) { GMshFileV2::PhysicalEntity p; p.Dimension = w.dim; p.Number = w.number; p.Name = w.name; f2.PhysicalEntities.push_back(p); }
  } else {
    f4 = file4(m, nb, false);
    for (const Name& w : v) { GMshFileV4::PhysicalName p; p.dimension = w.dim; p.physical_tag = w.number; p.name = w.name; f4.physical_names.push_back(p); }
  }
  std::unique_ptr<GmshReader> rd = version == 2 ? std::make_unique<GmshReader>(std::make_unique<MeshFactory>(2), f2) : std::make_unique<GmshReader>(std::make_unique<MeshFactory>(2), f4);
  for (int q = 0; q < 3; ++q)
    for (int cd = -1; cd <= 3; ++cd) {
      long number = -1, name = -1;
      int cn = 0, cq = 0;
      for (const Name& w : v) {
        if (w.name == NM[q] && (cd == -1 || 2 - w.dim == cd)) { number = w.number; ++cn; }
        if (w.number == q + 1 && (cd == -1 || 2 - w.dim == cd)) { name = w.name[0]; ++cq; }
      }
      if (cn > 1) number = -1;
      if (cq > 1) name = -1;
      lfv::ensure("PhysicalEntityName2Nr finds the group of the name, or none", value([&] { return (long)(cd == -1 ? rd->PhysicalEntityName2Nr(NM[q]) : rd->PhysicalEntityName2Nr(NM[q], (U)cd)); }) == number);
      lfv::ensure("PhysicalEntityNr2Name finds the name of the group, or none", value([&] { const std::string s = cd == -1 ? rd->PhysicalEntityNr2Name((U)(q + 1)) : rd->PhysicalEntityNr2Name((U)(q + 1), (U)cd); return s.size() == 1 ? (long)s[0] : -2L; }) == name);
    }
  for (U cd = 0; cd <= 2; ++cd) {
    const auto l = rd->PhysicalEntities(cd);
    size_t cnt = 0;
    for (const Name& w : v) {
      if (2 - w.dim != (int)cd) continue;
      ++cnt;
      int found = 0;
      for (const auto& p : l) found += p.first == (U)w.number && p.second == w.name;
      lfv::ensure("PhysicalEntities lists every group of the codimension once", found == 1);
    }
    lfv::ensure("PhysicalEntities lists nothing else", l.size() == cnt);
  }
  lfv::cover("names");
}

}  // namespace

LFV_UNIT(gmsh2__s4) { gmsh(2, 2); }
LFV_UNIT(gmsh4__s4) { gmsh(4, 2); }
LFV_UNIT(T_gmsh2_3d__s4) { gmsh(2, 3); }
LFV_UNIT(T_gmsh4_3d__s4) { gmsh(4, 3); }
LFV_UNIT(gmsh2_points__s4) { gmshPoints(2); }
LFV_UNIT(gmsh4_points__s4) { gmshPoints(4); }
LFV_UNIT(gmsh2_names__s4) { names(2, 3); }
LFV_UNIT(gmsh4_names__s4) { names(4, 2); }

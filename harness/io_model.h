// Meshes described element by element, with vertices and auxiliary nodes, shared by C20 and C21.
#pragma once
#include <lf/mesh/utils/utils.h>

#include "stub_mesh.h"

#ifdef LFV_VERIFY
// Assumed contract: cells are not degenerate.
extern "C" bool lfv_contract_for__ZN2lf8geometry27assertNonDegenerateTriangleERKN5Eigen6MatrixIdLin1ELi3ELi0ELin1ELi3EEEd(const void*, double) { return true; }
extern "C" bool lfv_contract_for__ZN2lf8geometry23assertNonDegenerateQuadERKN5Eigen6MatrixIdLin1ELi4ELi0ELin1ELi4EEEd(const void*, double) { return true; }
#endif

namespace {
using namespace lfvm;
using lf::mesh::hybrid2d::MeshFactory;

// A mesh to be described by a file: vertices and auxiliary nodes with arbitrary coordinates
struct Elem {
  int dim = 0, order = 1;
  bool centre = false;      // QUAD9
  std::vector<U> v;         // vertices (nodes 0.. of the model)
  std::vector<U> nodes;     // all nodes of the element in the order of Gmsh
  std::vector<int> phys;    // physical groups
};
struct Model {
  int world = 2;
  std::vector<Eigen::Vector3d> x;  // coordinates of the nodes
  std::vector<Elem> elems;         // in the order of the file
};
U newNode(Model& m) {
  const int k = (int)m.x.size();
  // sampling hints keep native instances non-degenerate
  const double a = lfv::real("x", k, -1, 2.0 * k, 2.0 * k + 0.1), b = lfv::real("y", k, -1, 1.0 * k * k, 1.0 * k * k + 0.1);
  m.x.push_back({a, b, m.world == 3 ? lfv::real("z", k) : 0.0});
  return (U)k;
}
// the auxiliary node of an edge
struct Mid { U a, b, n; };
U mid(Model& m, std::vector<Mid>& mids, U a, U b) {
  for (const Mid& q : mids) if ((q.a == a && q.b == b) || (q.a == b && q.b == a)) return q.n;
  const U n = newNode(m);
  mids.push_back({a, b, n});
  return n;
}
Elem element(Model& m, std::vector<Mid>& mids, const std::vector<U>& v, int order, bool centre) {
  Elem e;
  e.dim = v.size() == 1 ? 0 : v.size() == 2 ? 1 : 2;
  e.order = e.dim == 0 ? 1 : order;
  e.v = e.nodes = v;
  if (e.order == 2) {
    if (v.size() == 2) e.nodes.push_back(mid(m, mids, v[0], v[1]));
    else for (size_t i = 0; i < v.size(); ++i) e.nodes.push_back(mid(m, mids, v[i], v[(i + 1) % v.size()]));
    if (v.size() == 4 && centre) { e.centre = true; e.nodes.push_back(newNode(m)); }
  }
  return e;
}
const std::vector<std::vector<std::vector<U>>>& cellsOf() {
  static const std::vector<std::vector<std::vector<U>>> v = {
      {{0, 1, 2}}, {{0, 1, 2, 3}}, {{0, 1, 2}, {2, 3, 0}}, {{0, 1, 2, 3}, {4, 2, 1}}, {{3, 0, 1, 2}, {1, 4, 5, 2}}};
  return v;
}
// cells in the order of the file, with edges before, between or after them, edges in either direction, vertices
Model model(int world, int k, int order, bool centre, int edges, int place, const std::vector<std::pair<U, std::vector<int>>>& points, bool unused, bool several) {
  Model m;
  m.world = world;
  const auto& cs = cellsOf()[k];
  U nv = 0;
  for (auto& c : cs) for (U v : c) nv = std::max(nv, v + 1);
  for (U i = 0; i < nv; ++i) newNode(m);
  if (unused) newNode(m);
  std::vector<Mid> mids;
  std::vector<Elem> ce, ee;
  for (auto& c : cs) {
    ce.push_back(element(m, mids, c, order, centre));
    ce.back().phys = several && ce.size() == 1 ? std::vector<int>{10, 11} : std::vector<int>{ce.size() % 2 == 1 ? 10 : 11};
  }
  // edges: bit 1: first edge of every cell, bit 2: the last edge of the last cell, reversed
  if (edges & 1) { ee.push_back(element(m, mids, {cs[0][0], cs[0][1]}, order, false)); ee.back().phys = {20}; }
  if (edges & 2) {
    const auto& c = cs.back();
    ee.push_back(element(m, mids, {c[1], c[0]}, order, false));
    if (cs.size() == 1) ee.back() = element(m, mids, {c[2], c[1]}, order, false);
    ee.back().phys = several ? std::vector<int>{21, 22} : std::vector<int>{21};
  }
  std::vector<Elem> pe;
  for (auto& p : points) { Elem e; e.v = e.nodes = {p.first}; e.phys = p.second; pe.push_back(e); }
  auto put = [&](std::vector<Elem>& v) { m.elems.insert(m.elems.end(), v.begin(), v.end()); };
  if (place == 0) { put(pe); put(ee); put(ce); }
  if (place == 1) { put(ce); put(ee); put(pe); }
  if (place == 2) { put(ee); put(ce); put(pe); }
  return m;
}
}  // namespace

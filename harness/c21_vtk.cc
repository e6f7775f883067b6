// C21: VTK descriptions written for meshes and fields.
#include <lf/io/vtk_writer.h>

#include <boost/variant.hpp>

#include "io_model.h"

using lf::io::VtkFile;
using lf::io::VtkWriter;

// What is written is the description passed to WriteToFile: this contract records it.  The formatting of the
// description (Boost.Karma over iostreams) is not verified.
static VtkFile* recorded = nullptr;
static std::string* recordedName = nullptr;
static void record(const VtkFile& f, const std::string& name) {
  if (recorded != nullptr) *recorded = f;
  if (recordedName != nullptr) *recordedName = name;
}
#ifdef LFV_VERIFY
extern "C" void lfv_contract_for__ZN2lf2io11WriteToFileERKNS0_7VtkFileERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(const VtkFile& f, const std::string& name) { record(f, name); }
#else
extern "C" void __wrap__ZN2lf2io11WriteToFileERKNS0_7VtkFileERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(const VtkFile& f, const std::string& name) { record(f, name); }
#endif

namespace {
// reference coordinates of the nodes of a Lagrange cell in the order of VTK (multiples of 1/n)
void triaNodes(int n, int ox, int oy, std::vector<std::pair<int, int>>& r) {
  r.push_back({ox, oy});
  if (n == 0) return;
  r.push_back({ox + n, oy});
  r.push_back({ox, oy + n});
  for (int i = 1; i < n; ++i) r.push_back({ox + i, oy});
  for (int i = 1; i < n; ++i) r.push_back({ox + n - i, oy + i});
  for (int i = 1; i < n; ++i) r.push_back({ox, oy + n - i});
  if (n >= 3) triaNodes(n - 3, ox + 1, oy + 1, r);
}
std::vector<std::pair<int, int>> vtkNodes(RefEl e, int n) {
  std::vector<std::pair<int, int>> r;
  if (e == RefEl::kSegment()) { r = {{0, 0}, {n, 0}}; for (int i = 1; i < n; ++i) r.push_back({i, 0}); }
  if (e == RefEl::kTria()) triaNodes(n, 0, 0, r);
  if (e == RefEl::kQuad()) {
    r = {{0, 0}, {n, 0}, {n, n}, {0, n}};
    for (int i = 1; i < n; ++i) r.push_back({i, 0});
    for (int i = 1; i < n; ++i) r.push_back({n, i});
    for (int i = 1; i < n; ++i) r.push_back({i, n});
    for (int i = 1; i < n; ++i) r.push_back({0, i});
    for (int j = 1; j < n; ++j) for (int i = 1; i < n; ++i) r.push_back({i, j});
  }
  return r;
}
std::shared_ptr<lf::mesh::Mesh> curved(const Model& m) {
  MeshFactory f(m.world);
  U nv = 0;
  for (const Elem& e : m.elems) for (U v : e.v) nv = std::max(nv, v + 1);
  auto X = [&](const std::vector<U>& n, size_t k) {
    MatrixXd c(m.world, (int)k);
    for (size_t i = 0; i < k; ++i) for (int q = 0; q < m.world; ++q) c(q, (int)i) = m.x[n[i]][q];
    return c;
  };
  for (U i = 0; i < nv; ++i) f.AddPoint(VectorXd(X({i}, 1).col(0)));
  for (const Elem& e : m.elems) {
    std::unique_ptr<lf::geometry::Geometry> g;
    if (e.v.size() == 2 && e.order == 1) g = std::make_unique<lf::geometry::SegmentO1>(X(e.nodes, 2));
    if (e.v.size() == 2 && e.order == 2) g = std::make_unique<lf::geometry::SegmentO2>(X(e.nodes, 3));
    if (e.v.size() == 3 && e.order == 1) g = std::make_unique<lf::geometry::TriaO1>(X(e.nodes, 3));
    if (e.v.size() == 3 && e.order == 2) g = std::make_unique<lf::geometry::TriaO2>(X(e.nodes, 6));
    if (e.v.size() == 4 && e.order == 1) g = std::make_unique<lf::geometry::QuadO1>(X(e.nodes, 4));
    if (e.v.size() == 4 && e.order == 2) g = std::make_unique<lf::geometry::QuadO2>(X(e.nodes, 8));
    f.AddEntity(e.v.size() == 2 ? RefEl::kSegment() : e.v.size() == 3 ? RefEl::kTria() : RefEl::kQuad(), std::span<const U>(e.v.data(), e.v.size()), std::move(g));
  }
  return f.Build();
}
struct Recorder {
  VtkFile file;
  std::string name;
  Recorder() { recorded = &file; recordedName = &name; }
  ~Recorder() { recorded = nullptr; recordedName = nullptr; }
};
double at(const VtkFile& f, U i, int q) { return f.unstructured_grid.points[i][q]; }
void checkVtk(const VtkFile& f, const lf::mesh::Mesh& m, U codim, int order) {
  const auto& g = f.unstructured_grid;
  lfv::ensure("one cell per entity", g.cells.size() == m.NumEntities(codim) && g.cell_types.size() == g.cells.size());
  size_t np = m.NumEntities(2);
  for (U c = codim; c <= 1; ++c)
    for (const Entity* e : m.Entities(c)) np += c == 1 ? order - 1 : e->RefEl() == RefEl::kTria() ? (order - 1) * (order - 2) / 2 : (order - 1) * (order - 1);
  lfv::ensure("no other points", g.points.size() == np);
  for (const Entity* e : m.Entities(2)) {
    const MatrixXd x = e->Geometry()->Global(MatrixXd(0, 1));
    for (int q = 0; q < 3; ++q) lfv::eq("point i is vertex i", at(f, m.Index(*e), q), q < (int)m.DimWorld() ? x(q, 0) : 0.0, 1e-6);
  }
  std::vector<char> used(np, 0);
  for (const Entity* e : m.Entities(codim)) {
    const auto& c = g.cells[m.Index(*e)];
    const auto nodes = vtkNodes(e->RefEl(), order);
    lfv::ensure("number of nodes of a cell", c.size() == nodes.size());
    using T = VtkFile::CellType;
    const T want = e->RefEl() == RefEl::kSegment() ? (order == 1 ? T::VTK_LINE : T::VTK_LAGRANGE_CURVE) : e->RefEl() == RefEl::kTria() ? (order == 1 ? T::VTK_TRIANGLE : T::VTK_LAGRANGE_TRIANGLE) : (order == 1 ? T::VTK_QUAD : T::VTK_LAGRANGE_QUADRILATERAL);
    lfv::ensure("type of a cell", g.cell_types[m.Index(*e)] == want);
    MatrixXd r(e->RefEl().Dimension(), (int)nodes.size());
    for (size_t i = 0; i < nodes.size(); ++i) {
      r(0, (int)i) = (double)nodes[i].first / order;
      if (r.rows() == 2) r(1, (int)i) = (double)nodes[i].second / order;
    }
    const MatrixXd x = e->Geometry()->Global(r);
    auto sn = e->SubEntities(2 - codim);
    for (size_t i = 0; i < nodes.size(); ++i) {
      lfv::ensure("nodes are points", c[i] < np);
      if (i < sn.size()) lfv::ensure("vertices first", c[i] == m.Index(*sn[i]));
      used[c[i]] = 1;
      for (int q = 0; q < 3; ++q) lfv::eq("nodes of a cell lie at the places VTK expects", at(f, c[i], q), q < (int)m.DimWorld() ? x(q, (int)i) : 0.0, 1e-6);
    }
  }
  for (char u : used) lfv::ensure("every point belongs to a cell", u);
}
Model vtkModel(int world, int k, int order) {
  Model m = model(world, k, order, false, 0, 1, {}, false, false);
  // any direction of the edges
  std::vector<Mid> mids;
  std::vector<Elem> edges;
  for (const Elem& c : m.elems)
    for (size_t i = 0; i < c.v.size(); ++i) {
      const U a = c.v[i], b = c.v[(i + 1) % c.v.size()];
      bool found = false;
      for (const Elem& e : edges) found = found || (e.v[0] == a && e.v[1] == b) || (e.v[0] == b && e.v[1] == a);
      if (found) continue;
      Elem e;
      e.dim = 1;
      e.order = order;
      e.v = e.nodes = lfv::choose("direction", 2, (int)edges.size()) == 0 ? std::vector<U>{a, b} : std::vector<U>{b, a};
      if (order == 2) e.nodes.push_back(c.nodes[c.v.size() + i]);
      edges.push_back(e);
    }
  m.elems.insert(m.elems.begin(), edges.begin(), edges.end());
  return m;
}
void vtk(int k, int world, int geo, int lo, int hi, bool both) {
  const Model md = vtkModel(world, k, geo);
  auto m = curved(md);
  const int order = lo + (int)lfv::choose("order", hi - lo + 1);
  const U codim = both ? (U)lfv::choose("codim", 2) : 0;
  Recorder rec;
  { VtkWriter w(m, "name.vtk", codim, (unsigned char)order); }
  lfv::ensure("the file name is passed on", rec.name == "name.vtk");
  checkVtk(rec.file, *m, codim, order);
  lfv::cover("written");
}
// ---- data
template <class D>
const D* dataOf(const VtkFile::Attributes& a, const std::string& name) {
  for (const auto& v : a) if (const D* d = boost::get<D>(&v)) if (d->name == name) return d;
  return nullptr;
}
std::shared_ptr<StubMesh> pointMesh(int k) {
  Spec s;
  U nv = 0;
  for (auto& c : cellsOf()[k]) { s.cells.push_back({c}); for (U v : c) nv = std::max(nv, v + 1); }
  s.nn = nv;
  auto m = stubMesh(s, expectedEdges(s));
  for (U i = 0; i < nv; ++i) m->at(2, i).geo_ = std::make_unique<lf::geometry::Point>(Eigen::Vector2d((double)i, (double)(i * i)));
  return m;
}
template <class T> T scalar(const char* n, int i) {
  if constexpr (std::is_floating_point_v<T>) return (T)lfv::real(n, i);
  else return (T)lfv::integer(n, 0, 100, i);
}
template <class T> bool equal(const T& a, const T& b) { return a == b; }
// data on some entities, a default elsewhere
template <class T>
void scalarData(int k, U codim) {
  auto m = pointMesh(k);
  const bool onPoints = lfv::choose("points", 2) == 1;
  const U target = onPoints ? 2 : codim;
  const U cd = (U)lfv::choose("codimension of the data", 3);
  lf::mesh::utils::CodimMeshDataSet<T> ds(m, cd);
  for (const Entity* e : m->Entities(cd)) ds(*e) = scalar<T>("value", (int)m->Index(*e));
  const T undef = scalar<T>("undefined", -1);
  Recorder rec;
  {
    VtkWriter w(m, "f", codim, 1);
    if (onPoints) w.WritePointData("data", static_cast<const lf::mesh::utils::MeshDataSet<T>&>(ds), undef);
    else w.WriteCellData("data", static_cast<const lf::mesh::utils::MeshDataSet<T>&>(ds), undef);
  }
  const auto* d = dataOf<VtkFile::ScalarData<T>>(onPoints ? rec.file.point_data : rec.file.cell_data, "data");
  lfv::ensure("the data set is written", d != nullptr && rec.file.point_data.size() + rec.file.cell_data.size() == 1);
  lfv::ensure("one value per entity", d->data.size() == m->NumEntities(target));
  for (const Entity* e : m->Entities(target)) {
    const T got = d->data[m->Index(*e)], want = cd == target ? ds(*e) : undef;
    if constexpr (std::is_floating_point_v<T>) lfv::eq("value i belongs to entity i, undefined values are replaced", got, want);
    else lfv::ensure("value i belongs to entity i, undefined values are replaced", got == want);
  }
  lfv::cover("written");
}
template <class V>
void vectorData(int k, U codim, int rows) {
  using T = typename V::Scalar;
  auto m = pointMesh(k);
  const bool onPoints = lfv::choose("points", 2) == 1;
  const U target = onPoints ? 2 : codim;
  const U cd = (U)lfv::choose("codimension of the data", 3);
  auto any = [&](const char* n, int i) { V v(rows); for (int q = 0; q < rows; ++q) v[q] = (T)lfv::real(n, i, q); return v; };
  lf::mesh::utils::CodimMeshDataSet<V> ds(m, cd);
  for (const Entity* e : m->Entities(cd)) ds(*e) = any("value", (int)m->Index(*e));
  const V undef = any("undefined", -1);
  Recorder rec;
  {
    VtkWriter w(m, "f", codim, 1);
    if (onPoints) w.WritePointData("data", static_cast<const lf::mesh::utils::MeshDataSet<V>&>(ds), undef);
    else w.WriteCellData("data", static_cast<const lf::mesh::utils::MeshDataSet<V>&>(ds), undef);
  }
  const auto* d = dataOf<VtkFile::VectorData<T>>(onPoints ? rec.file.point_data : rec.file.cell_data, "data");
  lfv::ensure("the data set is written", d != nullptr && rec.file.point_data.size() + rec.file.cell_data.size() == 1);
  lfv::ensure("one vector per entity", d->data.size() == m->NumEntities(target));
  for (const Entity* e : m->Entities(target))
    for (int q = 0; q < 3; ++q) lfv::eq("vector i belongs to entity i, padded with zeros", d->data[m->Index(*e)][q], q >= rows ? 0.0 : cd == target ? ds(*e)[q] : undef[q]);
  lfv::cover("written");
}
// an arbitrary function of entity and point
struct AnyFunction {
  const lf::mesh::Mesh* m;
  std::vector<double> operator()(const Entity& e, const MatrixXd& x) const {
    std::vector<double> r;
    for (int j = 0; j < x.cols(); ++j) {
      const double a[4] = {(double)e.Codim(), (double)m->Index(e), x.rows() > 0 ? x(0, j) : 0.0, x.rows() > 1 ? x(1, j) : 0.0};
      r.push_back(lfv_fun("f", 4, a));
    }
    return r;
  }
};
struct AnyVectorFunction {
  const lf::mesh::Mesh* m;
  std::vector<Eigen::Vector2d> operator()(const Entity& e, const MatrixXd& x) const {
    std::vector<Eigen::Vector2d> r;
    for (int j = 0; j < x.cols(); ++j) {
      const double a[4] = {(double)e.Codim(), (double)m->Index(e), x.rows() > 0 ? x(0, j) : 0.0, x.rows() > 1 ? x(1, j) : 0.0};
      r.push_back({lfv_fun("f", 4, a), lfv_fun("g", 4, a)});
    }
    return r;
  }
};
// cell data: the value at the barycenter
void cellFunction(int k, U codim) {
  auto m = pointMesh(k);
  Recorder rec;
  {
    VtkWriter w(m, "f", codim, 1);
    w.WriteCellData("s", AnyFunction{m.get()});
    w.WriteCellData("v", AnyVectorFunction{m.get()});
  }
  const auto* s = dataOf<VtkFile::ScalarData<double>>(rec.file.cell_data, "s");
  const auto* v = dataOf<VtkFile::VectorData<double>>(rec.file.cell_data, "v");
  lfv::ensure("the data sets are written", s != nullptr && v != nullptr && s->data.size() == m->NumEntities(codim) && v->data.size() == m->NumEntities(codim));
  for (const Entity* e : m->Entities(codim)) {
    const MatrixXd b = e->RefEl().NodeCoords().rowwise().sum() / (double)e->RefEl().NumNodes();
    lfv::eq("cell data are values at the barycenter", s->data[m->Index(*e)], AnyFunction{m.get()}(*e, b)[0]);
    const Eigen::Vector2d x = AnyVectorFunction{m.get()}(*e, b)[0];
    for (int q = 0; q < 3; ++q) lfv::eq("cell data are values at the barycenter", v->data[m->Index(*e)][q], q < 2 ? x[q] : 0.0);
  }
  lfv::cover("written");
}
// point data of a function of position: the value at every point
void pointFunction(int k, int lo, int hi) {
  const Model md = vtkModel(2, k, 1);
  auto m = curved(md);
  const int order = lo + (int)lfv::choose("order", hi - lo + 1);
  const U codim = (U)lfv::choose("codim", 2);
  // every polynomial of degree two
  double c[6];
  for (int i = 0; i < 6; ++i) c[i] = lfv::real("coefficient", i);
  auto f = [&](double x, double y) { return c[0] + c[1] * x + c[2] * y + c[3] * x * x + c[4] * x * y + c[5] * y * y; };
  auto mf = lf::mesh::utils::MeshFunctionGlobal([&](const Eigen::Vector2d& x) { return f(x[0], x[1]); });
  auto mv = lf::mesh::utils::MeshFunctionGlobal([&](const Eigen::Vector2d& x) { return Eigen::Vector2d(f(x[0], x[1]), x[0] * c[0]); });
  Recorder rec;
  {
    VtkWriter w(m, "f", codim, (unsigned char)order);
    w.WritePointData("s", mf);
    w.WritePointData("v", mv);
  }
  const auto* s = dataOf<VtkFile::ScalarData<double>>(rec.file.point_data, "s");
  const auto* v = dataOf<VtkFile::VectorData<double>>(rec.file.point_data, "v");
  const size_t np = rec.file.unstructured_grid.points.size();
  lfv::ensure("one value per point", s != nullptr && v != nullptr && s->data.size() == np && v->data.size() == np);
  for (U i = 0; i < np; ++i) {
    const double x = at(rec.file, i, 0), y = at(rec.file, i, 1);
    lfv::eq("point data are the values at the points", s->data[i], f(x, y), 1e-4);
    lfv::eq("point data are the values at the points", v->data[i][0], f(x, y), 1e-4);
    lfv::eq("point data are the values at the points", v->data[i][1], x * c[0], 1e-4);
    lfv::ensure("padded with zero", v->data[i][2] == 0);
  }
  lfv::cover("written");
}
}  // namespace
LFV_UNIT(vtk_tria__s3) { vtk(0, 2, 2, 1, 4, true); }
LFV_UNIT(vtk_quad__s4) { vtk(1, 2, 2, 1, 4, true); }
LFV_UNIT(vtk_hybrid__s5) { vtk(3, 2, 1, 1, 4, false); }
LFV_UNIT(vtk_tria_3d__s3) { vtk(0, 3, 1, 1, 3, true); }
LFV_UNIT(vtk_high_tria__s3) { vtk(0, 2, 1, 5, 10, false); }
LFV_UNIT(vtk_high_quad__s3) { vtk(1, 2, 1, 5, 7, false); }
LFV_UNIT(T_vtk_high_quad__s3) { vtk(1, 2, 1, 8, 10, false); }
LFV_UNIT(data_double) { scalarData<double>(3, (U)lfv::choose("codim", 2)); }
LFV_UNIT(data_float) { scalarData<float>(3, 0); }
LFV_UNIT(data_int) { scalarData<int>(3, 0); }
LFV_UNIT(data_unsigned) { scalarData<unsigned>(3, 1); }
LFV_UNIT(data_char) { scalarData<char>(3, 0); }
LFV_UNIT(data_uchar) { scalarData<unsigned char>(3, 0); }
LFV_UNIT(data_vec2) { vectorData<Eigen::Vector2d>(3, 0, 2); }
LFV_UNIT(data_vec3) { vectorData<Eigen::Vector3d>(3, 1, 3); }
LFV_UNIT(data_vec2f) { vectorData<Eigen::Vector2f>(3, 0, 2); }
LFV_UNIT(data_vec3f) { vectorData<Eigen::Vector3f>(3, 0, 3); }
LFV_UNIT(data_vecx) { vectorData<VectorXd>(3, 0, 2 + (int)lfv::choose("rows", 2)); }
LFV_UNIT(data_vecxf) { vectorData<Eigen::VectorXf>(3, 0, 2 + (int)lfv::choose("rows", 2)); }
LFV_UNIT(cell_function) { cellFunction(3, (U)lfv::choose("codim", 2)); }
LFV_UNIT(point_function_tria__s3) { pointFunction(0, 1, 4); }
LFV_UNIT(point_function_quad__s3) { pointFunction(1, 1, 3); }
LFV_UNIT(point_function_hybrid__s4) { pointFunction(3, 1, 3); }
LFV_UNIT(field_data) {
  auto m = pointMesh(0);
  const std::vector<double> d = {lfv::real("d", 0), lfv::real("d", 1)};
  const std::vector<int> i = {(int)lfv::integer("i", -100, 100, 0), 3};
  Recorder rec;
  {
    VtkWriter w(m, "f", 0, 1);
    w.WriteGlobalData("d", d);
    w.WriteGlobalData("i", i);
    lfv::rejects("names are unique", [&] { w.WriteGlobalData("d", d); });
    lfv::rejects("names have no spaces", [&] { w.WriteGlobalData("e f", d); });
  }
  lfv::ensure("two data sets", rec.file.field_data.size() == 2);
  const auto* a = boost::get<VtkFile::FieldDataArray<double>>(&rec.file.field_data[0]);
  const auto* b = boost::get<VtkFile::FieldDataArray<int>>(&rec.file.field_data[1]);
  lfv::ensure("global data keep type, name and length", a != nullptr && b != nullptr && a->name == "d" && b->name == "i" && a->data.size() == 2 && b->data.size() == 2);
  lfv::eq("global data", a->data[0], d[0]);
  lfv::eq("global data", a->data[1], d[1]);
  lfv::ensure("global data", b->data[0] == i[0] && b->data[1] == 3);
  lfv::cover("written");
}
LFV_UNIT(name_clash) {
  auto m = pointMesh(0);
  lf::mesh::utils::AllCodimMeshDataSet<double> ds(m, 1.0);
  const bool points = lfv::choose("points", 2) == 1;
  Recorder rec;
  VtkWriter w(m, "f", 0, 1);
  const lf::mesh::utils::MeshDataSet<double>& r = ds;
  if (points) w.WritePointData("d", r); else w.WriteCellData("d", r);
  lfv::cover("written");
  lfv::rejects("names are unique", [&] { if (points) w.WritePointData("d", AnyFunction{m.get()}); else w.WriteCellData("d", AnyFunction{m.get()}); });
  lfv::rejects("names have no spaces", [&] { if (points) w.WritePointData("d e", r); else w.WriteCellData("d e", r); });
}


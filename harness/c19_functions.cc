// C19: finite element functions, projections, integrals and transfers agree with their definition.
#include <lf/fe/fe.h>
#include <lf/fe/prolongation.h>
#include <lf/refinement/mesh_function_transfer.h>
#include <lf/refinement/mesh_hierarchy.h>
#include <lf/uscalfe/uscalfe.h>

#include "any_dofs.h"
#include "any_fe.h"

#ifdef LFV_VERIFY
// Assumed contract: cells are non-degenerate (the constructors check it: C02, C03).
extern "C" bool lfv_contract_for__ZN2lf8geometry27assertNonDegenerateTriangleERKN5Eigen6MatrixIdLin1ELi3ELi0ELin1ELi3EEEd(const void*, double) { return true; }
extern "C" bool lfv_contract_for__ZN2lf8geometry23assertNonDegenerateQuadERKN5Eigen6MatrixIdLin1ELi4ELi0ELin1ELi4EEEd(const void*, double) { return true; }
#endif

namespace {
using namespace lfvm;
using lf::fe::MeshFunctionFE;
using lf::fe::MeshFunctionGradFE;
using lf::fe::ScalarFESpace;
using lf::refinement::MeshFunctionTransfer;
using lf::refinement::MeshHierarchy;
template <class S> using Vec = Matrix<S, Dynamic, 1>;

double sym(const char* n, int i, double*) { return lfv::real(n, i, 0); }
cd sym(const char* n, int i, cd*) { return {lfv::real(n, i, 0), lfv::real(n, i, 1)}; }
template <class S>
Vec<S> anyVector(const char* n, U len) {
  Vec<S> v(len);
  for (U i = 0; i < len; ++i) v[i] = sym(n, (int)i, (S*)nullptr);
  return v;
}
MatrixXd anyPoints(RefEl r, int n) {
  MatrixXd x(r.Dimension(), n);
  for (U q = 0; q < r.Dimension(); ++q) for (int j = 0; j < n; ++j) x(q, j) = lfv::real("x", (int)q, j, 0.05, 0.45);
  return x;
}
// any numbering of the dofs that covers every entity (also numberings that share dofs between entities)
std::shared_ptr<AnyDofs> anyDofs(std::shared_ptr<StubMesh> m, const std::function<U(const Entity&)>& num, U N) {
  auto d = std::make_shared<AnyDofs>(m, N);
  const long p = lfv::choose("numbering", 3);
  for (U c = 0; c <= 2; ++c) {
    d->d_[c].resize(m->NumEntities(c));
    for (U k = 0; c < 2 && k < m->NumEntities(c); ++k) {
      const U n = num(*m->EntityByIndex(c, k));
      for (U i = 0; i < n; ++i) d->d_[c][k].push_back((gdof_idx_t)(p == 0 ? (k * n + i) % N : p == 1 ? (N - 1 - i + 2 * k) % N : (5 * i + 3 * k + c) % N));
    }
  }
  return d;
}
template <class S>
struct Abstract {
  std::shared_ptr<StubMesh> m;
  std::shared_ptr<AnySpace<S>> sp;
  std::shared_ptr<AnyDofs> d;
  Abstract(std::shared_ptr<StubMesh> mesh, U N) : m(std::move(mesh)), sp(anySpace<S>(m, lfv::choose("layout", 2))) {
    d = anyDofs(m, [&](const Entity& e) { return (U)sp->ShapeFunctionLayout(e)->NumRefShapeFunctions(); }, N);
    sp->dh_ = d.get();
  }
};
// ---- values
template <class F, class C>
void feValue() {
  using R = decltype(F(0) * C(0));
  Abstract<F> a(geoMesh(twoCells(), 2, false), 11);
  const auto c = anyVector<C>("coefficient", 11);
  MeshFunctionFE<F, C> f(a.sp, c);
  const U codim = (U)lfv::choose("codim", 2);
  const Entity& e = *a.m->EntityByIndex(codim, (U)lfv::choose("entity", 2));
  const MatrixXd x = anyPoints(e.RefEl(), 1 + (int)lfv::choose("points", 3));
  lfv::cover("value");
  const auto v = f(e, x);
  const auto b = a.sp->ShapeFunctionLayout(e)->EvalReferenceShapeFunctions(x);
  const auto idx = a.d->GlobalDofIndices(e);
  lfv::ensure("one value for every point", v.size() == (size_t)x.cols());
  for (int j = 0; j < x.cols() && v.size() == (size_t)x.cols(); ++j) {
    R s(0);
    for (size_t i = 0; i < idx.size(); ++i) s = s + R(c[idx[i]]) * R(b(i, j));
    same("the value is the sum of coefficients times shape functions", v[j], s);
  }
  lfv::ensure("mesh and space of a finite element function", f.getMesh() == std::shared_ptr<const lf::mesh::Mesh>(a.m) && f.getFESpace() == std::shared_ptr<const ScalarFESpace<F>>(a.sp));
}
template <class F, class C>
void feGradient(int world) {
  using R = decltype(F(0) * C(0));
  Abstract<F> a(geoMesh(twoCells(), world, false), 11);
  const auto c = anyVector<C>("coefficient", 11);
  MeshFunctionGradFE<F, C> f(a.sp, c);
  const U codim = (U)lfv::choose("codim", 2);
  const Entity& e = *a.m->EntityByIndex(codim, (U)lfv::choose("entity", 2));
  const MatrixXd x = anyPoints(e.RefEl(), 1 + (int)lfv::choose("points", 3));
  lfv::cover("gradient");
  const auto v = f(e, x);
  const auto g = a.sp->ShapeFunctionLayout(e)->GradientsReferenceShapeFunctions(x);
  const MatrixXd jit = e.Geometry()->JacobianInverseGramian(x);
  const auto idx = a.d->GlobalDofIndices(e);
  const int d = (int)e.RefEl().Dimension();
  lfv::ensure("one gradient for every point", v.size() == (size_t)x.cols());
  for (int j = 0; j < x.cols() && v.size() == (size_t)x.cols(); ++j) {
    lfv::ensure("a component for every dimension of space", v[j].size() == world);
    for (int q = 0; q < world && v[j].size() == world; ++q) {
      R s(0);
      for (size_t i = 0; i < idx.size(); ++i) for (int p = 0; p < d; ++p) s = s + R(c[idx[i]]) * R(g(i, d * j + p)) * R(jit(q, d * j + p));
      same("the gradient is the sum of coefficients times transformed gradients", v[j][q], s);
    }
  }
  lfv::ensure("mesh and space of the gradient", f.getMesh() == std::shared_ptr<const lf::mesh::Mesh>(a.m) && f.getFESpace() == std::shared_ptr<const ScalarFESpace<F>>(a.sp));
}
// ---- real spaces
std::shared_ptr<const ScalarFESpace<double>> space(std::shared_ptr<const lf::mesh::Mesh> m, long k) {
  if (k == 0) return std::make_shared<lf::uscalfe::FeSpaceLagrangeO1<double>>(m);
  if (k == 1) return std::make_shared<lf::uscalfe::FeSpaceLagrangeO2<double>>(m);
  if (k == 2) return std::make_shared<lf::uscalfe::FeSpaceLagrangeO3<double>>(m);
  if (k < 6) return std::make_shared<lf::fe::HierarchicScalarFESpace<double>>(m, (unsigned)(k - 2));
  return std::make_shared<lf::fe::HierarchicScalarFESpace<double>>(m, [m, k](const Entity& e) -> unsigned { return e.RefEl() == RefEl::kPoint() ? 1u : 1u + (unsigned)(m->Index(e) + e.Codim() + k) % 3; });
}
// cells and edges with straight geometry, arbitrary vertices
void straight(StubMesh& m, const double* cx, const double* cy, int world) {
  MatrixXd p(world, m.NumEntities(2));
  for (int i = 0; i < p.cols(); ++i) for (int q = 0; q < world; ++q) { const double c = q == 0 ? cx[i] : q == 1 ? cy[i] : 0; p(q, i) = lfv::real("vertex", q, i, c - 0.1, c + 0.1); }
  for (U c = 0; c < 2; ++c)
    for (auto& e : m.e_[c]) {
      MatrixXd v(world, e->sub_[2 - c].size());
      for (int j = 0; j < v.cols(); ++j) for (int q = 0; q < world; ++q) v(q, j) = p(q, m.Index(*e->sub_[2 - c][j]));
      if (e->ref_ == RefEl::kSegment()) e->geo_ = std::make_unique<lf::geometry::SegmentO1>(v);
      if (e->ref_ == RefEl::kTria()) e->geo_ = std::make_unique<lf::geometry::TriaO1>(v);
      if (e->ref_ == RefEl::kQuad()) e->geo_ = std::make_unique<lf::geometry::QuadO1>(v);
    }
}
const double kx[5] = {0, 1, 1.1, 0.2, -0.8}, ky[5] = {0, -0.1, 1, 1.1, 0.3};
void derivative(long k, int world) {
  auto m = someMesh(twoCells());
  straight(*m, kx, ky, world);
  auto sp = space(m, k);
  const auto c = anyVector<double>("coefficient", sp->LocGlobMap().NumDofs());
  MeshFunctionFE<double, double> f(sp, c);
  MeshFunctionGradFE<double, double> g(sp, c);
  const U codim = (U)lfv::choose("codim", 2);
  const Entity& e = *m->EntityByIndex(codim, (U)lfv::choose("entity", 2));
  const MatrixXd x = anyPoints(e.RefEl(), 1);
  const MatrixXd jac = e.Geometry()->Jacobian(x);
  lfv::assume(e.Geometry()->IntegrationElement(x)[0] > 0);
  lfv::cover("derivative");
  const auto v = g(e, x);
  for (int p = 0; p < jac.cols(); ++p) {
    double s = 0;
    for (int q = 0; q < world; ++q) s += jac(q, p) * v[0][q];
    lfv::deriv("the gradient is the derivative of the function", s, [&](double h) { MatrixXd y = x; y(p, 0) = x(p, 0) + h; return f(e, y)[0]; });
  }
}
// functions are continuous: the values on edges and vertices are those of the cells
void continuity(long k) {
  auto m = someMesh(complexes()[lfv::choose("mesh", 2) == 0 ? 3 : 8]);
  auto sp = space(m, k);
  const auto c = anyVector<double>("coefficient", sp->LocGlobMap().NumDofs());
  MeshFunctionFE<double, double> f(sp, c);
  const double t = lfv::real("t", -1, -1, 0.1, 0.9);
  lfv::cover("traces");
  for (const Entity* cell : m->Entities(0)) {
    const MatrixXd nodes = cell->RefEl().NodeCoords();
    auto se = cell->SubEntities(1), sn = cell->SubEntities(2);
    const int n = (int)nodes.cols();
    for (int i = 0; i < n; ++i) {
      MatrixXd y(1, 1), x(2, 1);
      y(0, 0) = t;
      const bool along = cell->RelativeOrientations()[i] == Orientation::positive;
      for (int q = 0; q < 2; ++q) x(q, 0) = nodes(q, i) + (along ? t : 1 - t) * (nodes(q, (i + 1) % n) - nodes(q, i));
      lfv::eq("the value on an edge is that of the adjacent cells", f(*se[i], y)[0], f(*cell, x)[0]);
      lfv::eq("the value in a vertex is that of the adjacent cells", f(*sn[i], MatrixXd(0, 1))[0], f(*cell, nodes.col(i))[0]);
    }
  }
}
// ---- integrals
const Spec& threeCells() {
  static const Spec s = {6, {{{0, 1, 2}}, {{0, 2, 3, 4}}, {{3, 2, 5}}}, {}};
  return s;
}
QuadRule anyRule(RefEl r, int n) {
  MatrixXd x(r.Dimension(), n);
  VectorXd w(n);
  for (int j = 0; j < n; ++j) {
    for (U i = 0; i < r.Dimension(); ++i) x(i, j) = lfv::real("point", (int)(10 * r.Id() + i), j, 0.05, 0.45);
    w[j] = lfv::real("weight", (int)r.Id(), j, 0.1, 1.0);
  }
  return QuadRule(r, x, w, 1);
}
template <class S> int parts(const S&) { return 1; }
template <class S, int R, int C, int O> int parts(const Matrix<S, R, C, O>& m) { return (int)m.size(); }
double part(double v, int) { return v; }
cd part(const cd& v, int) { return v; }
template <class S, int R, int C, int O> S part(const Matrix<S, R, C, O>& m, int k) { return m(k / m.cols(), k % m.cols()); }
template <class T> struct Val {
  static T make(const char* id, const double* a) { return Entry<T>::make(id, a); }
};
template <class S, int R, int C, int O> struct Val<Matrix<S, R, C, O>> {
  static Matrix<S, R, C, O> make(const char* id, const double* a) {
    Matrix<S, R, C, O> m(R < 0 ? 2 : R, C < 0 ? 2 : C);
    for (int i = 0; i < m.rows(); ++i) for (int j = 0; j < m.cols(); ++j) m(i, j) = value<S>(id, a, 4, (int)m.cols() * i + j);
    return m;
  }
};
template <class T>
struct AnyFunction {
  const StubMesh* m;
  std::vector<T> operator()(const Entity& e, const MatrixXd& x) const {
    std::vector<T> v;
    for (int j = 0; j < x.cols(); ++j) {
      const double a[4] = {(double)e.Codim(), (double)m->Index(e), x(0, j), x.rows() < 2 ? 0. : x(1, j)};
      v.push_back(Val<T>::make("u", a));
    }
    return v;
  }
};
template <class T, class S>
void integral() {
  auto m = geoMesh(threeCells(), 2, false);
  const AnyFunction<T> u{m.get()};
  const int codim = (int)lfv::choose("codim", 2);
  const U n = m->NumEntities((U)codim);
  const long sel = lfv::choose("selected", codim == 0 ? 9 : 5), how = lfv::choose("overload", 2);
  auto in = [&](const Entity& e) {
    const U i = m->Index(e);
    return codim == 0 ? sel == 8 || (sel >> i & 1) != 0 : sel == 4 || (sel == 1 && i > 0) || (sel == 2 && i % 2 == 1) || (sel == 3 && i == n - 1);
  };
  const int degree = 2;
  auto rule = [&](const Entity& e) { return how == 1 ? lf::quad::make_QuadRule(e.RefEl(), degree) : anyRule(e.RefEl(), 2); };
  std::vector<S> want(parts(Val<T>::make("u", std::array<double, 4>{}.data())), S(0));
  bool any = false;
  for (const Entity* e : m->Entities((U)codim)) {
    if (!in(*e)) continue;
    any = true;
    const QuadRule q = rule(*e);
    const auto v = u(*e, q.Points());
    const VectorXd det = e->Geometry()->IntegrationElement(q.Points());
    for (size_t k = 0; k < want.size(); ++k) for (int j = 0; j < (int)q.NumPoints(); ++j) want[k] = want[k] + part(v[j], (int)k) * (q.Weights()[j] * det[j]);
  }
  lfv::cover("integral");
  const bool all = sel == (codim == 0 ? 8 : 4);
  T r = all && codim == 0 ? (how == 1 ? lf::fe::IntegrateMeshFunction(*m, u, degree) : lf::fe::IntegrateMeshFunction(*m, u, rule))
                          : (how == 1 ? lf::fe::IntegrateMeshFunction(*m, u, degree, in, codim) : lf::fe::IntegrateMeshFunction(*m, u, rule, in, codim));
  if (!any && parts(r) == 0) return;  // matrices of dynamic size: an empty sum
  lfv::ensure("size of the integral", (size_t)parts(r) == want.size());
  for (size_t k = 0; k < want.size() && (size_t)parts(r) == want.size(); ++k) same("the integral is the sum over exactly the selected entities", part(r, (int)k), want[k]);
}
// ---- nodal projection
template <class S>
struct AnyValues {
  const StubMesh* m;
  std::vector<S> operator()(const Entity& e, const MatrixXd& x) const {
    std::vector<S> v;
    for (int j = 0; j < x.cols(); ++j) {
      const double a[4] = {(double)e.Codim(), (double)m->Index(e), x(0, j), x.rows() < 2 ? 0. : x(1, j)};
      v.push_back(value<S>("u", a, 4, 0));
    }
    return v;
  }
};
// v is one of the values
template <class S>
void oneOf(const char* n, const S& v, const std::vector<S>& c) {
  S p = v - c[0];
  for (size_t i = 1; i < c.size(); ++i) p = p * (v - c[i]);
  same(n, p, S(0));
}
template <class S>
void projection() {
  Abstract<S> a(geoMesh(twoCells(), 2, false), 11);
  const AnyValues<S> u{a.m.get()};
  const long sel = lfv::choose("selected", 5);
  auto in = [&](const Entity& e) { return sel == 4 || (sel >> a.m->Index(e) & 1) != 0; };
  const Vec<S> p = sel == 4 ? lf::fe::NodalProjection(*a.sp, u) : lf::fe::NodalProjection(*a.sp, u, in);
  lfv::cover("projection");
  lfv::ensure("one coefficient for every dof", p.size() == 11);
  std::vector<std::vector<S>> want(11);
  for (const Entity* e : a.m->Entities(0)) {
    if (!in(*e)) continue;
    const auto* fe = a.sp->ShapeFunctionLayout(*e);
    const auto v = u(*e, fe->EvaluationNodes());
    Matrix<S, 1, Dynamic> row(v.size());
    for (size_t j = 0; j < v.size(); ++j) row[j] = v[j];
    const auto c = fe->NodalValuesToDofs(row);
    const auto idx = a.d->GlobalDofIndices(*e);
    for (size_t i = 0; i < idx.size(); ++i) want[idx[i]].push_back(c[i]);
  }
  for (U i = 0; i < 11 && p.size() == 11; ++i) {
    if (want[i].empty()) same("dofs of cells that are not selected are zero", p[i], S(0));
    else oneOf<S>("the coefficients are the dofs of the function on the selected cells", p[i], want[i]);
  }
}
template <class S>
void essential() {
  Abstract<S> a(geoMesh(twoCells(), 2, false), 11);
  const AnyValues<S> u{a.m.get()};
  const long sel = lfv::choose("selected", 8);
  auto in = [&](const Entity& e) { const U i = a.m->Index(e); return sel == 7 || (sel == 6 && i % 2 == 0) || (i < 6 && sel == (long)i); };
  const auto r = lf::fe::InitEssentialConditionFromFunction(*a.sp, in, u);
  lfv::cover("essential conditions");
  lfv::ensure("one entry for every dof", r.size() == 11);
  std::vector<std::vector<S>> want(11);
  for (const Entity* e : a.m->Entities(1)) {
    if (!in(*e)) continue;
    const auto* fe = a.sp->ShapeFunctionLayout(*e);
    const auto v = u(*e, fe->EvaluationNodes());
    Matrix<S, 1, Dynamic> row(v.size());
    for (size_t j = 0; j < v.size(); ++j) row[j] = v[j];
    const auto c = fe->NodalValuesToDofs(row);
    const auto idx = a.d->GlobalDofIndices(*e);
    for (size_t i = 0; i < idx.size(); ++i) want[idx[i]].push_back(c[i]);
  }
  for (U i = 0; i < 11 && r.size() == 11; ++i) {
    lfv::ensure("exactly the dofs of selected edges are fixed", r[i].first == !want[i].empty());
    if (r[i].first && !want[i].empty()) oneOf<S>("fixed values are the dofs of the function on the selected edges", r[i].second, want[i]);
  }
}
// every function of a real space is reproduced
void reproduction(long k) {
  auto m = someMesh(complexes()[lfv::choose("mesh", 2) == 0 ? 3 : 8]);
  auto sp = space(m, k);
  const U N = (U)sp->LocGlobMap().NumDofs();
  const auto c = anyVector<double>("coefficient", N);
  MeshFunctionFE<double, double> f(sp, c);
  const auto p = lf::fe::NodalProjection(*sp, f);
  lfv::cover("reproduction");
  lfv::ensure("one coefficient for every dof", p.size() == N);
  for (U i = 0; i < N; ++i) lfv::eq("nodal projection reproduces the functions of the space", p[i], c[i]);
  // essential conditions from a function of the space: its coefficients
  const U s = (U)lfv::choose("selected edge", m->NumEntities(1));
  const auto r = lf::fe::InitEssentialConditionFromFunction(*sp, [&](const Entity& e) { return m->Index(e) == s; }, f);
  std::vector<char> on(N, 0);
  for (auto i : sp->LocGlobMap().GlobalDofIndices(*m->EntityByIndex(1, s))) on[i] = 1;
  for (U i = 0; i < N; ++i) {
    lfv::ensure("exactly the dofs of selected edges are fixed", r[i].first == (on[i] != 0));
    if (on[i]) lfv::eq("fixed values reproduce the functions of the space", r[i].second, c[i]);
  }
}
// ---- transfer and prolongation
std::shared_ptr<lf::mesh::Mesh> realMesh(const std::vector<Cell>& cells, const double* x, const double* y, U n) {
  lf::mesh::hybrid2d::MeshFactory f(2);
  for (U i = 0; i < n; ++i) f.AddPoint(Eigen::Vector2d(x[i], y[i]));
  for (const Cell& c : cells) {
    MatrixXd k(2, c.n.size());
    for (size_t j = 0; j < c.n.size(); ++j) { k(0, j) = x[c.n[j]]; k(1, j) = y[c.n[j]]; }
    std::unique_ptr<lf::geometry::Geometry> g;
    if (c.n.size() == 3) g = std::make_unique<lf::geometry::TriaO1>(k);
    else g = std::make_unique<lf::geometry::QuadO1>(k);
    f.AddEntity(refEl(c), std::span<const U>(c.n.data(), c.n.size()), std::move(g));
  }
  return f.Build();
}
std::shared_ptr<MeshHierarchy> hierarchy(std::shared_ptr<lf::mesh::Mesh> m) { return std::make_shared<MeshHierarchy>(m, std::make_unique<lf::mesh::hybrid2d::MeshFactory>(2)); }
// the function on the fine mesh is the one on the coarse mesh, from level lc to lf
template <class F>
void sameFunction(const char* n, const MeshHierarchy& h, U lc, U lf, const MeshFunctionFE<double, double>& coarse, const F& fine, bool all) {
  for (U cd = 0; cd < (all ? 3u : 1u); ++cd)
    for (const Entity* e : h.getMesh(lf)->Entities(cd)) {
      const MatrixXd x = anyPoints(e->RefEl(), 2);
      MatrixXd y = x;
      const Entity* p = e;
      for (U l = lf; l > lc; --l) {
        y = h.GeometryInParent(l, *p)->Global(y);
        p = h.ParentEntity(l, *p);
      }
      const auto a = fine(*e, x), b = coarse(*p, y);
      lfv::ensure("one value for every point", a.size() == 2 && b.size() == 2);
      for (size_t j = 0; j < 2 && a.size() == 2; ++j) lfv::eq(n, a[j], b[j]);
    }
}
void transfer(std::shared_ptr<MeshHierarchy> h, U lc, U lf, long k) {
  auto sc = space(h->getMesh(lc), k);
  const auto c = anyVector<double>("coefficient", (U)sc->LocGlobMap().NumDofs());
  MeshFunctionFE<double, double> f(sc, c);
  MeshFunctionTransfer t(*h, f, lc, lf);
  lfv::cover("transfer");
  sameFunction("the transferred function is the function", *h, lc, lf, f, t, true);
  lfv::ensure("the transferred function is defined on the fine mesh", t.getMesh() == h->getMesh(lf));
}
template <class SPACE>
void prolong(std::shared_ptr<MeshHierarchy> h, U lc, std::shared_ptr<SPACE> sc, std::shared_ptr<SPACE> sf) {
  const VectorXd c = anyVector<double>("coefficient", (U)sc->LocGlobMap().NumDofs());
  const VectorXd d = lf::fe::prolongate(*h, sc, sf, c, lc);
  lfv::ensure("one coefficient for every dof of the fine space", d.size() == sf->LocGlobMap().NumDofs());
  MeshFunctionFE<double, double> f(sc, c), g(sf, d);
  lfv::cover("prolongation");
  sameFunction("the prolongated function is the function", *h, lc, lc + 1, f, g, true);
}
void prolongAny(std::shared_ptr<MeshHierarchy> h, U lc, long k) {
  using namespace lf::uscalfe;
  auto C = h->getMesh(lc), F = h->getMesh(lc + 1);
  if (k == 0) prolong(h, lc, std::make_shared<FeSpaceLagrangeO1<double>>(C), std::make_shared<FeSpaceLagrangeO1<double>>(F));
  if (k == 1) prolong(h, lc, std::make_shared<FeSpaceLagrangeO2<double>>(C), std::make_shared<FeSpaceLagrangeO2<double>>(F));
  if (k == 2) prolong(h, lc, std::make_shared<FeSpaceLagrangeO3<double>>(C), std::make_shared<FeSpaceLagrangeO3<double>>(F));
  using H = lf::fe::HierarchicScalarFESpace<double>;
  if (k > 2) prolong(h, lc, std::make_shared<H>(C, (unsigned)(k - 2)), std::make_shared<H>(F, (unsigned)(k - 2)));
}
// triangles with any longest edge, any marking
std::shared_ptr<MeshHierarchy> markedTria() {
  const long s = lfv::choose("shape", 3), mark = lfv::choose("marked", 8);
  const double x[3] = {0, 1, 0.2}, y[3] = {0, 0.1, 0.7};
  double px[3], py[3];
  for (int i = 0; i < 3; ++i) { px[i] = x[(i + s) % 3]; py[i] = y[(i + s) % 3]; }
  auto h = hierarchy(realMesh({{{0, 1, 2}}}, px, py, 3));
  h->MarkEdges([&](const lf::mesh::Mesh& m, const Entity& e) { return (mark >> m.Index(e) & 1) != 0; });
  h->RefineMarked();
  return h;
}
std::shared_ptr<MeshHierarchy> regular(long mesh) {
  const double x[5] = {0, 1, 1.1, 0.2, 1.8}, y[5] = {0, -0.1, 1, 0.9, 0.5};
  auto h = hierarchy(mesh == 0 ? realMesh({{{0, 1, 2, 3}}}, x, y, 4) : mesh == 1 ? realMesh({{{0, 1, 2, 3}}, {{1, 4, 2}}}, x, y, 5) : realMesh({{{0, 1, 2}}, {{3, 0, 2}}}, x, y, 4));
  h->RefineRegular();
  return h;
}
}  // namespace

LFV_UNIT(value_real__s1) { feValue<double, double>(); }
LFV_UNIT(value_complex__s1) { feValue<cd, cd>(); }
LFV_UNIT(value_complex_coef__s1) { feValue<double, cd>(); }
LFV_UNIT(value_complex_space__s1) { feValue<cd, double>(); }
LFV_UNIT(gradient_real__s1) { feGradient<double, double>(2 + (int)lfv::choose("extra dimension", 2)); }
LFV_UNIT(gradient_complex__s1) { feGradient<cd, cd>(2); }
LFV_UNIT(gradient_complex_coef__s1) { feGradient<double, cd>(2); }
LFV_UNIT(derivative_o1__s1) { derivative(0, 2 + (int)lfv::choose("extra dimension", 2)); }
LFV_UNIT(derivative_o2__s1) { derivative(1, 2 + (int)lfv::choose("extra dimension", 2)); }
LFV_UNIT(derivative_o3__s1) { derivative(2, 2 + (int)lfv::choose("extra dimension", 2)); }
LFV_UNIT(derivative_hierarchic__s2) { derivative(4 + 3 * lfv::choose("degrees", 3), 2 + (int)lfv::choose("extra dimension", 2)); }
LFV_UNIT(continuity_lagrange__s1) { continuity(lfv::choose("degree", 3)); }
LFV_UNIT(continuity_hierarchic__s1) { continuity(3 + lfv::choose("degrees", 6)); }
LFV_UNIT(integral_real__s1) { integral<double, double>(); }
LFV_UNIT(integral_complex__s1) { integral<cd, cd>(); }
LFV_UNIT(integral_vector__s1) { integral<Eigen::Vector2d, double>(); }
LFV_UNIT(integral_rowmajor__s1) { integral<Matrix<double, 2, 3, Eigen::RowMajor>, double>(); }
LFV_UNIT(integral_complex_matrix__s1) { integral<Matrix<cd, 2, 2>, cd>(); }
LFV_UNIT(integral_dynamic__s1) { integral<VectorXd, double>(); }
LFV_UNIT(integral_dynamic_matrix__s1) { integral<MatrixXd, double>(); }
LFV_UNIT(projection_real__s1) { projection<double>(); }
LFV_UNIT(projection_complex__s1) { projection<cd>(); }
LFV_UNIT(essential_real__s1) { essential<double>(); }
LFV_UNIT(essential_complex__s1) { essential<cd>(); }
LFV_UNIT(reproduction_lagrange__s1) { reproduction(lfv::choose("degree", 3)); }
LFV_UNIT(reproduction_hierarchic__s1) { reproduction(3 + lfv::choose("degrees", 6)); }
LFV_UNIT(transfer_tria__s2) { transfer(markedTria(), 0, 1, (const long[]){0, 2, 5}[lfv::choose("degree", 3)]); }
LFV_UNIT(transfer_quad__s2) { transfer(regular(lfv::choose("mesh", 3)), 0, 1, (const long[]){0, 2, 6}[lfv::choose("degree", 3)]); }
LFV_UNIT(transfer_levels__s2) {
  const long k = lfv::choose("degree", 2) == 0 ? 0 : 4, lev = lfv::choose("levels", 3);
  auto h = regular(1 + lfv::choose("mesh", 2));
  h->MarkEdges([&](const lf::mesh::Mesh& m, const Entity& e) { return m.Index(e) == 1; });
  h->RefineMarked();
  transfer(h, lev == 2 ? 1 : 0, lev == 0 ? 1 : 2, k);
}
LFV_UNIT(prolong_tria__s2) { auto h = markedTria(); prolongAny(h, 0, lfv::choose("space", 6)); }
LFV_UNIT(prolong_quad__s2) { auto h = regular(lfv::choose("mesh", 3)); prolongAny(h, 0, lfv::choose("space", 6)); }
LFV_UNIT(prolong_second__s1) {
  const long k = lfv::choose("space", 3);
  auto h = regular(2);
  h->MarkEdges([&](const lf::mesh::Mesh& m, const Entity& e) { return m.Index(e) == 1; });
  h->RefineMarked();
  prolongAny(h, 1, k == 2 ? 4 : k);
}
LFV_UNIT(reject__s1) {
  const long k = lfv::choose("case", 7);
  auto h = regular(1);
  h->RefineRegular();
  auto sp = space(h->getMesh(0), 0);
  const VectorXd c = VectorXd::Zero(5);
  MeshFunctionFE<double, double> f(sp, c);
  auto s1 = std::make_shared<lf::uscalfe::FeSpaceLagrangeO1<double>>(h->getMesh(0));
  auto s2 = std::make_shared<lf::uscalfe::FeSpaceLagrangeO1<double>>(h->getMesh(1));
  const long l = lfv::integer("level", 3, 1l << 31);
  lfv::cover("rejected requests");
  const char* n = "levels that do not fit are rejected";
  if (k == 0) lfv::rejects(n, [&] { MeshFunctionTransfer t(*h, f, 0, (U)l); });
  if (k == 1) lfv::rejects(n, [&] { MeshFunctionTransfer t(*h, f, 0, 0); });
  if (k == 2) lfv::rejects(n, [&] { MeshFunctionTransfer t(*h, f, 1, 2); });  // the function lives on level 0
  if (k == 3) lfv::rejects(n, [&] { MeshFunctionTransfer t(*h, f, (U)(l - 1), (U)l); });
  if (k == 4) lfv::rejects(n, [&] { (void)lf::fe::prolongate(*h, s1, s2, c, 2); });
  if (k == 5) { const VectorXd s = VectorXd::Zero(4); lfv::rejects("too few coefficients are rejected", [&] { (void)lf::fe::prolongate(*h, s1, s2, s, 0); }); }
  if (k == 6) lfv::rejects(n, [&] { AnyFunction<double> g{nullptr}; MeshFunctionTransfer t(*h, g, 2, 2); });
}

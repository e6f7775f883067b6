// C17: element matrices and vectors are the local bilinear and linear forms.
#include <lf/fe/fe.h>
#include <lf/mesh/utils/utils.h>
#include <lf/uscalfe/uscalfe.h>
#include <lf/uscalfe/lin_fe.h>

#include <map>

#include "any_fe.h"

#ifdef LFV_VERIFY
// Assumed contract: the vertices of cells are in a non-degenerate position (checked by the constructors, C02/C03).
extern "C" bool lfv_contract_for__ZN2lf8geometry27assertNonDegenerateTriangleERKN5Eigen6MatrixIdLin1ELi3ELi0ELin1ELi3EEEd(const void*, double) { return true; }
extern "C" bool lfv_contract_for__ZN2lf8geometry23assertNonDegenerateQuadERKN5Eigen6MatrixIdLin1ELi4ELi0ELin1ELi4EEEd(const void*, double) { return true; }
#endif

namespace {
using namespace lfvm;
// ---- the forms, by the definition: a(b_j, b_i)
template <class R, class A, class S>
R diffusionTerm(const MatrixXd& jit, const A& alpha, const Mat<S>& gr, int k, int i, int j) {
  const int w = (int)jit.rows();
  std::vector<R> gi(w), gj(w), ag(w);
  for (int q = 0; q < w; ++q) {
    gi[q] = R(gr(i, 2 * k)) * jit(q, 2 * k) + R(gr(i, 2 * k + 1)) * jit(q, 2 * k + 1);
    gj[q] = R(gr(j, 2 * k)) * jit(q, 2 * k) + R(gr(j, 2 * k + 1)) * jit(q, 2 * k + 1);
  }
  for (int q = 0; q < w; ++q) {
    if constexpr (std::is_same_v<A, double> || std::is_same_v<A, cd>) ag[q] = R(alpha) * gj[q];
    else { ag[q] = R(0); for (int p = 0; p < w; ++p) ag[q] = ag[q] + R(alpha(q, p)) * gj[p]; }
  }
  R s(0);
  for (int q = 0; q < w; ++q) s = s + ag[q] * conj_(gi[q]);
  return s;
}
template <class R, class S, class A, class G>
Mat<R> formMatrix(const lf::fe::ScalarReferenceFiniteElement<S>& fe, const QuadRule& qr, const Entity& e, const A* alpha, const G* gamma) {
  const int n = (int)fe.NumRefShapeFunctions(), Q = (int)qr.NumPoints();
  const MatrixXd x = qr.Points();
  const VectorXd det = e.Geometry()->IntegrationElement(x);
  const Mat<S> b = fe.EvalReferenceShapeFunctions(x);
  Mat<R> r(n, n);
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) r(i, j) = R(0);
  if (alpha) {
    const MatrixXd jit = e.Geometry()->JacobianInverseGramian(x);
    const Mat<S> g = fe.GradientsReferenceShapeFunctions(x);
    const auto av = (*alpha)(e, x);
    for (int k = 0; k < Q; ++k) for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) r(i, j) = r(i, j) + diffusionTerm<R>(jit, av[k], g, k, i, j) * (qr.Weights()[k] * det[k]);
  }
  if (gamma) {
    const auto gv = (*gamma)(e, x);
    for (int k = 0; k < Q; ++k) for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) r(i, j) = r(i, j) + R(gv[k]) * R(b(j, k)) * R(conj_(b(i, k))) * (qr.Weights()[k] * det[k]);
  }
  return r;
}
template <class R, class S, class F>
Mat<R> formVector(const lf::fe::ScalarReferenceFiniteElement<S>& fe, const QuadRule& qr, const Entity& e, const F& f) {
  const int n = (int)fe.NumRefShapeFunctions(), Q = (int)qr.NumPoints();
  const MatrixXd x = qr.Points();
  const VectorXd det = e.Geometry()->IntegrationElement(x);
  const Mat<S> b = fe.EvalReferenceShapeFunctions(x);
  const auto fv = f(e, x);
  Mat<R> r(n, 1);
  for (int i = 0; i < n; ++i) {
    r(i, 0) = R(0);
    for (int k = 0; k < Q; ++k) r(i, 0) = r(i, 0) + R(fv[k]) * R(conj_(b(i, k))) * (qr.Weights()[k] * det[k]);
  }
  return r;
}
template <class M, class E>
void equal(const char* n, const M& m, const E& e) {
  lfv::ensure("size of the element matrix or vector", m.rows() == e.rows() && m.cols() == e.cols());
  if (m.rows() == e.rows() && m.cols() == e.cols())
    for (int i = 0; i < e.rows(); ++i) for (int j = 0; j < e.cols(); ++j) same(n, typename E::Scalar(m(i, j)), e(i, j));
}
// evaluate on another entity first, or on the same entity, or on none
template <class P>
void before(P& p, const StubMesh& m, U codim, const Entity& e) {
  const long h = lfv::choose("evaluated before", 3);
  if (h == 0) return;
  const Entity& o = h == 1 ? e : *m.EntityByIndex(codim, (m.Index(e) + 1) % m.NumEntities(codim));
  (void)p.Eval(o);
}
template <class S, class R, class A>
void feDiffusion(int world) {
  auto m = geoMesh(twoCells(), world, false);
  auto sp = anySpace<S>(m, lfv::choose("layout", 2));
  const Coef<A> alpha{"alpha", m.get()};
  lf::fe::DiffusionElementMatrixProvider p(sp, alpha);
  const Entity& e = *m->EntityByIndex(0, (U)lfv::choose("cell", 2));
  before(p, *m, 0, e);
  lfv::cover("diffusion");
  const auto& fe = *sp->ShapeFunctionLayout(e);
  equal("element matrix of the diffusion form", p.Eval(e), formMatrix<R, S, Coef<A>, Coef<double>>(fe, lf::quad::make_QuadRule(e.RefEl(), 2 * fe.Degree()), e, &alpha, nullptr));
  lfv::ensure("cells are active", p.isActive(e));
}
template <class S, class R, class G>
void feMass() {
  auto m = geoMesh(twoCells(), 2, false);
  auto sp = anySpace<S>(m, lfv::choose("layout", 2));
  const Coef<G> gamma{"gamma", m.get()};
  lf::fe::MassElementMatrixProvider p(sp, gamma);
  const Entity& e = *m->EntityByIndex(0, (U)lfv::choose("cell", 2));
  before(p, *m, 0, e);
  lfv::cover("mass");
  const auto& fe = *sp->ShapeFunctionLayout(e);
  equal("element matrix of the mass form", p.Eval(e), formMatrix<R, S, Coef<G>, Coef<G>>(fe, lf::quad::make_QuadRule(e.RefEl(), 2 * fe.Degree()), e, nullptr, &gamma));
  lfv::ensure("cells are active", p.isActive(e));
}
template <class S, class R, class G>
void feEdgeMass() {
  auto m = geoMesh(twoCells(), 2, false);
  auto sp = anySpace<S>(m, lfv::choose("layout", 2));
  const Coef<G> gamma{"gamma", m.get()};
  const Chosen ch{m.get()};
  lf::fe::MassEdgeMatrixProvider p(sp, gamma, ch);
  const Entity& e = *m->EntityByIndex(1, (U)lfv::choose("edge", 4));
  before(p, *m, 1, e);
  lfv::cover("edge mass");
  const auto& fe = *sp->ShapeFunctionLayout(e);
  equal("element matrix of the edge mass form", p.Eval(e), formMatrix<R, S, Coef<G>, Coef<G>>(fe, lf::quad::make_QuadRule(e.RefEl(), 2 * fe.Degree()), e, nullptr, &gamma));
  for (const Entity* d : m->Entities(1)) lfv::ensure("exactly the selected edges are active", p.isActive(*d) == ch(*d));
  lf::fe::MassEdgeMatrixProvider all(sp, gamma);
  for (const Entity* d : m->Entities(1)) lfv::ensure("without a selector every edge is active", all.isActive(*d));
}
template <class S, class R, class F>
void feLoad() {
  auto m = geoMesh(twoCells(), 2, false);
  auto sp = anySpace<S>(m, lfv::choose("layout", 2));
  const Coef<F> f{"f", m.get()};
  lf::fe::ScalarLoadElementVectorProvider p(sp, f);
  const Entity& e = *m->EntityByIndex(0, (U)lfv::choose("cell", 2));
  before(p, *m, 0, e);
  lfv::cover("load");
  const auto& fe = *sp->ShapeFunctionLayout(e);
  equal("element vector of the load", p.Eval(e), formVector<R>(fe, lf::quad::make_QuadRule(e.RefEl(), 2 * fe.Degree()), e, f));
  lfv::ensure("cells are active", p.isActive(e));
}
template <class S, class R, class F>
void feEdgeLoad() {
  auto m = geoMesh(twoCells(), 2, false);
  auto sp = anySpace<S>(m, lfv::choose("layout", 2));
  const Coef<F> f{"f", m.get()};
  const Chosen ch{m.get()};
  lf::fe::ScalarLoadEdgeVectorProvider p(sp, f, ch);
  const Entity& e = *m->EntityByIndex(1, (U)lfv::choose("edge", 4));
  before(p, *m, 1, e);
  lfv::cover("edge load");
  const auto& fe = *sp->ShapeFunctionLayout(e);
  equal("element vector of the edge load", p.Eval(e), formVector<R>(fe, lf::quad::make_QuadRule(e.RefEl(), 2 * fe.Degree()), e, f));
  for (const Entity* d : m->Entities(1)) lfv::ensure("exactly the selected edges are active", p.isActive(*d) == ch(*d));
  lf::fe::ScalarLoadEdgeVectorProvider all(sp, f);
  for (const Entity* d : m->Entities(1)) lfv::ensure("without a selector every edge is active", all.isActive(*d));
}
// ---- uniform spaces, built-in or user-supplied quadrature rules
template <class S>
struct Uniform {
  std::shared_ptr<AnyFE<S>> tria, quad, edge;
  std::shared_ptr<lf::uscalfe::UniformScalarFESpace<S>> sp;
};
template <class S>
Uniform<S> uniform(std::shared_ptr<StubMesh> m, long layout) {
  const unsigned dt = layout == 0 ? 1 : 2, dq = layout == 0 ? 2 : 1;
  Uniform<S> u;
  u.tria = std::make_shared<AnyFE<S>>(RefEl::kTria(), dt, std::array<U, 3>{(U)layout, 0, 1}, 1);
  u.quad = std::make_shared<AnyFE<S>>(RefEl::kQuad(), dq, std::array<U, 3>{(U)(1 - layout), 0, 1}, 2);
  u.edge = std::make_shared<AnyFE<S>>(RefEl::kSegment(), 2 + layout, std::array<U, 3>{0, 0, 1}, 3);
  u.sp = std::make_shared<lf::uscalfe::UniformScalarFESpace<S>>(m, u.tria, u.quad, u.edge);
  return u;
}
// any quadrature rule with n points
QuadRule anyRule(RefEl r, int n) {
  MatrixXd x(r.Dimension(), n);
  VectorXd w(n);
  for (int j = 0; j < n; ++j) {
    for (U i = 0; i < r.Dimension(); ++i) x(i, j) = lfv::real("point", (int)(10 * r.Id() + i), j, 0.05, 0.45);
    w[j] = lfv::real("weight", (int)r.Id(), j, 0.1, 1.0);
  }
  return QuadRule(r, x, w, 1);
}
std::map<RefEl, QuadRule> anyRules() { return {{RefEl::kTria(), anyRule(RefEl::kTria(), 2)}, {RefEl::kQuad(), anyRule(RefEl::kQuad(), 3)}}; }
template <class S, class R, class A, class G>
void uniformRD(int world) {
  auto m = geoMesh(twoCells(), world, false);
  const auto u = uniform<S>(m, lfv::choose("layout", 2));
  const Coef<A> alpha{"alpha", m.get()};
  const Coef<G> gamma{"gamma", m.get()};
  const bool own = lfv::choose("own rule", 2) == 1;
  auto rules = anyRules();
  using P = lf::uscalfe::ReactionDiffusionElementMatrixProvider<S, Coef<A>, Coef<G>>;
  P p = own ? P(u.sp, alpha, gamma, rules) : P(u.sp, alpha, gamma);
  const Entity& e = *m->EntityByIndex(0, (U)lfv::choose("cell", 2));
  before(p, *m, 0, e);
  lfv::cover("reaction diffusion");
  const auto& fe = e.RefEl() == RefEl::kTria() ? *u.tria : *u.quad;
  const QuadRule qr = own ? rules.at(e.RefEl()) : lf::quad::make_QuadRule(e.RefEl(), 2 * fe.Degree());
  equal("element matrix of the reaction-diffusion form", p.Eval(e), formMatrix<R, S>(fe, qr, e, &alpha, &gamma));
  lfv::ensure("cells are active", p.isActive(e));
}
template <class S, class R, class G>
void uniformEdgeMass() {
  auto m = geoMesh(twoCells(), 2, false);
  const auto u = uniform<S>(m, lfv::choose("layout", 2));
  const Coef<G> gamma{"gamma", m.get()};
  const Chosen ch{m.get()};
  const bool own = lfv::choose("own rule", 2) == 1;
  const QuadRule mine = anyRule(RefEl::kSegment(), 2);
  using P = lf::uscalfe::MassEdgeMatrixProvider<S, Coef<G>, Chosen>;
  P p = own ? P(u.sp, gamma, mine, ch) : P(u.sp, gamma, ch);
  const Entity& e = *m->EntityByIndex(1, (U)lfv::choose("edge", 2));
  before(p, *m, 1, e);
  lfv::cover("edge mass");
  equal("element matrix of the edge mass form", p.Eval(e), formMatrix<R, S, Coef<G>, Coef<G>>(*u.edge, own ? mine : lf::quad::make_QuadRule(e.RefEl(), 2 * u.edge->Degree()), e, nullptr, &gamma));
  for (const Entity* d : m->Entities(1)) lfv::ensure("exactly the selected edges are active", p.isActive(*d) == ch(*d));
}
template <class S, class R, class F>
void uniformLoad() {
  auto m = geoMesh(twoCells(), 2, false);
  const auto u = uniform<S>(m, lfv::choose("layout", 2));
  const Coef<F> f{"f", m.get()};
  const bool own = lfv::choose("own rule", 2) == 1;
  auto rules = anyRules();
  using P = lf::uscalfe::ScalarLoadElementVectorProvider<S, Coef<F>>;
  P p = own ? P(u.sp, f, rules) : P(u.sp, f);
  const Entity& e = *m->EntityByIndex(0, (U)lfv::choose("cell", 2));
  before(p, *m, 0, e);
  lfv::cover("load");
  const auto& fe = e.RefEl() == RefEl::kTria() ? *u.tria : *u.quad;
  const QuadRule qr = own ? rules.at(e.RefEl()) : lf::quad::make_QuadRule(e.RefEl(), 2 * fe.Degree());
  equal("element vector of the load", p.Eval(e), formVector<R>(fe, qr, e, f));
  lfv::ensure("cells are active", p.isActive(e));
}
template <class S, class R, class F>
void uniformEdgeLoad() {
  auto m = geoMesh(twoCells(), 2, false);
  const auto u = uniform<S>(m, lfv::choose("layout", 2));
  const Coef<F> f{"f", m.get()};
  const Chosen ch{m.get()};
  const bool own = lfv::choose("own rule", 2) == 1;
  const QuadRule mine = anyRule(RefEl::kSegment(), 2);
  using P = lf::uscalfe::ScalarLoadEdgeVectorProvider<S, Coef<F>, Chosen>;
  P p = own ? P(u.sp, f, mine, ch) : P(u.sp, f, ch);
  const Entity& e = *m->EntityByIndex(1, (U)lfv::choose("edge", 2));
  before(p, *m, 1, e);
  lfv::cover("edge load");
  equal("element vector of the edge load", p.Eval(e), formVector<R>(*u.edge, own ? mine : lf::quad::make_QuadRule(e.RefEl(), 2 * u.edge->Degree()), e, f));
  for (const Entity* d : m->Entities(1)) lfv::ensure("exactly the selected edges are active", p.isActive(*d) == ch(*d));
}
// ---- exactness for affine cells and constant coefficients: the forms evaluated by a rule of higher degree
template <class SPACE>
void exact(std::shared_ptr<StubMesh> m, std::shared_ptr<const SPACE> sp, bool uscal) {
  const Coef<double> alpha{"alpha", m.get(), true}, gamma{"gamma", m.get(), true};
  const Coef<Matrix2d> tensor{"tensor", m.get(), true};
  lfv::cover("exactness");
  for (U c = 0; c < 2; ++c)
    for (const Entity* ep : m->Entities(c)) {
      const Entity& e = *ep;
      const auto& fe = *sp->ShapeFunctionLayout(e);
      const QuadRule ex = lf::quad::make_QuadRule(e.RefEl(), 2 * fe.Degree() + 3);
      if (c == 1 && m->Index(e) > 1) continue;
      if (c == 1) {
        lf::fe::MassEdgeMatrixProvider em(sp, gamma);
        lf::fe::ScalarLoadEdgeVectorProvider el(sp, gamma);
        equal("edge mass matrix is exact", em.Eval(e), formMatrix<double, double, Coef<double>, Coef<double>>(fe, ex, e, nullptr, &gamma));
        equal("edge load vector is exact", el.Eval(e), formVector<double>(fe, ex, e, gamma));
      } else {
        lf::fe::DiffusionElementMatrixProvider dm(sp, tensor);
        lf::fe::MassElementMatrixProvider mm(sp, gamma);
        lf::fe::ScalarLoadElementVectorProvider lv(sp, gamma);
        equal("diffusion matrix is exact", dm.Eval(e), formMatrix<double, double, Coef<Matrix2d>, Coef<double>>(fe, ex, e, &tensor, nullptr));
        equal("mass matrix is exact", mm.Eval(e), formMatrix<double, double, Coef<double>, Coef<double>>(fe, ex, e, nullptr, &gamma));
        equal("load vector is exact", lv.Eval(e), formVector<double>(fe, ex, e, gamma));
      }
      (void)uscal;
    }
}
template <class SPACE>
void exactUniform() {
  auto m = geoMesh(twoCells(), 2, true);
  auto sp = std::make_shared<SPACE>(m);
  const Coef<double> gamma{"gamma", m.get(), true};
  const Coef<Matrix2d> tensor{"tensor", m.get(), true};
  lfv::cover("exactness");
  lf::uscalfe::ReactionDiffusionElementMatrixProvider rd(sp, tensor, gamma);
  lf::uscalfe::ScalarLoadElementVectorProvider lv(sp, gamma);
  lf::uscalfe::MassEdgeMatrixProvider em(sp, gamma);
  lf::uscalfe::ScalarLoadEdgeVectorProvider el(sp, gamma);
  for (const Entity* e : m->Entities(0)) {
    const auto& fe = *sp->ShapeFunctionLayout(*e);
    const QuadRule ex = lf::quad::make_QuadRule(e->RefEl(), 2 * fe.Degree() + 3);
    equal("reaction-diffusion matrix is exact", rd.Eval(*e), formMatrix<double, double>(fe, ex, *e, &tensor, &gamma));
    equal("load vector is exact", lv.Eval(*e), formVector<double>(fe, ex, *e, gamma));
  }
  for (const Entity* e : m->Entities(1)) {
    const auto& fe = *sp->ShapeFunctionLayout(*e);
    const QuadRule ex = lf::quad::make_QuadRule(e->RefEl(), 2 * fe.Degree() + 3);
    equal("edge mass matrix is exact", em.Eval(*e), formMatrix<double, double, Coef<double>, Coef<double>>(fe, ex, *e, nullptr, &gamma));
    equal("edge load vector is exact", el.Eval(*e), formVector<double>(fe, ex, *e, gamma));
  }
}
template <class SPACE>
void exactGeneral() {
  auto m = geoMesh(twoCells(), 2, true);
  exact<lf::fe::ScalarFESpace<double>>(m, std::make_shared<SPACE>(m), true);
}
void exactHierarchic(long k) {
  auto m = geoMesh(twoCells(), 2, true);
  std::shared_ptr<lf::fe::HierarchicScalarFESpace<double>> sp;
  if (k < 3) sp = std::make_shared<lf::fe::HierarchicScalarFESpace<double>>(m, (unsigned)(k + 1));
  else sp = std::make_shared<lf::fe::HierarchicScalarFESpace<double>>(m, [&](const Entity& e) -> unsigned { return e.RefEl() == RefEl::kPoint() ? 1u : (unsigned)(1 + (m->Index(e) + e.Codim() + k) % 3); });
  exact<lf::fe::ScalarFESpace<double>>(m, sp, false);
}
// ---- closed formulas
std::shared_ptr<StubMesh> realGeo(long shape) {
  const Spec s = {4, {shape == 0 ? Cell{{0, 1, 2}} : Cell{{0, 1, 2, 3}}}, {}};
  auto m = stubMesh(shape == 0 ? Spec{3, s.cells, {}} : s, expectedEdges(s));
  MatrixXd x(2, shape == 0 ? 3 : 4);
  const double cx[4] = {0, 1, shape == 0 ? 0.2 : 1.2, -0.1}, cy[4] = {0, 0.1, 1, 0.9};
  for (int i = 0; i < x.cols(); ++i) for (int q = 0; q < 2; ++q) { const double c = q ? cy[i] : cx[i]; x(q, i) = lfv::real("vertex", q, i, c - 0.1, c + 0.1); }
  if (shape == 2) lfv::assume((x(0, 1) - x(0, 0)) * (x(1, 3) - x(1, 0)) - (x(1, 1) - x(1, 0)) * (x(0, 3) - x(0, 0)) > 0);
  if (shape == 0) m->at(0, 0).geo_ = std::make_unique<lf::geometry::TriaO1>(x);
  if (shape == 1) m->at(0, 0).geo_ = std::make_unique<lf::geometry::QuadO1>(x);
  if (shape == 2) {
    MatrixXd p(2, 4);
    for (int q = 0; q < 2; ++q) { p(q, 0) = x(q, 0); p(q, 1) = x(q, 1); p(q, 3) = x(q, 3); p(q, 2) = x(q, 1) + x(q, 3) - x(q, 0); }
    m->at(0, 0).geo_ = std::make_unique<lf::geometry::Parallelogram>(p);
  }
  return m;
}
}  // namespace

LFV_UNIT(fe_diffusion__s1) { feDiffusion<double, double, double>(2 + (int)lfv::choose("extra dimension", 2)); }
LFV_UNIT(fe_diffusion_tensor2__s1) { feDiffusion<double, double, Matrix2d>(2); }
LFV_UNIT(fe_diffusion_tensor3__s1) { feDiffusion<double, double, Matrix3d>(3); }
LFV_UNIT(fe_diffusion_complex__s1) { feDiffusion<cd, cd, cd>(2); }
LFV_UNIT(fe_diffusion_complex_coef__s1) { feDiffusion<double, cd, cd>(2); }
LFV_UNIT(fe_mass__s1) { feMass<double, double, double>(); }
LFV_UNIT(fe_mass_complex__s1) { feMass<cd, cd, cd>(); }
LFV_UNIT(fe_mass_complex_coef__s1) { feMass<double, cd, cd>(); }
LFV_UNIT(fe_edge_mass__s1) { feEdgeMass<double, double, double>(); }
LFV_UNIT(fe_edge_mass_complex__s1) { feEdgeMass<cd, cd, cd>(); }
LFV_UNIT(fe_load__s1) { feLoad<double, double, double>(); }
LFV_UNIT(fe_load_complex__s1) { feLoad<cd, cd, cd>(); }
LFV_UNIT(fe_load_complex_coef__s1) { feLoad<double, cd, cd>(); }
LFV_UNIT(fe_edge_load__s1) { feEdgeLoad<double, double, double>(); }
LFV_UNIT(fe_edge_load_complex__s1) { feEdgeLoad<cd, cd, cd>(); }
LFV_UNIT(uniform_rd__s2) { uniformRD<double, double, double, double>(2 + (int)lfv::choose("extra dimension", 2)); }
LFV_UNIT(uniform_rd_tensor__s2) { uniformRD<double, double, Matrix2d, double>(2); }
LFV_UNIT(uniform_rd_complex__s2) { uniformRD<cd, cd, cd, cd>(2); }
LFV_UNIT(uniform_rd_complex_coef__s2) { uniformRD<double, cd, cd, cd>(2); }
LFV_UNIT(uniform_edge_mass__s2) { uniformEdgeMass<double, double, double>(); }
LFV_UNIT(uniform_edge_mass_complex__s2) { uniformEdgeMass<cd, cd, cd>(); }
LFV_UNIT(uniform_load__s2) { uniformLoad<double, double, double>(); }
LFV_UNIT(uniform_load_complex__s2) { uniformLoad<cd, cd, cd>(); }
LFV_UNIT(uniform_edge_load__s2) { uniformEdgeLoad<double, double, double>(); }
LFV_UNIT(uniform_edge_load_complex__s2) { uniformEdgeLoad<cd, cd, cd>(); }

LFV_UNIT(exact_uniform_o1) { exactUniform<lf::uscalfe::FeSpaceLagrangeO1<double>>(); }
LFV_UNIT(exact_uniform_o2) { exactUniform<lf::uscalfe::FeSpaceLagrangeO2<double>>(); }
LFV_UNIT(exact_uniform_o3) { exactUniform<lf::uscalfe::FeSpaceLagrangeO3<double>>(); }
LFV_UNIT(exact_general_o1) { exactGeneral<lf::uscalfe::FeSpaceLagrangeO1<double>>(); }
LFV_UNIT(exact_general_o2) { exactGeneral<lf::uscalfe::FeSpaceLagrangeO2<double>>(); }
LFV_UNIT(exact_general_o3) { exactGeneral<lf::uscalfe::FeSpaceLagrangeO3<double>>(); }
LFV_UNIT(exact_hierarchic__s1) { exactHierarchic(lfv::choose("degrees", 6)); }

// closed formula for the Laplacian
void kernelAndPadding(const Matrix<double, 4, 4>& M, int n) {
  for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) if (i >= n || j >= n) lfv::eq("unused entries are zero", M(i, j), 0, 0);
  for (int i = 0; i < n; ++i) { double s = 0, t = 0; for (int j = 0; j < n; ++j) { s += M(i, j); t += M(j, i); } lfv::eq("constants are in the kernel", s, 0); lfv::eq("constants are in the kernel", t, 0); }
}
LFV_UNIT(linear_laplace_affine__s1) {
  auto m = realGeo(2 * lfv::choose("shape", 2));
  const Entity& e = *m->EntityByIndex(0, 0);
  lf::uscalfe::LinearFELaplaceElementMatrix p;
  const auto M = p.Eval(e);
  lfv::ensure("cells are active", p.isActive(e));
  auto sp = std::make_shared<lf::uscalfe::FeSpaceLagrangeO1<double>>(m);
  struct One { std::vector<double> operator()(const Entity&, const MatrixXd& x) const { return std::vector<double>(x.cols(), 1.0); } };
  lf::fe::DiffusionElementMatrixProvider gen(std::shared_ptr<const lf::fe::ScalarFESpace<double>>(sp), One{});
  const auto G = gen.Eval(e);
  const int n = (int)G.rows();
  lfv::cover("Laplacian");
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) lfv::eq("the closed formula for the Laplacian agrees with the general element matrix", M(i, j), G(i, j));
  kernelAndPadding(M, n);
}
// general quadrilaterals: vertices g0, g0+g1, g0+g1+g2+g3, g0+g2 (every quadrilateral is of this form)
LFV_UNIT(linear_laplace_quad) {
  const Spec s = {4, {{{0, 1, 2, 3}}}, {}};
  auto m = stubMesh(s, expectedEdges(s));
  MatrixXd x(2, 4);
  double g[2][4];
  for (int q = 0; q < 2; ++q) {
    for (int i = 0; i < 4; ++i) { const double c = i == 1 + q ? 1. : 0.; g[q][i] = lfv::real("coefficient", q, i, c - 0.15, c + 0.15); }
    x(q, 0) = g[q][0]; x(q, 1) = g[q][0] + g[q][1]; x(q, 3) = g[q][0] + g[q][2]; x(q, 2) = g[q][0] + g[q][1] + g[q][2] + g[q][3];
  }
  m->at(0, 0).geo_ = std::make_unique<lf::geometry::QuadO1>(x);
  const Entity& e = *m->EntityByIndex(0, 0);
  // the Jacobian of the bilinear map at the four points of the rule the general provider uses
  const double r3 = 1.0 / std::sqrt(3.0), z[2] = {0.5 - 0.5 * r3, 0.5 + 0.5 * r3};
  const QuadRule qr = lf::quad::make_QuadRule(RefEl::kQuad(), 2);
  lfv::ensure("number of points", qr.NumPoints() == 4);
  double det[4];
  for (int k = 0; k < 4; ++k) {
    const double a = z[k / 2], b = z[k % 2];
    bool found = false;
    for (int l = 0; l < 4; ++l) if (std::abs(qr.Points()(0, l) - a) < 1e-14 && std::abs(qr.Points()(1, l) - b) < 1e-14) found = found || std::abs(qr.Weights()[l] - 0.25) < 1e-14;
    lfv::ensure("2x2 Gauss rule", found);
    det[k] = (g[0][1] + g[0][3] * b) * (g[1][2] + g[1][3] * a) - (g[1][1] + g[1][3] * b) * (g[0][2] + g[0][3] * a);
    lfv::assume(det[k] > 0);
  }
  lf::uscalfe::LinearFELaplaceElementMatrix p;
  const auto M = p.Eval(e);
  lfv::cover("Laplacian");
  for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) {
    double s = 0;
    for (int k = 0; k < 4; ++k) {
      const double a = z[k / 2], b = z[k % 2];
      const double da[4] = {b - 1, 1 - b, b, -b}, db[4] = {a - 1, -a, a, 1 - a};
      // det * (inverse transposed Jacobian) * reference gradient
      const double j00 = g[0][1] + g[0][3] * b, j01 = g[0][2] + g[0][3] * a, j10 = g[1][1] + g[1][3] * b, j11 = g[1][2] + g[1][3] * a;
      const double gi[2] = {j11 * da[i] - j10 * db[i], -j01 * da[i] + j00 * db[i]}, gj[2] = {j11 * da[j] - j10 * db[j], -j01 * da[j] + j00 * db[j]};
      s += 0.25 * (gi[0] * gj[0] + gi[1] * gj[1]) / det[k];
    }
    lfv::eq("the element matrix of the Laplacian is the Gauss quadrature of the form", M(i, j), s);
  }

}
// load vector by the edge midpoint rule
LFV_UNIT(linear_load__s1) {
  const long shape = lfv::choose("shape", 3);
  auto m = realGeo(shape);
  const Entity& e = *m->EntityByIndex(0, 0);
  const Coef<double> f{"f", m.get()};
  lf::uscalfe::LinearFELocalLoadVector<double, Coef<double>> p(f);
  lfv::ensure("cells are active", p.isActive(e));
  const auto v = p.Eval(e);
  const int n = shape == 0 ? 3 : 4;
  MatrixXd mid(2, n);
  const MatrixXd c = e.RefEl().NodeCoords();
  for (int i = 0; i < n; ++i) for (int q = 0; q < 2; ++q) mid(q, i) = 0.5 * (c(q, i) + c(q, (i + 1) % n));
  const auto fv = f(e, mid);
  // area of the cell: polygon formula
  const MatrixXd x = e.Geometry()->Global(c);
  double a2 = 0;
  for (int i = 0; i < n; ++i) a2 += x(0, i) * x(1, (i + 1) % n) - x(1, i) * x(0, (i + 1) % n);
  lfv::assume(a2 > 0);
  lfv::cover("load");
  for (int i = 0; i < n; ++i) lfv::eq("the load vector is the edge midpoint rule", v[i], a2 / 2 / n * 0.5 * (fv[i] + fv[(i + n - 1) % n]));
  for (int i = n; i < 4; ++i) lfv::eq("unused entries are zero", v[i], 0, 0);
}
// ... which is exact for linear sources on triangles
LFV_UNIT(linear_load_exact) {
  auto m = realGeo(0);
  const Entity& e = *m->EntityByIndex(0, 0);
  struct Lin { std::vector<double> operator()(const Entity&, const MatrixXd& x) const { std::vector<double> v; for (int j = 0; j < x.cols(); ++j) v.push_back(lfv::real("c0") + lfv::real("c1") * x(0, j) + lfv::real("c2") * x(1, j)); return v; } };
  lf::uscalfe::LinearFELocalLoadVector<double, Lin> p(Lin{});
  const auto v = p.Eval(e);
  auto sp = std::make_shared<lf::uscalfe::FeSpaceLagrangeO1<double>>(m);
  lf::fe::ScalarLoadElementVectorProvider gen(std::shared_ptr<const lf::fe::ScalarFESpace<double>>(sp), Lin{});
  const auto g = gen.Eval(e);
  lfv::cover("load");
  for (int i = 0; i < 3; ++i) lfv::eq("for linear sources the load vector agrees with the general one", v[i], g[i]);
}
// missing specifications are rejected
LFV_UNIT(reject) {
  const long k = lfv::choose("case", 8);
  auto m = geoMesh(twoCells(), 2, false);
  const Spec ts = {3, {{{0, 1, 2}}}, {}};
  auto mt = geoMesh(ts, 2, false);
  auto u = uniform<double>(m, 0);
  auto tri = std::make_shared<lf::uscalfe::UniformScalarFESpace<double>>(mt, u.tria, nullptr, nullptr);
  const Coef<double> c{"c", m.get()};
  const Entity &tria = *m->EntityByIndex(0, 0), &quad = *m->EntityByIndex(0, 1), &edge = *m->EntityByIndex(1, 0);
  auto seg = anyRule(RefEl::kSegment(), 2);
  lfv::cover("missing specification");
  const char* n = "missing or mismatched specifications are rejected";
  if (k == 0) { lf::uscalfe::ReactionDiffusionElementMatrixProvider p(tri, c, c); lfv::rejects(n, [&] { (void)p.Eval(quad); }); }
  if (k == 1) { lf::uscalfe::ScalarLoadElementVectorProvider p(tri, c); lfv::rejects(n, [&] { (void)p.Eval(quad); }); }
  if (k == 2) lfv::rejects(n, [&] { lf::uscalfe::MassEdgeMatrixProvider<double, Coef<double>, Chosen> p(tri, c, Chosen{m.get()}); });
  if (k == 3) lfv::rejects(n, [&] { lf::uscalfe::ScalarLoadEdgeVectorProvider<double, Coef<double>, Chosen> p(tri, c, Chosen{m.get()}); });
  if (k == 4) {
    std::map<RefEl, QuadRule> only{{RefEl::kTria(), anyRule(RefEl::kTria(), 2)}};
    lf::uscalfe::ReactionDiffusionElementMatrixProvider p(u.sp, c, c, only);
    (void)p.Eval(tria);
    lfv::rejects(n, [&] { (void)p.Eval(quad); });
  }
  if (k == 5) lfv::rejects(n, [&] { lf::uscalfe::MassEdgeMatrixProvider<double, Coef<double>, Chosen> p(u.sp, c, anyRule(RefEl::kTria(), 2), Chosen{m.get()}); });
  if (k == 6) { lf::uscalfe::MassEdgeMatrixProvider<double, Coef<double>, Chosen> p(u.sp, c, seg, Chosen{m.get()}); lfv::rejects(n, [&] { (void)p.Eval(tria); }); }
  if (k == 7) { lf::uscalfe::ScalarLoadElementVectorProvider p(u.sp, c); lfv::rejects(n, [&] { (void)p.Eval(edge); }); }
}

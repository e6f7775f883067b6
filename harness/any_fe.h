// Finite element spaces, geometries and coefficients that satisfy the contracts of their interfaces and nothing else.
#pragma once
#include <lf/fe/fe.h>

#include <complex>

#include "stub_mesh.h"

namespace lfvm {
using Eigen::Dynamic;
using Eigen::Matrix;
using Eigen::Matrix2d;
using Eigen::Matrix3d;
using cd = std::complex<double>;
using lf::quad::QuadRule;
template <class S> using Mat = Matrix<S, Dynamic, Dynamic>;

inline double val(const char* id, const double* a, int n, int k, double*) {
  double b[8];
  for (int i = 0; i < n; ++i) b[i] = a[i];
  b[n] = k;
  return lfv_fun(id, n + 1, b);
}
inline cd val(const char* id, const double* a, int n, int k, cd*) { return {val(id, a, n, 2 * k, (double*)nullptr), val(id, a, n, 2 * k + 1, (double*)nullptr)}; }
template <class S> S value(const char* id, const double* a, int n, int k) { return val(id, a, n, k, (S*)nullptr); }
inline double conj_(double x) { return x; }
inline cd conj_(const cd& x) { return {x.real(), -x.imag()}; }
inline void same(const char* n, double a, double b) { lfv::eq(n, a, b); }
inline void same(const char* n, const cd& a, const cd& b) { lfv::eq(n, a.real(), b.real()); lfv::eq(n, a.imag(), b.imag()); }

// a geometry of any shape: metric factors and transformations are arbitrary functions of the point
class AnyGeo : public StubGeo {
 public:
  AnyGeo(lf::base::RefEl r, std::vector<U> n, int tag, int world, bool affine) : StubGeo(r, std::move(n), tag), w_(world), affine_(affine) {}
  dim_t DimGlobal() const override { return w_; }
  bool isAffine() const override { return affine_; }
  double f(const char* id, const MatrixXd& x, int j, int k) const {
    const double a[3] = {(double)tag_, affine_ ? 0. : x(0, j), affine_ || x.rows() < 2 ? 0. : x(1, j)};
    return value<double>(id, a, 3, k);
  }
  MatrixXd Global(const MatrixXd& x) const override {
    MatrixXd g(w_, x.cols());
    for (int j = 0; j < x.cols(); ++j) for (int q = 0; q < w_; ++q) g(q, j) = f("global", x, j, q);
    return g;
  }
  MatrixXd Jacobian(const MatrixXd& x) const override { return fill("jacobian", x); }
  MatrixXd JacobianInverseGramian(const MatrixXd& x) const override { return fill("inverse gramian", x); }
  VectorXd IntegrationElement(const MatrixXd& x) const override {
    VectorXd v(x.cols());
    for (int j = 0; j < x.cols(); ++j) v[j] = f("metric factor", x, j, 0);
    return v;
  }
  MatrixXd fill(const char* id, const MatrixXd& x) const {
    const int d = (int)RefEl().Dimension();
    MatrixXd g(w_, d * x.cols());
    for (int j = 0; j < x.cols(); ++j) for (int q = 0; q < w_; ++q) for (int p = 0; p < d; ++p) g(q, d * j + p) = f(id, x, j, q * d + p);
    return g;
  }
  int w_;
  bool affine_;
};
// a reference finite element with arbitrary shape functions
template <class S>
class AnyFE : public lf::fe::ScalarReferenceFiniteElement<S> {
 public:
  AnyFE(lf::base::RefEl r, unsigned degree, std::array<U, 3> per, int tag) : r_(r), d_(degree), per_(per), tag_(tag) {}
  lf::base::RefEl RefEl() const override { return r_; }
  unsigned Degree() const override { return d_; }
  lf::fe::size_type NumRefShapeFunctions() const override { U n = 0; for (U c = 0; c <= r_.Dimension(); ++c) n += r_.NumSubEntities(c) * num(c); return n; }
  lf::fe::size_type NumRefShapeFunctions(lf::fe::dim_t c) const override { return num(c); }
  lf::fe::size_type NumRefShapeFunctions(lf::fe::dim_t c, lf::fe::sub_idx_t) const override { return num(c); }
  Mat<S> EvalReferenceShapeFunctions(const MatrixXd& x) const override {
    Mat<S> m(NumRefShapeFunctions(), x.cols());
    for (int i = 0; i < m.rows(); ++i) for (int j = 0; j < x.cols(); ++j) m(i, j) = f("shape", x, i, j, 0);
    return m;
  }
  Mat<S> GradientsReferenceShapeFunctions(const MatrixXd& x) const override {
    const int d = (int)r_.Dimension();
    Mat<S> m(NumRefShapeFunctions(), d * x.cols());
    for (int i = 0; i < m.rows(); ++i) for (int j = 0; j < x.cols(); ++j) for (int q = 0; q < d; ++q) m(i, d * j + q) = f("gradient", x, i, j, q);
    return m;
  }
  // arbitrary evaluation nodes, dofs are arbitrary linear functions of the values there
  MatrixXd EvaluationNodes() const override {
    MatrixXd x(r_.Dimension(), NumEvaluationNodes());
    for (int i = 0; i < x.rows(); ++i) for (int j = 0; j < x.cols(); ++j) { const double a[3] = {(double)tag_, (double)i, (double)j}; x(i, j) = value<double>("node", a, 3, 0); }
    return x;
  }
  lf::fe::size_type NumEvaluationNodes() const override { return 2; }
  Matrix<S, 1, Dynamic> NodalValuesToDofs(const Matrix<S, 1, Dynamic>& v) const override {
    Matrix<S, 1, Dynamic> r(NumRefShapeFunctions());
    for (int i = 0; i < r.size(); ++i) {
      r[i] = S(0);
      for (int j = 0; j < v.size(); ++j) { const double a[3] = {(double)tag_, (double)i, (double)j}; r[i] = r[i] + value<S>("dof", a, 3, 0) * v[j]; }
    }
    return r;
  }

 private:
  S f(const char* id, const MatrixXd& x, int i, int j, int q) const {
    const double a[4] = {(double)(tag_ * 100 + i), x(0, j), x.rows() > 1 ? x(1, j) : 0., (double)q};
    return value<S>(id, a, 4, 0);
  }
  U num(U codim) const { return per_[codim + (2 - r_.Dimension())]; }  // per_: per cell, edge, node
  lf::base::RefEl r_;
  unsigned d_;
  std::array<U, 3> per_;
  int tag_;
};
// a coefficient: an arbitrary function of entity and point
template <class T> struct Entry;
template <> struct Entry<double> { static double make(const char* id, const double* a) { return value<double>(id, a, 4, 0); } };
template <> struct Entry<cd> { static cd make(const char* id, const double* a) { return value<cd>(id, a, 4, 0); } };
template <class S, int N> struct Entry<Matrix<S, N, N>> {
  static Matrix<S, N, N> make(const char* id, const double* a) {
    Matrix<S, N, N> m;
    for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) m(i, j) = value<S>(id, a, 4, N * i + j);
    return m;
  }
};
template <class T>
struct Coef {
  const char* id;
  const StubMesh* m;
  bool constant = false;
  std::vector<T> operator()(const Entity& e, const MatrixXd& x) const {
    std::vector<T> v;
    for (int j = 0; j < x.cols(); ++j) {
      const double a[4] = {(double)e.Codim(), constant ? 0. : (double)m->Index(e), constant ? 0. : x(0, j), constant || x.rows() < 2 ? 0. : x(1, j)};
      v.push_back(Entry<T>::make(id, a));
    }
    return v;
  }
};
struct Chosen {
  const StubMesh* m;
  bool operator()(const Entity& e) const {
    const long a[1] = {(long)m->Index(e)};
    return lfv_fun_int("chosen", 1, a, 0, 1) == 1;
  }
};
// ---- a space with arbitrary shape functions that may differ from entity to entity
template <class S>
class AnySpace : public lf::fe::ScalarFESpace<S> {
 public:
  std::shared_ptr<const lf::mesh::Mesh> Mesh() const override { return m_; }
  const lf::assemble::DofHandler& LocGlobMap() const override { return *dh_; }
  const lf::fe::ScalarReferenceFiniteElement<S>* ShapeFunctionLayout(const Entity& e) const override { return fe_[e.Codim()][m_->Index(e)].get(); }
  lf::fe::size_type NumRefShapeFunctions(const Entity& e) const override { return ShapeFunctionLayout(e)->NumRefShapeFunctions(0, 0); }
  std::shared_ptr<StubMesh> m_;
  lf::assemble::DofHandler* dh_ = nullptr;
  std::vector<std::unique_ptr<AnyFE<S>>> fe_[3];
};
inline const Spec& twoCells() {
  static const Spec s = {5, {{{0, 1, 2}}, {{0, 2, 3, 4}}}, {}};
  return s;
}
inline std::shared_ptr<StubMesh> geoMesh(const Spec& s, int world, bool affine) {
  auto m = stubMesh(s, expectedEdges(s));
  for (U c = 0; c < 2; ++c)
    for (U i = 0; i < m->e_[c].size(); ++i) m->at(c, i).geo_ = std::make_unique<AnyGeo>(m->at(c, i).RefEl(), std::vector<U>(4), (int)(100 * c + i), world, affine);
  return m;
}
// degrees 1 and 2 with different numbers of shape functions on the two cells and the edges
template <class S>
std::shared_ptr<AnySpace<S>> anySpace(std::shared_ptr<StubMesh> m, long layout) {
  auto sp = std::make_shared<AnySpace<S>>();
  sp->m_ = m;
  for (U c = 0; c < 2; ++c)
    for (U i = 0; i < m->NumEntities(c); ++i) {
      const unsigned deg = c == 0 ? (layout == 0 ? 1 + i : 2 - i) : 1 + (i + layout) % 3;
      sp->fe_[c].push_back(std::make_unique<AnyFE<S>>(m->at(c, i).RefEl(), deg, std::array<U, 3>{layout == 0 ? i : 1 - i, c == 1 ? (U)(i % 2) : 0u, 1u}, (int)(10 * c + i)));
    }
  return sp;
}
}  // namespace lfvm

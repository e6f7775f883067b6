// C14: mesh function expressions evaluate pointwise.
// Operands are uninterpreted functions of entity and point: whatever their values, an expression at
// an entity and a batch of points is the operation applied to the values there.
#include <lf/mesh/utils/mesh_function_binary.h>
#include <lf/mesh/utils/mesh_function_constant.h>
#include <lf/mesh/utils/mesh_function_global.h>
#include <lf/mesh/utils/mesh_function_traits.h>
#include <lf/mesh/utils/mesh_function_unary.h>
#include <complex>
#include "geom_common.h"
#include "stub_mesh.h"
using namespace lfvm;
using Eigen::Dynamic;
using Eigen::Matrix;
using Eigen::Array;
using Eigen::MatrixXd;
using cd = std::complex<double>;
namespace mu = lf::mesh::utils;

// a user type with its own operators: 2 x 2 upper triangular matrices (product does not commute)
struct Tri {
  double a = 0, b = 0, c = 0;
};
static Tri operator+(const Tri& x, const Tri& y) { return {x.a + y.a, x.b + y.b, x.c + y.c}; }
static Tri operator-(const Tri& x, const Tri& y) { return {x.a - y.a, x.b - y.b, x.c - y.c}; }
static Tri operator*(const Tri& x, const Tri& y) { return {x.a * y.a, x.a * y.b + x.b * y.c, x.c * y.c}; }
static Tri operator-(const Tri& x) { return {-x.a, -x.b, -x.c}; }

template <class T> struct V;  // entries of a value
static double sc(const char* id, const double* at, int k, double*) { const double a[4] = {at[0], at[1], at[2], (double)k}; return lfv_fun(id, 4, a); }
static cd sc(const char* id, const double* at, int k, cd*) { return {sc(id, at, 2 * k, (double*)nullptr), sc(id, at, 2 * k + 1, (double*)nullptr)}; }
template <class S> static S scalar(const char* id, const double* at, int k) { return sc(id, at, k, (S*)nullptr); }
template <> struct V<double> { static double make(const char* id, const double* at, int, int) { return scalar<double>(id, at, 0); } };
template <> struct V<cd> { static cd make(const char* id, const double* at, int, int) { return scalar<cd>(id, at, 0); } };
template <> struct V<Tri> { static Tri make(const char* id, const double* at, int, int) { return {scalar<double>(id, at, 0), scalar<double>(id, at, 1), scalar<double>(id, at, 2)}; } };
template <class M> static M fill(const char* id, const double* at, int r, int c) {
  M m(r, c);
  for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) m(i, j) = scalar<typename M::Scalar>(id, at, i * c + j);
  return m;
}
template <class S, int R, int C, int O> struct V<Matrix<S, R, C, O>> { static Matrix<S, R, C, O> make(const char* id, const double* at, int r, int c) { return fill<Matrix<S, R, C, O>>(id, at, R == Dynamic ? r : R, C == Dynamic ? c : C); } };
template <class S, int R, int C, int O> struct V<Array<S, R, C, O>> { static Array<S, R, C, O> make(const char* id, const double* at, int r, int c) { return fill<Array<S, R, C, O>>(id, at, R == Dynamic ? r : R, C == Dynamic ? c : C); } };

// any mesh function with values of type T (dynamic ones of the given size)
template <class T>
struct Any {
  const char* id;
  const StubMesh* mesh;
  int r, c;
  T value(const lf::mesh::Entity& e, double x, double y) const {
    const double at[3] = {(double)(10 * mesh->Index(e) + e.Codim()), x, y};
    return V<T>::make(id, at, r, c);
  }
  std::vector<T> operator()(const lf::mesh::Entity& e, const MatrixXd& local) const {
    std::vector<T> v;
    for (int i = 0; i < local.cols(); ++i) v.push_back(value(e, local.rows() > 0 ? local(0, i) : 0.0, local.rows() > 1 ? local(1, i) : 0.0));
    return v;
  }
};
struct Setting {
  std::shared_ptr<StubMesh> mesh;
  const lf::mesh::Entity* e;
  MatrixXd p;
  double x(int i) const { return p.rows() > 0 ? p(0, i) : 0.0; }
  double y(int i) const { return p.rows() > 1 ? p(1, i) : 0.0; }
};
// any entity, 1..3 arbitrary points
static Setting setting(bool onlyCell = false) {
  Setting s;
  s.mesh = stubMesh(complexes()[3], expectedEdges(complexes()[3]));
  static const unsigned C[4] = {0, 0, 1, 2}, I[4] = {0, 1, 2, 3};
  const int k = onlyCell ? 0 : (int)lfv::choose("entity", 4);
  s.e = s.mesh->EntityByIndex(C[k], I[k]);
  const int d = (int)s.e->RefEl().Dimension(), n = 1 + (int)lfv::choose("points", 3);
  s.p = MatrixXd(d, n);
  for (int i = 0; i < d; ++i) for (int j = 0; j < n; ++j) s.p(i, j) = lfv::real("x", i, j);
  return s;
}
static void same(const char* n, double a, double b) { lfv::eq(n, a, b); }
static void same(const char* n, cd a, cd b) { lfv::eq(n, a.real(), b.real()); lfv::eq(n, a.imag(), b.imag()); }
static void same(const char* n, cd a, double b) { same(n, a, cd(b)); }
static void same(const char* n, const Tri& a, const Tri& b) { lfv::eq(n, a.a, b.a); lfv::eq(n, a.b, b.b); lfv::eq(n, a.c, b.c); }
template <class M, class G> static void entries(const char* n, const M& m, int r, int c, G&& g) {
  lfv::ensure("the value has the size of the result", m.rows() == r && m.cols() == c);
  if (m.rows() == r && m.cols() == c) for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) same(n, m(i, j), g(i, j));
}
template <class F> static void count(const std::vector<F>& v, const Setting& s) { lfv::ensure("one value per point", (int)v.size() == s.p.cols()); }

// scalars and types with their own operators
template <class A, class B>
static void scalars(bool withMinus = true) {
  const Setting s = setting();
  const Any<A> a{"a", s.mesh.get(), 0, 0};
  const Any<B> b{"b", s.mesh.get(), 0, 0};
  const auto add = mu::operator+(a, b)(*s.e, s.p);
  const auto sub = mu::operator-(a, b)(*s.e, s.p);
  const auto mul = mu::operator*(a, b)(*s.e, s.p);
  const auto neg = mu::operator-(a)(*s.e, s.p);
  count(add, s); count(sub, s); count(mul, s); count(neg, s);
  for (int i = 0; i < s.p.cols(); ++i) {
    const A x = a.value(*s.e, s.x(i), s.y(i));
    const B y = b.value(*s.e, s.x(i), s.y(i));
    if (i < (int)add.size()) same("sum", add[i], x + y);
    if (i < (int)sub.size()) same("difference", sub[i], x - y);
    if (i < (int)mul.size()) same("product", mul[i], x * y);
    if (i < (int)neg.size()) same("negative", neg[i], -x);
  }
  lfv::cover("scalars");
}
LFV_UNIT(scalar_real) { scalars<double, double>(); }
LFV_UNIT(scalar_complex) { scalars<cd, cd>(); }
LFV_UNIT(user_type) { scalars<Tri, Tri>(); }
LFV_UNIT(product_mixed_scalars) {
  const Setting s = setting();
  const Any<double> a{"a", s.mesh.get(), 0, 0};
  const Any<cd> b{"b", s.mesh.get(), 0, 0};
  const auto m = mu::operator*(a, b)(*s.e, s.p), n = mu::operator*(b, a)(*s.e, s.p);
  count(m, s); count(n, s);
  for (int i = 0; i < s.p.cols(); ++i) {
    const double x = a.value(*s.e, s.x(i), s.y(i));
    const cd y = b.value(*s.e, s.x(i), s.y(i));
    same("product", m[i], cd(x * y.real(), x * y.imag()));
    same("product", n[i], cd(x * y.real(), x * y.imag()));
  }
  lfv::cover("mixed");
}
// sums and differences of matrices and arrays, entry by entry; products of arrays
template <class A, class B>
static void linear(int r, int c) {
  const Setting s = setting(true);
  const Any<A> a{"a", s.mesh.get(), r, c};
  const Any<B> b{"b", s.mesh.get(), r, c};
  const auto add = mu::operator+(a, b)(*s.e, s.p);
  const auto sub = mu::operator-(a, b)(*s.e, s.p);
  const auto neg = mu::operator-(a)(*s.e, s.p);
  count(add, s); count(sub, s); count(neg, s);
  for (int i = 0; i < s.p.cols(); ++i) {
    const A x = a.value(*s.e, s.x(i), s.y(i));
    const B y = b.value(*s.e, s.x(i), s.y(i));
    entries("sum", add[i], r, c, [&](int k, int l) { return x(k, l) + y(k, l); });
    entries("difference", sub[i], r, c, [&](int k, int l) { return x(k, l) - y(k, l); });
    entries("negative", neg[i], r, c, [&](int k, int l) { return -x(k, l); });
  }
  if constexpr (lf::base::EigenArray<A>) {
    const auto mul = mu::operator*(a, b)(*s.e, s.p);
    count(mul, s);
    for (int i = 0; i < s.p.cols(); ++i) {
      const A x = a.value(*s.e, s.x(i), s.y(i));
      const B y = b.value(*s.e, s.x(i), s.y(i));
      entries("product", mul[i], r, c, [&](int k, int l) { return x(k, l) * y(k, l); });
    }
  }
  lfv::cover("linear");
}
template <class S, int R, int C> using RM = Matrix<S, R, C, Eigen::RowMajor>;
template <class S, int R, int C> using RA = Array<S, R, C, Eigen::RowMajor>;
LFV_UNIT(matrix_fixed) {
  switch (lfv::choose("type", 8)) {
    case 0: linear<Matrix<double, 2, 1>, Matrix<double, 2, 1>>(2, 1); break;
    case 1: linear<Matrix<double, 1, 3>, Matrix<double, 1, 3>>(1, 3); break;
    case 2: linear<Matrix<double, 2, 2>, Matrix<double, 2, 2>>(2, 2); break;
    case 3: linear<Matrix<double, 2, 3>, Matrix<double, 2, 3>>(2, 3); break;
    case 4: linear<Matrix<cd, 2, 2>, Matrix<cd, 2, 2>>(2, 2); break;
    case 5: linear<Matrix<double, 2, 1>, Matrix<cd, 2, 1>>(2, 1); break;
    case 6: linear<Matrix<cd, 2, 2>, Matrix<double, 2, 2>>(2, 2); break;
    default: linear<Matrix<double, 1, 1>, Matrix<double, 1, 1>>(1, 1);
  }
}
LFV_UNIT(matrix_storage_order) {
  switch (lfv::choose("type", 4)) {
    case 0: linear<RM<double, 2, 2>, RM<double, 2, 2>>(2, 2); break;
    case 1: linear<RM<double, 2, 3>, Matrix<double, 2, 3>>(2, 3); break;
    case 2: linear<Matrix<double, 2, 2>, RM<double, 2, 2>>(2, 2); break;
    default: linear<RM<cd, 3, 2>, RM<cd, 3, 2>>(3, 2);
  }
}
LFV_UNIT(matrix_dynamic) {
  switch (lfv::choose("type", 11)) {
    case 6: linear<Matrix<double, 2, Dynamic>, Matrix<double, 2, Dynamic>>(2, 3); break;
    case 7: linear<Matrix<double, Dynamic, 2>, Matrix<double, Dynamic, 2>>(3, 2); break;
    case 8: linear<Matrix<double, Dynamic, 1>, Matrix<double, 2, 1>>(2, 1); break;
    case 9: linear<Matrix<double, 2, Dynamic>, Matrix<double, Dynamic, 2>>(2, 2); break;
    case 10: linear<Matrix<double, 2, 2>, Matrix<double, 2, Dynamic>>(2, 2); break;
    case 0: linear<Matrix<double, Dynamic, Dynamic>, Matrix<double, Dynamic, Dynamic>>(2, 3); break;
    case 1: linear<Matrix<double, Dynamic, 1>, Matrix<double, Dynamic, 1>>(3, 1); break;
    case 2: linear<Matrix<double, 2, 2>, Matrix<double, Dynamic, Dynamic>>(2, 2); break;
    case 3: linear<Matrix<double, Dynamic, Dynamic>, Matrix<double, 3, 1>>(3, 1); break;
    case 4: linear<Matrix<cd, Dynamic, Dynamic>, Matrix<double, Dynamic, Dynamic>>(2, 1); break;
    default: linear<RM<double, Dynamic, Dynamic>, Matrix<double, Dynamic, Dynamic>>(2, 2);
  }
}
LFV_UNIT(array_fixed) {
  switch (lfv::choose("type", 5)) {
    case 0: linear<Array<double, 2, 1>, Array<double, 2, 1>>(2, 1); break;
    case 1: linear<Array<double, 1, 3>, Array<double, 1, 3>>(1, 3); break;
    case 2: linear<Array<double, 2, 2>, Array<double, 2, 2>>(2, 2); break;
    case 3: linear<Array<cd, 2, 3>, Array<cd, 2, 3>>(2, 3); break;
    default: linear<Array<cd, 2, 1>, Array<cd, 2, 1>>(2, 1);
  }
}
LFV_UNIT(array_storage_order) {
  switch (lfv::choose("type", 3)) {
    case 0: linear<RA<double, 2, 2>, RA<double, 2, 2>>(2, 2); break;
    case 1: linear<RA<double, 2, 3>, Array<double, 2, 3>>(2, 3); break;
    default: linear<Array<double, 2, 2>, RA<double, 2, 2>>(2, 2);
  }
}
LFV_UNIT(array_dynamic) {
  switch (lfv::choose("type", 8)) {
    case 4: linear<Array<double, 2, Dynamic>, Array<double, 2, Dynamic>>(2, 3); break;
    case 5: linear<Array<double, Dynamic, 2>, Array<double, Dynamic, 2>>(3, 2); break;
    case 6: linear<Array<double, Dynamic, 1>, Array<double, 2, 1>>(2, 1); break;
    case 7: linear<Array<double, 2, 2>, Array<double, 2, Dynamic>>(2, 2); break;
    case 0: linear<Array<double, Dynamic, Dynamic>, Array<double, Dynamic, Dynamic>>(2, 3); break;
    case 1: linear<Array<double, Dynamic, 1>, Array<double, Dynamic, 1>>(3, 1); break;
    case 2: linear<Array<double, 2, 2>, Array<double, Dynamic, Dynamic>>(2, 2); break;
    default: linear<Array<double, Dynamic, Dynamic>, Array<double, 3, 1>>(3, 1);
  }
}
// matrix products
template <class A, class B>
static void product(int r, int m, int c) {
  const Setting s = setting(true);
  const Any<A> a{"a", s.mesh.get(), r, m};
  const Any<B> b{"b", s.mesh.get(), m, c};
  const auto mul = mu::operator*(a, b)(*s.e, s.p);
  count(mul, s);
  using S = decltype(typename A::Scalar(0) * typename B::Scalar(0));
  for (int i = 0; i < s.p.cols(); ++i) {
    const A x = a.value(*s.e, s.x(i), s.y(i));
    const B y = b.value(*s.e, s.x(i), s.y(i));
    entries("matrix product", mul[i], r, c, [&](int k, int l) { S t(0); for (int q = 0; q < m; ++q) t += S(x(k, q)) * S(y(q, l)); return t; });
  }
  lfv::cover("product");
}
LFV_UNIT(matrix_product) {
  switch (lfv::choose("type", 12)) {
    case 9: product<Matrix<double, Dynamic, 2>, Matrix<double, 2, Dynamic>>(3, 2, 2); break;
    case 10: product<Matrix<double, Dynamic, 2>, Matrix<double, 2, 1>>(3, 2, 1); break;
    case 11: product<Matrix<double, 1, Dynamic>, Matrix<double, Dynamic, 1>>(1, 3, 1); break;
    case 0: product<Matrix<double, 2, 2>, Matrix<double, 2, 2>>(2, 2, 2); break;
    case 1: product<Matrix<double, 2, 3>, Matrix<double, 3, 2>>(2, 3, 2); break;
    case 2: product<Matrix<double, 1, 2>, Matrix<double, 2, 1>>(1, 2, 1); break;
    case 3: product<Matrix<double, 2, 1>, Matrix<double, 1, 2>>(2, 1, 2); break;
    case 4: product<Matrix<double, Dynamic, Dynamic>, Matrix<double, Dynamic, Dynamic>>(2, 3, 1); break;
    case 5: product<Matrix<double, 2, 2>, Matrix<double, Dynamic, 1>>(2, 2, 1); break;
    case 6: product<Matrix<double, 2, Dynamic>, Matrix<double, Dynamic, 2>>(2, 3, 2); break;
    case 7: product<Matrix<cd, 2, 2>, Matrix<cd, 2, 1>>(2, 2, 1); break;
    default: product<RM<double, 2, 2>, RM<double, 2, 2>>(2, 2, 2);
  }
}
// scalar times matrix or array, from either side
template <class U, class A>
static void scaled(int r, int c) {
  const Setting s = setting(true);
  const Any<U> u{"u", s.mesh.get(), 0, 0};
  const Any<A> a{"a", s.mesh.get(), r, c};
  const auto left = mu::operator*(u, a)(*s.e, s.p), right = mu::operator*(a, u)(*s.e, s.p);
  count(left, s); count(right, s);
  for (int i = 0; i < s.p.cols(); ++i) {
    const U w = u.value(*s.e, s.x(i), s.y(i));
    const A x = a.value(*s.e, s.x(i), s.y(i));
    entries("scaled from the left", left[i], r, c, [&](int k, int l) { return w * x(k, l); });
    entries("scaled from the right", right[i], r, c, [&](int k, int l) { return w * x(k, l); });
  }
  lfv::cover("scaled");
}
LFV_UNIT(scalar_times_matrix) {
  switch (lfv::choose("type", 10)) {
    case 8: scaled<double, Matrix<double, 2, Dynamic>>(2, 3); break;
    case 9: scaled<double, Matrix<double, 1, Dynamic>>(1, 3); break;
    case 0: scaled<double, Matrix<double, 2, 1>>(2, 1); break;
    case 1: scaled<double, Matrix<double, 1, 3>>(1, 3); break;
    case 2: scaled<double, Matrix<double, 2, 3>>(2, 3); break;
    case 3: scaled<double, Matrix<double, Dynamic, Dynamic>>(2, 2); break;
    case 4: scaled<double, Matrix<double, Dynamic, 1>>(3, 1); break;
    case 5: scaled<cd, Matrix<cd, 2, 2>>(2, 2); break;
    case 6: scaled<double, Matrix<cd, 2, 2>>(2, 2); break;
    default: scaled<cd, Matrix<double, Dynamic, Dynamic>>(2, 2);
  }
}
LFV_UNIT(scalar_times_array) {
  switch (lfv::choose("type", 6)) {
    case 5: scaled<double, Array<double, 2, Dynamic>>(2, 3); break;
    case 0: scaled<double, Array<double, 2, 1>>(2, 1); break;
    case 1: scaled<double, Array<double, 2, 3>>(2, 3); break;
    case 2: scaled<double, Array<double, Dynamic, Dynamic>>(2, 2); break;
    case 3: scaled<double, Array<double, Dynamic, 1>>(3, 1); break;
    default: scaled<cd, Array<cd, 2, 2>>(2, 2);
  }
}
LFV_UNIT(scaled_storage_order) {
  switch (lfv::choose("type", 3)) {
    case 0: scaled<double, RM<double, 2, 2>>(2, 2); break;
    case 1: scaled<double, RM<cd, 2, 3>>(2, 3); break;
    default: scaled<double, RA<double, 2, 2>>(2, 2);
  }
}
// unary operations
static double conj_(double x) { return x; }
static cd conj_(cd x) { return {x.real(), -x.imag()}; }
template <class A>
static void unary(int r, int c) {
  const Setting s = setting(true);
  const Any<A> a{"a", s.mesh.get(), r, c};
  const auto tr = mu::transpose(a)(*s.e, s.p);
  const auto co = mu::conjugate(a)(*s.e, s.p);
  count(tr, s); count(co, s);
  for (int i = 0; i < s.p.cols(); ++i) {
    const A x = a.value(*s.e, s.x(i), s.y(i));
    entries("transpose", tr[i], c, r, [&](int k, int l) { return x(l, k); });
    entries("conjugate", co[i], r, c, [&](int k, int l) { return conj_(x(k, l)); });
  }
  if constexpr (lf::base::EigenMatrix<A>) {
    const auto ad = mu::adjoint(a)(*s.e, s.p);
    count(ad, s);
    for (int i = 0; i < s.p.cols(); ++i) {
      const A x = a.value(*s.e, s.x(i), s.y(i));
      entries("adjoint", ad[i], c, r, [&](int k, int l) { return conj_(x(l, k)); });
    }
  }
  lfv::cover("unary");
}
LFV_UNIT(unary_matrix) {
  switch (lfv::choose("type", 10)) {
    case 8: unary<Matrix<cd, 2, Dynamic>>(2, 3); break;
    case 9: unary<Matrix<double, Dynamic, 2>>(3, 2); break;
    case 0: unary<Matrix<double, 2, 1>>(2, 1); break;
    case 1: unary<Matrix<double, 1, 3>>(1, 3); break;
    case 2: unary<Matrix<double, 2, 3>>(2, 3); break;
    case 3: unary<Matrix<double, Dynamic, Dynamic>>(3, 2); break;
    case 4: unary<Matrix<cd, 2, 2>>(2, 2); break;
    case 5: unary<Matrix<cd, Dynamic, 1>>(2, 1); break;
    case 6: unary<RM<double, 2, 3>>(2, 3); break;
    default: unary<RM<cd, 2, 2>>(2, 2);
  }
}
LFV_UNIT(unary_array) {
  switch (lfv::choose("type", 5)) {
    case 4: unary<Array<double, 2, Dynamic>>(2, 3); break;
    case 0: unary<Array<double, 2, 1>>(2, 1); break;
    case 1: unary<Array<double, 2, 3>>(2, 3); break;
    case 2: unary<Array<double, Dynamic, Dynamic>>(3, 2); break;
    default: unary<Array<cd, 2, 2>>(2, 2);
  }
}
template <class A>
static void norms(int r, int c) {
  const Setting s = setting(true);
  const Any<A> a{"a", s.mesh.get(), r, c};
  const auto n = mu::squaredNorm(a)(*s.e, s.p);
  count(n, s);
  for (int i = 0; i < s.p.cols(); ++i) {
    const A x = a.value(*s.e, s.x(i), s.y(i));
    double t = 0;
    for (int k = 0; k < r; ++k) for (int l = 0; l < c; ++l) t += std::real(x(k, l)) * std::real(x(k, l)) + std::imag(x(k, l)) * std::imag(x(k, l));
    lfv::eq("squared norm", n[i], t);
  }
  lfv::cover("norm");
}
LFV_UNIT(squared_norm) {
  switch (lfv::choose("type", 8)) {
    case 0: norms<Matrix<double, 2, 1>>(2, 1); break;
    case 1: norms<Matrix<double, 3, 1>>(3, 1); break;
    case 2: norms<Matrix<double, 1, 2>>(1, 2); break;
    case 3: norms<Matrix<double, 1, 3>>(1, 3); break;
    case 4: norms<Matrix<double, Dynamic, 1>>(3, 1); break;
    case 5: norms<Matrix<double, 1, Dynamic>>(1, 2); break;
    case 6: norms<Matrix<cd, Dynamic, 1>>(2, 1); break;
    default: norms<Matrix<double, 1, 1>>(1, 1);
  }
}
LFV_UNIT(scalar_unary) {
  const Setting s = setting();
  const Any<double> a{"a", s.mesh.get(), 0, 0};
  const Any<cd> b{"b", s.mesh.get(), 0, 0};
  const auto n = mu::squaredNorm(a)(*s.e, s.p), c = mu::conjugate(a)(*s.e, s.p);
  const auto d = mu::conjugate(b)(*s.e, s.p);
  count(n, s); count(c, s); count(d, s);
  for (int i = 0; i < s.p.cols(); ++i) {
    const double x = a.value(*s.e, s.x(i), s.y(i));
    const cd y = b.value(*s.e, s.x(i), s.y(i));
    lfv::eq("squared norm", n[i], x * x);
    lfv::eq("conjugate", c[i], x);
    same("conjugate", d[i], conj_(y));
  }
  lfv::cover("scalar unary");
}
// nested expressions keep the operands they were built from (also temporaries)
LFV_UNIT(nested) {
  const Setting s = setting();
  using M2 = Eigen::Matrix2d;
  using V2 = Eigen::Vector2d;
  auto make = [&]() {
    const Any<M2> A{"A", s.mesh.get(), 2, 2};
    const Any<V2> u{"u", s.mesh.get(), 2, 1}, v{"v", s.mesh.get(), 2, 1};
    const Any<double> k{"k", s.mesh.get(), 0, 0};
    return mu::operator-(mu::operator+(mu::operator*(A, u), mu::operator*(k, v)), mu::operator-(mu::operator*(mu::transpose(A), u)));
  };
  const auto f = make();
  const auto r = f(*s.e, s.p), again = f(*s.e, s.p);
  count(r, s);
  for (int i = 0; i < s.p.cols(); ++i) {
    const double at[3] = {(double)(10 * s.mesh->Index(*s.e) + s.e->Codim()), s.x(i), s.y(i)};
    const M2 A = V<M2>::make("A", at, 2, 2);
    const V2 u = V<V2>::make("u", at, 2, 1), v = V<V2>::make("v", at, 2, 1);
    const double k = V<double>::make("k", at, 0, 0);
    for (int j = 0; j < 2; ++j) {
      lfv::eq("nested expression", r[i](j), A(j, 0) * u(0) + A(j, 1) * u(1) + k * v(j) + A(0, j) * u(0) + A(1, j) * u(1));
      lfv::eq("evaluation can be repeated", again[i](j), r[i](j));
    }
  }
  lfv::cover("nested");
}
// constants, functions of the global coordinates, plain callables
LFV_UNIT(constant) {
  const Setting s = setting();
  const double a = lfv::real("value");
  const Eigen::Vector2d w(lfv::real("w", 0), lfv::real("w", 1));
  const mu::MeshFunctionConstant<double> f(a);
  const mu::MeshFunctionConstant<Eigen::Vector2d> g(w);
  const auto r = f(*s.e, s.p);
  const auto q = g(*s.e, s.p);
  count(r, s); count(q, s);
  for (int i = 0; i < s.p.cols(); ++i) { lfv::eq("constant", r[i], a); lfv::eq("constant", q[i](0), w(0)); lfv::eq("constant", q[i](1), w(1)); }
  lfv::cover("constant");
}
static double g_(const Eigen::VectorXd& x) { const double a[3] = {x(0), x(1), x.size() > 2 ? x(2) : 0.0}; return lfv_fun("g", 3, a); }
LFV_UNIT(global__s2) {
  using namespace lfvg;
  static const Shape S[7] = {TRI1, TRI2, QUAD1, QUAD2, PARA, SEG1, SEG2};
  const Shape sh = S[lfv::choose("shape", 7)];
  const int dw = 2 + (int)lfv::choose("world", 2), n = 1 + (int)lfv::choose("points", 3);
  const MatrixXd N = nodes(sh, dw);
  assumeNonDegenerate(sh, N);
  StubEntity e;
  e.geo_ = make(sh, N);
  e.ref_ = e.geo_->RefEl();
  e.codim_ = 2 - e.ref_.Dimension();
  const MatrixXd p = lfvg::points((int)e.ref_.Dimension(), n, "x");
  auto f = [](const Eigen::VectorXd& x) { return g_(x); };
  const mu::MeshFunctionGlobal mf(f);
  const auto r = mf(e, p);
  const MatrixXd x = e.geo_->Global(p);
  lfv::ensure("one value per point", (int)r.size() == n);
  for (int i = 0; i < n; ++i) lfv::eq("value at the image of the point", r[i], g_(Eigen::VectorXd(x.col(i))));
  lfv::cover("global");
  lfv::rejects("points of the wrong dimension are rejected", [&] { MatrixXd bad(3 - e.ref_.Dimension(), 1); bad.setZero(); mf(e, bad); });
}

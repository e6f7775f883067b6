// C11: assembly sums exactly the local contributions.
#include <lf/assemble/assemble.h>

#include <complex>

#include "any_dofs.h"
using namespace lfvm;
using lf::assemble::gdof_idx_t;
using lf::assemble::size_type;

static double x_(long i) { const double a[1] = {(double)i}; return lfv_fun("trial", 1, a); }
static double y_(long i) { const double a[1] = {(double)i}; return lfv_fun("test", 1, a); }
// the value of the assembled form at two arbitrary vectors (uninterpreted functions of the index)
template <class S>
struct Form {
  using Scalar = S;
  Form() = default;
  Form(size_type r, size_type c) : rows(r), cols(c) {}
  void setZero() { total = S(0); zeroed = true; }
  void AddToEntry(gdof_idx_t i, gdof_idx_t j, S v) { total += v * (y_(i) * x_(j)); ++n; }
  S total = S(0);
  size_type rows = 0, cols = 0;
  bool zeroed = false;
  long n = 0;
};
template <class S>
static S entry(const char* n, int e, int i, int j);
template <>
double entry<double>(const char* n, int e, int i, int j) { return lfv::real(n, 100 * e + 10 * i + j, -1, -2.0, 2.0); }
template <>
std::complex<double> entry<std::complex<double>>(const char* n, int e, int i, int j) { return {lfv::real(n, 100 * e + 10 * i + j, 0, -2.0, 2.0), lfv::real(n, 100 * e + 10 * i + j, 1, -2.0, 2.0)}; }
template <class S>
struct Matrices {
  using MAT = Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic>;
  bool isActive(const Entity& e) { return active[mesh->Index(e)]; }
  MAT Eval(const Entity& e) {
    const U k = mesh->Index(e);
    lfv::ensure("only active entities are visited", active[k]);
    ++calls[k];
    return mats[k];
  }
  std::shared_ptr<StubMesh> mesh;
  std::vector<char> active;
  std::vector<MAT> mats;
  std::vector<int> calls;
};
template <class S>
struct Vectors {
  using VEC = Eigen::Matrix<S, Eigen::Dynamic, 1>;
  bool isActive(const Entity& e) { return active[mesh->Index(e)]; }
  VEC Eval(const Entity& e) {
    const U k = mesh->Index(e);
    lfv::ensure("only active entities are visited", active[k]);
    ++calls[k];
    return vecs[k];
  }
  std::shared_ptr<StubMesh> mesh;
  std::vector<char> active;
  std::vector<VEC> vecs;
  std::vector<int> calls;
};
struct Config {
  std::shared_ptr<StubMesh> mesh;
  U codim;
  U n;  // entities
  std::vector<char> active;
};
static Config config(U maxPattern) {
  Config c;
  const int k = (int)lfv::choose("complex", 3);
  c.mesh = stubMesh(complexes()[k == 0 ? 2 : k == 1 ? 5 : 1], expectedEdges(complexes()[k == 0 ? 2 : k == 1 ? 5 : 1]));
  c.codim = (U)lfv::choose("codim", 3);
  c.n = c.mesh->NumEntities(c.codim);
  const long a = lfv::choose("active", maxPattern);
  for (U i = 0; i < c.n; ++i) c.active.push_back(a >> i & 1);
  return c;
}
// dofs of the entities of the codimension under assembly; others have none
static std::shared_ptr<AnyDofs> dofs(const Config& c, const char* name, U lmin, U lmax, bool symbolic, U N) {
  auto d = std::make_shared<AnyDofs>(c.mesh, N);
  for (U cd = 0; cd <= 2; ++cd) d->d_[cd].resize(c.mesh->NumEntities(cd));
  const long p = lfv::choose(name, lmax - lmin + 1);
  for (U k = 0; k < c.n; ++k) {
    const U len = lmin + (U)((p + k) % (lmax - lmin + 1));
    for (U i = 0; i < len; ++i) d->d_[c.codim][k].push_back(symbolic ? (gdof_idx_t)lfv::integer(name, 0, (long)N - 1, (int)(10 * k + i)) : (gdof_idx_t)((k * 7 + i * (p + 1) * 3 + p) % N));
  }
  return d;
}
template <class S>
static Matrices<S> matrices(const Config& c, const AnyDofs& test, const AnyDofs& trial, U extra) {
  Matrices<S> p;
  p.mesh = c.mesh;
  p.active = c.active;
  p.calls.assign(c.n, 0);
  for (U k = 0; k < c.n; ++k) {
    const U r = (U)test.d_[c.codim][k].size() + extra, q = (U)trial.d_[c.codim][k].size() + extra;
    typename Matrices<S>::MAT m(r, q);
    for (U i = 0; i < r; ++i) for (U j = 0; j < q; ++j) m(i, j) = entry<S>("A", (int)k, (int)i, (int)j);
    p.mats.push_back(m);
  }
  return p;
}
template <class S>
static void ends(const Config& c, const std::vector<int>& calls) { for (U k = 0; k < c.n; ++k) lfv::ensure("every active entity is visited once", calls[k] == (c.active[k] ? 1 : 0)); }
template <class S> static void eqS(const char* n, S a, S b);
template <> void eqS<double>(const char* n, double a, double b) { lfv::eq(n, a, b); }
template <> void eqS<std::complex<double>>(const char* n, std::complex<double> a, std::complex<double> b) { lfv::eq(n, a.real(), b.real()); lfv::eq(n, a.imag(), b.imag()); }
// the assembled bilinear form is the sum of the local ones, for any dof lists
template <class S>
static void form() {
  const Config c = config(4);
  auto test = dofs(c, "test dof", 1, 3, true, 1u << 30), trial = dofs(c, "trial dof", 1, 3, true, 1u << 30);
  auto p = matrices<S>(c, *test, *trial, (U)lfv::choose("extra rows", 2));
  Form<S> f;
  const S old = entry<S>("old", 0, 0, 0);
  f.total = old;
  lf::assemble::AssembleMatrixLocally(c.codim, *trial, *test, p, f);
  S sum = old;
  for (U k = 0; k < c.n; ++k)
    if (c.active[k])
      for (U i = 0; i < test->d_[c.codim][k].size(); ++i)
        for (U j = 0; j < trial->d_[c.codim][k].size(); ++j) sum += p.mats[k](i, j) * (y_(test->d_[c.codim][k][i]) * x_(trial->d_[c.codim][k][j]));
  eqS<S>("the assembled form is the old one plus the sum of the local forms", f.total, sum);
  lfv::ensure("assembly adds and does not reset", !f.zeroed);
  ends<S>(c, p.calls);
  lfv::cover("form");
}
// longer lists: high-order spaces and products of different spaces
LFV_UNIT(form_long__s2) {
  static const U R[4] = {4, 6, 3, 9}, Q[4] = {5, 2, 9, 9};
  Config c;
  c.mesh = stubMesh(complexes()[2], expectedEdges(complexes()[2]));
  c.codim = (U)lfv::choose("codim", 2);
  c.n = c.mesh->NumEntities(c.codim);
  for (U k = 0; k < c.n; ++k) c.active.push_back(k != 1);
  const U s = (U)lfv::choose("sizes", 4);
  auto test = std::make_shared<AnyDofs>(c.mesh, 1u << 30), trial = std::make_shared<AnyDofs>(c.mesh, 1u << 30);
  for (auto d : {test, trial}) for (U cd = 0; cd <= 2; ++cd) d->d_[cd].resize(c.mesh->NumEntities(cd));
  for (U k = 0; k < c.n; ++k) {
    for (U i = 0; i < R[s]; ++i) test->d_[c.codim][k].push_back((gdof_idx_t)lfv::integer("test dof", 0, (1L << 30) - 1, (int)(10 * k + i)));
    for (U i = 0; i < Q[s]; ++i) trial->d_[c.codim][k].push_back((gdof_idx_t)lfv::integer("trial dof", 0, (1L << 30) - 1, (int)(10 * k + i)));
  }
  auto p = matrices<double>(c, *test, *trial, 0);
  Form<double> f;
  lf::assemble::AssembleMatrixLocally(c.codim, *trial, *test, p, f);
  double sum = 0;
  for (U k = 0; k < c.n; ++k)
    if (c.active[k])
      for (U i = 0; i < R[s]; ++i)
        for (U j = 0; j < Q[s]; ++j) sum += p.mats[k](i, j) * (y_(test->d_[c.codim][k][i]) * x_(trial->d_[c.codim][k][j]));
  lfv::eq("the assembled form is the old one plus the sum of the local forms", f.total, sum);
  ends<double>(c, p.calls);
  lfv::cover("form");
}
LFV_UNIT(form_real__s3) { form<double>(); }
LFV_UNIT(form_complex__s3) { form<std::complex<double>>(); }
// triplet matrices: entries, dimensions, the variants that create the matrix
LFV_UNIT(coo__s4) {
  const Config c = config(8);
  const U N = 4, M = 5;
  auto test = dofs(c, "test dof", 1, 3, false, N), trial = dofs(c, "trial dof", 1, 3, false, M);
  auto p = matrices<double>(c, *test, *trial, 0);
  const bool create = lfv::choose("create", 2) == 1;
  lf::assemble::COOMatrix<double> A(N, M);
  const double old = lfv::real("old");
  if (create) A = lf::assemble::AssembleMatrixLocally<lf::assemble::COOMatrix<double>>(c.codim, *trial, *test, p);
  else { A.AddToEntry(1, 2, old); lf::assemble::AssembleMatrixLocally(c.codim, *trial, *test, p, A); }
  lfv::ensure("dimensions are those of test and trial space", A.rows() == N && A.cols() == M);
  MatrixXd E = MatrixXd::Zero(N, M);
  if (!create) E(1, 2) = old;
  for (U k = 0; k < c.n; ++k)
    if (c.active[k])
      for (U i = 0; i < test->d_[c.codim][k].size(); ++i)
        for (U j = 0; j < trial->d_[c.codim][k].size(); ++j) E(test->d_[c.codim][k][i], trial->d_[c.codim][k][j]) += p.mats[k](i, j);
  const MatrixXd D = A.makeDense();
  for (U i = 0; i < N; ++i) for (U j = 0; j < M; ++j) lfv::eq("entries are the sums of the contributions", D(i, j), E(i, j));
  ends<double>(c, p.calls);
  lfv::cover("coo");
}
LFV_UNIT(galerkin__s4) {
  const Config c = config(8);
  const U N = 4;
  auto d = dofs(c, "dof", 1, 3, false, N);
  auto p = matrices<double>(c, *d, *d, 0);
  auto A = lf::assemble::AssembleMatrixLocally<lf::assemble::COOMatrix<double>>(c.codim, *d, p);
  lfv::ensure("the matrix is square", A.rows() == N && A.cols() == N);
  MatrixXd E = MatrixXd::Zero(N, N);
  for (U k = 0; k < c.n; ++k)
    if (c.active[k])
      for (U i = 0; i < d->d_[c.codim][k].size(); ++i)
        for (U j = 0; j < d->d_[c.codim][k].size(); ++j) E(d->d_[c.codim][k][i], d->d_[c.codim][k][j]) += p.mats[k](i, j);
  const MatrixXd D = A.makeDense();
  for (U i = 0; i < N; ++i) for (U j = 0; j < N; ++j) lfv::eq("entries are the sums of the contributions", D(i, j), E(i, j));
  ends<double>(c, p.calls);
  lfv::cover("galerkin");
}
// vectors
template <class S>
static void vectors() {
  using VEC = Eigen::Matrix<S, Eigen::Dynamic, 1>;
  const Config c = config(8);
  const U N = 5;
  auto d = dofs(c, "dof", 0, 3, false, N);
  const U extra = (U)lfv::choose("extra rows", 2);
  Vectors<S> p;
  p.mesh = c.mesh;
  p.active = c.active;
  p.calls.assign(c.n, 0);
  for (U k = 0; k < c.n; ++k) {
    VEC v(d->d_[c.codim][k].size() + extra);
    for (U i = 0; i < (U)v.size(); ++i) v(i) = entry<S>("b", (int)k, (int)i, 0);
    p.vecs.push_back(v);
  }
  const bool create = lfv::choose("create", 2) == 1;
  VEC r(N), E(N);
  for (U i = 0; i < N; ++i) { E(i) = create ? S(0) : entry<S>("old", (int)i, 0, 0); r(i) = E(i); }
  if (create) r = lf::assemble::AssembleVectorLocally<VEC>(c.codim, *d, p);
  else lf::assemble::AssembleVectorLocally(c.codim, *d, p, r);
  for (U k = 0; k < c.n; ++k) if (c.active[k]) for (U i = 0; i < d->d_[c.codim][k].size(); ++i) E(d->d_[c.codim][k][i]) += p.vecs[k](i);
  lfv::ensure("length of the vector", r.size() == N);
  for (U i = 0; i < N; ++i) eqS<S>("components are the old ones plus the sums of the contributions", r(i), E(i));
  ends<S>(c, p.calls);
  lfv::cover("vector");
}
// every list of up to four dofs, repetitions included, on one entity; the neighbours have lists of their own
LFV_UNIT(vector_any_list__s3) {
  Config c;
  c.mesh = stubMesh(complexes()[2], expectedEdges(complexes()[2]));
  c.codim = (U)lfv::choose("codim", 2);
  c.n = c.mesh->NumEntities(c.codim);
  c.active.assign(c.n, 1);
  const U N = 3, at = (U)lfv::choose("entity", 2), len = (U)lfv::choose("length", 5);
  auto d = std::make_shared<AnyDofs>(c.mesh, N);
  for (U cd = 0; cd <= 2; ++cd) d->d_[cd].resize(c.mesh->NumEntities(cd));
  for (U k = 0; k < c.n; ++k)
    for (U i = 0; i < (k == at ? len : 2); ++i) d->d_[c.codim][k].push_back(k == at ? (gdof_idx_t)lfv::choose("dof", N, (int)i) : (gdof_idx_t)((k + i) % N));
  Vectors<double> p;
  p.mesh = c.mesh;
  p.active = c.active;
  p.calls.assign(c.n, 0);
  Eigen::VectorXd r(N), E(N);
  for (U i = 0; i < N; ++i) r(i) = E(i) = lfv::real("old", (int)i);
  for (U k = 0; k < c.n; ++k) {
    Eigen::VectorXd v(d->d_[c.codim][k].size());
    for (U i = 0; i < (U)v.size(); ++i) { v(i) = lfv::real("b", (int)k, (int)i); E(d->d_[c.codim][k][i]) += v(i); }
    p.vecs.push_back(v);
  }
  lf::assemble::AssembleVectorLocally(c.codim, *d, p, r);
  for (U i = 0; i < N; ++i) lfv::eq("components are the old ones plus the sums of the contributions", r(i), E(i));
  ends<double>(c, p.calls);
  lfv::cover("vector");
}
LFV_UNIT(vector_real__s4) { vectors<double>(); }
LFV_UNIT(vector_complex__s4) { vectors<std::complex<double>>(); }
// too small local matrices and vectors, different meshes
LFV_UNIT(rejected__s1) {
  const int k = (int)lfv::choose("case", 4);
  Config c;
  c.mesh = stubMesh(complexes()[2], expectedEdges(complexes()[2]));
  c.codim = 0; c.n = 2; c.active = {1, 1};
  auto test = dofs(c, "test dof", 2, 2, false, 4), trial = dofs(c, "trial dof", 2, 2, false, 4);
  auto p = matrices<double>(c, *test, *trial, 0);
  Form<double> f;
  lfv::cover("rejected");
  if (k == 0) { p.mats[1] = MatrixXd::Zero(1, 2); lfv::rejects("too few rows are rejected", [&] { lf::assemble::AssembleMatrixLocally(0, *trial, *test, p, f); }); }
  if (k == 1) { p.mats[1] = MatrixXd::Zero(2, 1); lfv::rejects("too few columns are rejected", [&] { lf::assemble::AssembleMatrixLocally(0, *trial, *test, p, f); }); }
  if (k == 2) {
    test->m_ = stubMesh(complexes()[2], expectedEdges(complexes()[2]));
    lfv::rejects("spaces on different meshes are rejected", [&] { lf::assemble::AssembleMatrixLocally(0, *trial, *test, p, f); });
  }
  if (k == 3) {
    Vectors<double> v;
    v.mesh = c.mesh; v.active = c.active; v.calls.assign(2, 0);
    v.vecs = {VectorXd::Zero(2), VectorXd::Zero(1)};
    VectorXd r = VectorXd::Zero(4);
    lfv::rejects("too short vectors are rejected", [&] { lf::assemble::AssembleVectorLocally(0, *test, v, r); });
  }
}

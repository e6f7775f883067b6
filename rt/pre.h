// Force-included when the sources are compiled for verification.  Contracts assumed of the
// external dependency Eigen (not of the repository): determinant() is the determinant,
// inverse() of a square matrix is its inverse, colPivHouseholderQr().solve() of a square
// system is its solution.  Stated as closed formulas for orders 1 to 3 (Cramer's rule);
// larger systems go through Eigen's own code.
#pragma once
#define EIGEN_NO_CPUID
#define EIGEN_GEMM_TO_COEFFBASED_THRESHOLD 1000000
#define EIGEN_STACK_ALLOCATION_LIMIT 0
#include <lf/base/lf_assert.h>
#include <Eigen/Dense>
namespace lfvpre {
template <class M>
inline double det(const M& m) {
  if (m.rows() == 0) return 1.0;
  if (m.rows() == 1) return m(0, 0);
  if (m.rows() == 2) return m(0, 0) * m(1, 1) - m(0, 1) * m(1, 0);
  return m(0, 0) * (m(1, 1) * m(2, 2) - m(1, 2) * m(2, 1)) - m(0, 1) * (m(1, 0) * m(2, 2) - m(1, 2) * m(2, 0)) + m(0, 2) * (m(1, 0) * m(2, 1) - m(1, 1) * m(2, 0));
}
inline void inverse(const Eigen::MatrixXd& m, Eigen::MatrixXd& r) {
  const double d = det(m);
  r.resize(m.rows(), m.cols());
  if (m.rows() == 1) { r(0, 0) = 1.0 / d; return; }
  if (m.rows() == 2) { r(0, 0) = m(1, 1) / d; r(0, 1) = -m(0, 1) / d; r(1, 0) = -m(1, 0) / d; r(1, 1) = m(0, 0) / d; return; }
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) {
      const int a = (j + 1) % 3, b = (j + 2) % 3, c = (i + 1) % 3, e = (i + 2) % 3;
      r(i, j) = (m(a, c) * m(b, e) - m(a, e) * m(b, c)) / d;
    }
}
}  // namespace lfvpre
namespace Eigen {
namespace internal {
template <typename Derived>
struct determinant_impl<Derived, Eigen::Dynamic> {
  static inline typename traits<Derived>::Scalar run(const Derived& m) {
    if (m.rows() <= 3) return lfvpre::det(m);
    return m.partialPivLu().determinant();
  }
};
template <typename MatrixType, typename ResultType>
struct compute_inverse<MatrixType, ResultType, Eigen::Dynamic> {
  static inline void run(const MatrixType& matrix, ResultType& result) {
    if (matrix.rows() <= 3 && matrix.rows() >= 1) {
      Eigen::MatrixXd r;
      lfvpre::inverse(Eigen::MatrixXd(matrix), r);
      result = r;
    } else
      result = matrix.partialPivLu().inverse();
  }
};
}  // namespace internal
template <>
class ColPivHouseholderQR<MatrixXd> {
  MatrixXd a_;

 public:
  ColPivHouseholderQR() {}
  template <class D>
  explicit ColPivHouseholderQR(const EigenBase<D>& m) : a_(m.derived()) {}
  template <class D>
  ColPivHouseholderQR& compute(const EigenBase<D>& m) { a_ = m.derived(); return *this; }
  template <class R>
  MatrixXd solve(const MatrixBase<R>& b) const {
    eigen_assert(a_.rows() == a_.cols() && a_.rows() >= 1 && a_.rows() <= 3);
    MatrixXd i;
    lfvpre::inverse(a_, i);
    return i * b;
  }
};
}  // namespace Eigen

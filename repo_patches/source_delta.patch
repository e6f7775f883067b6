From 808340e7191e80d6fc5e2a2615c91cfd41e5cca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:41 +0000
Subject: [PATCH 01/14] fix: define the static node coordinate tables of RefEl

RefEl::NodeCoords<type>() is documented but could not be linked because the
static members it returns were declared and never defined.
---
 lib/lf/base/ref_el.cc | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/lib/lf/base/ref_el.cc b/lib/lf/base/ref_el.cc
index e93ecb7..c49d198 100644
--- a/lib/lf/base/ref_el.cc
+++ b/lib/lf/base/ref_el.cc
@@ -13,6 +13,20 @@ const Eigen::MatrixXd RefEl::ncoords_tria_dynamic_ =
 const Eigen::MatrixXd RefEl::ncoords_quad_dynamic_ =
     (Eigen::MatrixXd{2, 4} << 0, 1, 1, 0, 0, 0, 1, 1).finished();
 
+const std::vector<Eigen::Matrix<double, 0, 1>> RefEl::ncoords_point_static_{
+    Eigen::Matrix<double, 0, 1>()};
+
+const std::vector<Eigen::Matrix<double, 1, 1>> RefEl::ncoords_segment_static_{
+    Eigen::Matrix<double, 1, 1>::Constant(0),
+    Eigen::Matrix<double, 1, 1>::Constant(1)};
+
+const std::vector<Eigen::Vector2d> RefEl::ncoords_tria_static_{
+    Eigen::Vector2d(0, 0), Eigen::Vector2d(1, 0), Eigen::Vector2d(0, 1)};
+
+const std::vector<Eigen::Vector2d> RefEl::ncoords_quad_static_{
+    Eigen::Vector2d(0, 0), Eigen::Vector2d(1, 0), Eigen::Vector2d(1, 1),
+    Eigen::Vector2d(0, 1)};
+
 // Print function
 void PrintInfo(std::ostream &stream, const RefEl &ref_el, int output_ctrl) {
   const base::dim_t dim_ref_el = ref_el.Dimension();
-- 
2.43.0


From d3bd0e1c3216bebd1a575db64bfc03bc0e85753a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:22 +0000
Subject: [PATCH 02/14] fix: second-order geometries are not affine

SegmentO2, TriaO2 and QuadO2 inherited isAffine() == true although their
Jacobians are not constant.
---
 lib/lf/geometry/quad_o2.h    | 3 +++
 lib/lf/geometry/segment_o2.h | 3 +++
 lib/lf/geometry/tria_o2.h    | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/lib/lf/geometry/quad_o2.h b/lib/lf/geometry/quad_o2.h
index 5708e13..e457f58 100644
--- a/lib/lf/geometry/quad_o2.h
+++ b/lib/lf/geometry/quad_o2.h
@@ -54,6 +54,9 @@ class QuadO2 : public Geometry {
   [[nodiscard]] std::unique_ptr<Geometry> SubGeometry(dim_t codim,
                                                       dim_t i) const override;
 
+  /** @copydoc lf::geometry::Geometry::isAffine() */
+  [[nodiscard]] bool isAffine() const override { return false; }
+
   /**
    * @copydoc lf::geometry::Geometry::ChildGeometry()
    *
diff --git a/lib/lf/geometry/segment_o2.h b/lib/lf/geometry/segment_o2.h
index 9b78605..cafdd40 100644
--- a/lib/lf/geometry/segment_o2.h
+++ b/lib/lf/geometry/segment_o2.h
@@ -49,6 +49,9 @@ class SegmentO2 : public Geometry {
   [[nodiscard]] std::unique_ptr<Geometry> SubGeometry(dim_t codim,
                                                       dim_t i) const override;
 
+  /** @copydoc lf::geometry::Geometry::isAffine() */
+  [[nodiscard]] bool isAffine() const override { return false; }
+
   [[nodiscard]] std::vector<std::unique_ptr<Geometry>> ChildGeometry(
       const RefinementPattern& ref_pat, base::dim_t codim) const override;
 
diff --git a/lib/lf/geometry/tria_o2.h b/lib/lf/geometry/tria_o2.h
index 8711771..aa71c78 100644
--- a/lib/lf/geometry/tria_o2.h
+++ b/lib/lf/geometry/tria_o2.h
@@ -56,6 +56,9 @@ class TriaO2 : public Geometry {
   [[nodiscard]] std::unique_ptr<Geometry> SubGeometry(dim_t codim,
                                                       dim_t i) const override;
 
+  /** @copydoc lf::geometry::Geometry::isAffine() */
+  [[nodiscard]] bool isAffine() const override { return false; }
+
   [[nodiscard]] std::vector<std::unique_ptr<Geometry>> ChildGeometry(
       const RefinementPattern &ref_pat, lf::base::dim_t codim) const override;
 
-- 
2.43.0


From 30e7cf293c051ed9a062ffe1eb9870cc030ce1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:07 +0000
Subject: [PATCH 03/14] fix: one shape function per vertex in
 FeHierarchicSegment

---
 lib/lf/fe/hierarchic_fe.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/lf/fe/hierarchic_fe.h b/lib/lf/fe/hierarchic_fe.h
index 2790918..d81c976 100644
--- a/lib/lf/fe/hierarchic_fe.h
+++ b/lib/lf/fe/hierarchic_fe.h
@@ -274,7 +274,7 @@ class FeHierarchicSegment final : public ScalarReferenceFiniteElement<SCALAR> {
   [[nodiscard]] lf::base::size_type NumRefShapeFunctions(
       dim_t codim) const override {
     LF_ASSERT_MSG(codim >= 0 && codim <= 1, "codim out of range.");
-    return codim == 0 ? degree_ - 1 : 2;
+    return codim == 0 ? degree_ - 1 : 1;
   }
 
   // clang-format off
-- 
2.43.0


From 76fcf99ba7684fbf9fa6b9bbef0c7c8a9ebea64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:39 +0000
Subject: [PATCH 04/14] fix: interior shape function count of
 HierarchicScalarFESpace

---
 lib/lf/fe/hierarchic_scalar_fe_space.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/lf/fe/hierarchic_scalar_fe_space.h b/lib/lf/fe/hierarchic_scalar_fe_space.h
index 03f7ba8..1b1bd08 100644
--- a/lib/lf/fe/hierarchic_scalar_fe_space.h
+++ b/lib/lf/fe/hierarchic_scalar_fe_space.h
@@ -157,7 +157,7 @@ class HierarchicScalarFESpace : public ScalarFESpace<SCALAR> {
    */
   [[nodiscard]] size_type NumRefShapeFunctions(
       const lf::mesh::Entity &entity) const override {
-    return ShapeFunctionLayout(entity)->NumRefShapeFunctions();
+    return ShapeFunctionLayout(entity)->NumRefShapeFunctions(0, 0);
   }
 
   ~HierarchicScalarFESpace() override = default;
-- 
2.43.0


From 777a64a117191660633df9a3e486db497352db9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:37 +0000
Subject: [PATCH 05/14] fix: product of mesh functions of general type returns
 one value per point

---
 lib/lf/mesh/utils/mesh_function_binary.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/lf/mesh/utils/mesh_function_binary.h b/lib/lf/mesh/utils/mesh_function_binary.h
index 0970b5f..5a50c62 100644
--- a/lib/lf/mesh/utils/mesh_function_binary.h
+++ b/lib/lf/mesh/utils/mesh_function_binary.h
@@ -628,7 +628,7 @@ struct OperatorMultiplication {
                   long /*unused*/) const {
     std::vector<decltype(u[0] * v[0])> result;
     result.reserve(u.size());
-    for (int i = 0; i < result.size(); ++i) {
+    for (int i = 0; i < u.size(); ++i) {
       result.emplace_back(u[i] * v[i]);
     }
     return result;
-- 
2.43.0


From 34b661f86f6b539d7619952d181aa591da6606b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:25 +0000
Subject: [PATCH 06/14] fix: sums and products of row-major fixed-size mesh
 functions keep the position of the entries

---
 lib/lf/mesh/utils/mesh_function_binary.h | 45 ++++++++++++++++--------
 1 file changed, 31 insertions(+), 14 deletions(-)

diff --git a/lib/lf/mesh/utils/mesh_function_binary.h b/lib/lf/mesh/utils/mesh_function_binary.h
index 5a50c62..d007c61 100644
--- a/lib/lf/mesh/utils/mesh_function_binary.h
+++ b/lib/lf/mesh/utils/mesh_function_binary.h
@@ -80,6 +80,16 @@ class MeshFunctionBinary {
  */
 namespace internal {
 
+/**
+ * @brief Is the storage order of all operands (with options `O`) the one of
+ * the result? Only then their coefficients can be combined irrespective of
+ * their position in the matrix/array.
+ */
+template <class RESULT, int... O>
+inline constexpr bool sameStorageOrder =
+    (((O & Eigen::RowMajorBit) == (RESULT::Options & Eigen::RowMajorBit)) &&
+     ...);
+
 /**
  * @brief Used together with MeshFunctionBinary (`OP` template type) to
  * represent the pointwise addition of two mesh functions.
@@ -127,7 +137,8 @@ struct OperatorAddition {
                   int /*unused*/) const {
     using scalar_t = decltype(S1(0) + S2(0));
     if constexpr (R1 != Eigen::Dynamic && C1 != Eigen::Dynamic &&
-                  R2 != Eigen::Dynamic && C2 != Eigen::Dynamic) {  // NOLINT
+                  R2 != Eigen::Dynamic && C2 != Eigen::Dynamic &&
+                  sameStorageOrder<Eigen::Matrix<scalar_t, R1, C1>, O1, O2>) {
       // add two static size eigen matrices to each other
       static_assert(R1 == R2, "cannot add matrices with different #rows.");
       static_assert(C1 == C2, "cannot add matrices with different #cols.");
@@ -145,7 +156,7 @@ struct OperatorAddition {
     }
     if constexpr ((R1 != Eigen::Dynamic && C1 != Eigen::Dynamic) ||
                   (R2 != Eigen::Dynamic && C2 != Eigen::Dynamic)) {  // NOLINT
-      // One of the matrices is fixed size:
+      // At least one of the matrices is fixed size:
       constexpr int fixedRows = std::max(R1, R2);
       constexpr int fixedCols = std::max(C1, C2);
 
@@ -185,7 +196,8 @@ struct OperatorAddition {
                   int /*unused*/) const {
     using scalar_t = decltype(S1(0) + S2(0));
     if constexpr (R1 != Eigen::Dynamic && C1 != Eigen::Dynamic &&
-                  R2 != Eigen::Dynamic && C2 != Eigen::Dynamic) {  // NOLINT
+                  R2 != Eigen::Dynamic && C2 != Eigen::Dynamic &&
+                  sameStorageOrder<Eigen::Array<scalar_t, R1, C1>, O1, O2>) {
       // add two static size eigen arrays to each other
       static_assert(R1 == R2, "cannot add arrays with different #rows.");
       static_assert(C1 == C2, "cannot add arrays with different #cols.");
@@ -203,7 +215,7 @@ struct OperatorAddition {
     }
     if constexpr ((R1 != Eigen::Dynamic && C1 != Eigen::Dynamic) ||
                   (R2 != Eigen::Dynamic && C2 != Eigen::Dynamic)) {  // NOLINT
-      // One of the arrays is fixed size:
+      // At least one of the arrays is fixed size:
       constexpr int fixedRows = std::max(R1, R2);
       constexpr int fixedCols = std::max(C1, C2);
 
@@ -295,7 +307,8 @@ struct OperatorSubtraction {
                   int /*unused*/) const {
     using scalar_t = decltype(S1(0) + S2(0));  // NOLINT
     if constexpr (R1 != Eigen::Dynamic && C1 != Eigen::Dynamic &&
-                  R2 != Eigen::Dynamic && C2 != Eigen::Dynamic) {  // NOLINT
+                  R2 != Eigen::Dynamic && C2 != Eigen::Dynamic &&
+                  sameStorageOrder<Eigen::Matrix<scalar_t, R1, C1>, O1, O2>) {
       // subtract two static size eigen matrices from each other
       static_assert(R1 == R2, "cannot subtract matrices with different #rows.");
       static_assert(C1 == C2, "cannot subtract matrices with different #cols.");
@@ -313,7 +326,7 @@ struct OperatorSubtraction {
     }
     if constexpr ((R1 != Eigen::Dynamic && C1 != Eigen::Dynamic) ||
                   (R2 != Eigen::Dynamic && C2 != Eigen::Dynamic)) {  // NOLINT
-      // One of the matrices is fixed size:
+      // At least one of the matrices is fixed size:
       constexpr int fixedRows = std::max(R1, R2);
       constexpr int fixedCols = std::max(C1, C2);
 
@@ -357,7 +370,8 @@ struct OperatorSubtraction {
                   int /*unused*/) const {
     using scalar_t = decltype(S1(0) - S2(0));
     if constexpr (R1 != Eigen::Dynamic && C1 != Eigen::Dynamic &&
-                  R2 != Eigen::Dynamic && C2 != Eigen::Dynamic) {  // NOLINT
+                  R2 != Eigen::Dynamic && C2 != Eigen::Dynamic &&
+                  sameStorageOrder<Eigen::Array<scalar_t, R1, C1>, O1, O2>) {
       // subtract two static size eigen arrays to each other
       static_assert(R1 == R2, "cannot subtract arrays with different #rows.");
       static_assert(C1 == C2, "cannot subtract arrays with different #cols.");
@@ -375,7 +389,7 @@ struct OperatorSubtraction {
     }
     if constexpr ((R1 != Eigen::Dynamic && C1 != Eigen::Dynamic) ||
                   (R2 != Eigen::Dynamic && C2 != Eigen::Dynamic)) {  // NOLINT
-      // One of the arrays is fixed size:
+      // At least one of the arrays is fixed size:
       constexpr int fixedRows = std::max(R1, R2);
       constexpr int fixedCols = std::max(C1, C2);
 
@@ -504,7 +518,8 @@ struct OperatorMultiplication {
                   int /*unused*/) const {
     using scalar_t = decltype(S1(0) * S2(0));
     if constexpr (R1 != Eigen::Dynamic && C1 != Eigen::Dynamic &&
-                  R2 != Eigen::Dynamic && C2 != Eigen::Dynamic) {  // NOLINT
+                  R2 != Eigen::Dynamic && C2 != Eigen::Dynamic &&
+                  sameStorageOrder<Eigen::Array<scalar_t, R1, C1>, O1, O2>) {
       // multiply two static size eigen arrays to each other
       static_assert(R1 == R2, "cannot multiply arrays with different #rows.");
       static_assert(C1 == C2, "cannot multiply arrays with different #cols.");
@@ -522,7 +537,7 @@ struct OperatorMultiplication {
     }
     if constexpr ((R1 != Eigen::Dynamic && C1 != Eigen::Dynamic) ||
                   (R2 != Eigen::Dynamic && C2 != Eigen::Dynamic)) {  // NOLINT
-      // One of the arrays is fixed size:
+      // At least one of the arrays is fixed size:
       constexpr int fixedRows = std::max(R1, R2);
       constexpr int fixedCols = std::max(C1, C2);
 
@@ -563,7 +578,8 @@ struct OperatorMultiplication {
                   int /*unused*/) const {
     using scalar_t = decltype(u[0] * v[0](0, 0));
     std::vector<Eigen::Matrix<scalar_t, R1, C1>> result(u.size());
-    if constexpr (R1 != Eigen::Dynamic && C1 != Eigen::Dynamic) {  // NOLINT
+    if constexpr (R1 != Eigen::Dynamic && C1 != Eigen::Dynamic &&
+                  sameStorageOrder<Eigen::Matrix<scalar_t, R1, C1>, O1>) {
       // result is a static sized matrix:
       Eigen::Map<const Eigen::Array<S1, R1 * C1, Eigen::Dynamic>> vm(
           v[0].data(), R1 * C1, v.size());
@@ -574,7 +590,7 @@ struct OperatorMultiplication {
 
       rm = vm * um.template replicate<R1 * C1, 1>();
     } else {  // NOLINT
-      // result is not static sized:
+      // result is not static sized (or not stored like the operand):
       for (std::size_t i = 0; i < u.size(); ++i) {
         result[i] = u[i] * v[i];
       }
@@ -596,7 +612,8 @@ struct OperatorMultiplication {
                   int /*unused*/) const {
     using scalar_t = decltype(u[0] * v[0](0, 0));
     std::vector<Eigen::Array<scalar_t, R1, C1>> result(u.size());
-    if constexpr (R1 != Eigen::Dynamic && C1 != Eigen::Dynamic) {
+    if constexpr (R1 != Eigen::Dynamic && C1 != Eigen::Dynamic &&
+                  sameStorageOrder<Eigen::Array<scalar_t, R1, C1>, O1>) {
       // result is a static sized array:
       Eigen::Map<const Eigen::Array<S1, R1 * C1, Eigen::Dynamic>> vm(
           v[0].data(), R1 * C1, v.size());
@@ -607,7 +624,7 @@ struct OperatorMultiplication {
 
       rm = vm * um.template replicate<R1 * C1, 1>();
     } else {
-      // result is not static sized:
+      // result is not static sized (or not stored like the operand):
       for (std::size_t i = 0; i < u.size(); ++i) {
         result[i] = u[i] * v[i];
       }
-- 
2.43.0


From 5fdc611f5db8d303b72c82f046d5eeb6722c7d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:36 +0000
Subject: [PATCH 07/14] fix: no torus mesh with fewer than three cells in a
 direction

---
 lib/lf/mesh/utils/torus_mesh_builder.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/lf/mesh/utils/torus_mesh_builder.cc b/lib/lf/mesh/utils/torus_mesh_builder.cc
index 4a28623..e3d7a67 100644
--- a/lib/lf/mesh/utils/torus_mesh_builder.cc
+++ b/lib/lf/mesh/utils/torus_mesh_builder.cc
@@ -38,6 +38,11 @@ std::shared_ptr<mesh::Mesh> TorusMeshBuilder::Build() {
   if (no_of_cells == 0) {
     return nullptr;
   }
+  // With fewer than three cells in a direction, distinct edges would have the
+  // same endpoints: such a grid of the torus is not a valid mesh
+  if (nx < 3 || ny < 3) {
+    return nullptr;
+  }
 
   const double x_size = top_right_corner_[0] - bottom_left_corner_[0];
   const double y_size = top_right_corner_[1] - bottom_left_corner_[1];
-- 
2.43.0


From 4d487cad6e2f1172f1d8cb079591661a924a24cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:47 +0000
Subject: [PATCH 08/14] fix: mass element matrices of complex shape functions
 conjugate the test function

---
 lib/lf/fe/loc_comp_ellbvp.h      |  5 +++--
 lib/lf/uscalfe/loc_comp_ellbvp.h | 12 +++++++-----
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/lib/lf/fe/loc_comp_ellbvp.h b/lib/lf/fe/loc_comp_ellbvp.h
index 4fc23de..38648c5 100644
--- a/lib/lf/fe/loc_comp_ellbvp.h
+++ b/lib/lf/fe/loc_comp_ellbvp.h
@@ -378,7 +378,8 @@ MassElementMatrixProvider<SCALAR, REACTION_COEFF>::Eval(
   // Loop over quadrature points to evaluate quadrature formula
   for (base::size_type k = 0; k < qr.NumPoints(); ++k) {
     const double w = qr.Weights()[k] * determinants[k];
-    mat += w * ((gammaval[k] * rsf.col(k)) * (rsf.col(k).adjoint()));
+    mat += w * (rsf.col(k).conjugate() *
+                (gammaval[k] * rsf.col(k)).transpose());
   }
   return mat;
 }
@@ -526,7 +527,7 @@ MassEdgeMatrixProvider<SCALAR, COEFF, EDGESELECTOR>::Eval(
     // Build local matrix by summing rank-1 contributions
     // from quadrature points.
     const auto w = (qr.Weights()[k] * determinants[k]) * gammaval[k];
-    mat += ((rsf.col(k)) * (rsf.col(k).adjoint())) * w;
+    mat += (rsf.col(k).conjugate() * rsf.col(k).transpose()) * w;
   }
   return mat;
 }
diff --git a/lib/lf/uscalfe/loc_comp_ellbvp.h b/lib/lf/uscalfe/loc_comp_ellbvp.h
index 4bd7ccd..bd9dde2 100644
--- a/lib/lf/uscalfe/loc_comp_ellbvp.h
+++ b/lib/lf/uscalfe/loc_comp_ellbvp.h
@@ -332,8 +332,9 @@ ReactionDiffusionElementMatrixProvider<
     // Transformed gradients multiplied with coefficient
     const auto alpha_trf_grad(alphaval[k] * trf_grad);
     mat += w * (trf_grad.adjoint() * alpha_trf_grad +
-                (gammaval[k] * pfe.PrecompReferenceShapeFunctions().col(k)) *
-                    (pfe.PrecompReferenceShapeFunctions().col(k).adjoint()));
+                pfe.PrecompReferenceShapeFunctions().col(k).conjugate() *
+                    (gammaval[k] * pfe.PrecompReferenceShapeFunctions().col(k))
+                        .transpose());
   }
   return mat;
 }
@@ -521,9 +522,10 @@ MassEdgeMatrixProvider<SCALAR, COEFF, EDGESELECTOR>::Eval(
     // from quadrature points.
     const auto w =
         (fe_precomp_.Qr().Weights()[k] * determinants[k]) * gammaval[k];
-    mat += ((fe_precomp_.PrecompReferenceShapeFunctions().col(k)) *
-            (fe_precomp_.PrecompReferenceShapeFunctions().col(k).adjoint())) *
-           w;
+    mat +=
+        (fe_precomp_.PrecompReferenceShapeFunctions().col(k).conjugate() *
+         fe_precomp_.PrecompReferenceShapeFunctions().col(k).transpose()) *
+        w;
   }
   return mat;
 }
-- 
2.43.0


From 3810b5d94e6d413797a0072018cac8ee6a411e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:47 +0000
Subject: [PATCH 09/14] fix: IntegrateMeshFunction integrated over the first
 entity even if not selected

---
 lib/lf/fe/fe_tools.h | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/lib/lf/fe/fe_tools.h b/lib/lf/fe/fe_tools.h
index fc599c6..58510df 100644
--- a/lib/lf/fe/fe_tools.h
+++ b/lib/lf/fe/fe_tools.h
@@ -114,8 +114,21 @@ auto IntegrateMeshFunction(
   using MfType = mesh::utils::MeshFunctionReturnType<MF>;
 
   auto entities = mesh.Entities(codim);
-  auto result = internal::LocalIntegral(**entities.begin(), qr_selector, mf);
-  for (auto i = entities.begin() + 1; i != entities.end(); ++i) {
+  // the first selected entity determines the shape of the result
+  auto i = entities.begin();
+  while (i != entities.end() && !ep(**i)) {
+    ++i;
+  }
+  if (i == entities.end()) {
+    // nothing to integrate over
+    MfType zero{};
+    if constexpr (base::EigenMatrix<MfType>) {  // NOLINT
+      zero.setZero();
+    }
+    return zero;
+  }
+  auto result = internal::LocalIntegral(**i, qr_selector, mf);
+  for (++i; i != entities.end(); ++i) {
     if (!ep(**i)) {
       continue;
     }
-- 
2.43.0


From 16cfde8a1aa0332a59b2f190dde7d0cf5a04ca3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:47 +0000
Subject: [PATCH 10/14] fix: MeshFunctionTransfer::getMesh returned the mesh
 after the coarse level instead of the fine one

---
 lib/lf/refinement/mesh_function_transfer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/lf/refinement/mesh_function_transfer.h b/lib/lf/refinement/mesh_function_transfer.h
index be8878e..3f84fff 100644
--- a/lib/lf/refinement/mesh_function_transfer.h
+++ b/lib/lf/refinement/mesh_function_transfer.h
@@ -87,7 +87,7 @@ class MeshFunctionTransfer {
    * @returns A shared pointer to the Mesh on which this MeshFunction is defined
    */
   [[nodiscard]] std::shared_ptr<const lf::mesh::Mesh> getMesh() const {
-    return mh_.getMesh(level_coarse_ + 1);
+    return mh_.getMesh(level_fine_);
   }
 
  private:
-- 
2.43.0


From 6c2c00033db5afeb64808956d70f9add23da5a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:18 +0000
Subject: [PATCH 11/14] fix: GmshReader name and number lookups read past the
 entries found

---
 lib/lf/io/gmsh_reader.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/lf/io/gmsh_reader.cc b/lib/lf/io/gmsh_reader.cc
index 5aaac08..358104c 100644
--- a/lib/lf/io/gmsh_reader.cc
+++ b/lib/lf/io/gmsh_reader.cc
@@ -53,10 +53,10 @@ size_type GmshReader::PhysicalEntityName2Nr(const std::string& name,
     if (result.second.second == codim) {
       return result.second.first;
     }
-    while (begin->second.second != codim && begin != end) {
+    while (begin != end && begin->second.second != codim) {
       ++begin;
     }
-    if (begin->second.second == codim) {
+    if (begin != end) {
       return begin->second.first;
     }
   }
@@ -87,10 +87,10 @@ std::string GmshReader::PhysicalEntityNr2Name(size_type number,
     if (result.second.second == codim) {
       return result.second.first;
     }
-    while (begin->second.second != codim && begin != end) {
+    while (begin != end && begin->second.second != codim) {
       ++begin;
     }
-    if (begin->second.second == codim) {
+    if (begin != end) {
       return begin->second.first;
     }
   }
-- 
2.43.0


From e5d1a09816d2c3e01b04a93a5f08483d98469793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:18 +0000
Subject: [PATCH 12/14] fix: GmshReader assigned further groups of a vertex of
 a V2 file to another vertex

---
 lib/lf/io/gmsh_reader.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/lf/io/gmsh_reader.cc b/lib/lf/io/gmsh_reader.cc
index 358104c..9706f36 100644
--- a/lib/lf/io/gmsh_reader.cc
+++ b/lib/lf/io/gmsh_reader.cc
@@ -191,6 +191,7 @@ void GmshReader::InitGmshFile(const GMshFileV2& msh_file) {
     const auto& n = msh_file.Nodes[i];
     if (gi2i.size() <= n.first) {
       gi2i.resize(n.first + 1, -1);
+      gi2mi.resize(n.first + 1, -1);
     }
     gi2i[n.first] = i;
 
@@ -220,7 +221,8 @@ void GmshReader::InitGmshFile(const GMshFileV2& msh_file) {
     auto ref_el = RefElOf(end_element.Type);
     auto codim = dim_mesh - ref_el.Dimension();
     if (begin_element.NodeNumbers == end_element.NodeNumbers && begin != end &&
-        begin_element.Type == end_element.Type) {
+        begin_element.Type == end_element.Type &&
+        ref_el != base::RefEl::kPoint()) {
       // This entity appears more than once
       mi2gi[codim].back().push_back(end);
       continue;
-- 
2.43.0


From 80a04c24e357eca6da433caa642ce7cbb9163af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:18 +0000
Subject: [PATCH 13/14] fix: VtkWriter misplaced interior nodes of triangles of
 order seven and higher

---
 lib/lf/io/vtk_writer.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/lf/io/vtk_writer.cc b/lib/lf/io/vtk_writer.cc
index b8a1f4c..e078a52 100644
--- a/lib/lf/io/vtk_writer.cc
+++ b/lib/lf/io/vtk_writer.cc
@@ -523,8 +523,8 @@ Eigen::MatrixXd AuxNodesTria(unsigned char order) {
       // assign interior points recursively:
       auto points = AuxNodesTria(order - 3);
       result.block(0, 3 * order - 9, 2, points.cols()) =
-          AuxNodesTria(order - 3) * (order - 6.) / order +
-          Eigen::Vector2d(2. / order, 2. / order) *
+          points * (order - 3.) / order +
+          Eigen::Vector2d(1. / order, 1. / order) *
               Eigen::MatrixXd::Ones(1, points.cols());
     }
   }
-- 
2.43.0


From 42ef5ff90d6c0e6987f84e9d6580d0b7cc93c408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:18 +0000
Subject: [PATCH 14/14] fix: VtkWriter evaluated cell data of quadrilaterals
 away from the barycenter

---
 lib/lf/io/vtk_writer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/lf/io/vtk_writer.h b/lib/lf/io/vtk_writer.h
index e5d5afa..5fd7287 100644
--- a/lib/lf/io/vtk_writer.h
+++ b/lib/lf/io/vtk_writer.h
@@ -933,7 +933,7 @@ void VtkWriter::WriteCellData(const std::string& name,
   barycenters[base::RefEl::kTria().Id()] =
       base::RefEl::kTria().NodeCoords().rowwise().sum() / 3.;
   barycenters[base::RefEl::kQuad().Id()] =
-      base::RefEl::kTria().NodeCoords().rowwise().sum() / 4.;
+      base::RefEl::kQuad().NodeCoords().rowwise().sum() / 4.;
 
   if constexpr (base::EigenArray<T> || base::EigenMatrix<T>) {
     static_assert(T::ColsAtCompileTime == 1,
-- 
2.43.0


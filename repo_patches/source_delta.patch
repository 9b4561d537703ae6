From 7ff934c59eae53edfc25991dbad78bce98eb035d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:58 +0000
Subject: [PATCH 01/16] fix: SE2 exp/log for negative and for zero rotation
 angles

The small-angle test compared theta instead of |theta|, so every negative
angle took the small-angle branch and the translation was not rotated by V.
The branch also dropped the first order term of (1 - cos)/theta, which made
the derivative of log wrong at theta = 0 with a nonzero translation.
---
 src/variables/se2.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/variables/se2.rs b/src/variables/se2.rs
index 444aa04..e6ce51f 100644
--- a/src/variables/se2.rs
+++ b/src/variables/se2.rs
@@ -91,9 +91,9 @@ impl<T: Numeric> Variable<T> for SE2<T> {
         } else {
             let A;
             let B;
-            if theta < T::from(1e-5) {
+            if theta.abs() < T::from(1e-5) {
                 A = T::from(1.0);
-                B = T::from(0.0);
+                B = theta * T::from(0.5);
             } else {
                 A = theta.sin() / theta;
                 B = (T::from(1.0) - theta.cos()) / theta;
@@ -115,9 +115,9 @@ impl<T: Numeric> Variable<T> for SE2<T> {
         } else {
             let A;
             let B;
-            if theta < T::from(1e-5) {
+            if theta.abs() < T::from(1e-5) {
                 A = T::from(1.0);
-                B = T::from(0.0);
+                B = theta * T::from(0.5);
             } else {
                 A = theta.sin() / theta;
                 B = (T::from(1.0) - theta.cos()) / theta;
-- 
2.43.0


From 2bc1bf7502820e2f02999de8e238deb210414d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:58 +0000
Subject: [PATCH 02/16] fix: SE2 adjoint used the translation-first layout and
 panicked

xy[2] is out of bounds, and the tangent space is ordered (theta, x, y).
---
 src/variables/se2.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/variables/se2.rs b/src/variables/se2.rs
index e6ce51f..6a60ec1 100644
--- a/src/variables/se2.rs
+++ b/src/variables/se2.rs
@@ -161,9 +161,10 @@ impl<T: Numeric> MatrixLieGroup<T> for SE2<T> {
 
         let r_mat = self.rot.to_matrix();
 
-        mat.fixed_view_mut::<2, 2>(0, 0).copy_from(&r_mat);
-        mat[(0, 2)] = self.xy[2];
-        mat[(1, 2)] = -self.xy[1];
+        mat[(0, 0)] = T::from(1.0);
+        mat[(1, 0)] = self.xy[1];
+        mat[(2, 0)] = -self.xy[0];
+        mat.fixed_view_mut::<2, 2>(1, 1).copy_from(&r_mat);
 
         mat
     }
-- 
2.43.0


From 3978f8a5968e56e622294dfc184e313a56370e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:58 +0000
Subject: [PATCH 03/16] fix: SE2 vee is the inverse of hat

---
 src/variables/se2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/variables/se2.rs b/src/variables/se2.rs
index 6a60ec1..5c696eb 100644
--- a/src/variables/se2.rs
+++ b/src/variables/se2.rs
@@ -181,7 +181,7 @@ impl<T: Numeric> MatrixLieGroup<T> for SE2<T> {
     }
 
     fn vee(xi: MatrixView<3, 3, T>) -> Vector3<T> {
-        Vector3::new(xi[(1, 0)], xi[(0, 1)], xi[(0, 2)])
+        Vector3::new(xi[(1, 0)], xi[(0, 2)], xi[(1, 2)])
     }
 
     fn apply(&self, v: VectorView2<T>) -> Vector2<T> {
-- 
2.43.0


From 98feb85771930c7315fae9e17c022441da5440c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:58 +0000
Subject: [PATCH 04/16] fix: SO3 exp for rotation vectors longer than 2 pi

sqrt(1 - cos^2) is |sin(theta/2)|, which has the wrong sign when theta/2 is
in (pi, 2 pi).
---
 src/variables/so3.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/variables/so3.rs b/src/variables/so3.rs
index d795c1e..ed5797a 100644
--- a/src/variables/so3.rs
+++ b/src/variables/so3.rs
@@ -125,7 +125,7 @@ impl<T: Numeric> Variable<T> for SO3<T> {
             xyzw.w = (theta * T::from(0.5)).cos();
 
             let omega = xi / theta;
-            let sin_theta_half = (T::from(1.0) - xyzw.w * xyzw.w).sqrt();
+            let sin_theta_half = (theta * T::from(0.5)).sin();
             xyzw.x = omega[0] * sin_theta_half;
             xyzw.y = omega[1] * sin_theta_half;
             xyzw.z = omega[2] * sin_theta_half;
-- 
2.43.0


From 4cca4dcd3ba0c40523f3d4123f792df52aa484e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:58 +0000
Subject: [PATCH 05/16] fix: SO3 log of quaternions with negative w

Taking |w| without negating the vector part gives the log of the inverse
rotation.
---
 src/variables/so3.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/variables/so3.rs b/src/variables/so3.rs
index ed5797a..42105f0 100644
--- a/src/variables/so3.rs
+++ b/src/variables/so3.rs
@@ -135,9 +135,13 @@ impl<T: Numeric> Variable<T> for SO3<T> {
     }
 
     fn log(&self) -> VectorX<T> {
-        let xi = vectorx![self.xyzw.x, self.xyzw.y, self.xyzw.z];
-        // Abs value in case we had a negative quaternion
-        let w = self.xyzw.w.abs();
+        let mut xi = vectorx![self.xyzw.x, self.xyzw.y, self.xyzw.z];
+        let mut w = self.xyzw.w;
+        // q and -q are the same rotation, use the one with positive w
+        if w < T::from(0.0) {
+            xi = -xi;
+            w = -w;
+        }
 
         let norm_v = xi.norm();
         if norm_v < T::from(1e-3) {
-- 
2.43.0


From 581f20d557544933ba42db407929a5533ee761f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:15 +0000
Subject: [PATCH 06/16] fix: NumericalDiff column offsets for more than one
 variable

The offset was reset for every variable, so the columns of all variables
were written over those of the first.
---
 src/linalg/numerical_diff.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/linalg/numerical_diff.rs b/src/linalg/numerical_diff.rs
index 19f07eb..fc20c39 100644
--- a/src/linalg/numerical_diff.rs
+++ b/src/linalg/numerical_diff.rs
@@ -55,8 +55,8 @@ macro_rules! numerical_maker {
                 let mut jac: MatrixX = MatrixX::zeros(res.len(), dim);
                 let mut tvs = [$( VectorX::zeros($name.dim()), )*];
 
+                let mut curr_dim = 0;
                 for i in 0..$num {
-                    let mut curr_dim = 0;
                     for j in 0..tvs[i].len() {
                         tvs[i][j] = eps;
                         // TODO: It'd be more efficient to not have to add tangent vectors to each variable
@@ -127,8 +127,8 @@ macro_rules! numerical_variable_maker {
                 let mut jac: MatrixX = MatrixX::zeros(VOut::DIM, dim);
                 let mut tvs = [$( VectorX::zeros($name.dim()), )*];
 
+                let mut curr_dim = 0;
                 for i in 0..$num {
-                    let mut curr_dim = 0;
                     for j in 0..tvs[i].len() {
                         tvs[i][j] = eps;
                         // TODO: It'd be more efficient to not have to add tangent vectors to each variable
-- 
2.43.0


From fdffe1df5fb8df2bf47edbf95c3cf1558c4c4a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:15 +0000
Subject: [PATCH 07/16] fix: forward_prop_derivative always returned a zero
 derivative

The input was converted without setting its dual part.
---
 src/linalg/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/linalg/mod.rs b/src/linalg/mod.rs
index 3433edd..e90cf83 100644
--- a/src/linalg/mod.rs
+++ b/src/linalg/mod.rs
@@ -135,7 +135,7 @@ pub fn forward_prop_derivative<F: Fn(DualScalar) -> DualScalar>(
     f: F,
     x: dtype,
 ) -> DiffResult<dtype, dtype> {
-    let xd = x.into();
+    let xd = DualScalar::from_re(x).derivative();
     let r = f(xd);
     DiffResult {
         value: r.re,
-- 
2.43.0


From 87c75abd7471334e98cd79cb5e0d0307280ad633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:15 +0000
Subject: [PATCH 08/16] fix: use the gyro noise covariance in IMU
 preintegration

The rotation block was driven by the gyro bias random walk covariance and
cov_gyro was not used at all.
---
 src/residuals/imu_preint/residual.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/residuals/imu_preint/residual.rs b/src/residuals/imu_preint/residual.rs
index 0c21949..15b2438 100644
--- a/src/residuals/imu_preint/residual.rs
+++ b/src/residuals/imu_preint/residual.rs
@@ -155,7 +155,7 @@ impl ImuPreintegrator {
         // Copy them into place
         let mut B = Matrix::<15, 15>::zeros();
         // First column (wrt theta)
-        let M = H_theta_w * p.cov_gyro_bias * H_theta_w.transpose()
+        let M = H_theta_w * p.cov_gyro * H_theta_w.transpose()
             + H_theta_winit * p.cov_winit * H_theta_winit.transpose();
         B.fixed_view_mut::<3, 3>(0, 0).copy_from(&M);
 
-- 
2.43.0


From 0ef0a8854e3090691a6505de324667a73634114e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:15 +0000
Subject: [PATCH 09/16] fix: decode every character a symbol can be created
 with

Decoding truncated the character to 8 bits, and the mask took the top bits
of the character field for index bits.
---
 src/containers/symbol.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/containers/symbol.rs b/src/containers/symbol.rs
index d34a6dc..0b5cbd3 100644
--- a/src/containers/symbol.rs
+++ b/src/containers/symbol.rs
@@ -11,7 +11,7 @@ use crate::variables::VariableUmbrella;
 const KEY_BITS: usize = u64::BITS as usize;
 const CHR_BITS: usize = size_of::<char>() * 8;
 const IDX_BITS: usize = KEY_BITS - CHR_BITS;
-const CHR_MASK: u64 = (char::MAX as u64) << IDX_BITS;
+const CHR_MASK: u64 = (u32::MAX as u64) << IDX_BITS;
 const IDX_MASK: u64 = !CHR_MASK;
 
 // ------------------------- Symbol Parser ------------------------- //
@@ -45,7 +45,8 @@ impl Symbol for DefaultSymbol {}
 
 impl From<Key> for DefaultSymbol {
     fn from(key: Key) -> Self {
-        let chr = ((key.0 & CHR_MASK) >> IDX_BITS) as u8 as char;
+        let chr = ((key.0 & CHR_MASK) >> IDX_BITS) as u32;
+        let chr = char::from_u32(chr).unwrap_or(char::REPLACEMENT_CHARACTER);
         let idx = key.0 & IDX_MASK;
         Self { chr, idx }
     }
-- 
2.43.0


From 3ab0082d1d11f517739e0740dd6c3d7828585b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:15 +0000
Subject: [PATCH 10/16] fix: order the SE2 g2o information matrix like the
 tangent space

g2o stores it for (x, y, theta), SE2 is ordered (theta, x, y).
---
 src/utils.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils.rs b/src/utils.rs
index 2317677..f537c67 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -61,7 +61,8 @@ pub fn load_g20(file: &str) -> (Graph, Values) {
                 let m22 = parts[9].parse::<dtype>().expect("Failed to parse g20");
                 let m23 = parts[10].parse::<dtype>().expect("Failed to parse g20");
                 let m33 = parts[11].parse::<dtype>().expect("Failed to parse g20");
-                let inf = Matrix3::new(m11, m12, m13, m12, m22, m23, m13, m23, m33);
+                // g2o orders as (x, y, theta), we order as (theta, x, y)
+                let inf = Matrix3::new(m33, m13, m23, m13, m11, m12, m23, m12, m22);
 
                 let key1 = X(id_prev);
                 let key2 = X(id_curr);
-- 
2.43.0


From b9114ccb262e56c128464ccf17f50e4d6ca1d7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:15 +0000
Subject: [PATCH 11/16] fix: rotation/translation cross terms of the SE3 g2o
 information matrix

The cross block was transposed when the blocks were swapped.
---
 src/utils.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index f537c67..aed2524 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -132,12 +132,12 @@ pub fn load_g20(file: &str) -> (Graph, Values) {
                 let m66 = parts[30].parse::<dtype>().expect("Failed to parse g20");
                 #[rustfmt::skip]
                 let inf = Matrix6::new(
-                    m44, m45, m46, m14, m15, m16,
-                    m45, m55, m56, m24, m25, m26,
-                    m46, m56, m66, m34, m35, m36,
-                    m14, m24, m34, m11, m12, m13,
-                    m15, m25, m35, m12, m22, m23,
-                    m16, m26, m36, m13, m23, m33,
+                    m44, m45, m46, m14, m24, m34,
+                    m45, m55, m56, m15, m25, m35,
+                    m46, m56, m66, m16, m26, m36,
+                    m14, m15, m16, m11, m12, m13,
+                    m24, m25, m26, m12, m22, m23,
+                    m34, m35, m36, m13, m23, m33,
                 );
 
                 let rot = SO3::from_xyzw(qx, qy, qz, qw);
-- 
2.43.0


From fa1d1c2df1da626c408d3074a0656bd40e8a92d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:15 +0000
Subject: [PATCH 12/16] fix: put the g2o prior on the first vertex

The prior was added with the second vertex, and a file with one vertex got
none.
---
 src/utils.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index aed2524..ea3c3b0 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -40,7 +40,7 @@ pub fn load_g20(file: &str) -> (Graph, Values) {
                 let key = X(id);
 
                 // Add prior on whatever the first variable is
-                if values.len() == 1 {
+                if values.is_empty() {
                     let factor = fac![PriorResidual::new(var.clone()), key];
                     graph.add_factor(factor);
                 }
@@ -88,7 +88,7 @@ pub fn load_g20(file: &str) -> (Graph, Values) {
                 let key = X(id);
 
                 // Add prior on whatever the first variable is
-                if values.len() == 1 {
+                if values.is_empty() {
                     let noise =
                         GaussianNoise::<6>::from_diag_covs(1e-6, 1e-6, 1e-6, 1e-4, 1e-4, 1e-4);
                     let factor = fac![PriorResidual::new(var.clone()), key, noise];
-- 
2.43.0


From 5f988cd9407282671a590eb76a2cbf2131f5196d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:52 +0000
Subject: [PATCH 13/16] fix: do not reuse a symbolic factorization for a
 different sparsity pattern

---
 src/linear/solvers.rs | 93 ++++++++++++++++++++++++-------------------
 1 file changed, 51 insertions(+), 42 deletions(-)

diff --git a/src/linear/solvers.rs b/src/linear/solvers.rs
index f09e6dc..717b95f 100644
--- a/src/linear/solvers.rs
+++ b/src/linear/solvers.rs
@@ -2,7 +2,7 @@ use std::ops::Mul;
 
 use faer::{
     prelude::SpSolver,
-    sparse::{linalg::solvers, SparseColMatRef},
+    sparse::{linalg::solvers, SparseColMatRef, SymbolicSparseColMat},
     Mat, MatRef,
 };
 
@@ -24,12 +24,37 @@ pub trait LinearSolver: Default {
     fn solve_lst_sq(&mut self, a: SparseColMatRef<usize, dtype>, b: MatRef<dtype>) -> Mat<dtype>;
 }
 
+/// Symbolic factorization, along with the sparsity pattern it was computed for
+type Symbolic<F> = Option<(SymbolicSparseColMat<usize>, F)>;
+
+/// Reuses the symbolic factorization if it was computed for the pattern of a
+fn cached<'s, F>(
+    cache: &'s mut Symbolic<F>,
+    a: SparseColMatRef<usize, dtype>,
+    factorize: impl FnOnce() -> F,
+) -> &'s F {
+    let same = cache.as_ref().is_some_and(|(pattern, _)| {
+        pattern.nrows() == a.nrows()
+            && pattern.ncols() == a.ncols()
+            && (0..a.ncols())
+                .all(|j| pattern.row_indices_of_col_raw(j) == a.symbolic().row_indices_of_col_raw(j))
+    });
+    if !same {
+        let pattern = a
+            .symbolic()
+            .to_owned()
+            .expect("Failed to copy sparsity pattern");
+        *cache = Some((pattern, factorize()));
+    }
+    &cache.as_ref().expect("Missing symbolic factorization").1
+}
+
 // ------------------------- Cholesky Linear Solver ------------------------- //
 
 /// Cholesky linear solver
 #[derive(Default)]
 pub struct CholeskySolver {
-    sparsity_pattern: Option<solvers::SymbolicCholesky<usize>>,
+    sparsity_pattern: Symbolic<solvers::SymbolicCholesky<usize>>,
 }
 
 impl LinearSolver for CholeskySolver {
@@ -38,20 +63,12 @@ impl LinearSolver for CholeskySolver {
         a: SparseColMatRef<usize, dtype>,
         b: MatRef<dtype>,
     ) -> Mat<dtype> {
-        if self.sparsity_pattern.is_none() {
-            self.sparsity_pattern = Some(
-                solvers::SymbolicCholesky::try_new(a.symbolic(), faer::Side::Lower)
-                    .expect("Symbolic cholesky failed"),
-            );
-        }
-
-        solvers::Cholesky::try_new_with_symbolic(
-            self.sparsity_pattern
-                .clone()
-                .expect("Missing symbol cholesky"),
-            a,
-            faer::Side::Lower,
-        )
+        let symbolic = cached(&mut self.sparsity_pattern, a, || {
+            solvers::SymbolicCholesky::try_new(a.symbolic(), faer::Side::Lower)
+                .expect("Symbolic cholesky failed")
+        });
+
+        solvers::Cholesky::try_new_with_symbolic(symbolic.clone(), a, faer::Side::Lower)
         .expect("Cholesky decomp failed")
         .solve(&b)
     }
@@ -74,7 +91,7 @@ impl LinearSolver for CholeskySolver {
 /// QR linear solver
 #[derive(Default)]
 pub struct QRSolver {
-    sparsity_pattern: Option<solvers::SymbolicQr<usize>>,
+    sparsity_pattern: Symbolic<solvers::SymbolicQr<usize>>,
 }
 
 impl LinearSolver for QRSolver {
@@ -87,21 +104,17 @@ impl LinearSolver for QRSolver {
     }
 
     fn solve_lst_sq(&mut self, a: SparseColMatRef<usize, dtype>, b: MatRef<dtype>) -> Mat<dtype> {
-        if self.sparsity_pattern.is_none() {
-            self.sparsity_pattern =
-                Some(solvers::SymbolicQr::try_new(a.symbolic()).expect("Symbolic QR failed"));
-        }
+        let symbolic = cached(&mut self.sparsity_pattern, a, || {
+            solvers::SymbolicQr::try_new(a.symbolic()).expect("Symbolic QR failed")
+        });
 
         // TODO: I think we're doing an extra copy here from solution -> slice solution
-        solvers::Qr::try_new_with_symbolic(
-            self.sparsity_pattern.clone().expect("Missing symbolic QR"),
-            a,
-        )
-        .expect("QR failed")
-        .solve(&b)
-        .as_ref()
-        .subrows(0, a.ncols())
-        .to_owned()
+        solvers::Qr::try_new_with_symbolic(symbolic.clone(), a)
+            .expect("QR failed")
+            .solve(&b)
+            .as_ref()
+            .subrows(0, a.ncols())
+            .to_owned()
     }
 }
 
@@ -110,7 +123,7 @@ impl LinearSolver for QRSolver {
 /// LU linear solver
 #[derive(Default)]
 pub struct LUSolver {
-    sparsity_pattern: Option<solvers::SymbolicLu<usize>>,
+    sparsity_pattern: Symbolic<solvers::SymbolicLu<usize>>,
 }
 
 impl LinearSolver for LUSolver {
@@ -119,17 +132,13 @@ impl LinearSolver for LUSolver {
         a: SparseColMatRef<usize, dtype>,
         b: MatRef<dtype>,
     ) -> Mat<dtype> {
-        if self.sparsity_pattern.is_none() {
-            self.sparsity_pattern =
-                Some(solvers::SymbolicLu::try_new(a.symbolic()).expect("Symbolic LU failed"));
-        }
-
-        solvers::Lu::try_new_with_symbolic(
-            self.sparsity_pattern.clone().expect("Symbolic LU missing"),
-            a.as_ref(),
-        )
-        .expect("LU decomp failed")
-        .solve(&b)
+        let symbolic = cached(&mut self.sparsity_pattern, a, || {
+            solvers::SymbolicLu::try_new(a.symbolic()).expect("Symbolic LU failed")
+        });
+
+        solvers::Lu::try_new_with_symbolic(symbolic.clone(), a.as_ref())
+            .expect("LU decomp failed")
+            .solve(&b)
     }
 
     fn solve_lst_sq(&mut self, a: SparseColMatRef<usize, dtype>, b: MatRef<dtype>) -> Mat<dtype> {
-- 
2.43.0


From 7b31c82a8df34efc3430a549f4367beb09c89797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:36 +0000
Subject: [PATCH 14/16] fix: accept a single key call in fac!, as the README
 shows

---
 factrs-proc/src/fac.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/factrs-proc/src/fac.rs b/factrs-proc/src/fac.rs
index 9b21744..e82b4bc 100644
--- a/factrs-proc/src/fac.rs
+++ b/factrs-proc/src/fac.rs
@@ -60,7 +60,7 @@ impl Parse for Factor {
             // in parentheses
             Expr::Tuple(t) => t.elems.clone(),
             // a single key for unary factors
-            Expr::Path(_) => {
+            Expr::Path(_) | Expr::Call(_) => {
                 let mut p = Punctuated::<Expr, Token![,]>::new();
                 p.push(input[1].clone());
                 p
-- 
2.43.0


From 3454254101f972b4adc10776cced63cf62ff6b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:36 +0000
Subject: [PATCH 15/16] verif hook: expose what was preintegrated, behind
 cfg(feature = "verif")

---
 src/residuals/imu_preint/residual.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/residuals/imu_preint/residual.rs b/src/residuals/imu_preint/residual.rs
index 15b2438..d83535c 100644
--- a/src/residuals/imu_preint/residual.rs
+++ b/src/residuals/imu_preint/residual.rs
@@ -284,6 +284,15 @@ impl ImuPreintegrator {
     }
 }
 
+/// What has been preintegrated so far, for verification
+#[cfg(feature = "verif")]
+impl ImuPreintegrator {
+    pub fn parts(&self) -> (Matrix<15, 15>, impl crate::residuals::Residual) {
+        let delta = self.delta.clone();
+        (self.cov, ImuPreintegrationResidual { delta })
+    }
+}
+
 // ------------------------- The Residual ------------------------- //
 
 #[derive(Clone, Debug)]
-- 
2.43.0


From 0de45a1f0f8ade649f7ee7f887a7eabd446aca4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:22 +0000
Subject: [PATCH 16/16] verif hook: read the IMU preintegrator's state (feature
 verif)

---
 src/residuals/imu_preint/delta.rs    | 12 ++++++++++++
 src/residuals/imu_preint/residual.rs | 13 +++++++++++++
 2 files changed, 25 insertions(+)

diff --git a/src/residuals/imu_preint/delta.rs b/src/residuals/imu_preint/delta.rs
index faef279..aa43810 100644
--- a/src/residuals/imu_preint/delta.rs
+++ b/src/residuals/imu_preint/delta.rs
@@ -157,6 +157,18 @@ impl<T: Numeric> ImuDelta<T> {
     }
 }
 
+/// What has been preintegrated so far, for verification
+#[cfg(feature = "verif")]
+impl<T: Numeric> ImuDelta<T> {
+    pub(crate) fn state(&mut self) -> (&mut T, [&mut Vector3<T>; 3], [&mut Matrix<9, 3, T>; 2]) {
+        (
+            &mut self.dt,
+            [&mut self.xi_theta, &mut self.xi_vel, &mut self.xi_pos],
+            [&mut self.h_bias_gyro, &mut self.h_bias_accel],
+        )
+    }
+}
+
 impl<T: Numeric> DualConvert for ImuDelta<T> {
     type Alias<TT: Numeric> = ImuDelta<TT>;
     fn dual_convert<TT: Numeric>(other: &Self::Alias<dtype>) -> Self::Alias<TT> {
diff --git a/src/residuals/imu_preint/residual.rs b/src/residuals/imu_preint/residual.rs
index d83535c..a3b9eb5 100644
--- a/src/residuals/imu_preint/residual.rs
+++ b/src/residuals/imu_preint/residual.rs
@@ -291,6 +291,19 @@ impl ImuPreintegrator {
         let delta = self.delta.clone();
         (self.cov, ImuPreintegrationResidual { delta })
     }
+
+    #[allow(clippy::type_complexity)]
+    pub fn state(
+        &mut self,
+    ) -> (
+        &mut dtype,
+        [&mut crate::linalg::Vector3; 3],
+        [&mut Matrix<9, 3>; 2],
+        &mut Matrix<15, 15>,
+    ) {
+        let (dt, x, h) = self.delta.state();
+        (dt, x, h, &mut self.cov)
+    }
 }
 
 // ------------------------- The Residual ------------------------- //
-- 
2.43.0


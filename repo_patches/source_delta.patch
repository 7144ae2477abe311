From 8ea300d4c605f15b3a097269aa620c2b14bb9466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:43:52 +0000
Subject: [PATCH 01/10] fix: read one past the last dense coefficient as zero
 instead of panicking

---
 src/coeff_storage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coeff_storage.rs b/src/coeff_storage.rs
index 4773bb6..23754d6 100644
--- a/src/coeff_storage.rs
+++ b/src/coeff_storage.rs
@@ -41,7 +41,7 @@ where
 
     #[inline(always)]
     fn get_by_idx(&self, idx: IndexType) -> T {
-        if idx > self.array.len() {
+        if idx >= self.array.len() {
             return T::zero();
         }
         self.array[idx].clone()
-- 
2.43.0


From 4688b074ed52d83ea08b57b559f3475722f4158c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:43:52 +0000
Subject: [PATCH 02/10] fix: do not reject invertible matrices whose next
 diagonal entry becomes zero

The pivot search of the following step swaps rows, so a zero on the diagonal
during elimination says nothing about invertibility.
---
 src/fftrepr/matrix.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/fftrepr/matrix.rs b/src/fftrepr/matrix.rs
index 96cb73d..feefaf4 100644
--- a/src/fftrepr/matrix.rs
+++ b/src/fftrepr/matrix.rs
@@ -66,9 +66,6 @@ pub(crate) fn matrix_inv<T: DivRing + Clone + Norm>(
                     return None;
                 }
             }
-            if w[(j, j)].is_zero() {
-                return None;
-            }
         }
     }
     // To diagonal
-- 
2.43.0


From 9ffc13612cfcebd568b6136d095651b95366feea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:43:52 +0000
Subject: [PATCH 03/10] fix: treat grades above the dimension as empty even
 when they exceed u32 or isize

---
 src/coeff_storage.rs | 2 +-
 src/index_utils.rs   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/coeff_storage.rs b/src/coeff_storage.rs
index 23754d6..9977ab8 100644
--- a/src/coeff_storage.rs
+++ b/src/coeff_storage.rs
@@ -174,7 +174,7 @@ where
         T: 'a,
     {
         self.coeff_enumerate()
-            .filter(move |(idx, _)| idx.count_ones() == (grade as u32))
+            .filter(move |(idx, _)| (idx.count_ones() as usize) == grade)
     }
 
     fn add(&self, rhs: &Self) -> Self {
diff --git a/src/index_utils.rs b/src/index_utils.rs
index af571f6..8730443 100644
--- a/src/index_utils.rs
+++ b/src/index_utils.rs
@@ -24,7 +24,7 @@ impl std::iter::Iterator for GradeIter {
     type Item = IndexType;
 
     fn next(&mut self) -> Option<Self::Item> {
-        if self.pos + 1 < self.weight as isize {
+        if self.pos + 1 < 0 || ((self.pos + 1) as usize) < self.weight {
             return None;
         }
 
-- 
2.43.0


From 7b80bb7def555b38e74fae1057deb9c687822778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:43:52 +0000
Subject: [PATCH 04/10] fix: do not divide by zero when building the PGA point
 at the origin

---
 src/pga.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pga.rs b/src/pga.rs
index c2c1e79..2d60670 100644
--- a/src/pga.rs
+++ b/src/pga.rs
@@ -23,8 +23,8 @@ where
 {
     fn pga_point(coords: impl IntoIterator<Item = f64>) -> Result<Self, ClError> {
         let mut coords: Vec<f64> = coords.into_iter().collect();
-        let mag = coords.iter().map(|c| c * c).sum::<f64>().sqrt();
         coords.push(f64::one());
+        let mag = coords.iter().map(|c| c * c).sum::<f64>().sqrt();
         let p = Self::from_vector(coords)?.dual();
         Ok(p / mag)
     }
-- 
2.43.0


From 91fd49487c2f510579c2a93f1fe029328cd17338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:43:52 +0000
Subject: [PATCH 05/10] fix: reject 64-dimensional algebras, whose blade count
 does not fit the index type

---
 src/algebra.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algebra.rs b/src/algebra.rs
index f372cef..67c4ad5 100644
--- a/src/algebra.rs
+++ b/src/algebra.rs
@@ -395,7 +395,7 @@ macro_rules! impl_algebra_base {
         }
         impl $crate::algebra::ClBasis<{$crate::count_items!($($signature),+)}> for $name {}
         // Limit the algebra size to fit the IndexType
-        $crate::algebra::const_assert!({$crate::count_items!($($signature),+)} <= 8*size_of::<$crate::types::IndexType>());
+        $crate::algebra::const_assert!({$crate::count_items!($($signature),+)} < 8*size_of::<$crate::types::IndexType>());
         // Optional traits implementations
         $crate::impl_split_signature!($name, $($signature),+);
         $crate::impl_non_degenerate!($name, $($signature),+);
-- 
2.43.0


From 734da281ea409f4faaa9929b364350d77db14e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:43:52 +0000
Subject: [PATCH 06/10] fix: reject a PGA translation direction of the wrong
 length

---
 src/pga.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pga.rs b/src/pga.rs
index 2d60670..adbefce 100644
--- a/src/pga.rs
+++ b/src/pga.rs
@@ -38,6 +38,10 @@ where
 
     fn pga_translation(direction: impl IntoIterator<Item = f64>) -> Result<Self, ClError> {
         let e_idx = A::proj_mask();
+        let direction: Vec<f64> = direction.into_iter().collect();
+        if direction.len() != SPC_DIM {
+            return Err(ClError::InvalidShape);
+        }
         let bivec = Self::from_indexed_iter(
             direction
                 .into_iter()
-- 
2.43.0


From a42b7f0b1f468f48f952cff77159a1b564eec36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:43:52 +0000
Subject: [PATCH 07/10] fix: report an inverse transform destination of the
 wrong length instead of panicking

---
 src/clifft/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/clifft/mod.rs b/src/clifft/mod.rs
index 219671c..2db9481 100644
--- a/src/clifft/mod.rs
+++ b/src/clifft/mod.rs
@@ -298,6 +298,9 @@ pub fn iclifft_into(
     matrix: ArrayView2<Complex64>,
     mut dest: ArrayViewMut1<Complex64>,
 ) -> Result<(), ClError> {
+    if dest.len() != matrix.len() {
+        return Err(ClError::InvalidShape);
+    }
     iclifft_nn_into(matrix, dest.view_mut())?;
 
     // Multiply imaginary basis vectors of Cl(m, m) by -i to produce Cl(2m) multivector
-- 
2.43.0


From eea856da409c04c6a7655b4ae1080a7697dd3cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:50:10 +0000
Subject: [PATCH 08/10] fix: compute sparse storage size in IndexType width

---
 src/coeff_storage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coeff_storage.rs b/src/coeff_storage.rs
index 9977ab8..74bd24f 100644
--- a/src/coeff_storage.rs
+++ b/src/coeff_storage.rs
@@ -136,7 +136,7 @@ where
     fn new(dim: usize) -> Self {
         SparseStorage {
             dim,
-            size: (1 << dim) as IndexType,
+            size: 1 << dim,
             coeffs: HashMap::new(),
         }
     }
-- 
2.43.0


From 5bcfe72079191940fe15b448e6a39363a9efe028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:32:27 +0000
Subject: [PATCH 09/10] fix: scale the argument of exp by a bound on its norm

The truncated series was evaluated at x/m with m derived from the largest
coefficient and the squared magnitude. Both can stay small while powers of x
grow, e.g. for products of (1 + b) with commuting b of square one, and the
result was off by up to 26% in Cl(4,4). The sum of the coefficient norms
(the largest row sum for the matrix form) bounds every power.
---
 src/fftrepr/mod.rs | 13 ++++++++-----
 src/lib.rs         | 10 +++++-----
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/fftrepr/mod.rs b/src/fftrepr/mod.rs
index 25f0fb5..5a34774 100644
--- a/src/fftrepr/mod.rs
+++ b/src/fftrepr/mod.rs
@@ -106,13 +106,16 @@ where
         let mut coeff = 1.0;
         let mut i = 1;
 
-        // Ensure that the magnitude and all the coefficients are below 1
-        // so that the series doesn't blow up
+        // Ensure that the norms of the entries in any row add up to at most 1
+        // so that the series converges at least as fast as the one of a number below 1
         let mut max_c: f64 = 1.0;
-        for (_, ci) in self.arr.indexed_iter() {
-            max_c = f64::max(ci.norm(), max_c);
+        for row in self.arr.axis_iter(Axis(1)) {
+            let mut row_sum: f64 = 0.0;
+            for ci in row.iter() {
+                row_sum = row_sum + ci.norm();
+            }
+            max_c = max_c.max(row_sum);
         }
-        max_c = max_c.max(self.mag2().norm().sqrt());
         max_c = max_c.ceil();
         let int_pow = max_c as usize;
         let normalized_self = self / max_c;
diff --git a/src/lib.rs b/src/lib.rs
index a8a5840..2ed0bb2 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -302,13 +302,13 @@ where
         let mut coeff = 1.0;
         let mut i = 1;
 
-        // Ensure that the magnitude and all the coefficients are below 1
-        // so that the series doesn't blow up
-        let mut max_c: f64 = 1.0;
+        // Ensure that the norms of the coefficients add up to at most 1
+        // so that the series converges at least as fast as the one of a number below 1
+        let mut max_c: f64 = 0.0;
         for (_, ci) in self.coeff_enumerate() {
-            max_c = f64::max(ci.norm(), max_c);
+            max_c = max_c + ci.norm();
         }
-        max_c = max_c.max(self.mag2().norm().sqrt());
+        max_c = max_c.max(1.0);
         max_c = max_c.ceil();
         let int_pow = max_c as usize;
         let inv_max_c = T::from(1.0 / max_c);
-- 
2.43.0


From 6dfa7c077a0a9ac2c923ce811593a35655716c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:26:45 +0000
Subject: [PATCH 10/10] fix: keep rounding residue out of the back substitution
 of matrix_inv

The entries left of a pivot are zero only up to rounding. The back
substitution used them, so that the inverse of a matrix with entries of
1e15 or more came out wrong. Start at the pivot column instead.
---
 src/fftrepr/matrix.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fftrepr/matrix.rs b/src/fftrepr/matrix.rs
index feefaf4..5147c85 100644
--- a/src/fftrepr/matrix.rs
+++ b/src/fftrepr/matrix.rs
@@ -73,7 +73,7 @@ pub(crate) fn matrix_inv<T: DivRing + Clone + Norm>(
         for j in (0..i).rev() {
             // Accommodate for non-commutative T, such as quaternions.
             let coeff = T::one().ref_div(&w[(i, i)]).ref_mul(&w[(j, i)]);
-            for m in j..2 * n {
+            for m in i..2 * n {
                 w[(j, m)] = w[(j, m)].ref_sub(&coeff.ref_mul(&w[(i, m)]));
             }
         }
-- 
2.43.0


From b565cade23538ee04c5b23fd79f664907854e275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:48 +0000
Subject: [PATCH 01/14] fix: Matrix2x2::rotation_between_axis loses the sign of
 the rotation angle

---
 crates/cglinalg_core/src/matrix.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/cglinalg_core/src/matrix.rs b/crates/cglinalg_core/src/matrix.rs
index d808038..cb82e9d 100644
--- a/crates/cglinalg_core/src/matrix.rs
+++ b/crates/cglinalg_core/src/matrix.rs
@@ -3234,7 +3234,7 @@ where
     #[inline]
     pub fn rotation_between_axis(v1: &Unit<Vector2<S>>, v2: &Unit<Vector2<S>>) -> Self {
         let cos_angle = v1.as_ref().dot(v2.as_ref());
-        let sin_angle = S::sqrt(S::one() - cos_angle * cos_angle);
+        let sin_angle = v1[0] * v2[1] - v1[1] * v2[0];
 
         Self::from_angle(Radians::atan2(sin_angle, cos_angle))
     }
-- 
2.43.0


From 4d5fd029bf213cc0e3d2cf8a617d11e8c356cf65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:13 +0000
Subject: [PATCH 02/14] fix: Quaternion::is_invertible accepts a quaternion
 whose inverse does not exist

---
 crates/cglinalg_core/src/quaternion.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/cglinalg_core/src/quaternion.rs b/crates/cglinalg_core/src/quaternion.rs
index f80c098..7fe4b7c 100644
--- a/crates/cglinalg_core/src/quaternion.rs
+++ b/crates/cglinalg_core/src/quaternion.rs
@@ -1602,7 +1602,7 @@ where
 
     #[inline]
     fn is_invertible_eps(&self, threshold: S) -> bool {
-        self.norm_squared() >= threshold * threshold
+        self.norm_squared() > threshold * threshold
     }
 
     /// Compute the inverse of a quaternion.
-- 
2.43.0


From cae5fe1e0e29f0e640f7b9247cc3fe7f44711231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:28 +0000
Subject: [PATCH 03/14] fix: Quaternion::polar_decomposition keeps the sign of
 the scalar part

The angle was computed from the absolute value of the scalar part (and was zero
for negative real quaternions), so the returned norm, half-angle and axis did
not describe quaternions with a negative scalar part.
---
 crates/cglinalg_core/src/quaternion.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/cglinalg_core/src/quaternion.rs b/crates/cglinalg_core/src/quaternion.rs
index 7fe4b7c..b6a80a2 100644
--- a/crates/cglinalg_core/src/quaternion.rs
+++ b/crates/cglinalg_core/src/quaternion.rs
@@ -3056,13 +3056,13 @@ where
         let pair = Unit::try_from_value_with_norm(*self, S::zero());
         if let Some((unit_q, norm_q)) = pair {
             if let Some(axis) = Unit::try_from_value(self.vector(), S::zero()) {
-                let cos_angle_over_two = unit_q.scalar().abs();
+                let cos_angle_over_two = unit_q.scalar();
                 let sin_angle_over_two = unit_q.vector().norm();
                 let angle_over_two = Radians::atan2(sin_angle_over_two, cos_angle_over_two);
 
                 (norm_q, angle_over_two, Some(axis))
             } else {
-                (norm_q, Radians::zero(), None)
+                (norm_q, Radians::atan2(S::zero(), unit_q.scalar()), None)
             }
         } else {
             (S::zero(), Radians::zero(), None)
-- 
2.43.0


From aa563bb80fe2f36c29e09ce2b7aff003821c3da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:39 +0000
Subject: [PATCH 04/14] fix: Complex::powi ignores most of a negative exponent

The squaring loop tests for an exponent greater than one, so a negative exponent
whose odd part exceeds one (such as -3) returned the inverse to the power of its
even part only.
---
 crates/cglinalg_core/src/complex.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/cglinalg_core/src/complex.rs b/crates/cglinalg_core/src/complex.rs
index 7df2ddf..cefc515 100644
--- a/crates/cglinalg_core/src/complex.rs
+++ b/crates/cglinalg_core/src/complex.rs
@@ -1307,8 +1307,8 @@ where
         }
 
         // exponent != 0
-        let mut _exponent = exponent;
-        let mut base = if _exponent > 0 {
+        let mut _exponent = exponent.unsigned_abs();
+        let mut base = if exponent > 0 {
             self
         } else {
             let norm_squared = self.norm_squared();
-- 
2.43.0


From 9a5c684d6844e1e7967278286a4b0d3a6dc56d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:02 +0000
Subject: [PATCH 05/14] fix: Isometry3::look_*_inv does not invert look_*

The translation of the inverse view is the position of the eye; it was the
eye taken through the inverse rotation with the wrong sign, so for an eye
away from the origin the result was not the inverse of look_to/look_at.
---
 crates/cglinalg_transform/src/isometry.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/cglinalg_transform/src/isometry.rs b/crates/cglinalg_transform/src/isometry.rs
index cc9e806..49776e3 100644
--- a/crates/cglinalg_transform/src/isometry.rs
+++ b/crates/cglinalg_transform/src/isometry.rs
@@ -1638,7 +1638,7 @@ where
     #[inline]
     pub fn look_to_lh_inv(eye: &Point3<S>, direction: &Vector3<S>, up: &Vector3<S>) -> Self {
         let rotation = Rotation3::look_to_lh_inv(direction, up);
-        let vector = rotation * (-eye) - Point3::origin();
+        let vector = eye - Point3::origin();
         let translation = Translation3::from_vector(&vector);
 
         Self::from_parts(&translation, &rotation)
@@ -1683,7 +1683,7 @@ where
     #[inline]
     pub fn look_to_rh_inv(eye: &Point3<S>, direction: &Vector3<S>, up: &Vector3<S>) -> Self {
         let rotation = Rotation3::look_to_rh_inv(direction, up);
-        let vector = rotation * (-eye) - Point3::origin();
+        let vector = eye - Point3::origin();
         let translation = Translation3::from_vector(&vector);
 
         Self::from_parts(&translation, &rotation)
@@ -1728,7 +1728,7 @@ where
     #[inline]
     pub fn look_at_lh_inv(eye: &Point3<S>, target: &Point3<S>, up: &Vector3<S>) -> Self {
         let rotation = Rotation3::look_at_lh_inv(eye, target, up);
-        let vector = rotation * (-eye) - Point3::origin();
+        let vector = eye - Point3::origin();
         let translation = Translation3::from_vector(&vector);
 
         Self::from_parts(&translation, &rotation)
@@ -1773,7 +1773,7 @@ where
     #[inline]
     pub fn look_at_rh_inv(eye: &Point3<S>, target: &Point3<S>, up: &Vector3<S>) -> Self {
         let rotation = Rotation3::look_at_rh_inv(eye, target, up);
-        let vector = rotation * (-eye) - Point3::origin();
+        let vector = eye - Point3::origin();
         let translation = Translation3::from_vector(&vector);
 
         Self::from_parts(&translation, &rotation)
-- 
2.43.0


From ca23360d072d9ef3d105d0cdfa06098298f0040d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:12 +0000
Subject: [PATCH 06/14] fix: Perspective3::project_point ignores the vertical
 offset of the frustum

The third column of the projection matrix holds the off-centre terms; the
second row used the fourth column, which is zero there, so points were
projected wrongly whenever top and bottom differ.
---
 crates/cglinalg_transform/src/projection.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/cglinalg_transform/src/projection.rs b/crates/cglinalg_transform/src/projection.rs
index f720587..99c9eb6 100644
--- a/crates/cglinalg_transform/src/projection.rs
+++ b/crates/cglinalg_transform/src/projection.rs
@@ -1921,7 +1921,7 @@ where
 
         Point3::new(
             (self.matrix.c0r0 * point.x + self.matrix.c2r0 * point.z) * inverse_w,
-            (self.matrix.c1r1 * point.y + self.matrix.c3r1 * point.z) * inverse_w,
+            (self.matrix.c1r1 * point.y + self.matrix.c2r1 * point.z) * inverse_w,
             (self.matrix.c2r2 * point.z + self.matrix.c3r2) * inverse_w,
         )
     }
-- 
2.43.0


From 6fd1d9d63df7d5731fe52911c553f0a0c781c381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:09 +0000
Subject: [PATCH 07/14] fix: Perspective3::vfov is wrong for fields of view
 above a quarter turn

The arctangent of the quotient only covers angles below ninety degrees; a
wider field of view came back negative (at ninety degrees the quotient is a
division by zero).
---
 crates/cglinalg_transform/src/projection.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/crates/cglinalg_transform/src/projection.rs b/crates/cglinalg_transform/src/projection.rs
index 99c9eb6..659f7e2 100644
--- a/crates/cglinalg_transform/src/projection.rs
+++ b/crates/cglinalg_transform/src/projection.rs
@@ -826,10 +826,8 @@ where
         let two = one + one;
         let numerator = two * self.matrix[1][1];
         let denominator = self.matrix[2][1] * self.matrix[2][1] + self.matrix[1][1] * self.matrix[1][1] - one;
-        let tan_vfov = numerator / denominator;
-        let vfov = tan_vfov.atan();
 
-        Radians(vfov)
+        Radians(numerator.atan2(denominator))
     }
 
     /// Get the position of the **near plane** of the viewing
-- 
2.43.0


From bd5e72fc16026b7ed643d84c13793a5dbea856da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:33 +0000
Subject: [PATCH 08/14] fix: projection bounds come back as NaN when the
 opposite bound is zero

far of an orthographic projection with near zero, and right and top of
either projection with left or bottom zero, went through the quotient of
the two bounds, which does not exist there; unprojecting used them.
---
 crates/cglinalg_transform/src/projection.rs | 164 ++------------------
 1 file changed, 16 insertions(+), 148 deletions(-)

diff --git a/crates/cglinalg_transform/src/projection.rs b/crates/cglinalg_transform/src/projection.rs
index 659f7e2..2736034 100644
--- a/crates/cglinalg_transform/src/projection.rs
+++ b/crates/cglinalg_transform/src/projection.rs
@@ -1145,45 +1145,17 @@ where
         // (2 * right) / (right + left) == m[2, 0] + 1
         // (2 * left) / (right + left) == -m[2, 0] + 1
         // ```
-        // Define
-        // ```text
-        // ratio := right / left
-        // ```
-        // so that
-        // ```text
-        // ratio == right / left
-        //       == (2 * right) / (2 * left)
-        //       == [(2 * right) / (right + left)] / [(2 * left) / (right + left)]
-        //       == (m[2, 0] + 1) / (-m[2, 0] + 1)
-        // ```
-        // and
-        // ```text
-        // left == right / ratio
-        // ```
-        // Using matrix element `m[0, 0]`
+        // Using the matrix element `m[0, 0]`
         // ```text
         // m[0, 0] == (2 * near) / (right + left)
         // ```
-        // or equivalently
-        // ```text
-        // 2 * near / m[0, 0] == (2 * near) * (1 / m[0, 0])
-        //                    == right + left
-        //                    == right + right / ratio
-        //                    == (1 + (1 / ratio)) * right
-        //                    == ((ratio + 1) / ratio) * right
-        // ```
-        // We obtain
+        // we obtain
         // ```text
-        // right == [(2 * near) * (ratio / (ratio + 1))] * (1 / m[0, 0])
+        // right == near * (m[2, 0] + 1) / m[0, 0]
         // ```
         // which is the desired formula.
         //
-        let one = S::one();
-        let two = one + one;
-        let ratio = (self.matrix[2][0] + one) / (-self.matrix[2][0] + one);
-        let near = self.near();
-
-        ((two * near) * (ratio / (ratio + one))) * (one / self.matrix[0][0])
+        self.near() * (self.matrix[2][0] + S::one()) / self.matrix[0][0]
     }
 
     /// Get the position of the **left plane** of the viewing
@@ -1380,45 +1352,17 @@ where
         // (2 * top) / (top + bottom) == m[2, 1] + 1
         // (2 * bottom) / (top + bottom) == -m[2, 1] + 1
         // ```
-        // Define
-        // ```text
-        // ratio := top / bottom
-        // ```
-        // so that
-        // ```text
-        // ratio == top / bottom
-        //       == (2 * top) / (2 * bottom)
-        //       == [(2 * top) / (top + bottom)] / [(2 * bottom) / (top + bottom)]
-        //       == (m[2, 1] + 1) / (-m[2, 1] + 1)
-        // ```
-        // and
-        // ```text
-        // bottom = top / ratio
-        // ```
         // Using the matrix element `m[1, 1]`
         // ```text
         // m[1, 1] == (2 * near) / (top + bottom)
         // ```
-        // or equivalently
-        // ```text
-        // (2 * near) / m[1, 1] == (2 * near) * (1 / m[1, 1])
-        //                      == top + bottom
-        //                      == top + top / ratio
-        //                      == (1 + (1 / ratio)) * top
-        //                      == ((ratio + 1) / ratio) * top
-        // ```
-        // We obtain
+        // we obtain
         // ```text
-        // top == [(2 * near) * (ratio / (ratio + 1))] * (1 / m[1, 1])
+        // top == near * (m[2, 1] + 1) / m[1, 1]
         // ```
         // which is the desired formula.
         //
-        let one = S::one();
-        let two = one + one;
-        let ratio = (self.matrix[2][1] + one) / (-self.matrix[2][1] + one);
-        let near = self.near();
-
-        ((two * near) * (ratio / (ratio + one))) * (one / self.matrix[1][1])
+        self.near() * (self.matrix[2][1] + S::one()) / self.matrix[1][1]
     }
 
     /// Get the position of the **bottom plane** of the viewing
@@ -3141,43 +3085,18 @@ where
         // ```text
         // (2 * far) / (far - near) == -m[3, 2] + 1
         // ```
-        // Define
-        // ```text
-        // ratio := far / near
-        // ```
-        // the ratio of `far` to `near` so that
-        // ```text
-        // ratio == far / near
-        //       == (2 * far) / (2 * near)
-        //       == [(2 * far) / (far - near)] / [(2 * near) / (far - near)]
-        //       == (-m[3, 2] + 1) / (-m[3, 2] - 1)
-        // ```
-        // so that
-        // ```text
-        // near == far / ratio
-        // ```
         // Using the matrix element `m[2, 2]`
         // ```text
         // m[2, 2] == -2 / (far - near)
         // ```
-        // or equivalently
-        // ```text
-        // -2 / m[2, 2] == far - near
-        //              == far - far / ratio
-        //              == (1 - (1 / ratio)) * far
-        //              == ((ratio - 1) / ratio) * far
-        // ```
         // we obtain
         // ```text
-        // far == -2 * (ratio / (ratio - 1)) * (1 / m[2, 2])
+        // far == -(-m[3, 2] + 1) / m[2, 2]
+        //     == (m[3, 2] - 1) / m[2, 2]
         // ```
         // which is the desired formula.
         //
-        let one = S::one();
-        let two = one + one;
-        let ratio = (-self.matrix[3][2] + one) / (-self.matrix[3][2] - one);
-
-        (-two * (ratio / (ratio - one))) * (one / self.matrix[2][2])
+        (self.matrix[3][2] - S::one()) / self.matrix[2][2]
     }
 
     /// Get the position of the **right plane** of the viewing
@@ -3241,43 +3160,17 @@ where
         // (2 * right) / (right + left) == -m[3, 0] + 1
         // (2 * left) / (right + left) == m[3, 0] + 1
         // ```
-        // Define
-        // ```text
-        // ratio := right / left
-        // ```
-        // so that
-        // ```text
-        // ratio == right / left
-        //       == (2 * right) / (2 * left)
-        //       == [(2 * right) / (right + left)] / [(2 * left) / (right + left)]
-        //       == (-m[3, 0] + 1) / (m[3, 0] + 1)
-        // ```
-        // and
-        // ```text
-        // left == right / ratio
-        // ```
         // Using the matrix element `m[0, 0]`
         // ```text
         // m[0, 0] == 2 / (right + left)
         // ```
-        // or equivalently
-        // ```text
-        // 2 * (1 / m[0, 0]) == right + left
-        //                   == right + right / ratio
-        //                   == (1 + (1 / ratio)) * right
-        //                   == ((ratio + 1) / ratio) * right
-        // ```
-        // We obtain
+        // we obtain
         // ```text
-        // right == 2 * (ratio / (ratio + 1)) * (1 / m[0, 0])
+        // right == (-m[3, 0] + 1) / m[0, 0]
         // ```
         // which is the desired formula.
         //
-        let one = S::one();
-        let two = one + one;
-        let ratio = (-self.matrix[3][0] + one) / (self.matrix[3][0] + one);
-
-        (two * (ratio / (ratio + one))) * (one / self.matrix[0][0])
+        (-self.matrix[3][0] + S::one()) / self.matrix[0][0]
     }
 
     /// Get the position of the **left plane** of the viewing
@@ -3440,42 +3333,17 @@ where
         // (2 * top) / (top + bottom) == -m[3, 1] + 1
         // (2 * bottom) / (top + bottom) == m[3, 1] + 1
         // ```
-        // Define
-        // ```text
-        // ratio := top / bottom
-        // ```
-        // so that
-        // ```text
-        // ratio == top / bottom
-        //       == (2 * top) / (2 * bottom)
-        //       == [(2 * top) / (top + bottom)] / [(2 * bottom) / (top + bottom)]
-        //       == (-m[3, 1] + 1) / (m[3, 1] + 1)
-        // ```
-        // and
-        // ```text
-        // bottom == top / ratio
-        // ```
         // Using the matrix element `m[1, 1]`
         // ```text
         // m[1, 1] == 2 / (top + bottom)
         // ```
-        // or equivalently
-        // ```text
-        // 2 * (1 / m[1, 1]) == top + bottom
-        //                   == top + top / ratio
-        //                   == ((ratio + 1) / ratio) * top
-        // ```
-        // We obtain
+        // we obtain
         // ```text
-        // top == 2 * (ratio / (ratio + 1)) * (1 / m[1, 1])
+        // top == (-m[3, 1] + 1) / m[1, 1]
         // ```
         // which is the desired formula.
         //
-        let one = S::one();
-        let two = one + one;
-        let ratio = (-self.matrix[3][1] + one) / (self.matrix[3][1] + one);
-
-        (two * (ratio / (ratio + one))) * (one / self.matrix[1][1])
+        (-self.matrix[3][1] + S::one()) / self.matrix[1][1]
     }
 
     /// Get the position of the **bottom plane** of the viewing
-- 
2.43.0


From 8f182201ccf2f010844ec10928e9e5a40cb13d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:16 +0000
Subject: [PATCH 09/14] fix: Isometry::abs_diff_all_eq ignored the translations

---
 crates/cglinalg_transform/src/isometry.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/cglinalg_transform/src/isometry.rs b/crates/cglinalg_transform/src/isometry.rs
index 49776e3..bab0ab1 100644
--- a/crates/cglinalg_transform/src/isometry.rs
+++ b/crates/cglinalg_transform/src/isometry.rs
@@ -1835,10 +1835,13 @@ where
 
     #[inline]
     fn abs_diff_all_eq(&self, other: &Self, max_abs_diff: &Self::AllTolerance) -> bool {
-        let lhs = self.rotation.matrix();
-        let rhs = other.rotation.matrix();
+        let lhs_rotation = self.rotation.matrix();
+        let rhs_rotation = other.rotation.matrix();
+        let lhs_translation = self.translation.vector();
+        let rhs_translation = other.translation.vector();
 
-        approx_cmp::AbsDiffAllEq::abs_diff_all_eq(lhs, rhs, max_abs_diff)
+        approx_cmp::AbsDiffAllEq::abs_diff_all_eq(lhs_rotation, rhs_rotation, max_abs_diff)
+            && approx_cmp::AbsDiffAllEq::abs_diff_all_eq(lhs_translation, rhs_translation, max_abs_diff)
     }
 }
 
-- 
2.43.0


From 27ad4f252fbbf2e667f597aeadfa053618a1f136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:02:10 +0000
Subject: [PATCH 10/14] fix: report writer errors from Display instead of
 panicking

---
 crates/cglinalg_core/src/matrix.rs | 14 +++++++-------
 crates/cglinalg_core/src/point.rs  |  4 ++--
 crates/cglinalg_core/src/vector.rs |  4 ++--
 3 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/crates/cglinalg_core/src/matrix.rs b/crates/cglinalg_core/src/matrix.rs
index cb82e9d..37e7908 100644
--- a/crates/cglinalg_core/src/matrix.rs
+++ b/crates/cglinalg_core/src/matrix.rs
@@ -1536,21 +1536,21 @@ where
     S: fmt::Display,
 {
     fn fmt(&self, formatter: &mut fmt::Formatter) -> fmt::Result {
-        write!(formatter, "Matrix{}x{} [", R, C).unwrap();
+        write!(formatter, "Matrix{}x{} [", R, C)?;
 
         for c in 0..(C - 1) {
-            write!(formatter, "[").unwrap();
+            write!(formatter, "[")?;
             for r in 0..(R - 1) {
-                write!(formatter, "{}, ", self.data[c][r]).unwrap();
+                write!(formatter, "{}, ", self.data[c][r])?;
             }
-            write!(formatter, "{}], ", self.data[c][R - 1]).unwrap();
+            write!(formatter, "{}], ", self.data[c][R - 1])?;
         }
 
-        write!(formatter, "[").unwrap();
+        write!(formatter, "[")?;
         for r in 0..(R - 1) {
-            write!(formatter, "{}, ", self.data[C - 1][r]).unwrap();
+            write!(formatter, "{}, ", self.data[C - 1][r])?;
         }
-        write!(formatter, "{}]", self.data[C - 1][R - 1]).unwrap();
+        write!(formatter, "{}]", self.data[C - 1][R - 1])?;
 
         write!(formatter, "]")
     }
diff --git a/crates/cglinalg_core/src/point.rs b/crates/cglinalg_core/src/point.rs
index 0da4f90..484e246 100644
--- a/crates/cglinalg_core/src/point.rs
+++ b/crates/cglinalg_core/src/point.rs
@@ -547,9 +547,9 @@ where
     S: fmt::Display,
 {
     fn fmt(&self, formatter: &mut fmt::Formatter) -> fmt::Result {
-        write!(formatter, "Point{} [", N).unwrap();
+        write!(formatter, "Point{} [", N)?;
         for i in 0..(N - 1) {
-            write!(formatter, "{}, ", self.coords[i]).unwrap();
+            write!(formatter, "{}, ", self.coords[i])?;
         }
         write!(formatter, "{}]", self.coords[N - 1])
     }
diff --git a/crates/cglinalg_core/src/vector.rs b/crates/cglinalg_core/src/vector.rs
index eb703f5..24c44c4 100644
--- a/crates/cglinalg_core/src/vector.rs
+++ b/crates/cglinalg_core/src/vector.rs
@@ -1192,9 +1192,9 @@ where
     S: fmt::Display,
 {
     fn fmt(&self, formatter: &mut fmt::Formatter) -> fmt::Result {
-        write!(formatter, "Vector{} [", N).unwrap();
+        write!(formatter, "Vector{} [", N)?;
         for i in 0..(N - 1) {
-            write!(formatter, "{}, ", self.data[i]).unwrap();
+            write!(formatter, "{}, ", self.data[i])?;
         }
         write!(formatter, "{}]", self.data[N - 1])
     }
-- 
2.43.0


From 4e325914300b1566a670d3298819c2ac74074016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:04 +0000
Subject: [PATCH 11/14] fix: Euler angles of a quaternion at gimbal lock

cos(asin(x)) is never exactly zero in floating point, so the gimbal lock
branch was dead and the outer angles were read from entries that are
rounding noise; a sine rounded past one gave NaN.
---
 crates/cglinalg_core/src/euler.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/crates/cglinalg_core/src/euler.rs b/crates/cglinalg_core/src/euler.rs
index e040d69..c7d4ab7 100644
--- a/crates/cglinalg_core/src/euler.rs
+++ b/crates/cglinalg_core/src/euler.rs
@@ -492,9 +492,14 @@ where
 
     #[inline]
     fn from_matrix(matrix: &Matrix3x3<S>) -> Euler<Radians<S>> {
-        let yaw = Radians::asin(matrix[2][0]);
-        let cos_yaw = Radians::cos(yaw);
-        let (pitch, roll) = if cos_yaw.abs().is_zero() {
+        let one = S::one();
+        let four = one + one + one + one;
+        // The sine may fall outside the interval [-1, 1] because of floating
+        // point inaccuracies.
+        let sin_yaw = matrix[2][0].clamp(-one, one);
+        let yaw = Radians::asin(sin_yaw);
+        let cos_yaw_squared = one - sin_yaw * sin_yaw;
+        let (pitch, roll) = if cos_yaw_squared <= four * S::default_epsilon() {
             let _pitch = Radians::zero();
             let _roll = Radians::atan2(matrix[1][2], matrix[1][1]);
 
-- 
2.43.0


From 5fe6aa8cdfd9a313b5665da88d0ca4af332e9757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:51 +0000
Subject: [PATCH 12/14] fix: arcsine, arccosine and arctangent of real
 quaternions are NaN

---
 crates/cglinalg_core/src/quaternion.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/crates/cglinalg_core/src/quaternion.rs b/crates/cglinalg_core/src/quaternion.rs
index b6a80a2..360dcda 100644
--- a/crates/cglinalg_core/src/quaternion.rs
+++ b/crates/cglinalg_core/src/quaternion.rs
@@ -3187,6 +3187,12 @@ where
     /// ```
     #[inline]
     pub fn acos(&self) -> Self {
+        if self.vector().is_zero() && self.scalar().abs() <= S::one() {
+            // The direction of the vector part is undefined here, but the
+            // result does not depend on it.
+            return Self::from_real(self.scalar().acos());
+        }
+
         let signum_vec_self = Self::from_pure(self.vector().normalize());
         let identity = Self::identity();
         let q = (self + (self.squared() - identity).sqrt()).ln();
@@ -3269,6 +3275,12 @@ where
     /// ```
     #[inline]
     pub fn asin(&self) -> Self {
+        if self.vector().is_zero() && self.scalar().abs() <= S::one() {
+            // The direction of the vector part is undefined here, but the
+            // result does not depend on it.
+            return Self::from_real(self.scalar().asin());
+        }
+
         let signum_vec_self = Self::from_pure(self.vector().normalize());
         let identity = Self::identity();
         let q = ((signum_vec_self * self) + (identity - self.squared()).sqrt()).ln();
@@ -3367,6 +3379,12 @@ where
     /// ```
     #[inline]
     pub fn atan(&self) -> Self {
+        if self.vector().is_zero() {
+            // The direction of the vector part is undefined here, but the
+            // result does not depend on it.
+            return Self::from_real(self.scalar().atan());
+        }
+
         let signum_vec_self = Self::from_pure(self.vector().normalize());
         let numerator = signum_vec_self + self;
         let denominator = signum_vec_self - self;
-- 
2.43.0


From e6eee8e8cf23941d8b0871a840374e5f59098967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:34 +0000
Subject: [PATCH 13/14] fix: build mapped, cast and rearranged matrices and
 vectors without zeroed intermediates

Assigning into a zeroed array of a type with a destructor drops the zeroed
value, so mapping a matrix to Rc entries crashed from safe code; zeroed
references and niche types are invalid even without a destructor.
---
 crates/cglinalg_core/src/matrix.rs | 48 +++++++-----------------------
 crates/cglinalg_core/src/vector.rs | 15 ++++------
 2 files changed, 17 insertions(+), 46 deletions(-)

diff --git a/crates/cglinalg_core/src/matrix.rs b/crates/cglinalg_core/src/matrix.rs
index 37e7908..eea8b8b 100644
--- a/crates/cglinalg_core/src/matrix.rs
+++ b/crates/cglinalg_core/src/matrix.rs
@@ -432,16 +432,9 @@ where
     #[allow(clippy::needless_range_loop)]
     #[inline]
     pub fn from_rows(rows: &[Vector<S, C>; R]) -> Self {
-        // SAFETY: Every location gets written into with a valid value of type `S`.
-        // PERFORMANCE: The const loop should get unrolled during optimization.
-        let mut data: [[S; R]; C] = unsafe { core::mem::zeroed() };
-        for r in 0..R {
-            for c in 0..C {
-                data[c][r] = rows[r][c];
-            }
+        Self {
+            data: core::array::from_fn(|c| core::array::from_fn(|r| rows[r][c])),
         }
-
-        Self { data }
     }
 
     /// Map an operation on the elements of a matrix, returning a matrix whose
@@ -474,16 +467,9 @@ where
     where
         F: FnMut(S) -> T,
     {
-        // SAFETY: Every location gets written into with a valid value of type `T`.
-        // PERFORMANCE: The const loop should get unrolled during optimization.
-        let mut data: [[T; R]; C] = unsafe { core::mem::zeroed() };
-        for c in 0..C {
-            for r in 0..R {
-                data[c][r] = op(self.data[c][r]);
-            }
+        Matrix {
+            data: self.data.map(|column| column.map(&mut op)),
         }
-
-        Matrix { data }
     }
 
     /// Get the row of the matrix by value.
@@ -512,14 +498,7 @@ where
     #[allow(clippy::needless_range_loop)]
     #[inline]
     pub fn row(&self, r: usize) -> Vector<S, C> {
-        // SAFETY: Every location gets written into with a value value of type `S`.
-        // PERFORMANCE: The const loop should get unrolled during optimization.
-        let mut data: [S; C] = unsafe { core::mem::zeroed() };
-        for c in 0..C {
-            data[c] = self.data[c][r];
-        }
-
-        Vector::from(data)
+        Vector::from(core::array::from_fn(|c| self.data[c][r]))
     }
 
     /// Get the column of the matrix by value.
@@ -665,19 +644,14 @@ where
     where
         T: SimdCast,
     {
-        // SAFETY: Every location gets written into with a valid value of type `T`.
-        // PERFORMANCE: The const loop should get unrolled during optimization.
-        let mut data: [[T; R]; C] = unsafe { core::mem::zeroed() };
-        for c in 0..C {
-            for r in 0..R {
-                data[c][r] = match cglinalg_numeric::try_cast(self.data[c][r]) {
-                    Some(value) => value,
-                    None => return None,
-                };
-            }
+        let data: [[Option<T>; R]; C] = self.data.map(|column| column.map(cglinalg_numeric::try_cast));
+        if data.iter().flatten().any(Option::is_none) {
+            return None;
         }
 
-        Some(Matrix { data })
+        Some(Matrix {
+            data: data.map(|column| column.map(Option::unwrap)),
+        })
     }
 }
 
diff --git a/crates/cglinalg_core/src/vector.rs b/crates/cglinalg_core/src/vector.rs
index 24c44c4..c752de8 100644
--- a/crates/cglinalg_core/src/vector.rs
+++ b/crates/cglinalg_core/src/vector.rs
@@ -114,17 +114,14 @@ where
     where
         T: SimdCast,
     {
-        // SAFETY: Every location gets written into with a valid value of type `T`.
-        // PERFORMANCE: The const loop should get unrolled during optimization.
-        let mut data: [T; N] = unsafe { core::mem::zeroed() };
-        for i in 0..N {
-            data[i] = match cglinalg_numeric::try_cast(self.data[i]) {
-                Some(value) => value,
-                None => return None,
-            };
+        let data: [Option<T>; N] = self.data.map(cglinalg_numeric::try_cast);
+        if data.iter().any(Option::is_none) {
+            return None;
         }
 
-        Some(Vector { data })
+        Some(Vector {
+            data: data.map(Option::unwrap),
+        })
     }
 }
 
-- 
2.43.0


From 7195af0aa8e139852880ce1407c11113b73e6a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:24 +0000
Subject: [PATCH 14/14] fix: the quaternion arctangent does not panic at unit
 pure quaternions

---
 crates/cglinalg_core/src/quaternion.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/cglinalg_core/src/quaternion.rs b/crates/cglinalg_core/src/quaternion.rs
index 360dcda..464bb3a 100644
--- a/crates/cglinalg_core/src/quaternion.rs
+++ b/crates/cglinalg_core/src/quaternion.rs
@@ -3388,7 +3388,9 @@ where
         let signum_vec_self = Self::from_pure(self.vector().normalize());
         let numerator = signum_vec_self + self;
         let denominator = signum_vec_self - self;
-        let q = numerator.div_right(&denominator).unwrap();
+        // The denominator is zero at the poles of the arctangent, the unit pure
+        // quaternions, where the result is not a number.
+        let q = numerator * (denominator.conjugate() / denominator.norm_squared());
 
         signum_vec_self.half() * q.ln()
     }
-- 
2.43.0


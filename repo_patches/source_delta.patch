From 3f56fd6eb2e1f6d5bc3597001ad5f4056c83b61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:24 +0000
Subject: [PATCH 01/25] fix: check cheirality of triangulated points against
 each camera, not the world origin

---
 cv-geom/src/triangulation.rs | 44 +++++++++++++++++++++---------------
 1 file changed, 26 insertions(+), 18 deletions(-)

diff --git a/cv-geom/src/triangulation.rs b/cv-geom/src/triangulation.rs
index c3cf37e..f114a32 100644
--- a/cv-geom/src/triangulation.rs
+++ b/cv-geom/src/triangulation.rs
@@ -5,6 +5,12 @@ use cv_core::{
     WorldPoint, WorldToCamera,
 };
 
+/// Checks the cheirality constraint for a point in the reference frame of the camera that observed
+/// it: the point must be on the side of the optical center that the bearing points towards.
+fn in_front(point: CameraPoint, bearing: UnitVector3<f64>) -> bool {
+    point.bearing().dot(&bearing).is_sign_positive()
+}
+
 /// This is a very quick triangulator to execute, but it is not particularly suitable for optimization.
 /// It can be used for optimization when you have very low error to begin with.
 /// It is suitable for quickly generating 3d point outputs, such as for display purposes.
@@ -120,11 +126,7 @@ impl TriangulatorObservations for LinearEigenTriangulator {
             })
             .filter(|point| {
                 // Ensure the cheirality constraint.
-                pairs.all(|(pose, bearing)| {
-                    let pose = pose.inverse().isometry();
-                    let bearing = pose * bearing;
-                    bearing.dot(&point.bearing()).is_sign_positive()
-                })
+                pairs.all(|(pose, bearing)| in_front(pose.transform(*point), bearing))
             })
     }
 }
@@ -271,7 +273,17 @@ impl TriangulatorObservations for SineL1Triangulator {
             }
         }
 
-        Some(Projective::from_point(point))
+        Some(WorldPoint::from_point(point))
+            .filter(|point| {
+                // Ensure the point contains no NaN or infinity.
+                point.homogeneous().iter().all(|n| n.is_finite())
+            })
+            .filter(|point| {
+                // The refinement moves the point, so ensure the cheirality constraint again.
+                pairs
+                    .clone()
+                    .all(|(pose, bearing)| in_front(pose.transform(*point), bearing))
+            })
     }
 }
 
@@ -353,11 +365,7 @@ impl TriangulatorRelative for RelativeDltTriangulator {
             })
             .filter(|point| {
                 // Ensure the cheirality constraint.
-                point.bearing().dot(&a).is_sign_positive()
-                    && point
-                        .bearing()
-                        .dot(&(relative_pose.isometry().inverse() * b))
-                        .is_sign_positive()
+                in_front(*point, a) && in_front(relative_pose.transform(*point), b)
             })
     }
 }
@@ -432,11 +440,7 @@ impl TriangulatorObservations for MeanMeanTriangulator {
         })
         .filter(|point| {
             // Ensure the cheirality constraint.
-            pairs.all(|(pose, bearing)| {
-                let pose = pose.inverse().isometry();
-                let bearing = pose * bearing;
-                bearing.dot(&point.bearing()).is_sign_positive()
-            })
+            pairs.all(|(pose, bearing)| in_front(pose.transform(*point), bearing))
         })
     }
 }
@@ -481,6 +485,7 @@ impl TriangulatorRelative for AngularL1Triangulator {
         // Technically, everything could have been reversed below, but it would be tedious and it would
         // not reflect the paper.
         let relative_pose = original_relative_pose.inverse();
+        let (observed_a, observed_b) = (a, b);
         let (a, b) = (b, a);
 
         // Transform a into the perspective of the second camera.
@@ -524,7 +529,8 @@ impl TriangulatorRelative for AngularL1Triangulator {
         })
         .filter(|point| {
             // Ensure the cheirality constraint.
-            point.bearing().dot(&a).is_sign_positive() && point.bearing().dot(&b).is_sign_positive()
+            in_front(*point, observed_a)
+                && in_front(original_relative_pose.transform(*point), observed_b)
         })
     }
 }
@@ -567,6 +573,7 @@ impl TriangulatorRelative for AngularLInfinityTriangulator {
         // Technically, everything could have been reversed below, but it would be tedious and it would
         // not reflect the paper.
         let relative_pose = original_relative_pose.inverse();
+        let (observed_a, observed_b) = (a, b);
         let (a, b) = (b, a);
 
         // Transform a into the perspective of the second camera.
@@ -600,7 +607,8 @@ impl TriangulatorRelative for AngularLInfinityTriangulator {
         })
         .filter(|point| {
             // Ensure the cheirality constraint.
-            point.bearing().dot(&a).is_sign_positive() && point.bearing().dot(&b).is_sign_positive()
+            in_front(*point, observed_a)
+                && in_front(original_relative_pose.transform(*point), observed_b)
         })
     }
 }
-- 
2.43.0


From edb3a90e7f89c9eef11bae821e51400ccacca810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:42 +0000
Subject: [PATCH 02/25] fix: rotation columns of the pose jacobian have no
 homogeneous component

---
 cv-core/src/pose.rs | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/cv-core/src/pose.rs b/cv-core/src/pose.rs
index 1a4f104..f491ddc 100644
--- a/cv-core/src/pose.rs
+++ b/cv-core/src/pose.rs
@@ -78,7 +78,7 @@ pub trait Pose: From<IsometryMatrix3<f64>> + Clone + Copy {
     ) -> (Self::OutputPoint, Matrix4<f64>, Matrix4x6<f64>) {
         let (rotated, output) = pose_rotated_output(self, input);
         let jacobian_input = pose_jacobian_input(self);
-        let jacobian_self = pose_jacobian_self(self, rotated, output);
+        let jacobian_self = pose_jacobian_self(rotated, output);
         (
             Projective::from_homogeneous(output),
             jacobian_input,
@@ -112,7 +112,7 @@ pub trait Pose: From<IsometryMatrix3<f64>> + Clone + Copy {
         input: Self::InputPoint,
     ) -> (Self::OutputPoint, Matrix4x6<f64>) {
         let (rotated, output) = pose_rotated_output(self, input);
-        let jacobian_self = pose_jacobian_self(self, rotated, output);
+        let jacobian_self = pose_jacobian_self(rotated, output);
         (Projective::from_homogeneous(output), jacobian_self)
     }
 
@@ -145,21 +145,14 @@ fn pose_jacobian_input<P: Pose>(pose: P) -> Matrix4<f64> {
 }
 
 /// Retrieves the Jacobian relating the output to the pose in se(3)
-fn pose_jacobian_self<P: Pose>(
-    pose: P,
-    rotated: Vector4<f64>,
-    output: Vector4<f64>,
-) -> Matrix4x6<f64> {
-    // The translation homogeneous matrix
-    //
-    // This is also the jacobian of the output in respect to the rotation output.
-    let translation = pose.isometry().translation.to_homogeneous();
-
+fn pose_jacobian_self(rotated: Vector4<f64>, output: Vector4<f64>) -> Matrix4x6<f64> {
     // dP/dT (Jacobian of output point in respect to translation component)
     let dp_dt = Matrix4::<f64>::identity() * output.w;
 
     // dP/ds (Jacobian of output point in respect to skew component)
-    let dp_ds = translation * Skew3::jacobian_self(rotated.xyz()).to_homogeneous();
+    //
+    // The translation does not depend on the rotation, so the `w` component is always zero.
+    let dp_ds = Skew3::jacobian_self(rotated.xyz()).to_homogeneous();
 
     // dP/dT,s (Jacobian of 3d camera point in respect to translation and skew)
     Matrix6x4::<f64>::from_rows(&[
-- 
2.43.0


From 962f795cd2829bd6a66d118162fed0da1041dcdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:53 +0000
Subject: [PATCH 03/25] fix: Skew3::jacobian_self returns -hat(y) as documented

---
 cv-core/src/pose.rs | 4 +++-
 cv-core/src/so3.rs  | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/cv-core/src/pose.rs b/cv-core/src/pose.rs
index f491ddc..5d41025 100644
--- a/cv-core/src/pose.rs
+++ b/cv-core/src/pose.rs
@@ -152,7 +152,9 @@ fn pose_jacobian_self(rotated: Vector4<f64>, output: Vector4<f64>) -> Matrix4x6<
     // dP/ds (Jacobian of output point in respect to skew component)
     //
     // The translation does not depend on the rotation, so the `w` component is always zero.
-    let dp_ds = Skew3::jacobian_self(rotated.xyz()).to_homogeneous();
+    let dp_ds = Skew3::jacobian_self(rotated.xyz())
+        .transpose()
+        .to_homogeneous();
 
     // dP/dT,s (Jacobian of 3d camera point in respect to translation and skew)
     Matrix6x4::<f64>::from_rows(&[
diff --git a/cv-core/src/so3.rs b/cv-core/src/so3.rs
index 148f0b7..9ef10b6 100644
--- a/cv-core/src/so3.rs
+++ b/cv-core/src/so3.rs
@@ -241,7 +241,7 @@ impl Skew3 {
     /// Note that when working with homogeneous projective coordinates, only the first three components
     /// (the bearing) are relevant, hence the resulting matrix is a [`Matrix3`].
     pub fn jacobian_self(y: Vector3<f64>) -> Matrix3<f64> {
-        y.cross_matrix()
+        -y.cross_matrix()
     }
 }
 
-- 
2.43.0


From cfce9d6cceca82b90d20ffb2e351052571d095c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:28 +0000
Subject: [PATCH 04/25] fix: log map of half-turns

---
 cv-core/src/so3.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cv-core/src/so3.rs b/cv-core/src/so3.rs
index 9ef10b6..78456be 100644
--- a/cv-core/src/so3.rs
+++ b/cv-core/src/so3.rs
@@ -3,7 +3,9 @@ use core::{
     ops::{Add, AddAssign},
 };
 use derive_more::{AsMut, AsRef, Deref, DerefMut, From, Into};
-use nalgebra::{Const, IsometryMatrix3, Matrix3, Matrix4, Rotation3, Unit, Vector3, Vector6};
+use nalgebra::{
+    Const, IsometryMatrix3, Matrix3, Matrix4, Rotation3, Unit, UnitQuaternion, Vector3, Vector6,
+};
 use num_traits::Float;
 #[cfg(feature = "serde-serialize")]
 use serde::{Deserialize, Serialize};
@@ -263,7 +265,9 @@ impl From<Skew3> for Rotation3<f64> {
 /// This is the log map.
 impl From<Rotation3<f64>> for Skew3 {
     fn from(r: Rotation3<f64>) -> Self {
-        let skew3 = r.scaled_axis();
+        // The axis can't be extracted from the antisymmetric part of the rotation matrix, as
+        // `Rotation3::scaled_axis` does, because that part vanishes for half-turns.
+        let skew3 = UnitQuaternion::from_rotation_matrix(&r).scaled_axis();
         // TODO: File issue on `nalgebra`, as this shouldn't happen and is bug.
         let skew3 = if skew3.iter().any(|n| n.is_nan()) {
             Vector3::zeros()
-- 
2.43.0


From f45e8437a31636695c631b047d1649c388c952d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:28 +0000
Subject: [PATCH 05/25] fix: Se3TangentSpace::inverse inverts the isometry it
 represents

---
 cv-core/src/so3.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cv-core/src/so3.rs b/cv-core/src/so3.rs
index 78456be..5d8a56f 100644
--- a/cv-core/src/so3.rs
+++ b/cv-core/src/so3.rs
@@ -43,12 +43,15 @@ impl Se3TangentSpace {
         }
     }
 
-    /// Inverts the transformation, which is very cheap.
+    /// Inverts the transformation.
     #[must_use]
     #[inline(always)]
     pub fn inverse(self) -> Self {
+        // The translation is applied before the rotation, so the inverse has to translate by the
+        // rotated translation.
+        let rotation = Rotation3::from_scaled_axis(self.rotation);
         Self {
-            translation: -self.translation,
+            translation: -(rotation * self.translation),
             rotation: -self.rotation,
         }
     }
-- 
2.43.0


From 2687b7b4213b7d7705cefa745a2be4e6a3dce5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:28 +0000
Subject: [PATCH 06/25] fix: CameraSpecification::intrinsics_centered puts the
 principal point at the center of the pixels

---
 cv-pinhole/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cv-pinhole/src/lib.rs b/cv-pinhole/src/lib.rs
index cf25f95..f1d743c 100644
--- a/cv-pinhole/src/lib.rs
+++ b/cv-pinhole/src/lib.rs
@@ -279,7 +279,7 @@ impl CameraSpecification {
     pub fn intrinsics_centered(&self, focal: f64) -> CameraIntrinsics {
         CameraIntrinsics::identity()
             .focal(focal)
-            .principal_point(self.pixel_dimensions.map(|p| p / 2.0 - 0.5).into())
+            .principal_point(self.pixels.map(|p| p as f64 / 2.0 - 0.5).into())
     }
 }
 
-- 
2.43.0


From 0a234ab2ae18803f03a08948e908ddcc93ff69bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:28 +0000
Subject: [PATCH 07/25] fix: uncalibrate returns None for bearings in the plane
 of the camera

---
 cv-pinhole/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cv-pinhole/src/lib.rs b/cv-pinhole/src/lib.rs
index f1d743c..7058776 100644
--- a/cv-pinhole/src/lib.rs
+++ b/cv-pinhole/src/lib.rs
@@ -132,7 +132,7 @@ impl CameraModel for CameraIntrinsics {
     /// assert!((kp.0 - ukp.0).norm() < 1e-6);
     /// ```
     fn uncalibrate(&self, projection: UnitVector3<f64>) -> Option<KeyPoint> {
-        projection.z.is_sign_positive().then_some(())?;
+        (projection.z > 0.0).then_some(())?;
         let projection = projection.xy() / projection.z;
         let y = projection.y * self.focals.y;
         let x = projection.x * self.focals.x + self.skew * projection.y;
@@ -222,7 +222,7 @@ impl CameraModel for CameraIntrinsicsK1Distortion {
     /// assert!((kp.0 - ukp.0).norm() < 1e-6, "{:?}", (kp.0 - ukp.0).norm());
     /// ```
     fn uncalibrate(&self, projection: UnitVector3<f64>) -> Option<KeyPoint> {
-        projection.z.is_sign_positive().then_some(())?;
+        (projection.z > 0.0).then_some(())?;
         let undistorted = projection.xy() / projection.z;
         // You can set up a quadratic to solve for r^2 with the undistorted keypoint. This is the result.
         let u2 = undistorted.norm_squared();
-- 
2.43.0


From 8d62ff8827654817289313cabe38d12eaf591d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:41 +0000
Subject: [PATCH 08/25] fix: K1 uncalibrate is undefined without distortion, at
 the principal point and outside of its range

---
 cv-pinhole/src/lib.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/cv-pinhole/src/lib.rs b/cv-pinhole/src/lib.rs
index 7058776..262c80d 100644
--- a/cv-pinhole/src/lib.rs
+++ b/cv-pinhole/src/lib.rs
@@ -226,9 +226,11 @@ impl CameraModel for CameraIntrinsicsK1Distortion {
         let undistorted = projection.xy() / projection.z;
         // You can set up a quadratic to solve for r^2 with the undistorted keypoint. This is the result.
         let u2 = undistorted.norm_squared();
-        // This is actually r^2 * k1.
-        let r2_mul_k1 = -(2.0 * self.k1 * u2 + Float::sqrt(1.0 - 4.0 * self.k1 * u2) - 1.0)
-            / (2.0 * self.k1 * u2);
+        // There is no distorted keypoint if the quadratic has no real root.
+        let discriminant = 1.0 - 4.0 * self.k1 * u2;
+        (discriminant >= 0.0).then_some(())?;
+        // This is actually r^2 * k1, written such that it is also defined when k1 or u2 is zero.
+        let r2_mul_k1 = 2.0 * self.k1 * u2 / (1.0 - 2.0 * self.k1 * u2 + Float::sqrt(discriminant));
         let distorted = undistorted * (1.0 + r2_mul_k1);
         let y = distorted.y * self.simple_intrinsics.focals.y;
         let x = distorted.x * self.simple_intrinsics.focals.x
-- 
2.43.0


From eee525327cae3ca2d0e8b56258586529985a5fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:41 +0000
Subject: [PATCH 09/25] fix: eight-point encodes the second bearing with its
 own depth

---
 eight-point/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eight-point/src/lib.rs b/eight-point/src/lib.rs
index fdea941..83591bc 100644
--- a/eight-point/src/lib.rs
+++ b/eight-point/src/lib.rs
@@ -13,7 +13,7 @@ fn encode_epipolar_equation(matches: impl Iterator<Item = FeatureMatch>) -> OMat
     for (i, FeatureMatch(a, b)) in (0..8).zip(matches) {
         let mut row = OVector::<f64, U9>::zeros();
         let ap = a.into_inner() / a.z;
-        let bp = b.into_inner() / a.z;
+        let bp = b.into_inner() / b.z;
         for j in 0..3 {
             let v = ap[j] * bp;
             row.fixed_rows_mut::<3>(3 * j).copy_from(&v);
-- 
2.43.0


From cadba9cf8354b6bb287ce5d431c6760b8cbe0124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:41 +0000
Subject: [PATCH 10/25] fix: five-point extracts the null space coordinates
 from the last rows of the eigenvector

---
 nister-stewenius/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nister-stewenius/src/lib.rs b/nister-stewenius/src/lib.rs
index 17c99cd..8053c3d 100644
--- a/nister-stewenius/src/lib.rs
+++ b/nister-stewenius/src/lib.rs
@@ -227,7 +227,7 @@ fn essentials_from_action_ebasis(
             if e.im == 0.0 {
                 let e = e.re;
                 // Solve for the eigen vector.
-                compute_eigenvector(&at, e).map(|v| v.fixed_rows::<4>(5).into_owned())
+                compute_eigenvector(&at, e).map(|v| v.fixed_rows::<4>(6).into_owned())
             } else {
                 None
             }
-- 
2.43.0


From c8433c7e1a51e1a58059e3e17188003b3d1deff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:24 +0000
Subject: [PATCH 11/25] fix: five-point returns nothing for degenerate samples

---
 nister-stewenius/src/lib.rs | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/nister-stewenius/src/lib.rs b/nister-stewenius/src/lib.rs
index 8053c3d..584d1b8 100644
--- a/nister-stewenius/src/lib.rs
+++ b/nister-stewenius/src/lib.rs
@@ -242,23 +242,27 @@ fn five_points_relative_pose(
     a: &[UnitVector3<f64>; 5],
     b: &[UnitVector3<f64>; 5],
 ) -> impl Iterator<Item = EssentialMatrix> {
+    // There is no solution if the points are degenerate.
+    five_points_action_ebasis(a, b)
+        .into_iter()
+        .flat_map(|(at, e_basis)| essentials_from_action_ebasis(at, e_basis))
+}
+
+/// Takes in two sets of normalized key points.
+/// Returns the action matrix and the basis of the null space, or `None` if the points are degenerate.
+fn five_points_action_ebasis(
+    a: &[UnitVector3<f64>; 5],
+    b: &[UnitVector3<f64>; 5],
+) -> Option<(Square10, NullspaceMat)> {
     // Step 1: Nullspace Extraction.
-    let e_basis = if let Some(m) = five_points_nullspace_basis(a, b) {
-        m
-    } else {
-        return essentials_from_action_ebasis(Square10::zeros(), NullspaceMat::zeros());
-    };
+    let e_basis = five_points_nullspace_basis(a, b)?;
 
     // Step 2: Constraint Expansion.
     let e_constraints = five_points_polynomial_constraints(&e_basis);
 
     // Step 3: Gauss-Jordan Elimination (done thanks to a LU decomposition).
     let c_lu = e_constraints.fixed_slice::<10, 10>(0, 0).full_piv_lu();
-    let m = if let Some(m) = c_lu.solve(&e_constraints.fixed_slice::<10, 10>(0, 10).into_owned()) {
-        m
-    } else {
-        return essentials_from_action_ebasis(Square10::zeros(), NullspaceMat::zeros());
-    };
+    let m = c_lu.solve(&e_constraints.fixed_slice::<10, 10>(0, 10).into_owned())?;
 
     // For next steps we follow the matlab code given in Stewenius et al [1].
 
@@ -276,7 +280,7 @@ fn five_points_relative_pose(
     at[(8, 3)] = -1.0;
     at[(9, 6)] = -1.0;
 
-    essentials_from_action_ebasis(at, e_basis)
+    Some((at, e_basis))
 }
 
 /// Implements the 5-point algorithm from the paper "Recent developments on direct relative orientation".
-- 
2.43.0


From f90974f813c28cba8ea44254a7f7d6ba87e229bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:28 +0000
Subject: [PATCH 12/25] fix: single-view L1 optimizer turns the pose into NaN
 when every landmark is at infinity

---
 cv-optimize/src/single_view_optimizer.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cv-optimize/src/single_view_optimizer.rs b/cv-optimize/src/single_view_optimizer.rs
index f8e896d..3c7953d 100644
--- a/cv-optimize/src/single_view_optimizer.rs
+++ b/cv-optimize/src/single_view_optimizer.rs
@@ -38,6 +38,11 @@ pub fn single_view_simple_optimize_l1(
                 l1sum += tangent.l1();
             }
         }
+        // Without any landmark at a finite distance there is nothing to optimize, and the reciprocals
+        // below would turn the pose into NaN.
+        if ts == 0.0 {
+            break;
+        }
 
         let delta = l1sum
             .scale(optimization_rate)
-- 
2.43.0


From d8b273f3ab848ad7956e8fdfca790ba1caf14cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:36 +0000
Subject: [PATCH 13/25] fix: linear triangulation depends on the unit of
 distance

---
 cv-geom/src/triangulation.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/cv-geom/src/triangulation.rs b/cv-geom/src/triangulation.rs
index f114a32..6bcd532 100644
--- a/cv-geom/src/triangulation.rs
+++ b/cv-geom/src/triangulation.rs
@@ -94,12 +94,20 @@ impl TriangulatorObservations for LinearEigenTriangulator {
             return None;
         }
 
+        // The eigen solver is unreliable when the translations are large compared to the rotations,
+        // so solve in a unit of distance in which the longest translation is of unit length.
+        let unit = pairs
+            .clone()
+            .map(|(pose, _)| pose.0.translation.vector.norm())
+            .fold(0.0, f64::max);
+        let unit = if unit > 0.0 { unit } else { 1.0 };
+
         let mut a: Matrix4<f64> = zero();
         for (pose, bearing) in pairs.clone() {
             let bearing = bearing.into_inner();
             // Get the pose as a 3x4 matrix.
             let rot = pose.0.rotation.matrix();
-            let trans = pose.0.translation.vector;
+            let trans = pose.0.translation.vector / unit;
             let pose = Matrix3x4::<f64>::from_columns(&[
                 rot.column(0),
                 rot.column(1),
@@ -119,6 +127,7 @@ impl TriangulatorObservations for LinearEigenTriangulator {
             .enumerate()
             .min_by_key(|&(_, &n)| float_ord::FloatOrd(n))
             .map(|(ix, _)| se.eigenvectors.column(ix).into_owned())
+            .map(|v| v.xyz().push(v.w / unit))
             .map(WorldPoint::from_homogeneous)
             .filter(|point| {
                 // Ensure the point contains no NaN or infinity.
-- 
2.43.0


From 37ea94a7b6a48161922bedf5c090526b26a6b85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:40 +0000
Subject: [PATCH 14/25] fix: residual of relative poses depends on the unit of
 distance

---
 cv-core/src/pose.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/cv-core/src/pose.rs b/cv-core/src/pose.rs
index 5d41025..af0ae43 100644
--- a/cv-core/src/pose.rs
+++ b/cv-core/src/pose.rs
@@ -247,12 +247,18 @@ impl Model<FeatureMatch> for CameraToCamera {
 
         // TODO: This should not need to be here, and the residual function of CameraToCamera should
         // actually be implemented externally and passed to the sample consensus process.
+        //
+        // The eigen solver is unreliable when the translation is large compared to the rotation,
+        // so solve in a unit of distance in which the translation is of unit length.
+        let unit = self.0.translation.vector.norm();
+        let unit = if unit > 0.0 { unit } else { 1.0 };
+
         let mut design: Matrix4<f64> = zero();
         for (pose, bearing) in [(CameraToCamera::identity(), a), (*self, b)] {
             let bearing: Vector3<f64> = bearing.into_inner();
             // Get the pose as a 3x4 matrix.
             let rot = pose.0.rotation.matrix();
-            let trans = pose.0.translation.vector;
+            let trans = pose.0.translation.vector / unit;
             let pose = Matrix3x4::<f64>::from_columns(&[
                 rot.column(0),
                 rot.column(1),
@@ -276,6 +282,7 @@ impl Model<FeatureMatch> for CameraToCamera {
             .enumerate()
             .min_by_key(|&(_, &n)| n.abs().to_bits())
             .map(|(ix, _)| se.eigenvectors.column(ix).into_owned())
+            .map(|v| v.xyz().push(v.w / unit))
             .map(CameraPoint::from_homogeneous)
             .filter(|point| {
                 // Ensure the point contains no NaN or infinity.
-- 
2.43.0


From cd2b35df2502d2cedb033f758bf3e6812dbf8634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:52 +0000
Subject: [PATCH 15/25] fix: relative DLT triangulation depends on the unit of
 distance

---
 cv-geom/src/triangulation.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cv-geom/src/triangulation.rs b/cv-geom/src/triangulation.rs
index 6bcd532..bbc1429 100644
--- a/cv-geom/src/triangulation.rs
+++ b/cv-geom/src/triangulation.rs
@@ -347,7 +347,11 @@ impl TriangulatorRelative for RelativeDltTriangulator {
         a: UnitVector3<f64>,
         b: UnitVector3<f64>,
     ) -> Option<CameraPoint> {
-        let pose = relative_pose.homogeneous();
+        // The SVD solver is unreliable when the translation is large compared to the rotation,
+        // so solve in a unit of distance in which the translation is of unit length.
+        let unit = relative_pose.0.translation.vector.norm();
+        let unit = if unit > 0.0 { unit } else { 1.0 };
+        let pose = relative_pose.scale(unit.recip()).homogeneous();
         let mut design = Matrix4::zeros();
         design
             .row_mut(0)
@@ -367,6 +371,7 @@ impl TriangulatorRelative for RelativeDltTriangulator {
         // Extract the null-space vector from V* corresponding to the smallest
         // singular value, which is the homogeneous coordiate of the output.
         Some(svd.v_t.unwrap().row(3).transpose())
+            .map(|v| v.xyz().push(v.w / unit))
             .map(CameraPoint::from_homogeneous)
             .filter(|point| {
                 // Ensure the point contains no NaN or infinity.
-- 
2.43.0


From ba992ba6f15d42738a6f36a4e051ad992409749d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:29 +0000
Subject: [PATCH 16/25] fix: residual of relative poses is NaN when the
 triangulated point is the second camera

---
 cv-core/src/pose.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/cv-core/src/pose.rs b/cv-core/src/pose.rs
index af0ae43..e95d684 100644
--- a/cv-core/src/pose.rs
+++ b/cv-core/src/pose.rs
@@ -284,9 +284,12 @@ impl Model<FeatureMatch> for CameraToCamera {
             .map(|(ix, _)| se.eigenvectors.column(ix).into_owned())
             .map(|v| v.xyz().push(v.w / unit))
             .map(CameraPoint::from_homogeneous)
-            .filter(|point| {
-                // Ensure the point contains no NaN or infinity.
-                point.homogeneous().iter().all(|n| n.is_finite())
+            .filter(|&point| {
+                // Ensure the point contains no NaN or infinity in either camera, as a point
+                // in the optical center of a camera has no bearing.
+                [point, self.transform(point)]
+                    .iter()
+                    .all(|point| point.homogeneous().iter().all(|n| n.is_finite()))
             })
             .map(|point| {
                 // Ensure the cheirality constraint.
-- 
2.43.0


From 25a85c230fcbbfa9ce484f981e2b4c8b83f16bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:09 +0000
Subject: [PATCH 17/25] fix: eight-point: encode bearings without dividing by z

A bearing in the plane of the camera (z = 0) made the matrix and the poses NaN.
---
 eight-point/src/lib.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/eight-point/src/lib.rs b/eight-point/src/lib.rs
index 83591bc..03424fe 100644
--- a/eight-point/src/lib.rs
+++ b/eight-point/src/lib.rs
@@ -12,8 +12,9 @@ fn encode_epipolar_equation(matches: impl Iterator<Item = FeatureMatch>) -> OMat
     let mut out: OMatrix<f64, U8, U9> = nalgebra::zero();
     for (i, FeatureMatch(a, b)) in (0..8).zip(matches) {
         let mut row = OVector::<f64, U9>::zeros();
-        let ap = a.into_inner() / a.z;
-        let bp = b.into_inner() / b.z;
+        // The scale of either bearing only scales the equation, and `z` may be zero.
+        let ap = a.into_inner();
+        let bp = b.into_inner();
         for j in 0..3 {
             let v = ap[j] * bp;
             row.fixed_rows_mut::<3>(3 * j).copy_from(&v);
-- 
2.43.0


From 1200c9d5ef2ab0da59dac2699481b66e43ffbba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:15 +0000
Subject: [PATCH 18/25] fix: five-point: keep solutions out of the plane at
 infinity of the null space

Zeros in the bearings carry over to the null space basis, where they can put a
solution at infinity: it is then missed, and the other poses returned do not
satisfy the epipolar constraints of the five matches.
---
 nister-stewenius/src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/nister-stewenius/src/lib.rs b/nister-stewenius/src/lib.rs
index 584d1b8..cd6caad 100644
--- a/nister-stewenius/src/lib.rs
+++ b/nister-stewenius/src/lib.rs
@@ -91,6 +91,12 @@ pub fn five_points_nullspace_basis(
             for (&ix, mut column) in sources.iter().zip(nullspace.column_iter_mut()) {
                 column.copy_from(&m.eigenvectors.column(ix));
             }
+            // A solution without any of the last vector is out of reach of the action matrix,
+            // and would spoil the others. Zeros in the bearings carry over to the eigenvectors,
+            // so mix these with a fixed reflection that leaves no such coincidences.
+            let normal = Vector4::new(0.34, -0.61, 0.47, 0.55).normalize();
+            let reflected = nullspace * normal;
+            nullspace -= reflected * (2.0 * normal).transpose();
             Some(nullspace)
         })
 }
-- 
2.43.0


From 85918851eeeada44904b4095677f2e56b0046caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:52 +0000
Subject: [PATCH 19/25] fix: P3P poses that are half turns were returned as the
 identity

---
 lambda-twist/src/lib.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lambda-twist/src/lib.rs b/lambda-twist/src/lib.rs
index 928d3e8..69fa18f 100644
--- a/lambda-twist/src/lib.rs
+++ b/lambda-twist/src/lib.rs
@@ -33,7 +33,7 @@ use num_traits::Float;
 // file, You can obtain one at http://mozilla.org/MPL/2.0/.
 
 use cv_core::{
-    nalgebra::{Matrix3, Rotation3, Vector3},
+    nalgebra::{Matrix3, Rotation3, UnitQuaternion, Vector3},
     sample_consensus::Estimator,
     FeatureWorldMatch, Pose, Projective, WorldToCamera,
 };
@@ -303,13 +303,18 @@ impl LambdaTwist {
                 (rot, ry1 - rot * wps[0].coords)
             })
             .map(|(rot, trans)| {
+                // The iteration is stuck at the identity if the rotation is a half turn away,
+                // so start it at the rotation that the matrix nearly is.
+                let guess =
+                    UnitQuaternion::from_rotation_matrix(&Rotation3::from_matrix_unchecked(rot));
+                let guess = UnitQuaternion::new_normalize(guess.into_inner()).to_rotation_matrix();
                 WorldToCamera::from_parts(
                     trans,
                     Rotation3::from_matrix_eps(
                         &rot,
                         self.rotation_convergence_epsilon,
                         self.rotation_convergence_iterations,
-                        Rotation3::identity(),
+                        guess,
                     ),
                 )
             })
-- 
2.43.0


From 6696f5906a6e71f82fcecd3f7bf9c7e98004ad2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:55 +0000
Subject: [PATCH 20/25] fix: P3P returned poses that do not explain the
 observations

---
 lambda-twist/src/lib.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/lambda-twist/src/lib.rs b/lambda-twist/src/lib.rs
index 69fa18f..744d033 100644
--- a/lambda-twist/src/lib.rs
+++ b/lambda-twist/src/lib.rs
@@ -273,7 +273,7 @@ impl LambdaTwist {
             .iter()
             .map(|&lambda| {
                 // Refine estimated depth values.
-                let lambda_refined = gauss_newton_refine_lambda(
+                gauss_newton_refine_lambda(
                     lambda,
                     self.gauss_newton_iterations,
                     a12,
@@ -282,8 +282,18 @@ impl LambdaTwist {
                     b12,
                     b13,
                     b23,
-                );
-
+                )
+            })
+            // Only positive depths that reproduce the distances between the points are a
+            // solution. There are others if the bearings contradict each other, as the
+            // eigenvalue ratio is forced to be real, or if the polynomials above degenerate.
+            .filter(|l| {
+                let r12 = l.x * l.x + l.y * l.y + b12 * l.x * l.y - a12;
+                let r13 = l.x * l.x + l.z * l.z + b13 * l.x * l.z - a13;
+                let r23 = l.y * l.y + l.z * l.z + b23 * l.y * l.z - a23;
+                l1_norm(Vec3::new(r12, r13, r23)) <= 1e-5 * (a12 + a13 + a23) && l.min() >= 0.0
+            })
+            .map(|lambda_refined| {
                 let ry1 = lambda_refined[0] * *bearings[0];
                 let ry2 = lambda_refined[1] * *bearings[1];
                 let ry3 = lambda_refined[2] * *bearings[2];
-- 
2.43.0


From 6af397915f8cf945b55510e1a81eff2444d45d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:50 +0000
Subject: [PATCH 21/25] fix: P3P did not refine the depths in units in which
 the scene is small

---
 lambda-twist/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lambda-twist/src/lib.rs b/lambda-twist/src/lib.rs
index 744d033..069b88a 100644
--- a/lambda-twist/src/lib.rs
+++ b/lambda-twist/src/lib.rs
@@ -394,7 +394,7 @@ fn gauss_newton_refine_lambda(
     };
     let (mut l1, mut l2, mut l3, mut res) = compute_residual(&lambda);
     for _ in 0..iterations {
-        if l1_norm(res) < 1e-10 {
+        if l1_norm(res) < 1e-10 * (a12 + a13 + a23) {
             break;
         }
 
-- 
2.43.0


From 4e1e3b6423e5a04fadc3a9d3e7c082a4e9b53056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:54 +0000
Subject: [PATCH 22/25] fix: P3P lost the true pose if another solution puts a
 point in the optical centre

---
 lambda-twist/src/lib.rs | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/lambda-twist/src/lib.rs b/lambda-twist/src/lib.rs
index 069b88a..591fed7 100644
--- a/lambda-twist/src/lib.rs
+++ b/lambda-twist/src/lib.rs
@@ -209,10 +209,10 @@ impl LambdaTwist {
             let w0 = w2 * (eig_vectors.m21 - ratio * eig_vectors.m22);
             let w1 = w2 * (eig_vectors.m31 - ratio * eig_vectors.m32);
 
-            let a = 1.0 / ((a13 - a12) * w1 * w1 - a12 * b13 * w1 - a12);
-            let b = a * (a13 * b12 * w1 - a12 * b13 * w0 - 2.0 * w0 * w1 * (a12 - a13));
-            let c = a * ((a13 - a12) * w0 * w0 + a13 * b12 * w0 + a13);
-            (w0, w1, b, c)
+            let a = (a13 - a12) * w1 * w1 - a12 * b13 * w1 - a12;
+            let b = a13 * b12 * w1 - a12 * b13 * w0 - 2.0 * w0 * w1 * (a12 - a13);
+            let c = (a13 - a12) * w0 * w0 + a13 * b12 * w0 + a13;
+            (w0, w1, a, b, c)
         };
 
         // Helper closure to estimate possible depths values.
@@ -242,11 +242,13 @@ impl LambdaTwist {
         // Helper closure pushing two potential solutions
         // corresponding to a given eigen value ratio.
         let mut push_solutions_to_lambdas = |ratio: f64| {
-            let (w0, w1, b, c) = quadratic_coefficients(ratio);
-            if b * b - 4.0 * c >= 0.0 {
-                let (_, tau1, tau2) = root2real(b, c);
-                push_solution(tau1, w0, w1);
-                push_solution(tau2, w0, w1);
+            let (w0, w1, a, b, c) = quadratic_coefficients(ratio);
+            let discriminant = b * b - 4.0 * a * c;
+            if discriminant >= 0.0 {
+                // One of the roots is infinite if `a` is zero, which must not lose the other one.
+                let q = -0.5 * (b + Float::copysign(Float::sqrt(discriminant), b));
+                push_solution(q / a, w0, w1);
+                push_solution(c / q, w0, w1);
             }
         };
 
-- 
2.43.0


From 5de3d4effb346254bfb0df4f5d627e865b9189bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:11 +0000
Subject: [PATCH 23/25] fix: P3P lost the true pose if the leading coefficient
 of the cubic is zero

---
 lambda-twist/src/lib.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/lambda-twist/src/lib.rs b/lambda-twist/src/lib.rs
index 591fed7..674502f 100644
--- a/lambda-twist/src/lib.rs
+++ b/lambda-twist/src/lib.rs
@@ -175,16 +175,20 @@ impl LambdaTwist {
             - 2.0 * a12 * (blob * a23 + a13 * s23_sqr);
         let p0 = a12 * (a12 * s23_sqr - a23 * s12_sqr);
 
-        // Get sharpest real root of above.
-        let g = cube_root(p2 / p3, p1 / p3, p0 / p3);
+        // Get sharpest real root `g / h` of above, which is infinite if `p3` is zero.
+        let (g, h) = if p3.abs() >= p0.abs() {
+            (cube_root(p2 / p3, p1 / p3, p0 / p3), 1.0)
+        } else {
+            (1.0, cube_root(p1 / p0, p2 / p0, p3 / p0))
+        };
 
         // Build the matrix called D0 in the paper.
-        let d0_00 = a23 * (1.0 - g);
-        let d0_01 = -(a23 * c12);
+        let d0_00 = a23 * (h - g);
+        let d0_01 = -(a23 * c12) * h;
         let d0_02 = a23 * c31 * g;
-        let d0_11 = a23 - a12 + a13 * g;
-        let d0_12 = -c23 * (a13 * g - a12);
-        let d0_22 = g * (a13 - a23) - a12;
+        let d0_11 = (a23 - a12) * h + a13 * g;
+        let d0_12 = -c23 * (a13 * g - a12 * h);
+        let d0_22 = g * (a13 - a23) - a12 * h;
         #[rustfmt::skip]
     let d0_mat = Mat3::new(
         d0_00, d0_01, d0_02,
-- 
2.43.0


From 31a4f573fd934d43a0a98933b77a272b185b85ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:13 +0000
Subject: [PATCH 24/25] fix: P3P lost the true pose in symmetric positions of
 the camera

---
 lambda-twist/src/lib.rs | 166 +++++++++++++---------------------------
 1 file changed, 52 insertions(+), 114 deletions(-)

diff --git a/lambda-twist/src/lib.rs b/lambda-twist/src/lib.rs
index 674502f..3090921 100644
--- a/lambda-twist/src/lib.rs
+++ b/lambda-twist/src/lib.rs
@@ -196,68 +196,46 @@ impl LambdaTwist {
         d0_02, d0_12, d0_22,
     );
 
-        // Get sorted eigenvectors and eigenvalues of the singular matrix D0.
-        let (eig_vectors, eig_values) = eigen_decomposition_singular(d0_mat);
-
         // Initialize the possible depths triplets for the three image points.
         // There might be between 0 and 4 possible solutions.
         let mut lambdas: ArrayVec<Vec3, 4> = ArrayVec::new();
 
-        // Solve the four possible solutions for the depths values.
-        let eigen_ratio = (0.0_f64.max(-eig_values[1] / eig_values[0])).sqrt();
-
-        // Helper closure to compute quadratic coefficients.
-        // CF equation (15) in paper.
-        let quadratic_coefficients = |ratio: f64| {
-            let w2 = 1.0 / (ratio * eig_vectors.m12 - eig_vectors.m11);
-            let w0 = w2 * (eig_vectors.m21 - ratio * eig_vectors.m22);
-            let w1 = w2 * (eig_vectors.m31 - ratio * eig_vectors.m32);
-
-            let a = (a13 - a12) * w1 * w1 - a12 * b13 * w1 - a12;
-            let b = a13 * b12 * w1 - a12 * b13 * w0 - 2.0 * w0 * w1 * (a12 - a13);
-            let c = (a13 - a12) * w0 * w0 + a13 * b12 * w0 + a13;
-            (w0, w1, a, b, c)
-        };
+        // The quadratic forms of the depths that are the squared distances between the points.
+        let m12 = Mat3::new(1.0, -c12, 0.0, -c12, 1.0, 0.0, 0.0, 0.0, 0.0);
+        let m13 = Mat3::new(1.0, 0.0, -c31, 0.0, 0.0, 0.0, -c31, 0.0, 1.0);
+        let m23 = Mat3::new(0.0, 0.0, 0.0, 0.0, 1.0, -c23, 0.0, -c23, 1.0);
+        let a_sum = a12 + a13 + a23;
+        let m_sum = m12 + m13 + m23;
 
-        // Helper closure to estimate possible depths values.
-        // CF equation (16) in paper.
-        let possible_depths = |tau: f64, w0: f64, w1: f64| {
-            let d = a23 / (tau * (b23 + tau) + 1.0);
-            if d > 0.0 {
-                let l2 = d.sqrt();
-                let l3 = tau * l2;
-                let l1 = w0 * l2 + w1 * l3;
-                (true, l1, l2, l3)
-            } else {
-                (false, 0.0, 0.0, 0.0)
-            }
-        };
-
-        // Helper closure pushing one potential solution.
-        let mut push_solution = |tau: f64, w0: f64, w1: f64| {
-            if tau > 0.0 {
-                let (valid, l1, l2, l3) = possible_depths(tau, w0, w1);
-                if valid && l1 >= 0.0 {
-                    lambdas.push(Vec3::new(l1, l2, l3));
-                }
-            }
+        // Another combination of them that vanishes for the depths, well apart from D0.
+        let conic = if (a13 * g - a12 * h).abs() < (a12 * h).abs() {
+            m13 * a23 - m23 * a13
+        } else {
+            m12 * a13 - m13 * a12
         };
 
-        // Helper closure pushing two potential solutions
-        // corresponding to a given eigen value ratio.
-        let mut push_solutions_to_lambdas = |ratio: f64| {
-            let (w0, w1, a, b, c) = quadratic_coefficients(ratio);
+        for plane in &planes_of_singular(d0_mat) {
+            // The depths are x * u + y * v, where a * x^2 + b * x * y + c * y^2 = 0.
+            let mut axis = Vec3::zeros();
+            axis[plane.iamin()] = 1.0;
+            let u = plane.cross(&axis).normalize();
+            let v = plane.cross(&u).normalize();
+            let a = u.dot(&(conic * u));
+            let b = 2.0 * u.dot(&(conic * v));
+            let c = v.dot(&(conic * v));
             let discriminant = b * b - 4.0 * a * c;
             if discriminant >= 0.0 {
-                // One of the roots is infinite if `a` is zero, which must not lose the other one.
-                let q = -0.5 * (b + Float::copysign(Float::sqrt(discriminant), b));
-                push_solution(q / a, w0, w1);
-                push_solution(c / q, w0, w1);
+                let q = -0.5 * (b + Float::copysign(discriminant.sqrt(), b));
+                for &(x, y) in &[(q, a), (c, q)] {
+                    let depths = u * x + v * y;
+                    let depths = depths / Float::copysign(depths.norm(), depths.sum());
+                    let scale = depths.dot(&(m_sum * depths));
+                    if depths.iter().all(|&depth| depth >= 0.0) && scale > 0.0 {
+                        lambdas.push(depths * (a_sum / scale).sqrt());
+                    }
+                }
             }
-        };
-
-        push_solutions_to_lambdas(eigen_ratio);
-        push_solutions_to_lambdas(-eigen_ratio);
+        }
 
         // Recover the rotation R and translation t such that
         // lambda_i * y_i = R * x_i + t
@@ -400,7 +378,7 @@ fn gauss_newton_refine_lambda(
     };
     let (mut l1, mut l2, mut l3, mut res) = compute_residual(&lambda);
     for _ in 0..iterations {
-        if l1_norm(res) < 1e-10 * (a12 + a13 + a23) {
+        if l1_norm(res) < 1e-12 * (a12 + a13 + a23) {
             break;
         }
 
@@ -439,22 +417,6 @@ fn l1_norm(v: Vec3) -> f64 {
     v.x.abs() + v.y.abs() + v.z.abs()
 }
 
-/// Compute the real roots of "h(r) = r^2 + b*r + c = 0".
-/// `let (roots_are_real, r1, r2) = root2real(b, c);`
-fn root2real(b: f64, c: f64) -> (bool, f64, f64) {
-    let discriminant = b * b - 4.0 * c;
-    if discriminant < 0.0 {
-        let root = 0.5 * b;
-        (false, root, root)
-    } else if b < 0.0 {
-        let y = Float::sqrt(discriminant);
-        (true, 0.5 * (-b + y), 0.5 * (-b - y))
-    } else {
-        let y = Float::sqrt(discriminant);
-        (true, 2.0 * c / (-b + y), 2.0 * c / (-b - y))
-    }
-}
-
 /// Compute a single root of the cubic polynomial equation
 /// "h(r) = r^3 + b*r^2 + c*r + d = 0".
 /// `let root = cubick(b, c, d);`
@@ -526,50 +488,26 @@ fn cube_root(b: f64, c: f64, d: f64) -> f64 {
     r0
 }
 
-/// Eigen decomposition of a singular matrix (which has a 0 eigen value).
-/// `let (eigenvectors, eigenvalues) = eigen_decomposition_singular(x);`
-fn eigen_decomposition_singular(x: Mat3) -> (Mat3, Vec3) {
-    let mut eigenvalues = Vec3::zeros();
-    #[rustfmt::skip]
-    let mut v3 = Vec3::new(
-        x[1] * x[5] - x[2] * x[4],
-        x[2] * x[3] - x[5] * x[0],
-        x[4] * x[0] - x[1] * x[3],
-    );
-    v3.normalize_mut();
-
-    let x12_sqr = x.m12 * x.m12;
-    let b = -x.m11 - x.m22 - x.m33;
-    let c = -x12_sqr - x.m13 * x.m13 - x.m23 * x.m23 + x.m11 * (x.m22 + x.m33) + x.m22 * x.m33;
-    let (_, mut e1, mut e2) = root2real(b, c);
-    if e1.abs() < e2.abs() {
-        core::mem::swap(&mut e1, &mut e2);
-    }
-    eigenvalues[0] = e1;
-    eigenvalues[1] = e2;
-
-    let mx0011 = -x.m11 * x.m22;
-    let prec_0 = x.m12 * x.m23 - x.m13 * x.m22;
-    let prec_1 = x.m12 * x.m13 - x.m11 * x.m23;
-
-    let compute_eigen_vector = |e: f64| {
-        let tmp = 1.0 / (e * (x.m11 + x.m22) + mx0011 - e * e + x12_sqr);
-        let mut a1 = -(e * x.m13 + prec_0) * tmp;
-        let mut a2 = -(e * x.m23 + prec_1) * tmp;
-        let rnorm = 1.0 / (a1 * a1 + a2 * a2 + 1.0).sqrt();
-        a1 *= rnorm;
-        a2 *= rnorm;
-        Vec3::new(a1, a2, rnorm)
+/// Splits a singular symmetric matrix, which is a pair of planes as a quadratic form.
+/// `let [normal1, normal2] = planes_of_singular(x);`
+///
+/// The planes coincide if there is no such real pair.
+fn planes_of_singular(x: Mat3) -> [Vec3; 2] {
+    let x = x / x.amax();
+    // With the common line of the planes at the right length added, the matrix has rank one.
+    let adjugate = Mat3::from_columns(&[
+        x.column(1).cross(&x.column(2)),
+        x.column(2).cross(&x.column(0)),
+        x.column(0).cross(&x.column(1)),
+    ]);
+    let ix = adjugate.diagonal().imin();
+    let length = Float::sqrt(-adjugate[(ix, ix)]);
+    let line = if length > 0.0 {
+        adjugate.column(ix) / length
+    } else {
+        Vec3::zeros()
     };
-    let v1 = compute_eigen_vector(e1);
-    let v2 = compute_eigen_vector(e2);
-
-    #[rustfmt::skip]
-    let eigenvectors = Mat3::new(
-        v1[0], v2[0], v3[0],
-        v1[1], v2[1], v3[1],
-        v1[2], v2[2], v3[2],
-    );
-
-    (eigenvectors, eigenvalues)
+    let product = x + line.cross_matrix();
+    let (row, column) = product.iamax_full();
+    [product.row(row).transpose(), product.column(column).into()]
 }
-- 
2.43.0


From 5b754346dde78067d25a9858a38493c606a24258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:56 +0000
Subject: [PATCH 25/25] fix: cv-sfm: a pair of frames with too few robust
 bearing pairs must not end the search for another

---
 cv-sfm/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cv-sfm/src/lib.rs b/cv-sfm/src/lib.rs
index a6c81f2..00ee495 100644
--- a/cv-sfm/src/lib.rs
+++ b/cv-sfm/src/lib.rs
@@ -1102,7 +1102,7 @@ where
                     "could not find {} robust bearing pairs; rejecting three-view match",
                     self.settings.robust_view_num_robust_bearing_pair
                 );
-                return None;
+                continue;
             }
 
             // If we have more than half of the initial matches, the estimation is robust.
-- 
2.43.0


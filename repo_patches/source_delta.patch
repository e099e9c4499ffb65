From c893a9ec808aca872816ebebe655e2def368771a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:36 +0000
Subject: [PATCH 001/155] fix: sign of the second-order term in axisAngle2quat
 for small angles

sin(t/2)/t = 1/2 - t^2/48 + ...
---
 Schweizer-Messer/sm_kinematics/src/quaternion_algebra.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Schweizer-Messer/sm_kinematics/src/quaternion_algebra.cpp b/Schweizer-Messer/sm_kinematics/src/quaternion_algebra.cpp
index 09e85eb..7c10e1b 100755
--- a/Schweizer-Messer/sm_kinematics/src/quaternion_algebra.cpp
+++ b/Schweizer-Messer/sm_kinematics/src/quaternion_algebra.cpp
@@ -209,7 +209,7 @@ namespace sm { namespace kinematics {
             if(isLessThenEpsilons4thRoot(theta))
             {
                 static const double one_over_48 = 1.0/48.0;
-                na = 0.5 + (theta * theta) * one_over_48;
+                na = 0.5 - (theta * theta) * one_over_48;
             }
             else
             {
-- 
2.43.0


From 891bb78e3ae256ee64ba5bd6dd57a43e54fc5a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:36 +0000
Subject: [PATCH 002/155] fix: axisAngle2R(angle, axis) returned the identity
 for negative angles

---
 Schweizer-Messer/sm_kinematics/src/rotations.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Schweizer-Messer/sm_kinematics/src/rotations.cpp b/Schweizer-Messer/sm_kinematics/src/rotations.cpp
index 6837d61..11a6a28 100755
--- a/Schweizer-Messer/sm_kinematics/src/rotations.cpp
+++ b/Schweizer-Messer/sm_kinematics/src/rotations.cpp
@@ -96,7 +96,7 @@ namespace sm { namespace kinematics {
 	
     SM_ASSERT_LT_DBG(std::runtime_error,fabs(sqrt(ax*ax + ay*ay + az*az) - 1.0), 1e-4, "The axis is not a unit vector. ||a|| = " << (sqrt(ax*ax + ay*ay + az*az)));
 		
-    if(a < 1e-12)
+    if(fabs(a) < 1e-12)
       return Eigen::Matrix3d::Identity();
     // e = [ax ay az]
     // e*(e') + (eye(3) - e*(e'))*cos(a) - crossMx(e) * sin(a) = 
-- 
2.43.0


From c65add2ac82785e322e13b2505e21f24a84c881c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:08 +0000
Subject: [PATCH 003/155] fix: the axis-angle vector of a rotation by pi was
 zero

R2AxisAngle and RotationVector::rotationMatrixToParameters take the axis from
the skew part of the matrix, which vanishes for a half turn.
---
 Schweizer-Messer/sm_kinematics/src/RotationVector.cpp | 11 ++++++++++-
 Schweizer-Messer/sm_kinematics/src/rotations.cpp      | 10 +++++++++-
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/Schweizer-Messer/sm_kinematics/src/RotationVector.cpp b/Schweizer-Messer/sm_kinematics/src/RotationVector.cpp
index e074df3..c0200fc 100755
--- a/Schweizer-Messer/sm_kinematics/src/RotationVector.cpp
+++ b/Schweizer-Messer/sm_kinematics/src/RotationVector.cpp
@@ -70,8 +70,17 @@ namespace sm { namespace kinematics {
             p[1] = (C(0,2) - C(2,0));
             p[2] = (C(1,0) - C(0,1));
             double n2 = p.norm();
-            if(fabs(n2) < 1e-14)
+            if(tr > 0.0 && fabs(n2) < 1e-14)
                 return Eigen::Vector3d::Zero();
+            if(tr < 0.0 && fabs(n2) < 1e-8)
+            {
+                // A rotation by pi (C is symmetric): C = 2*e*e' - eye(3). The sign of the axis is free.
+                int i;
+                C.diagonal().maxCoeff(&i);
+                p = C.col(i);
+                p[i] += 1.0;
+                return p * (a / p.norm());
+            }
       
             double scale = -a/n2;
             p = scale * p;
diff --git a/Schweizer-Messer/sm_kinematics/src/rotations.cpp b/Schweizer-Messer/sm_kinematics/src/rotations.cpp
index 11a6a28..de0206a 100755
--- a/Schweizer-Messer/sm_kinematics/src/rotations.cpp
+++ b/Schweizer-Messer/sm_kinematics/src/rotations.cpp
@@ -146,8 +146,16 @@ namespace sm { namespace kinematics {
     axis[1] = (C(0,2) - C(2,0));
     axis[2] = (C(1,0) - C(0,1));
     double n2 = axis.norm();
-    if(fabs(n2) < 1e-10)
+    if(tr > 0.0 && fabs(n2) < 1e-10)
       return Eigen::Vector3d::Zero();
+    if(tr < 0.0 && fabs(n2) < 1e-8) {
+      // A rotation by pi (C is symmetric): C = 2*e*e' - eye(3). The sign of the axis is free.
+      int i;
+      C.diagonal().maxCoeff(&i);
+      axis = C.col(i);
+      axis[i] += 1.0;
+      return axis * (a / axis.norm());
+    }
 		
     double scale = -a/n2;
     axis = scale * axis;
-- 
2.43.0


From ddd2cc0bb0209a55d66cc166968f837baca7d59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:08 +0000
Subject: [PATCH 004/155] fix: EulerRodriguez gave NaN parameters for nearly
 identical rotations

---
 Schweizer-Messer/sm_kinematics/src/EulerRodriguez.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Schweizer-Messer/sm_kinematics/src/EulerRodriguez.cpp b/Schweizer-Messer/sm_kinematics/src/EulerRodriguez.cpp
index cf73658..b3ff62e 100755
--- a/Schweizer-Messer/sm_kinematics/src/EulerRodriguez.cpp
+++ b/Schweizer-Messer/sm_kinematics/src/EulerRodriguez.cpp
@@ -27,7 +27,9 @@ namespace sm { namespace kinematics {
     Eigen::Vector3d EulerRodriguez::rotationMatrixToParameters(const Eigen::Matrix3d & C) const
     {
       Eigen::Vector3d p;
-      double a = acos( (C(0,0) + C(1,1) + C(2,2) - double(1)) * double(0.5));
+      // Roundoff can put the value of tr outside the valid range of arccos.
+      double tr = std::max(-1.0, std::min( (C(0,0) + C(1,1) + C(2,2) - 1.0) * 0.5, 1.0));
+      double a = acos( tr );
 
       if(fabs(a) < 1e-14){
 	return Eigen::Vector3d::Zero();
-- 
2.43.0


From 588a1816e00aa21c8cdcad0761a01b59c7278e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:37 +0000
Subject: [PATCH 005/155] fix: RotationVector's angular velocity Jacobian was
 NaN at the identity

and inaccurate for small angles, from divisions by powers of the angle.
---
 Schweizer-Messer/sm_kinematics/src/RotationVector.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/Schweizer-Messer/sm_kinematics/src/RotationVector.cpp b/Schweizer-Messer/sm_kinematics/src/RotationVector.cpp
index c0200fc..a7231b2 100755
--- a/Schweizer-Messer/sm_kinematics/src/RotationVector.cpp
+++ b/Schweizer-Messer/sm_kinematics/src/RotationVector.cpp
@@ -130,6 +130,14 @@ namespace sm { namespace kinematics {
                 //Jacobian->block(0,0,3,3) = Eigen::Matrix3d::Zero();
                 Jacobian->block(0,3,3,3) = S;
     
+                if(p.squaredNorm() < 1e-6)
+                {
+                    // The expressions below divide by powers of the angle. This is their series, up to second order in p.
+                    Jacobian->block(0,0,3,3) = (0.5 - p.squaredNorm()/24.0)*crossMx(pdot) + (1.0/12.0)*crossMx(p)*pdot*p.transpose()
+                      + (1.0/6.0)*(p.dot(pdot)*Eigen::Matrix3d::Identity() + p*pdot.transpose() - 2.0*pdot*p.transpose());
+                    return omega;
+                }
+
                 // LAZY
                 // \todo...redo when there is time and not so lazy.
                 Eigen::Matrix<double,3,6> & J = *Jacobian;
-- 
2.43.0


From 392d0f8e97cfc34349b1775d0e6f89fef6448fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:37 +0000
Subject: [PATCH 006/155] fix: integer division removed the second-order term
 of arcSinXOverX

---
 Schweizer-Messer/sm_kinematics/src/quaternion_algebra.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Schweizer-Messer/sm_kinematics/src/quaternion_algebra.cpp b/Schweizer-Messer/sm_kinematics/src/quaternion_algebra.cpp
index 7c10e1b..e9bed3f 100755
--- a/Schweizer-Messer/sm_kinematics/src/quaternion_algebra.cpp
+++ b/Schweizer-Messer/sm_kinematics/src/quaternion_algebra.cpp
@@ -228,7 +228,7 @@ namespace sm { namespace kinematics {
         template <typename Scalar_>
         inline Scalar_ arcSinXOverX(Scalar_ x) {
           if(isLessThenEpsilons4thRoot(fabs(x))){
-            return Scalar_(1.0) + x * x * Scalar_(1/6);
+            return Scalar_(1.0) + x * x * Scalar_(1.0/6.0);
           }
           return asin(x) / x;
         }
-- 
2.43.0


From 855d0b81c10ec97c3cc42634290d439a3cc456d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:21 +0000
Subject: [PATCH 007/155] fix: covariance of sums and differences of
 homogeneous points

The covariance was passed on unscaled by the other point's weight, or with the
Jacobian of the sum for the difference.
---
 .../sm_kinematics/src/HomogeneousPoint.cpp            |  8 ++++++--
 .../sm_kinematics/src/UncertainHomogeneousPoint.cpp   | 11 +++++++----
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/Schweizer-Messer/sm_kinematics/src/HomogeneousPoint.cpp b/Schweizer-Messer/sm_kinematics/src/HomogeneousPoint.cpp
index 32cbb67..f9691f2 100755
--- a/Schweizer-Messer/sm_kinematics/src/HomogeneousPoint.cpp
+++ b/Schweizer-Messer/sm_kinematics/src/HomogeneousPoint.cpp
@@ -1,5 +1,6 @@
 #include <sm_kinematics/HomogeneousPoint.hpp>
 #include <sm_kinematics/quaternion_algebra.hpp>
+#include <sm_kinematics/homogeneous_coordinates.hpp>
 #include <sm_kinematics/UncertainHomogeneousPoint.hpp>
 #include <sm_common/serialization_macros.hpp>
 
@@ -51,7 +52,8 @@ namespace sm {
       rval.head<3>() = _ph.head<3>() * rhs._ph[3] + rhs._ph.head<3>() * _ph[3];
       rval[3] = _ph[3] * rhs._ph[3];
       
-      return UncertainHomogeneousPoint(rval, rhs.U4());
+      Eigen::Matrix4d PL = toHomogeneousPlus(_ph);
+      return UncertainHomogeneousPoint(rval, (Eigen::Matrix4d)(PL * rhs.U4() * PL.transpose()));
 
     }
       
@@ -65,7 +67,9 @@ namespace sm {
       rval.head<3>() = _ph.head<3>() * rhs._ph[3] - rhs._ph.head<3>() * _ph[3];
       rval[3] = _ph[3] * rhs._ph[3];
       
-      return UncertainHomogeneousPoint(rval, rhs.U4());
+      Eigen::Matrix4d PL = toHomogeneousMinus(_ph);
+      PL.topRows<3>() *= -1.0;
+      return UncertainHomogeneousPoint(rval, (Eigen::Matrix4d)(PL * rhs.U4() * PL.transpose()));
     }
 
 
diff --git a/Schweizer-Messer/sm_kinematics/src/UncertainHomogeneousPoint.cpp b/Schweizer-Messer/sm_kinematics/src/UncertainHomogeneousPoint.cpp
index b0f0783..b953a94 100755
--- a/Schweizer-Messer/sm_kinematics/src/UncertainHomogeneousPoint.cpp
+++ b/Schweizer-Messer/sm_kinematics/src/UncertainHomogeneousPoint.cpp
@@ -161,7 +161,8 @@ namespace sm {
       rval.head<3>() = _ph.head<3>() * pr[3] + pr.head<3>() * _ph[3];
       rval[3] = _ph[3] * pr[3];
       
-      return UncertainHomogeneousPoint(rval, U4());
+      Eigen::Matrix4d PR = toHomogeneousPlus(pr);
+      return UncertainHomogeneousPoint(rval, (Eigen::Matrix4d)(PR * U4() * PR.transpose()));
 
     }
     
@@ -175,7 +176,8 @@ namespace sm {
 	rval.head<3>() = _ph.head<3>() * pr[3] - pr.head<3>() * _ph[3];
 	rval[3] = _ph[3] * pr[3];
 	
-	return UncertainHomogeneousPoint(rval, U4());
+	Eigen::Matrix4d PR = toHomogeneousMinus(pr);
+	return UncertainHomogeneousPoint(rval, (Eigen::Matrix4d)(PR * U4() * PR.transpose()));
 
       }
 
@@ -203,8 +205,9 @@ namespace sm {
 	rval.head<3>() = _ph.head<3>() * rhs._ph[3] - rhs._ph.head<3>() * _ph[3];
 	rval[3] = _ph[3] * rhs._ph[3];
 
-	Eigen::Matrix4d PL = toHomogeneousPlus(_ph);
-	Eigen::Matrix4d PR = toHomogeneousPlus(rhs._ph);
+	Eigen::Matrix4d PL = toHomogeneousMinus(_ph);
+	PL.topRows<3>() *= -1.0;
+	Eigen::Matrix4d PR = toHomogeneousMinus(rhs._ph);
 	
 	return UncertainHomogeneousPoint(rval, (Eigen::Matrix4d)(PR * U4() * PR.transpose() + PL * rhs.U4() * PL.transpose()));	
 	
-- 
2.43.0


From 25bc9c01ef46e1809445efe262ed02cd91d011db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:14 +0000
Subject: [PATCH 008/155] fix: back-projection with Jacobian wrote to outputs
 it had not resized

---
 .../cameras/implementation/DoubleSphereProjection.hpp            | 1 +
 .../cameras/implementation/ExtendedUnifiedProjection.hpp         | 1 +
 .../aslam_cameras/cameras/implementation/OmniProjection.hpp      | 1 +
 .../aslam_cameras/cameras/implementation/PinholeProjection.hpp   | 1 +
 4 files changed, 4 insertions(+)

diff --git a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/DoubleSphereProjection.hpp b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/DoubleSphereProjection.hpp
index dbb1999..41048f0 100644
--- a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/DoubleSphereProjection.hpp
+++ b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/DoubleSphereProjection.hpp
@@ -375,6 +375,7 @@ bool DoubleSphereProjection<DISTORTION_T>::keypointToEuclidean(
   DERIVED_JK & mbJk =
       const_cast<DERIVED_JK &>(outJk);
   DERIVED_JK & Jk = mbJk.derived();
+  Jk.resize(3, 2);
 
   Jk(0, 0) = _recip_fu * (mx * d_k_d_mx + k);
   Jk(1, 0) = _recip_fu * my * d_k_d_mx;
diff --git a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/ExtendedUnifiedProjection.hpp b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/ExtendedUnifiedProjection.hpp
index 751bf31..a9711d1 100644
--- a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/ExtendedUnifiedProjection.hpp
+++ b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/ExtendedUnifiedProjection.hpp
@@ -330,6 +330,7 @@ bool ExtendedUnifiedProjection<DISTORTION_T>::keypointToEuclidean(
   DERIVED_JK & mbJk =
       const_cast<DERIVED_JK &>(outJk);
   DERIVED_JK & Jk = mbJk.derived();
+  Jk.resize(3, 2);
   
   Jk(0, 0) = (norm_inv + 2 * mx * mx * d_norm_inv_d_r2) * _recip_fu;
   Jk(1, 0) = (2 * my * mx * d_norm_inv_d_r2) * _recip_fu;
diff --git a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/OmniProjection.hpp b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/OmniProjection.hpp
index 796becb..1f12129 100644
--- a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/OmniProjection.hpp
+++ b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/OmniProjection.hpp
@@ -298,6 +298,7 @@ bool OmniProjection<DISTORTION_T>::keypointToEuclidean(
   DERIVED_JK & mbJk =
       const_cast<DERIVED_JK &>(outJk);
   DERIVED_JK & Jk = mbJk.derived();
+  Jk.resize(3, 2);
 
   double r0 = outPoint[0];
   double r1 = outPoint[1];
diff --git a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/PinholeProjection.hpp b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/PinholeProjection.hpp
index 232d2aa..e95caca 100644
--- a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/PinholeProjection.hpp
+++ b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/PinholeProjection.hpp
@@ -310,6 +310,7 @@ bool PinholeProjection<DISTORTION_T>::keypointToHomogeneous(
 
   DERIVED_P & p =
       const_cast<DERIVED_P &>(outPoint);
+  p.derived().resize(4);
   p[3] = 0.0;
 
   return keypointToEuclidean(keypoint, p.template head<3>(),
-- 
2.43.0


From e3f24be646e6ed966a5b5327f3ead57215c13709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:14 +0000
Subject: [PATCH 009/155] fix: pinhole projection with Jacobian ignored a
 negative homogeneous scale

---
 .../aslam_cameras/cameras/implementation/PinholeProjection.hpp  | 2 --
 1 file changed, 2 deletions(-)

diff --git a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/PinholeProjection.hpp b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/PinholeProjection.hpp
index e95caca..eddac02 100644
--- a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/PinholeProjection.hpp
+++ b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/PinholeProjection.hpp
@@ -180,8 +180,6 @@ bool PinholeProjection<DISTORTION_T>::homogeneousToKeypoint(
   J.setZero();
 
   // hope this works... (required to have valid static asserts)
-  return euclideanToKeypoint(ph.derived().template head<3>(), outKeypoint,
-                             J.derived().template topLeftCorner<2, 3>());
 
   if (ph[3] < 0) {
     bool success = euclideanToKeypoint(
-- 
2.43.0


From 6d296f5b54f5c5ac8ade3b76f5f2033526750491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:14 +0000
Subject: [PATCH 010/155] fix: Jacobian of the pinhole back-projection for
 unequal focal lengths

---
 .../cameras/implementation/PinholeProjection.hpp            | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/PinholeProjection.hpp b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/PinholeProjection.hpp
index eddac02..a1d065d 100644
--- a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/PinholeProjection.hpp
+++ b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/PinholeProjection.hpp
@@ -259,10 +259,8 @@ bool PinholeProjection<DISTORTION_T>::keypointToEuclidean(
   //J.derived()(0,0) = 1.0;
   //J.derived()(1,1) = _fu_over_fv;
 
-  J.derived()(0, 0) = _recip_fu;
-  J.derived()(1, 1) = _recip_fv;
-
-  J *= Jd;
+  J.derived().template topLeftCorner<2, 2>() = Jd
+      * Eigen::Vector2d(_recip_fu, _recip_fv).asDiagonal();
 
   return isValid(keypoint);
 
-- 
2.43.0


From 7d875e4c21cc576600eb3fd0479e9fced4a29611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:14 +0000
Subject: [PATCH 011/155] fix: camera intrinsics Jacobian wrote the distortion
 block to the wrong place

---
 .../aslam_cameras/cameras/implementation/CameraGeometry.hpp   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/CameraGeometry.hpp b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/CameraGeometry.hpp
index 56a06ff..fe8e3c9 100644
--- a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/CameraGeometry.hpp
+++ b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/CameraGeometry.hpp
@@ -679,14 +679,14 @@ namespace aslam {
       if (estimateProjection) {
         Eigen::MatrixXd J;
         _projection.euclideanToKeypointIntrinsicsJacobian(p, J);
-        outJi.block(col, 0, KeypointDimension, _projection.minimalDimensions()) = J;
+        outJi.block(0, col, KeypointDimension, _projection.minimalDimensions()) = J;
         col += _projection.minimalDimensions();
       }
 
       if (estimateDistortion) {
         Eigen::MatrixXd J;
         _projection.euclideanToKeypointDistortionJacobian(p, J);
-        outJi.block(col, 0, KeypointDimension,
+        outJi.block(0, col, KeypointDimension,
                     _projection.distortion().minimalDimensions()) = J;
         col += _projection.distortion().minimalDimensions();
       }
-- 
2.43.0


From 670015ee010c2817a6faf0736b8bc6a742ebf561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:21 +0000
Subject: [PATCH 012/155] fix: visibility of a point ignored the image mask

---
 .../aslam_cameras/cameras/implementation/CameraGeometry.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/CameraGeometry.hpp b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/CameraGeometry.hpp
index fe8e3c9..9a829a4 100644
--- a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/CameraGeometry.hpp
+++ b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/CameraGeometry.hpp
@@ -121,13 +121,15 @@ namespace aslam {
     template<typename P, typename S, typename M>
     bool CameraGeometry<P, S, M>::vsIsEuclideanVisible(
         const Eigen::Vector3d & p) const {
-      return _projection.isEuclideanVisible(p);
+      Eigen::VectorXd keypoint(keypointDimension());
+      return vsEuclideanToKeypoint(p, keypoint);
     }
 
     template<typename P, typename S, typename M>
     bool CameraGeometry<P, S, M>::vsIsHomogeneousVisible(
         const Eigen::Vector4d & ph) const {
-      return _projection.isHomogeneousVisible(ph);
+      Eigen::VectorXd keypoint(keypointDimension());
+      return vsHomogeneousToKeypoint(ph, keypoint);
     }
 
     // The amount of time elapsed between the start of the image and the
-- 
2.43.0


From 550747805d339f1092903d03b80ab4b44352137e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:12 +0000
Subject: [PATCH 013/155] fix: ImageMask read outside of the mask for keypoints
 outside of the image

---
 .../include/aslam_cameras/cameras/ImageMask.hpp        | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/ImageMask.hpp b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/ImageMask.hpp
index fc311f3..9719f08 100644
--- a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/ImageMask.hpp
+++ b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/ImageMask.hpp
@@ -33,10 +33,12 @@ class ImageMask {
 
   template<typename DERIVED>
   bool isValid(const DERIVED & k) const {
-    int k1 = k(1, 0) * _scale;
-    int k0 = k(0, 0) * _scale;
-//     // \todo fix this when it is initialized properly
-    return !_mask.data || (_mask.at<unsigned char>(k1, k0) > 0);
+    if (!_mask.data)
+      return true;
+    const double k1 = k(1, 0) * _scale;
+    const double k0 = k(0, 0) * _scale;
+    return k1 >= 0.0 && k1 < _mask.rows && k0 >= 0.0 && k0 < _mask.cols
+        && _mask.at<unsigned char>((int) k1, (int) k0) > 0;
   }
 
   // is the mask set? (i.e. mask data != NULL)
-- 
2.43.0


From 97de4644c24d5e24de36047cc1efceb385049c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:09 +0000
Subject: [PATCH 014/155] fix: EquidistantDistortion gave NaN at the image
 centre

---
 .../cameras/implementation/EquidistantDistortion.hpp  | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/EquidistantDistortion.hpp b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/EquidistantDistortion.hpp
index c7bda6b..c33bec1 100644
--- a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/EquidistantDistortion.hpp
+++ b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/EquidistantDistortion.hpp
@@ -51,6 +51,12 @@ void EquidistantDistortion::distort(
   double r, theta, theta2, theta4, theta6, theta8, thetad, scaling;
 
   //MATLAB generated Jacobian
+  // the general formula below divides by the distance to the centre
+  if (y.derived().norm() <= 1e-8) {
+    J.setIdentity();
+    return;
+  }
+
   J(0, 0) = atan(sqrt(y[0] * y[0] + y[1] * y[1])) * 1.0
       / sqrt(y[0] * y[0] + y[1] * y[1])
       * (_k1 * pow(atan(sqrt(y[0] * y[0] + y[1] * y[1])), 2.0)
@@ -204,7 +210,7 @@ void EquidistantDistortion::undistort(
     theta = thetad
         / (1 + _k1 * theta2 + _k2 * theta4 + _k3 * theta6 + _k4 * theta8);
   }
-  scaling = tan(theta) / thetad;
+  scaling = (thetad > 1e-8) ? tan(theta) / thetad : 1.0;
 
   y[0] *= scaling;
   y[1] *= scaling;
@@ -255,6 +261,9 @@ void EquidistantDistortion::distortParameterJacobian(
   J.derived().resize(2, 4);
   J.setZero();
 
+  if (y.derived().norm() <= 1e-8)
+    return;
+
   J(0, 0) = y[0] * pow(atan(sqrt(y[0] * y[0] + y[1] * y[1])), 3.0) * 1.0
       / sqrt(y[0] * y[0] + y[1] * y[1]);
   J(0, 1) = y[0] * pow(atan(sqrt(y[0] * y[0] + y[1] * y[1])), 5.0) * 1.0
-- 
2.43.0


From 55f9021775ccfb8bef1e7bd1843b67ebeb69a4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:09 +0000
Subject: [PATCH 015/155] fix: FovDistortion's parameter Jacobian near the
 image centre did not depend on the point

---
 .../aslam_cameras/cameras/implementation/FovDistortion.hpp      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/FovDistortion.hpp b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/FovDistortion.hpp
index 94db759..f72a4a2 100644
--- a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/FovDistortion.hpp
+++ b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/FovDistortion.hpp
@@ -154,7 +154,7 @@ void FovDistortion::distortParameterJacobian(
     J.setZero();
   }
   else if (r_u * r_u < 1e-5) {
-    J.setOnes();
+    J << u, v;
     J *= (_w - sin(_w)) / (_w * _w * cos(_w / 2) * cos(_w / 2));
   } else {
     const double dxd_d_w = (2 * u * (tanwhalfsq / 2 + 0.5))
-- 
2.43.0


From fde4bd5875a3aab8aa6f15bec8e112c368f29c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:46 +0000
Subject: [PATCH 016/155] fix: SM_CHECKSAME and SM_CHECKMEMBERSSAME stopped at
 the first equal member when combined with &&

---
 .../sm_common/include/sm_common/serialization_macros.hpp  | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Schweizer-Messer/sm_common/include/sm_common/serialization_macros.hpp b/Schweizer-Messer/sm_common/include/sm_common/serialization_macros.hpp
index 814afca..dc8043a 100644
--- a/Schweizer-Messer/sm_common/include/sm_common/serialization_macros.hpp
+++ b/Schweizer-Messer/sm_common/include/sm_common/serialization_macros.hpp
@@ -324,7 +324,7 @@ struct VerboseChecker {
     SM_SERIALIZATION_CHECKSAME_IMPL(THIS, OTHER)
 
 #define SM_SERIALIZATION_CHECKSAME_IMPL(THIS, OTHER) \
-    (sm::serialization::internal::checkTypeIsNotOpencvMat<\
+    ((sm::serialization::internal::checkTypeIsNotOpencvMat<\
         typename sm::common::StripConstReference<decltype(OTHER)>::result_t, \
         false>::value &&  /*for opencvMats we have to use
         sm::opencv::isBinaryEqual otherwise this code has to depend on opencv*/ \
@@ -348,14 +348,14 @@ struct VerboseChecker {
     typename sm::common::StripConstReference<decltype(OTHER)>::result_t>::value, \
     typename sm::common::StripConstReference<decltype(OTHER)>::result_t>::eval(OTHER) \
     << "\nat " << __PRETTY_FUNCTION__ << /* Print the function where this happened.*/ \
-    " In: " << __FILE__ << ":" << __LINE__ << std::endl << std::endl) && false : false)
+    " In: " << __FILE__ << ":" << __LINE__ << std::endl << std::endl) && false : false))
 
 #define SM_SERIALIZATION_CHECKMEMBERSSAME_VERBOSE(OTHER, MEMBER, VERBOSE) \
     (SET_CHECKSAME_VERBOSITY(VERBOSE) && \
         SM_SERIALIZATION_CHECKMEMBERSSAME_IMPL(OTHER, MEMBER)
 
 #define SM_SERIALIZATION_CHECKMEMBERSSAME_IMPL(OTHER, MEMBER) \
-    ((sm::serialization::internal::checkTypeIsNotOpencvMat<\
+    (((sm::serialization::internal::checkTypeIsNotOpencvMat<\
         typename sm::common::StripConstReference<decltype(OTHER)>::result_t,\
         false>::value) &&  /* For opencvMats we have to use sm::opencv::isBinaryEqual
         otherwise this code has to depend on opencv.*/\
@@ -375,7 +375,7 @@ struct VerboseChecker {
     typename sm::common::StripConstReference<decltype(MEMBER)>::result_t>::value, \
     typename sm::common::StripConstReference<decltype(MEMBER)>::result_t >::eval(OTHER.MEMBER) \
     << "\nat " << __PRETTY_FUNCTION__ << \
-    " In: " << __FILE__ << ":" << __LINE__ << std::endl << std::endl) && false : false)
+    " In: " << __FILE__ << ":" << __LINE__ << std::endl << std::endl) && false : false))
 
 // This is some internal default macro parameter deduction.
 #define SM_SERIALIZATION_GET_3RD_ARG(arg1, arg2, arg3, ...) arg3
-- 
2.43.0


From a465b91f5ea48cb6620320e9f039de3de0c84e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:00 +0000
Subject: [PATCH 017/155] fix: GlobalShutter's capture time Jacobian resized a
 block to a different size

---
 .../include/aslam_cameras/cameras/GlobalShutter.hpp             | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/GlobalShutter.hpp b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/GlobalShutter.hpp
index 425cea6..556ea16 100644
--- a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/GlobalShutter.hpp
+++ b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/GlobalShutter.hpp
@@ -38,7 +38,7 @@ class GlobalShutter {
       const DERIVED_J & outJ) const {
       DERIVED_J & J =
         const_cast<DERIVED_J &>(outJ);
-      J.resize(0, 0);
+      J.resize(1, 0);
 
   }
 
-- 
2.43.0


From 5935c29f4238ce9142da633088d359b1cd2481f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:01 +0000
Subject: [PATCH 018/155] fix: extended unified camera's parameter Jacobian
 used the wrong focal length for the image row

---
 .../cameras/implementation/ExtendedUnifiedProjection.hpp        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/ExtendedUnifiedProjection.hpp b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/ExtendedUnifiedProjection.hpp
index a9711d1..a153241 100644
--- a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/ExtendedUnifiedProjection.hpp
+++ b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/ExtendedUnifiedProjection.hpp
@@ -433,7 +433,7 @@ void ExtendedUnifiedProjection<DISTORTION_T>::euclideanToKeypointIntrinsicsJacob
   J.setZero();
 
   const double tmp_x = -_fu * x * norm_inv2;
-  const double tmp_y = -_fu * y * norm_inv2;
+  const double tmp_y = -_fv * y * norm_inv2;
 
   const double tmp4 = (d - z);
   const double tmp5 = 0.5 * _alpha * r2 * d_inv;
-- 
2.43.0


From 0827c99258a8ada456004b028b104c05d644bf48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:30 +0000
Subject: [PATCH 019/155] fix: portable binary archives stored integers as on a
 big-endian machine and could not be loaded

---
 Schweizer-Messer/sm_boost/src/portable_binary_iarchive.cpp | 4 ++--
 Schweizer-Messer/sm_boost/src/portable_binary_oarchive.cpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/Schweizer-Messer/sm_boost/src/portable_binary_iarchive.cpp b/Schweizer-Messer/sm_boost/src/portable_binary_iarchive.cpp
index 3a3d0b1..b30e4e9 100755
--- a/Schweizer-Messer/sm_boost/src/portable_binary_iarchive.cpp
+++ b/Schweizer-Messer/sm_boost/src/portable_binary_iarchive.cpp
@@ -39,12 +39,12 @@ portable_binary_iarchive::load_impl(boost::intmax_t & l, char maxsize){
         );
 
     char * cptr = reinterpret_cast<char *>(& l);
-    #ifdef BOOST_ENDIAN_BIG_BYTE
+    #if BOOST_ENDIAN_BIG_BYTE
         cptr += (sizeof(boost::intmax_t) - size);
     #endif
     this->primitive_base_t::load_binary(cptr, size);
 
-    #ifdef BOOST_ENDIAN_BIG_BYTE
+    #if BOOST_ENDIAN_BIG_BYTE
         if(m_flags & endian_little)
     #else
         if(m_flags & endian_big)
diff --git a/Schweizer-Messer/sm_boost/src/portable_binary_oarchive.cpp b/Schweizer-Messer/sm_boost/src/portable_binary_oarchive.cpp
index 717dff3..8541392 100755
--- a/Schweizer-Messer/sm_boost/src/portable_binary_oarchive.cpp
+++ b/Schweizer-Messer/sm_boost/src/portable_binary_oarchive.cpp
@@ -49,7 +49,7 @@ portable_binary_oarchive::save_impl(
     else
         ll = l;
     char * cptr = reinterpret_cast<char *>(& ll);
-    #ifdef BOOST_ENDIAN_BIG_BYTE
+    #if BOOST_ENDIAN_BIG_BYTE
         cptr += (sizeof(boost::intmax_t) - size);
         if(m_flags & endian_little)
             reverse_bytes(size, cptr);
-- 
2.43.0


From 913e74e7d64fa304e0ef0720df1c297691fc0a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:47 +0000
Subject: [PATCH 020/155] fix: storing the smallest integer in a portable
 binary archive did not end

---
 .../sm_boost/src/portable_binary_iarchive.cpp   |  2 +-
 .../sm_boost/src/portable_binary_oarchive.cpp   | 17 +++++++----------
 2 files changed, 8 insertions(+), 11 deletions(-)

diff --git a/Schweizer-Messer/sm_boost/src/portable_binary_iarchive.cpp b/Schweizer-Messer/sm_boost/src/portable_binary_iarchive.cpp
index b30e4e9..5827506 100755
--- a/Schweizer-Messer/sm_boost/src/portable_binary_iarchive.cpp
+++ b/Schweizer-Messer/sm_boost/src/portable_binary_iarchive.cpp
@@ -52,7 +52,7 @@ portable_binary_iarchive::load_impl(boost::intmax_t & l, char maxsize){
             reverse_bytes(size, cptr);
 
     if(negative)
-        l = -l;
+        l = static_cast<boost::intmax_t>(0 - static_cast<boost::uintmax_t>(l));
 }
 
 void
diff --git a/Schweizer-Messer/sm_boost/src/portable_binary_oarchive.cpp b/Schweizer-Messer/sm_boost/src/portable_binary_oarchive.cpp
index 8541392..5ed1566 100755
--- a/Schweizer-Messer/sm_boost/src/portable_binary_oarchive.cpp
+++ b/Schweizer-Messer/sm_boost/src/portable_binary_oarchive.cpp
@@ -28,12 +28,12 @@ portable_binary_oarchive::save_impl(
         return;
     }
 
-    boost::intmax_t ll;
-    bool negative = (l < 0);
-    if(negative)
-        ll = -l;
-    else
-        ll = l;
+    // unsigned, as the smallest integer has no negative
+    const bool negative = (l < 0);
+    const boost::uintmax_t magnitude = negative
+        ? 0 - static_cast<boost::uintmax_t>(l)
+        : static_cast<boost::uintmax_t>(l);
+    boost::uintmax_t ll = magnitude;
 
     do{
         ll >>= CHAR_BIT;
@@ -44,10 +44,7 @@ portable_binary_oarchive::save_impl(
         static_cast<char>(negative ? -size : size)
     );
 
-    if(negative)
-        ll = -l;
-    else
-        ll = l;
+    ll = magnitude;
     char * cptr = reinterpret_cast<char *>(& ll);
     #if BOOST_ENDIAN_BIG_BYTE
         cptr += (sizeof(boost::intmax_t) - size);
-- 
2.43.0


From 0c33c887708e8ff57ebd1349485a2a0a0c779da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:47 +0000
Subject: [PATCH 021/155] fix: comparing image masks ignored their scale

---
 aslam_cv/aslam_cameras/src/ImageMask.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv/aslam_cameras/src/ImageMask.cpp b/aslam_cv/aslam_cameras/src/ImageMask.cpp
index 96fa0b4..b314467 100644
--- a/aslam_cv/aslam_cameras/src/ImageMask.cpp
+++ b/aslam_cv/aslam_cameras/src/ImageMask.cpp
@@ -58,7 +58,7 @@ double ImageMask::getScale() const {
 }
 
 bool ImageMask::isBinaryEqual(const ImageMask & rhs) const {
-  return sm::opencv::isBinaryEqual(_mask, rhs._mask);
+  return sm::opencv::isBinaryEqual(_mask, rhs._mask) && _scale == rhs._scale;
 }
 
 void ImageMask::setMaskFromMatrix(const Eigen::MatrixXi & mask) {
-- 
2.43.0


From 8da512de1f1d404a06ca72f5b866642f0e8495e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:35 +0000
Subject: [PATCH 022/155] fix: an empty image differed from itself after it had
 been stored

---
 Schweizer-Messer/sm_opencv/include/sm_opencv/serialization.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Schweizer-Messer/sm_opencv/include/sm_opencv/serialization.hpp b/Schweizer-Messer/sm_opencv/include/sm_opencv/serialization.hpp
index 00ac0ac..68cb49f 100755
--- a/Schweizer-Messer/sm_opencv/include/sm_opencv/serialization.hpp
+++ b/Schweizer-Messer/sm_opencv/include/sm_opencv/serialization.hpp
@@ -17,7 +17,7 @@ namespace sm {
 	      SM_CHECKSAME(m1.cols, m2.cols) &&
 	      SM_CHECKSAME(m1.depth(), m2.depth()) &&
 	      SM_CHECKSAME(m1.type(), m2.type()) &&
-	      SM_CHECKSAME(m1.elemSize(), m2.elemSize());
+	      SM_CHECKSAME(m1.elemSize1(), m2.elemSize1());
 		
 	  if(isEqual)
 		{
-- 
2.43.0


From 8113139c08ecc3c6a8ba297576d2ab06ec4f856e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:03 +0000
Subject: [PATCH 023/155] fix: getPointDataPointer refused exactly the points
 the grid has

---
 aslam_cv/aslam_cameras/src/GridCalibrationTargetBase.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv/aslam_cameras/src/GridCalibrationTargetBase.cpp b/aslam_cv/aslam_cameras/src/GridCalibrationTargetBase.cpp
index 2fbb2ce..dd3f2c2 100644
--- a/aslam_cv/aslam_cameras/src/GridCalibrationTargetBase.cpp
+++ b/aslam_cv/aslam_cameras/src/GridCalibrationTargetBase.cpp
@@ -36,7 +36,7 @@ Eigen::Vector3d GridCalibrationTargetBase::gridPoint(size_t r, size_t c) const {
 }
 
 double * GridCalibrationTargetBase::getPointDataPointer(size_t i) {
-  SM_ASSERT_LT(Exception, size()-1, i, "Grid has less points than the requested idx!")
+  SM_ASSERT_LT(Exception, i, size(), "Grid has less points than the requested idx!");
   return &_points(i, 0);
 }
 
-- 
2.43.0


From 078f19f3fe4bd0cb9677dfce70cdb46c532b2580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:30 +0000
Subject: [PATCH 024/155] fix: setMaskFromMatrix also changed the copies of the
 mask

---
 aslam_cv/aslam_cameras/src/ImageMask.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aslam_cv/aslam_cameras/src/ImageMask.cpp b/aslam_cv/aslam_cameras/src/ImageMask.cpp
index b314467..bb14559 100644
--- a/aslam_cv/aslam_cameras/src/ImageMask.cpp
+++ b/aslam_cv/aslam_cameras/src/ImageMask.cpp
@@ -62,7 +62,8 @@ bool ImageMask::isBinaryEqual(const ImageMask & rhs) const {
 }
 
 void ImageMask::setMaskFromMatrix(const Eigen::MatrixXi & mask) {
-  _mask.create(mask.rows(), mask.cols(), CV_8UC1);
+  // Allocate anew: copies of this mask share the current image.
+  _mask = cv::Mat(mask.rows(), mask.cols(), CV_8UC1);
   for (int r = 0; r < mask.rows(); ++r) {
     uchar * p = _mask.ptr(r);
     for (int c = 0; c < mask.cols(); ++c, ++p) {
-- 
2.43.0


From e77aede53906c2c89df9e5ee63cacef504a79d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:24 +0000
Subject: [PATCH 025/155] fix: pinhole focal length initialization paired
 target rows with columns and read past the circles

---
 .../aslam_cameras/cameras/implementation/PinholeProjection.hpp  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/PinholeProjection.hpp b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/PinholeProjection.hpp
index a1d065d..cc59b4a 100644
--- a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/PinholeProjection.hpp
+++ b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/PinholeProjection.hpp
@@ -756,7 +756,7 @@ bool PinholeProjection<DISTORTION_T>::initializeIntrinsics(const std::vector<Gri
 
     for (size_t j=0; j<target.rows(); ++j)
     {
-      for (size_t k=j+1; k<target.cols(); ++k)
+      for (size_t k=j+1; k<target.rows(); ++k)
       {
         // find distance between pair of vanishing points which
         // correspond to intersection points of 2 circles
-- 
2.43.0


From 1409f1ee8212442f2795baaaa13a219e49aec26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:53 +0000
Subject: [PATCH 026/155] fix: estimating a pose from corners on one line threw
 or returned an arbitrary pose

---
 .../cameras/GridCalibrationTargetObservation.hpp   | 14 ++++++++++++++
 .../implementation/DoubleSphereProjection.hpp      |  2 +-
 .../implementation/ExtendedUnifiedProjection.hpp   |  2 +-
 .../cameras/implementation/OmniProjection.hpp      |  2 +-
 .../cameras/implementation/PinholeProjection.hpp   |  2 +-
 5 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/GridCalibrationTargetObservation.hpp b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/GridCalibrationTargetObservation.hpp
index 5607115..4b38805 100644
--- a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/GridCalibrationTargetObservation.hpp
+++ b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/GridCalibrationTargetObservation.hpp
@@ -18,6 +18,20 @@
 namespace aslam {
 namespace cameras {
 
+/// \brief do all corners lie on one line? They do not determine a pose then.
+inline bool areCornersCollinear(const std::vector<cv::Point3f> & corners) {
+  cv::Point3f line(0, 0, 0);
+  for (size_t i = 1; i < corners.size(); ++i) {
+    if (cv::norm(corners[i] - corners[0]) > cv::norm(line))
+      line = corners[i] - corners[0];
+  }
+  for (size_t i = 1; i < corners.size(); ++i) {
+    if (cv::norm((corners[i] - corners[0]).cross(line)) > 1e-3 * line.dot(line))
+      return false;
+  }
+  return true;
+}
+
 /**
  * \class GridCalibrationTargetObservation
  * \brief an object representing the observation of a gridded calibration pattern in an image
diff --git a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/DoubleSphereProjection.hpp b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/DoubleSphereProjection.hpp
index 41048f0..5e552a0 100644
--- a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/DoubleSphereProjection.hpp
+++ b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/DoubleSphereProjection.hpp
@@ -887,7 +887,7 @@ bool DoubleSphereProjection<DISTORTION_T>::estimateTransformation(
   cv::Mat rvec(3, 1, CV_64F);
   cv::Mat tvec(3, 1, CV_64F);
 
-  if (Ps.size() < 4) {
+  if (Ps.size() < 4 || areCornersCollinear(Ps)) {
 //    SM_DEBUG_STREAM(
 //        "At least 4 points are needed for calling PnP. Found " << Ps.size());
     return false;
diff --git a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/ExtendedUnifiedProjection.hpp b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/ExtendedUnifiedProjection.hpp
index a153241..0361a20 100644
--- a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/ExtendedUnifiedProjection.hpp
+++ b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/ExtendedUnifiedProjection.hpp
@@ -836,7 +836,7 @@ bool ExtendedUnifiedProjection<DISTORTION_T>::estimateTransformation(
   cv::Mat rvec(3, 1, CV_64F);
   cv::Mat tvec(3, 1, CV_64F);
 
-  if (Ps.size() < 4) {
+  if (Ps.size() < 4 || areCornersCollinear(Ps)) {
 //    SM_DEBUG_STREAM(
 //        "At least 4 points are needed for calling PnP. Found " << Ps.size());
     return false;
diff --git a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/OmniProjection.hpp b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/OmniProjection.hpp
index 1f12129..767c238 100644
--- a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/OmniProjection.hpp
+++ b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/OmniProjection.hpp
@@ -916,7 +916,7 @@ bool OmniProjection<DISTORTION_T>::estimateTransformation(
   cv::Mat rvec(3, 1, CV_64F);
   cv::Mat tvec(3, 1, CV_64F);
 
-  if (Ps.size() < 4) {
+  if (Ps.size() < 4 || areCornersCollinear(Ps)) {
 //    SM_DEBUG_STREAM(
 //        "At least 4 points are needed for calling PnP. Found " << Ps.size());
     return false;
diff --git a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/PinholeProjection.hpp b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/PinholeProjection.hpp
index cc59b4a..6fc709f 100644
--- a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/PinholeProjection.hpp
+++ b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/PinholeProjection.hpp
@@ -876,7 +876,7 @@ bool PinholeProjection<DISTORTION_T>::estimateTransformation(
   cv::Mat rvec(3, 1, CV_64F);
   cv::Mat tvec(3, 1, CV_64F);
 
-  if (Ps.size() < 4)
+  if (Ps.size() < 4 || areCornersCollinear(Ps))
     return false;
 
   // Call the OpenCV pnp function.
-- 
2.43.0


From 18c3a1377d1d55e530cf60f80f9ee93a0897eb00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:49 +0000
Subject: [PATCH 027/155] fix: calculateOverlappingFOV never delivered the
 masks it computed

---
 .../implementation/calculateOverlappingFov.hpp        | 11 ++++++-----
 .../aslam_imgproc/src/calculateOverlappingFov.cpp     | 11 ++++++-----
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/aslam_cv/aslam_imgproc/include/aslam_imgproc/implementation/calculateOverlappingFov.hpp b/aslam_cv/aslam_imgproc/include/aslam_imgproc/implementation/calculateOverlappingFov.hpp
index 7d7d794..6e1c5b9 100644
--- a/aslam_cv/aslam_imgproc/include/aslam_imgproc/implementation/calculateOverlappingFov.hpp
+++ b/aslam_cv/aslam_imgproc/include/aslam_imgproc/implementation/calculateOverlappingFov.hpp
@@ -37,11 +37,9 @@ void calculateOverlappingFOV(boost::shared_ptr<CAMERA_1_T> camera1,
   int width2 = (int) camera2->projection().ru() * scale;
   int height2 = (int) camera2->projection().rv() * scale;
 
-  // clear incoming masks
-  cv::Mat outMask1CV = outMask1.getMask();
-  cv::Mat outMask2CV = outMask2.getMask();
-  outMask1CV = cv::Mat::zeros(height1, width1, CV_8UC1);
-  outMask2CV = cv::Mat::zeros(height2, width2, CV_8UC1);
+  // the masks start empty
+  cv::Mat outMask1CV = cv::Mat::zeros(height1, width1, CV_8UC1);
+  cv::Mat outMask2CV = cv::Mat::zeros(height2, width2, CV_8UC1);
   outMask1.setScale(scale);
   outMask2.setScale(scale);
 
@@ -112,6 +110,9 @@ void calculateOverlappingFOV(boost::shared_ptr<CAMERA_1_T> camera1,
     }  // for
   }  // for
   outOverlappingRatio2 = outOverlappingRatio2 / (width2 * height2);
+
+  outMask1.setMask(outMask1CV);
+  outMask2.setMask(outMask2CV);
 }
 
 }  // namespace aslam
diff --git a/aslam_cv/aslam_imgproc/src/calculateOverlappingFov.cpp b/aslam_cv/aslam_imgproc/src/calculateOverlappingFov.cpp
index ff8bd7a..bc11761 100644
--- a/aslam_cv/aslam_imgproc/src/calculateOverlappingFov.cpp
+++ b/aslam_cv/aslam_imgproc/src/calculateOverlappingFov.cpp
@@ -17,11 +17,9 @@ void calculateOverlappingFOV(const cameras::CameraGeometryBase & camera1,
   int width2 = (int) camera2.width() * scale;
   int height2 = (int) camera2.height() * scale;
 
-  // clear incoming masks
-  cv::Mat outMask1CV = outMask1.getMask();
-  cv::Mat outMask2CV = outMask2.getMask();
-  outMask1CV = cv::Mat::zeros(height1, width1, CV_8UC1);
-  outMask2CV = cv::Mat::zeros(height2, width2, CV_8UC1);
+  // the masks start empty
+  cv::Mat outMask1CV = cv::Mat::zeros(height1, width1, CV_8UC1);
+  cv::Mat outMask2CV = cv::Mat::zeros(height2, width2, CV_8UC1);
   outMask1.setScale(scale);
   outMask2.setScale(scale);
 
@@ -94,6 +92,9 @@ void calculateOverlappingFOV(const cameras::CameraGeometryBase & camera1,
     }  // for
   }  // for
   outOverlappingRatio2 = outOverlappingRatio2 / (width2 * height2);
+
+  outMask1.setMask(outMask1CV);
+  outMask2.setMask(outMask2CV);
 }
 
 }  // namespace aslam
-- 
2.43.0


From 5b6bab276afd04ec2ac1143556dd272879978924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:05 +0000
Subject: [PATCH 028/155] fix: assigning a keypoint kept the old octave and
 trace id, and copies forgot that the landmark is disabled

---
 .../aslam_cameras/include/aslam_cameras/KeypointBase.hpp     | 2 +-
 .../include/aslam_cameras/implementation/Keypoint.hpp        | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/aslam_cv/aslam_cameras/include/aslam_cameras/KeypointBase.hpp b/aslam_cv/aslam_cameras/include/aslam_cameras/KeypointBase.hpp
index 09ce45e..6279657 100644
--- a/aslam_cv/aslam_cameras/include/aslam_cameras/KeypointBase.hpp
+++ b/aslam_cv/aslam_cameras/include/aslam_cameras/KeypointBase.hpp
@@ -112,7 +112,7 @@ class KeypointBase {
   /// \brief clear the back projeciton
   virtual void clearBackProjection() = 0;
 
- private:
+ protected:
   bool _landmarkEnabled;
 };
 
diff --git a/aslam_cv/aslam_cameras/include/aslam_cameras/implementation/Keypoint.hpp b/aslam_cv/aslam_cameras/include/aslam_cameras/implementation/Keypoint.hpp
index b4ae5ad..8f5ece3 100644
--- a/aslam_cv/aslam_cameras/include/aslam_cameras/implementation/Keypoint.hpp
+++ b/aslam_cv/aslam_cameras/include/aslam_cameras/implementation/Keypoint.hpp
@@ -15,7 +15,7 @@ Keypoint<D>::Keypoint()
 /// \brief the copy constructor makes a deep copy
 template<int D>
 Keypoint<D>::Keypoint(const Keypoint & rhs)
-    : KeypointBase(),
+    : KeypointBase(rhs),
       _measurement(rhs._measurement),
       _inverseMeasurementCovariance(rhs._inverseMeasurementCovariance),
       _landmarkId(rhs._landmarkId),
@@ -286,7 +286,10 @@ void Keypoint<D>::swap(Keypoint & rhs) {
     _landmarkId.swap(rhs._landmarkId);
     std::swap(_landmark, rhs._landmark);
     _descriptor.swap(rhs._descriptor);
+    std::swap(_landmarkEnabled, rhs._landmarkEnabled);
     std::swap(_backProjection, rhs._backProjection);
+    std::swap(_octave, rhs._octave);
+    std::swap(_traceId, rhs._traceId);
   }
 }
 
-- 
2.43.0


From 5340154eaf904dac9eb083cebf1f7341d25debe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:06 +0000
Subject: [PATCH 029/155] fix: back projections documented to start at zero
 were not initialized

---
 aslam_cv/aslam_cameras/src/BackProjection.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/aslam_cv/aslam_cameras/src/BackProjection.cpp b/aslam_cv/aslam_cameras/src/BackProjection.cpp
index 2ca6ec3..b42d7c3 100644
--- a/aslam_cv/aslam_cameras/src/BackProjection.cpp
+++ b/aslam_cv/aslam_cameras/src/BackProjection.cpp
@@ -3,12 +3,15 @@
 namespace aslam {
 
 /// \brief initialize both to zero with zero uncertainty
-BackProjection::BackProjection() {
+BackProjection::BackProjection()
+    : ray(Eigen::Vector3d::Zero()),
+      viewOrigin(Eigen::Vector3d::Zero()) {
 }
 
 /// \brief the view origin is set to zero
 BackProjection::BackProjection(const Eigen::Vector3d & ray)
-    : ray(ray) {
+    : ray(ray),
+      viewOrigin(Eigen::Vector3d::Zero()) {
 }
 
 /// \brief initialize without uncertainty
-- 
2.43.0


From 754fb46d1c1b633b9fbbc5896f951cc9d2bdde8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:18:49 +0000
Subject: [PATCH 030/155] fix: durations from negative or fractional seconds
 were not normalized and lost a nanosecond

---
 .../aslam_time/implementation/Duration.hpp    | 20 +++++++++----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/aslam_cv/aslam_time/include/aslam_time/implementation/Duration.hpp b/aslam_cv/aslam_time/include/aslam_time/implementation/Duration.hpp
index 5cd6611..ca9af58 100644
--- a/aslam_cv/aslam_time/include/aslam_time/implementation/Duration.hpp
+++ b/aslam_cv/aslam_time/include/aslam_time/implementation/Duration.hpp
@@ -36,7 +36,9 @@
 
 #include <aslam_time/Duration.hpp>
 //#include <ros/rate.h>
+#include <cmath>
 #include <boost/date_time/posix_time/posix_time_types.hpp>
+#include <boost/math/special_functions/round.hpp>
 
 namespace aslam {
 //
@@ -51,17 +53,13 @@ DurationBase<T>::DurationBase(int32_t _sec, int32_t _nsec)
 
 template<class T>
 T& DurationBase<T>::fromSec(double d) {
-#ifdef HAVE_TRUNC
-  sec = (int32_t)trunc(d);
-#else
-  // (morgan: why doesn't win32 provide trunc? argh. hacked this together
-  // without much thought. need to test this conversion.
-  if (d >= 0.0)
-    sec = (int32_t) floor(d);
-  else
-    sec = (int32_t) floor(d) + 1;
-#endif
-  nsec = (int32_t)((d - (double) sec) * 1000000000);
+  if (!(std::fabs(d) < 1e10))
+    throw std::runtime_error("Duration is out of dual 32-bit range");
+  int64_t sec64 = (int64_t) floor(d);
+  int64_t nsec64 = (int64_t) boost::math::round((d - (double) sec64) * 1e9);
+  normalizeSecNSecSigned(sec64, nsec64);
+  sec = (int32_t) sec64;
+  nsec = (int32_t) nsec64;
   return *static_cast<T*>(this);
 }
 
-- 
2.43.0


From 7f96479dc22be8d0ad0f6c412d62d7cfca40c09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:18:49 +0000
Subject: [PATCH 031/155] fix: times from seconds just below a whole one were
 not normalized, and those out of range wrapped

---
 aslam_cv/aslam_time/include/aslam_time/Time.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/aslam_cv/aslam_time/include/aslam_time/Time.hpp b/aslam_cv/aslam_time/include/aslam_time/Time.hpp
index 647a676..47cdf75 100644
--- a/aslam_cv/aslam_time/include/aslam_time/Time.hpp
+++ b/aslam_cv/aslam_time/include/aslam_time/Time.hpp
@@ -153,8 +153,13 @@ class TimeBase {
   }
   ;
   T& fromSec(double t) {
-    sec = (uint32_t) floor(t);
-    nsec = (uint32_t) boost::math::round((t - sec) * 1e9);
+    if (!(std::fabs(t) < 1e10))
+      throw std::runtime_error("Time is out of dual 32-bit range");
+    int64_t sec64 = (int64_t) floor(t);
+    int64_t nsec64 = (int64_t) boost::math::round((t - (double) sec64) * 1e9);
+    normalizeSecNSecUnsigned(sec64, nsec64);
+    sec = (uint32_t) sec64;
+    nsec = (uint32_t) nsec64;
     return *static_cast<T*>(this);
   }
 
-- 
2.43.0


From b32d324ff2a67bd197d82f6ded7b5d06392d75cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:18:49 +0000
Subject: [PATCH 032/155] fix: adding a duration refused times after 2038,
 which can be represented

---
 aslam_cv/aslam_time/src/time.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv/aslam_time/src/time.cpp b/aslam_cv/aslam_time/src/time.cpp
index 42a5527..fb15cba 100644
--- a/aslam_cv/aslam_time/src/time.cpp
+++ b/aslam_cv/aslam_time/src/time.cpp
@@ -379,7 +379,7 @@ void normalizeSecNSecUnsigned(int64_t& sec, int64_t& nsec) {
     --sec_part;
   }
 
-  if (sec_part < 0 || sec_part > INT_MAX)
+  if (sec_part < 0 || sec_part > UINT_MAX)
     throw std::runtime_error("Time is out of dual 32-bit range");
 
   sec = sec_part;
-- 
2.43.0


From 4cad95018699ac3cbbb8c5eaeb9419929be19088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:18:49 +0000
Subject: [PATCH 033/155] fix: time and duration arithmetic wrapped around
 instead of reporting a value out of range

---
 .../aslam_time/implementation/Duration.hpp    | 29 ++++++++++++++-----
 .../aslam_time/implementation/Time.hpp        | 28 +++++++++++++-----
 aslam_cv/aslam_time/src/time.cpp              |  2 +-
 3 files changed, 44 insertions(+), 15 deletions(-)

diff --git a/aslam_cv/aslam_time/include/aslam_time/implementation/Duration.hpp b/aslam_cv/aslam_time/include/aslam_time/implementation/Duration.hpp
index ca9af58..7f9891a 100644
--- a/aslam_cv/aslam_time/include/aslam_time/implementation/Duration.hpp
+++ b/aslam_cv/aslam_time/include/aslam_time/implementation/Duration.hpp
@@ -65,17 +65,26 @@ T& DurationBase<T>::fromSec(double d) {
 
 template<class T>
 T& DurationBase<T>::fromNSec(int64_t t) {
-  sec = (int32_t)(t / 1000000000);
-  nsec = (int32_t)(t % 1000000000);
+  int64_t sec64 = t / 1000000000;
+  int64_t nsec64 = t % 1000000000;
 
-  normalizeSecNSecSigned(sec, nsec);
+  normalizeSecNSecSigned(sec64, nsec64);
+
+  sec = (int32_t) sec64;
+  nsec = (int32_t) nsec64;
 
   return *static_cast<T*>(this);
 }
 
 template<class T>
 T DurationBase<T>::operator+(const T &rhs) const {
-  return T(sec + rhs.sec, nsec + rhs.nsec);
+  int64_t sec_sum = (int64_t) sec + (int64_t) rhs.sec;
+  int64_t nsec_sum = (int64_t) nsec + (int64_t) rhs.nsec;
+
+  // Throws an exception if we go out of 32-bit range
+  normalizeSecNSecSigned(sec_sum, nsec_sum);
+
+  return T((int32_t) sec_sum, (int32_t) nsec_sum);
 }
 
 template<class T>
@@ -85,12 +94,18 @@ T DurationBase<T>::operator*(double scale) const {
 
 template<class T>
 T DurationBase<T>::operator-(const T &rhs) const {
-  return T(sec - rhs.sec, nsec - rhs.nsec);
+  int64_t sec_diff = (int64_t) sec - (int64_t) rhs.sec;
+  int64_t nsec_diff = (int64_t) nsec - (int64_t) rhs.nsec;
+
+  // Throws an exception if we go out of 32-bit range
+  normalizeSecNSecSigned(sec_diff, nsec_diff);
+
+  return T((int32_t) sec_diff, (int32_t) nsec_diff);
 }
 
 template<class T>
 T DurationBase<T>::operator-() const {
-  return T(-sec, -nsec);
+  return T() - *static_cast<const T*>(this);
 }
 
 template<class T>
@@ -101,7 +116,7 @@ T& DurationBase<T>::operator+=(const T &rhs) {
 
 template<class T>
 T& DurationBase<T>::operator-=(const T &rhs) {
-  *this += (-rhs);
+  *this = *this - rhs;
   return *static_cast<T*>(this);
 }
 
diff --git a/aslam_cv/aslam_time/include/aslam_time/implementation/Time.hpp b/aslam_cv/aslam_time/include/aslam_time/implementation/Time.hpp
index 6d49211..cde5c4a 100644
--- a/aslam_cv/aslam_time/include/aslam_time/implementation/Time.hpp
+++ b/aslam_cv/aslam_time/include/aslam_time/implementation/Time.hpp
@@ -60,23 +60,37 @@ namespace aslam {
 
 template<class T, class D>
 T& TimeBase<T, D>::fromNSec(uint64_t t) {
-  sec = (int32_t)(t / 1000000000);
-  nsec = (int32_t)(t % 1000000000);
+  uint64_t sec64 = 0;
+  uint64_t nsec64 = t;
 
-  normalizeSecNSec(sec, nsec);
+  normalizeSecNSec(sec64, nsec64);
+
+  sec = (uint32_t) sec64;
+  nsec = (uint32_t) nsec64;
 
   return *static_cast<T*>(this);
 }
 
 template<class T, class D>
 D TimeBase<T, D>::operator-(const T &rhs) const {
-  return D((int32_t) sec - (int32_t) rhs.sec,
-           (int32_t) nsec - (int32_t) rhs.nsec);  // carry handled in ctor
+  int64_t sec_diff = (int64_t) sec - (int64_t) rhs.sec;
+  int64_t nsec_diff = (int64_t) nsec - (int64_t) rhs.nsec;
+
+  // Throws an exception if we go out of 32-bit range
+  normalizeSecNSecSigned(sec_diff, nsec_diff);
+
+  return D((int32_t) sec_diff, (int32_t) nsec_diff);
 }
 
 template<class T, class D>
 T TimeBase<T, D>::operator-(const D &rhs) const {
-  return *static_cast<const T*>(this) + (-rhs);
+  int64_t sec_diff = (int64_t) sec - (int64_t) rhs.sec;
+  int64_t nsec_diff = (int64_t) nsec - (int64_t) rhs.nsec;
+
+  // Throws an exception if we go out of 32-bit range
+  normalizeSecNSecUnsigned(sec_diff, nsec_diff);
+
+  return T((uint32_t) sec_diff, (uint32_t) nsec_diff);
 }
 
 template<class T, class D>
@@ -99,7 +113,7 @@ T& TimeBase<T, D>::operator+=(const D &rhs) {
 
 template<class T, class D>
 T& TimeBase<T, D>::operator-=(const D &rhs) {
-  *this += (-rhs);
+  *this = *this - rhs;
   return *static_cast<T*>(this);
 }
 
diff --git a/aslam_cv/aslam_time/src/time.cpp b/aslam_cv/aslam_time/src/time.cpp
index fb15cba..07e86a2 100644
--- a/aslam_cv/aslam_time/src/time.cpp
+++ b/aslam_cv/aslam_time/src/time.cpp
@@ -349,7 +349,7 @@ void normalizeSecNSec(uint64_t& sec, uint64_t& nsec) {
   uint64_t nsec_part = nsec % 1000000000UL;
   uint64_t sec_part = nsec / 1000000000UL;
 
-  if (sec_part > UINT_MAX)
+  if (sec > UINT_MAX || sec_part > UINT_MAX - sec)
     throw std::runtime_error("Time is out of dual 32-bit range");
 
   sec += sec_part;
-- 
2.43.0


From 9955862e0abc0a9703b63905c32fa42a0a060ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:19:05 +0000
Subject: [PATCH 034/155] fix: a duration with exactly one second of
 nanoseconds was not normalized

---
 aslam_cv/aslam_time/src/duration.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv/aslam_time/src/duration.cpp b/aslam_cv/aslam_time/src/duration.cpp
index 92cfa63..0bb8e31 100644
--- a/aslam_cv/aslam_time/src/duration.cpp
+++ b/aslam_cv/aslam_time/src/duration.cpp
@@ -7,7 +7,7 @@ void normalizeSecNSecSigned(int64_t& sec, int64_t& nsec) {
   int64_t nsec_part = nsec;
   int64_t sec_part = sec;
 
-  while (nsec_part > 1000000000L) {
+  while (nsec_part >= 1000000000L) {
     nsec_part -= 1000000000L;
     ++sec_part;
   }
-- 
2.43.0


From 4a23ac0a17c6896ec449423d069a1a58ed94c6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:19:05 +0000
Subject: [PATCH 035/155] fix: sleeping for a negative duration slept for a
 century

---
 aslam_cv/aslam_time/src/time.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/aslam_cv/aslam_time/src/time.cpp b/aslam_cv/aslam_time/src/time.cpp
index 07e86a2..78183c6 100644
--- a/aslam_cv/aslam_time/src/time.cpp
+++ b/aslam_cv/aslam_time/src/time.cpp
@@ -293,6 +293,10 @@ bool WallTime::sleepUntil(const WallTime& end) {
 }
 
 bool Duration::sleep() const {
+  if (sec < 0) {
+    return true;
+  }
+
   if (Time::useSystemTime()) {
     return aslam_wallsleep(sec, nsec);
   } else {
@@ -342,6 +346,10 @@ std::ostream &operator<<(std::ostream& os, const WallDuration& rhs) {
 }
 
 bool WallDuration::sleep() const {
+  if (sec < 0) {
+    return true;
+  }
+
   return aslam_wallsleep(sec, nsec);
 }
 
-- 
2.43.0


From f36cd4a99d32505fb3a0cbc38548744e91b206ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:19:05 +0000
Subject: [PATCH 036/155] fix: negative durations with a fraction printed as
 another value

---
 aslam_cv/aslam_time/src/time.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/aslam_cv/aslam_time/src/time.cpp b/aslam_cv/aslam_time/src/time.cpp
index 78183c6..7918d16 100644
--- a/aslam_cv/aslam_time/src/time.cpp
+++ b/aslam_cv/aslam_time/src/time.cpp
@@ -250,6 +250,17 @@ bool Time::waitForValid(const aslam::WallDuration& timeout) {
   return true;
 }
 
+static void printDuration(std::ostream& os, int64_t sec, int64_t nsec) {
+  // the nanoseconds count upwards also below zero
+  if (sec < 0) {
+    const bool carry = nsec > 0;
+    os << "-";
+    sec = -sec - (carry ? 1 : 0);
+    nsec = carry ? 1000000000 - nsec : 0;
+  }
+  os << sec << "." << std::setw(9) << std::setfill('0') << nsec;
+}
+
 std::ostream& operator<<(std::ostream& os, const Time &rhs) {
   boost::io::ios_all_saver s(os);
   os << rhs.sec << "." << std::setw(9) << std::setfill('0') << rhs.nsec;
@@ -258,7 +269,7 @@ std::ostream& operator<<(std::ostream& os, const Time &rhs) {
 
 std::ostream& operator<<(std::ostream& os, const Duration& rhs) {
   boost::io::ios_all_saver s(os);
-  os << rhs.sec << "." << std::setw(9) << std::setfill('0') << rhs.nsec;
+  printDuration(os, rhs.sec, rhs.nsec);
   return os;
 }
 
@@ -341,7 +352,7 @@ WallTime WallTime::now() {
 
 std::ostream &operator<<(std::ostream& os, const WallDuration& rhs) {
   boost::io::ios_all_saver s(os);
-  os << rhs.sec << "." << std::setw(9) << std::setfill('0') << rhs.nsec;
+  printDuration(os, rhs.sec, rhs.nsec);
   return os;
 }
 
-- 
2.43.0


From 6cb036b27a92a1178f1d575ee51273d02db18e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:21:01 +0000
Subject: [PATCH 037/155] fix: TimestampCorrector read beyond the hull after it
 shrank to two points

---
 .../include/sm_timing/implementation/TimestampCorrector.hpp      | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Schweizer-Messer/sm_timing/include/sm_timing/implementation/TimestampCorrector.hpp b/Schweizer-Messer/sm_timing/include/sm_timing/implementation/TimestampCorrector.hpp
index a795242..7aa3713 100755
--- a/Schweizer-Messer/sm_timing/include/sm_timing/implementation/TimestampCorrector.hpp
+++ b/Schweizer-Messer/sm_timing/include/sm_timing/implementation/TimestampCorrector.hpp
@@ -58,6 +58,7 @@ typename TimestampCorrector<T>::time_t TimestampCorrector<T>::correctTimestamp(c
   else
   {
     // and if there aren't enough data points, just return the sampled local time.
+    _midpointSegmentIndex = 0;
     return localTime;
   }
 
-- 
2.43.0


From 0aa0c3ee6b8a42c028d67f793d5a795e321ba37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:09 +0000
Subject: [PATCH 038/155] fix: TimestampCorrector overflowed integer times only
 seconds apart

---
 .../sm_timing/implementation/TimestampCorrector.hpp        | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/Schweizer-Messer/sm_timing/include/sm_timing/implementation/TimestampCorrector.hpp b/Schweizer-Messer/sm_timing/include/sm_timing/implementation/TimestampCorrector.hpp
index 7aa3713..c48b34a 100755
--- a/Schweizer-Messer/sm_timing/include/sm_timing/implementation/TimestampCorrector.hpp
+++ b/Schweizer-Messer/sm_timing/include/sm_timing/implementation/TimestampCorrector.hpp
@@ -44,7 +44,7 @@ typename TimestampCorrector<T>::time_t TimestampCorrector<T>::correctTimestamp(c
   // Update the midpoint pointer...
   if(_convexHull.size() >= 3)
   {
-    T midpoint = (_convexHull[0].x + remoteTime) / 2.0;
+    T midpoint = _convexHull[0].x + (remoteTime - _convexHull[0].x) / 2;
 	  
     typename convex_hull_t::iterator lbit = std::lower_bound(_convexHull.begin(), _convexHull.end(), midpoint);
     _midpointSegmentIndex = lbit - _convexHull.begin() - 1;
@@ -101,7 +101,7 @@ typename TimestampCorrector<T>::time_t TimestampCorrector<T>::getLocalTime(const
   const Point & l2 = _convexHull[_midpointSegmentIndex + 1];
 
   // look up the local timestamp
-  return  l1.y + ((remoteTime - l1.x) * (l2.y - l1.y) / (l2.x - l1.x) ); 
+  return  l1.y + T(double(remoteTime - l1.x) * double(l2.y - l1.y) / double(l2.x - l1.x)); 
 }
 
 template<typename T>
@@ -125,7 +125,8 @@ bool TimestampCorrector<T>::isAboveLine(const Point & l1, const Point & l2, cons
   Point v1 = l2 - l1;
   Point v2 = p - l1;
       
-  T determinant = v1.x * v2.y - v1.y * v2.x;
+  // In floating point, because the products overflow integer times.
+  double determinant = double(v1.x) * double(v2.y) - double(v1.y) * double(v2.x);
 
   return determinant >= 0.0;
 }
-- 
2.43.0


From 7ae748e7fdbdf327f65192e4eab9cb5fe9bb6361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:05 +0000
Subject: [PATCH 039/155] fix: BSpline checked a new knot sequence over the
 length of the old one

---
 aslam_nonparametric_estimation/aslam_bsplines/src/BSpline.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_nonparametric_estimation/aslam_bsplines/src/BSpline.cpp b/aslam_nonparametric_estimation/aslam_bsplines/src/BSpline.cpp
index fe08248..55b7802 100644
--- a/aslam_nonparametric_estimation/aslam_bsplines/src/BSpline.cpp
+++ b/aslam_nonparametric_estimation/aslam_bsplines/src/BSpline.cpp
@@ -187,7 +187,7 @@ namespace aslam_bsplines {
 		     << "for a B-spline of order " << splineOrder_ << ". At least " << minimumKnotsRequired() 
 		     << " knots are required");
       
-      for(unsigned i = 1; i < knots_.size(); i++)
+      for(unsigned i = 1; i < knots.size(); i++)
 	{
 	  SM_ASSERT_LE(Exception, knots[i-1], knots[i],
 			 "The knot sequence must be nondecreasing. Knot " << i
-- 
2.43.0


From 7a2d394052f048a0f783e81084dfe5011d52533b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:05 +0000
Subject: [PATCH 040/155] fix: removing a spline segment left the basis
 matrices of the old segments

---
 aslam_nonparametric_estimation/aslam_bsplines/src/BSpline.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aslam_nonparametric_estimation/aslam_bsplines/src/BSpline.cpp b/aslam_nonparametric_estimation/aslam_bsplines/src/BSpline.cpp
index 55b7802..fea655a 100644
--- a/aslam_nonparametric_estimation/aslam_bsplines/src/BSpline.cpp
+++ b/aslam_nonparametric_estimation/aslam_bsplines/src/BSpline.cpp
@@ -742,6 +742,10 @@ Eigen::VectorXi BSpline::segmentVvCoefficientVectorIndices(int segmentIdx) const
       if(knots_.size() > 0 && coefficients_.cols() > 0)
 	{
 	  knots_.erase(knots_.begin());
+	  if(!basisMatrices_.empty())
+	    {
+	      basisMatrices_.erase(basisMatrices_.begin());
+	    }
 	  coefficients_ = coefficients_.block(0,1,coefficients_.rows(),coefficients_.cols() - 1).eval();
 	}
     }
-- 
2.43.0


From 0eb2982ac2ed53f129a386d94b3521fd6db6d97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:15 +0000
Subject: [PATCH 041/155] fix: angularVelocityAndJacobian returned the negative
 of angularVelocity

---
 .../aslam_bsplines/src/BSplinePose.cpp                         | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aslam_nonparametric_estimation/aslam_bsplines/src/BSplinePose.cpp b/aslam_nonparametric_estimation/aslam_bsplines/src/BSplinePose.cpp
index b771999..4c5d35c 100644
--- a/aslam_nonparametric_estimation/aslam_bsplines/src/BSplinePose.cpp
+++ b/aslam_nonparametric_estimation/aslam_bsplines/src/BSplinePose.cpp
@@ -273,7 +273,8 @@ namespace aslam_bsplines {
       //std::cout << "Jpdot\n" << Jpdot << std::endl;
 
       Eigen::Matrix<double,3,6> Jo;
-      omega = rotation_->angularVelocityAndJacobian(p,pdot,&Jo);
+      omega = -rotation_->angularVelocityAndJacobian(p,pdot,&Jo);
+      Jo = -Jo;
       
       //std::cout << "Jo:\n" << Jo << std::endl;
       if(J)
-- 
2.43.0


From 3716b6cb642baf5309641c579a1b65ba45078ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:21 +0000
Subject: [PATCH 042/155] fix: a spline ending in repeated knots evaluated to
 zero at its end

---
 aslam_nonparametric_estimation/aslam_bsplines/src/BSpline.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aslam_nonparametric_estimation/aslam_bsplines/src/BSpline.cpp b/aslam_nonparametric_estimation/aslam_bsplines/src/BSpline.cpp
index fea655a..8d70582 100644
--- a/aslam_nonparametric_estimation/aslam_bsplines/src/BSpline.cpp
+++ b/aslam_nonparametric_estimation/aslam_bsplines/src/BSpline.cpp
@@ -250,7 +250,8 @@ namespace aslam_bsplines {
 	  // This is a special case to allow us to evaluate the spline at the boundary of the
 	  // interval. This is not stricly correct but it will be useful when we start doing
 	  // estimation and defining knots at our measurement times.
-	  i = knots_.end() - splineOrder_;
+	  // With repeated knots at the end, this is the last segment that is not empty.
+	  i = std::lower_bound(knots_.begin() + splineOrder_, knots_.end() - splineOrder_, t);
 	}
       else
 	{
-- 
2.43.0


From e52f37ed7b534bb11f6bc791e02ad5d56835686e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:54 +0000
Subject: [PATCH 043/155] fix: addCurveSegment2 did not account for the fixed
 coefficients in the acceleration

---
 aslam_nonparametric_estimation/aslam_bsplines/src/BSpline.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aslam_nonparametric_estimation/aslam_bsplines/src/BSpline.cpp b/aslam_nonparametric_estimation/aslam_bsplines/src/BSpline.cpp
index 8d70582..6326616 100644
--- a/aslam_nonparametric_estimation/aslam_bsplines/src/BSpline.cpp
+++ b/aslam_nonparametric_estimation/aslam_bsplines/src/BSpline.cpp
@@ -1249,12 +1249,12 @@ Eigen::VectorXi BSpline::segmentVvCoefficientVectorIndices(int segmentIdx) const
       // Add regularization constraints (keep the acceleration small)
       P = Phi(t_0,2);
       A.block(brow,bcol,D,coefficientDim) = lambda * P.block(0,phiBlockColumnOffset, D, coefficientDim);
-      b.segment(brow,D) = Eigen::VectorXd::Zero(D);
+      b.segment(brow,D) = -lambda * P.block(0,0,D,phiBlockColumnOffset) * fixedCoefficients;
       brow += D;
 
       P = Phi(t_1,2);
       A.block(brow,bcol,D,coefficientDim) = lambda * P.block(0,phiBlockColumnOffset, D, coefficientDim);
-      b.segment(brow,D) = Eigen::VectorXd::Zero(D);
+      b.segment(brow,D) = -lambda * P.block(0,0,D,phiBlockColumnOffset) * fixedCoefficients;
       brow += D;
 
       //A.block(brow,bcol,coefficientDim,coefficientDim) = 1e-4 * Eigen::MatrixXd::Identity(coefficientDim, coefficientDim);
-- 
2.43.0


From 2cc543b8be7ebb1b2fe0613fa15eead551065f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:37 +0000
Subject: [PATCH 044/155] fix: addCurveSegment changed the curve before
 unevenly spaced trailing knots

---
 .../aslam_bsplines/src/BSpline.cpp            | 28 ++++++++++++-------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/aslam_nonparametric_estimation/aslam_bsplines/src/BSpline.cpp b/aslam_nonparametric_estimation/aslam_bsplines/src/BSpline.cpp
index 6326616..0fd705a 100644
--- a/aslam_nonparametric_estimation/aslam_bsplines/src/BSpline.cpp
+++ b/aslam_nonparametric_estimation/aslam_bsplines/src/BSpline.cpp
@@ -666,12 +666,16 @@ Eigen::VectorXi BSpline::segmentVvCoefficientVectorIndices(int segmentIdx) const
       
       // add another knot.
       std::vector<double> knots(knots_);
-      knots.push_back(0.0);
-      // space the further knots uniformly.
-      for(unsigned k = km1 + 2; k < knots.size(); k++)
+      knots.push_back(knots_.back() + dt);
+      // space the further knots uniformly unless the segment ends at the next one:
+      // then the existing curve must not change.
+      if(knots[km1 + 2] != t)
 	{
-	  knots[k] = kt;
-	  kt += dt;
+	  for(unsigned k = km1 + 2; k < knots.size(); k++)
+	    {
+	      knots[k] = kt;
+	      kt += dt;
+	    }
 	}
       // Tack on an new, uninitialized coefficient column.
       Eigen::MatrixXd c(coefficients_.rows(), coefficients_.cols() + 1);
@@ -1195,12 +1199,16 @@ Eigen::VectorXi BSpline::segmentVvCoefficientVectorIndices(int segmentIdx) const
       
       // add another knot.
       std::vector<double> knots(knots_);
-      knots.push_back(0.0);
-      // space the further knots uniformly.
-      for(unsigned k = km1 + 2; k < knots.size(); k++)
+      knots.push_back(knots_.back() + dt);
+      // space the further knots uniformly unless the segment ends at the next one:
+      // then the existing curve must not change.
+      if(knots[km1 + 2] != t)
 	{
-	  knots[k] = kt;
-	  kt += dt;
+	  for(unsigned k = km1 + 2; k < knots.size(); k++)
+	    {
+	      knots[k] = kt;
+	      kt += dt;
+	    }
 	}
       // Tack on an new, uninitialized coefficient column.
       Eigen::MatrixXd c(coefficients_.rows(), coefficients_.cols() + 1);
-- 
2.43.0


From 828e425bcc9ed03d1b2bc44bce404b718f078754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:46 +0000
Subject: [PATCH 045/155] fix: BSplinePose::angularAccelerationAndJacobian had
 the opposite sign to the angular acceleration in the body frame

---
 .../aslam_bsplines/src/BSplinePose.cpp                         | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aslam_nonparametric_estimation/aslam_bsplines/src/BSplinePose.cpp b/aslam_nonparametric_estimation/aslam_bsplines/src/BSplinePose.cpp
index 4c5d35c..df9a854 100644
--- a/aslam_nonparametric_estimation/aslam_bsplines/src/BSplinePose.cpp
+++ b/aslam_nonparametric_estimation/aslam_bsplines/src/BSplinePose.cpp
@@ -350,7 +350,8 @@ namespace aslam_bsplines {
     	Jpdot.block(0,0,3,Jpdot.cols()) = Jp.block(3,0,3,Jp.cols());
 
     	Eigen::Matrix<double,3,6> Jo;
-    	omega = rotation_->angularVelocityAndJacobian(p,pdot,&Jo);
+    	omega = -rotation_->angularVelocityAndJacobian(p,pdot,&Jo);
+    	Jo = -Jo;
     	if(J)
     	{
     		*J = Jo * Jpdot;
-- 
2.43.0


From 2a5c36e927bdd173875ee45c4ff6d590c836d568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:33 +0000
Subject: [PATCH 046/155] fix: pose spline time offset Jacobian reads the block
 of its own coefficient

---
 .../aslam_splines/src/BSplineExpressions.cpp                    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_nonparametric_estimation/aslam_splines/src/BSplineExpressions.cpp b/aslam_nonparametric_estimation/aslam_splines/src/BSplineExpressions.cpp
index 4f8e95c..84efa43 100644
--- a/aslam_nonparametric_estimation/aslam_splines/src/BSplineExpressions.cpp
+++ b/aslam_nonparametric_estimation/aslam_splines/src/BSplineExpressions.cpp
@@ -479,7 +479,7 @@ namespace aslam {
             {
             	// nonzero Jacobian
             	if(_localCoefficientIndices[i] >= minIdx && _localCoefficientIndices[i] <= maxIdx )
-            		outJacobians.add(_spline->designVariable(_localCoefficientIndices[i]), J.block<6,6>(0,(i-minIdx)*6) );
+            		outJacobians.add(_spline->designVariable(_localCoefficientIndices[i]), J.block<6,6>(0,(_localCoefficientIndices[i]-minIdx)*6) );
             	// zero Jacobian:
             	else
             		outJacobians.add(_spline->designVariable(_localCoefficientIndices[i]), Eigen::Matrix<double, 6,6>::Zero());
-- 
2.43.0


From 6b9ee6d5e03bf8cb7092ce003f692c5b29193c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:33 +0000
Subject: [PATCH 047/155] fix: body frame acceleration expression
 differentiates value and frame

---
 .../aslam_splines/src/BSplineExpressions.cpp  | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/aslam_nonparametric_estimation/aslam_splines/src/BSplineExpressions.cpp b/aslam_nonparametric_estimation/aslam_splines/src/BSplineExpressions.cpp
index 84efa43..e500938 100644
--- a/aslam_nonparametric_estimation/aslam_splines/src/BSplineExpressions.cpp
+++ b/aslam_nonparametric_estimation/aslam_splines/src/BSplineExpressions.cpp
@@ -1,5 +1,6 @@
 #include <aslam_splines/BSplineExpressions.hpp>
 #include <aslam_splines/BSplinePoseDesignVariable.hpp>
+#include <sm_kinematics/rotations.hpp>
 
 namespace aslam {
     namespace splines {
@@ -312,9 +313,12 @@ namespace aslam {
     void BSplineAccelerationBodyFrameExpressionNode::
         evaluateJacobiansImplementation(aslam::backend::JacobianContainer&
         outJacobians) const {
-      Eigen::MatrixXd J;
-      _spline->evalDAndJacobian(_time, 2, &J, NULL);
-      SM_ASSERT_EQ_DBG(aslam::Exception, J.rows(), 6, "Bad");
+      Eigen::MatrixXd Ja, Jr;
+      Eigen::Vector3d a_w = _spline->linearAccelerationAndJacobian(_time, &Ja, NULL);
+      Eigen::Matrix3d C_b_w = _spline->inverseOrientationAndJacobian(_time, &Jr, NULL);
+      // The acceleration and the frame it is expressed in both depend on the coefficients.
+      Eigen::MatrixXd J = C_b_w * Ja + sm::kinematics::crossMx(Eigen::Vector3d(C_b_w * a_w)) * Jr;
+      SM_ASSERT_EQ_DBG(aslam::Exception, J.rows(), 3, "Bad");
       SM_ASSERT_EQ_DBG(aslam::Exception, J.cols(),
         6 * (int)_designVariables.size(), "Bad");
       for (size_t i = 0; i < _designVariables.size(); ++i)
@@ -326,9 +330,12 @@ namespace aslam {
         outJacobians, const Eigen::MatrixXd & applyChainRule) const {
       SM_ASSERT_EQ_DBG(aslam::Exception, applyChainRule.cols(), 3,
         "The chain rule matrix is the wrong size");
-      Eigen::MatrixXd J;
-      _spline->evalDAndJacobian(_time, 2, &J, NULL);
-      SM_ASSERT_EQ_DBG(aslam::Exception, J.rows(), 6, "Bad");
+      Eigen::MatrixXd Ja, Jr;
+      Eigen::Vector3d a_w = _spline->linearAccelerationAndJacobian(_time, &Ja, NULL);
+      Eigen::Matrix3d C_b_w = _spline->inverseOrientationAndJacobian(_time, &Jr, NULL);
+      // The acceleration and the frame it is expressed in both depend on the coefficients.
+      Eigen::MatrixXd J = C_b_w * Ja + sm::kinematics::crossMx(Eigen::Vector3d(C_b_w * a_w)) * Jr;
+      SM_ASSERT_EQ_DBG(aslam::Exception, J.rows(), 3, "Bad");
       SM_ASSERT_EQ_DBG(aslam::Exception, J.cols(),
         6 * (int)_designVariables.size(), "Bad");
       for (size_t i = 0; i < _designVariables.size(); ++i)
-- 
2.43.0


From 8dda4022ebfe87fd200eab366230a2f3f2f3028b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:33 +0000
Subject: [PATCH 048/155] fix: mapped vector minimal difference uses the
 current value

---
 .../implementation/DesignVariableMappedVector.hpp               | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/implementation/DesignVariableMappedVector.hpp b/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/implementation/DesignVariableMappedVector.hpp
index 4f9edfa..4653cf8 100644
--- a/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/implementation/DesignVariableMappedVector.hpp
+++ b/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/implementation/DesignVariableMappedVector.hpp
@@ -115,7 +115,7 @@ namespace aslam {
     void DesignVariableMappedVector<D>::minimalDifferenceImplementation(const Eigen::MatrixXd& xHat, Eigen::VectorXd& outDifference) const
     {
     	SM_ASSERT_TRUE(aslam::Exception, (xHat.rows() == D)&&(xHat.cols() == 1), "Dimension mismatch!");
-    	outDifference = _p_v - xHat;
+    	outDifference = _v - xHat;
     }
 
     template<int D>
-- 
2.43.0


From 6c6551e7a5d33b056ed85c71769cdf85d40cb7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:33 +0000
Subject: [PATCH 049/155] fix: sign of the right hand side of the spline motion
 error

---
 .../aslam_splines/implementation/BSplineMotionErrorFactory.hpp  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_nonparametric_estimation/aslam_splines/include/aslam_splines/implementation/BSplineMotionErrorFactory.hpp b/aslam_nonparametric_estimation/aslam_splines/include/aslam_splines/implementation/BSplineMotionErrorFactory.hpp
index 317650a..bd111a8 100644
--- a/aslam_nonparametric_estimation/aslam_splines/include/aslam_splines/implementation/BSplineMotionErrorFactory.hpp
+++ b/aslam_nonparametric_estimation/aslam_splines/include/aslam_splines/implementation/BSplineMotionErrorFactory.hpp
@@ -18,7 +18,7 @@ void addMotionErrorTerms(OptimizationProblemBase& problem, SplineDv& splineDv, c
       dvs.push_back(splineDv.designVariable(idxs[i]));
     }
     MarginalizationPriorErrorTerm::Ptr err( 
-        new MarginalizationPriorErrorTerm( dvs, R*c, R ));
+        new MarginalizationPriorErrorTerm( dvs, -R*c, R ));
     problem.addErrorTerm(err);
             
   }
-- 
2.43.0


From 0e2383086c07a6304ba1146ce475f4b9e6409f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:33 +0000
Subject: [PATCH 050/155] fix: spline motion error fills the upper triangle of
 the Hessian in any block order

---
 .../aslam_splines/implementation/BSplineMotionError.hpp    | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/aslam_nonparametric_estimation/aslam_splines/include/aslam_splines/implementation/BSplineMotionError.hpp b/aslam_nonparametric_estimation/aslam_splines/include/aslam_splines/implementation/BSplineMotionError.hpp
index 910fddb..612bcd9 100644
--- a/aslam_nonparametric_estimation/aslam_splines/include/aslam_splines/implementation/BSplineMotionError.hpp
+++ b/aslam_nonparametric_estimation/aslam_splines/include/aslam_splines/implementation/BSplineMotionError.hpp
@@ -144,8 +144,11 @@ namespace aslam {
             				if (Qblock) { // check if block exists
             					// get the Hessian Block
             					const bool allocateIfMissing = true;
-            					Eigen::MatrixXd *Hblock = outHessian.block(rowBlockIndex, colBlockIndex, allocateIfMissing);
-            					*Hblock += *Qblock;  // insert!
+            					// only the upper triangle is filled in, whatever the order of the blocks
+            					if (rowBlockIndex <= colBlockIndex)
+            						*outHessian.block(rowBlockIndex, colBlockIndex, allocateIfMissing) += *Qblock;  // insert!
+            					else
+            						*outHessian.block(colBlockIndex, rowBlockIndex, allocateIfMissing) += Qblock->transpose();
             				}
             			}
 
-- 
2.43.0


From 372c189fb274bbfcb6b9d0605a5e9533c7a573ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:15 +0000
Subject: [PATCH 051/155] fix: Jacobian of a MatrixBasic expression covers its
 nine entries

---
 aslam_optimizer/aslam_backend_expressions/src/MatrixBasic.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_optimizer/aslam_backend_expressions/src/MatrixBasic.cpp b/aslam_optimizer/aslam_backend_expressions/src/MatrixBasic.cpp
index 5f5c51b..28cce51 100644
--- a/aslam_optimizer/aslam_backend_expressions/src/MatrixBasic.cpp
+++ b/aslam_optimizer/aslam_backend_expressions/src/MatrixBasic.cpp
@@ -61,7 +61,7 @@ void MatrixBasic::evaluateJacobiansImplementation(JacobianContainer & outJacobia
 {
 	if (minimalDimensionsImplementation() != 0)
 	{
-		outJacobians.add( const_cast<MatrixBasic *>(this), Eigen::Matrix3d::Identity());
+		outJacobians.add( const_cast<MatrixBasic *>(this), _B);
 	}
 }
 
-- 
2.43.0


From e86f7056faf5c34f33feee1004f9d4cc8c5e2d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:49 +0000
Subject: [PATCH 052/155] fix: basis matrix functor takes its indices by value,
 so generic matrix expressions compile

---
 .../include/aslam_backend_expressions/BasisMatrixFunctor.hpp  | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/BasisMatrixFunctor.hpp b/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/BasisMatrixFunctor.hpp
index 283ff1b..cd8907f 100644
--- a/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/BasisMatrixFunctor.hpp
+++ b/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/BasisMatrixFunctor.hpp
@@ -22,11 +22,11 @@ struct BasisMatrixNullaryFunctor {
         _i(i),
         _j(j) {
   }
-  inline result_type operator()(Eigen::DenseIndex& index) const {
+  inline result_type operator()(Eigen::DenseIndex index) const {
     return (_cwiseIndex == index) ? 1 : 0;
   }
 
-  inline result_type operator()(Eigen::DenseIndex& row, Eigen::DenseIndex& col) const {
+  inline result_type operator()(Eigen::DenseIndex row, Eigen::DenseIndex col) const {
     return (_i == row && _j == col) ? 1 : 0;
   }
 };
-- 
2.43.0


From 3bc3cf09fc44ee138bc14e226b1f4618c449664e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:49 +0000
Subject: [PATCH 053/155] fix: quotient of generic scalar expressions passes
 each derivative to its own operand

---
 .../implementation/GenericScalarExpression.hpp                | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/implementation/GenericScalarExpression.hpp b/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/implementation/GenericScalarExpression.hpp
index 99c27b3..ca7bdf9 100644
--- a/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/implementation/GenericScalarExpression.hpp
+++ b/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/implementation/GenericScalarExpression.hpp
@@ -134,8 +134,8 @@ class GenericScalarExpressionNodeDivide : public GSEBinRes<Scalar_> {
     Eigen::MatrixXd L(1, 1), R(1, 1);
     L(0, 0) = 1.0 / this->_rhs->toScalar();
     R(0, 0) = -this->_lhs->toScalar() / (this->_rhs->toScalar() * this->_rhs->toScalar());
-    this->_lhs->evaluateJacobians(outJacobians, applyChainRule ? *applyChainRule * R : R);
-    this->_rhs->evaluateJacobians(outJacobians, applyChainRule ? *applyChainRule * L : L);
+    this->_lhs->evaluateJacobians(outJacobians, applyChainRule ? *applyChainRule * L : L);
+    this->_rhs->evaluateJacobians(outJacobians, applyChainRule ? *applyChainRule * R : R);
   }
 };
 
-- 
2.43.0


From 202b9eeae130ecb40fa418f49bd86e79aba46ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:38 +0000
Subject: [PATCH 054/155] fix: left-translated unit quaternion variables get
 their Jacobian

---
 .../DesignVariableUnitQuaternion.hpp                          | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/DesignVariableUnitQuaternion.hpp b/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/DesignVariableUnitQuaternion.hpp
index bfa61ee..4920ebb 100644
--- a/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/DesignVariableUnitQuaternion.hpp
+++ b/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/DesignVariableUnitQuaternion.hpp
@@ -39,9 +39,7 @@ class DesignVariableUnitQuaternion : public DesignVariableGenericVector<4, Scala
   }
 
   virtual void evaluateJacobiansImplementation(JacobianContainer & outJacobians, const typename base_t::differential_t & diff) const {
-    if(Geometry_ == UnitQuaternionGeometry::RIGHT_TRANSLATED){
-      diff.addToJacobianContainer(outJacobians, (const DesignVariable *) this, Calculator::template dUpdate<Geometry_>(this->evaluate()));
-    }
+    diff.addToJacobianContainer(outJacobians, (const DesignVariable *) this, Calculator::template dUpdate<Geometry_>(this->evaluate()));
   }
 
 
-- 
2.43.0


From a2835ff3f2a1fc0de1ea6048e0b2c35b9719ca65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:02 +0000
Subject: [PATCH 055/155] fix: RotationQuaternion::set updates the rotation
 matrix

---
 .../aslam_backend_expressions/MappedRotationQuaternion.hpp     | 3 ++-
 .../include/aslam_backend_expressions/RotationQuaternion.hpp   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/MappedRotationQuaternion.hpp b/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/MappedRotationQuaternion.hpp
index 9ea3b98..16ff3d5 100644
--- a/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/MappedRotationQuaternion.hpp
+++ b/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/MappedRotationQuaternion.hpp
@@ -6,6 +6,7 @@
 #include <aslam_backend/backend/DesignVariable.hpp>
 #include "RotationExpression.hpp"
 #include "RotationExpressionNode.hpp"
+#include <sm_kinematics/quaternion_algebra.hpp>
 
 namespace aslam {
   namespace backend {
@@ -29,7 +30,7 @@ namespace aslam {
 
       RotationExpression toExpression();
 
-        void set( const Eigen::Vector4d & q){ _q = q; _p_q = q; }
+        void set( const Eigen::Vector4d & q){ _q = q; _p_q = q; _C = sm::kinematics::quat2r(q); }
     private:
       virtual Eigen::Matrix3d toRotationMatrixImplementation() const;
       virtual void evaluateJacobiansImplementation(JacobianContainer & outJacobians) const;
diff --git a/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/RotationQuaternion.hpp b/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/RotationQuaternion.hpp
index aeca9a5..cd2ab49 100644
--- a/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/RotationQuaternion.hpp
+++ b/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/RotationQuaternion.hpp
@@ -6,6 +6,7 @@
 #include <aslam_backend/backend/DesignVariable.hpp>
 #include "RotationExpression.hpp"
 #include "RotationExpressionNode.hpp"
+#include <sm_kinematics/quaternion_algebra.hpp>
 
 namespace aslam {
   namespace backend {
@@ -38,7 +39,7 @@ namespace aslam {
 
       const Eigen::Vector4d & getQuaternion(){ return _q; }
 
-      void set( const Eigen::Vector4d & q){ _q = q; _p_q = q; }
+      void set( const Eigen::Vector4d & q){ _q = q; _p_q = q; _C = sm::kinematics::quat2r(q); }
     private:
       virtual Eigen::Matrix3d toRotationMatrixImplementation() const;
       virtual void evaluateJacobiansImplementation(JacobianContainer & outJacobians) const;
-- 
2.43.0


From bb9a01511b4a109d36ea70b9a46e1b8d74e7929b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:03 +0000
Subject: [PATCH 056/155] fix: mapped variables measure the minimal difference
 from the current value

---
 .../aslam_backend_expressions/src/MappedEuclideanPoint.cpp    | 2 +-
 .../aslam_backend_expressions/src/MappedHomogeneousPoint.cpp  | 4 ++--
 .../src/MappedRotationQuaternion.cpp                          | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/aslam_optimizer/aslam_backend_expressions/src/MappedEuclideanPoint.cpp b/aslam_optimizer/aslam_backend_expressions/src/MappedEuclideanPoint.cpp
index 81e116b..81d88fc 100644
--- a/aslam_optimizer/aslam_backend_expressions/src/MappedEuclideanPoint.cpp
+++ b/aslam_optimizer/aslam_backend_expressions/src/MappedEuclideanPoint.cpp
@@ -76,7 +76,7 @@ namespace aslam {
     void MappedEuclideanPoint::minimalDifferenceImplementation(const Eigen::MatrixXd& xHat, Eigen::VectorXd& outDifference) const
     {
      SM_ASSERT_TRUE(aslam::InvalidArgumentException, (xHat.rows() == 3) && (xHat.cols() == 1), "xHat has incompatible dimensions");
-     outDifference = _p_p - xHat;
+     outDifference = _p - xHat;
     }
 
     void MappedEuclideanPoint::minimalDifferenceAndJacobianImplementation(const Eigen::MatrixXd& xHat, Eigen::VectorXd& outDifference, Eigen::MatrixXd& outJacobian) const
diff --git a/aslam_optimizer/aslam_backend_expressions/src/MappedHomogeneousPoint.cpp b/aslam_optimizer/aslam_backend_expressions/src/MappedHomogeneousPoint.cpp
index 4361364..969c1cc 100644
--- a/aslam_optimizer/aslam_backend_expressions/src/MappedHomogeneousPoint.cpp
+++ b/aslam_optimizer/aslam_backend_expressions/src/MappedHomogeneousPoint.cpp
@@ -76,7 +76,7 @@ namespace aslam {
     void MappedHomogeneousPoint::minimalDifferenceImplementation(const Eigen::MatrixXd& xHat, Eigen::VectorXd& outDifference) const
     {
      SM_ASSERT_TRUE(aslam::InvalidArgumentException, (xHat.rows() == 4)&&(xHat.cols() == 1), "The dimension of xHat does not conform to a 4x1 quaternion vector");
-     outDifference = sm::kinematics::qlog(sm::kinematics::qplus(_p_p, sm::kinematics::quatInv(xHat)));
+     outDifference = sm::kinematics::qlog(sm::kinematics::qplus(_p, sm::kinematics::quatInv(xHat)));
     }
 
     void MappedHomogeneousPoint::minimalDifferenceAndJacobianImplementation(const Eigen::MatrixXd& xHat, Eigen::VectorXd& outDifference, Eigen::MatrixXd& outJacobian) const
@@ -84,7 +84,7 @@ namespace aslam {
      minimalDifferenceImplementation(xHat, outDifference);
      // compute the evaluation point:
      Eigen::Vector4d quatHat; quatHat(0) = xHat(0,0); quatHat(1) = xHat(1,0); quatHat(2) = xHat(2,0); quatHat(3) = xHat(3,0);
-     Eigen::Vector4d evalPoint= sm::kinematics::qplus(_p_p, sm::kinematics::quatInv(quatHat));
+     Eigen::Vector4d evalPoint= sm::kinematics::qplus(_p, sm::kinematics::quatInv(quatHat));
      outJacobian = sm::kinematics::quatLogJacobian(evalPoint)*sm::kinematics::quatJacobian(evalPoint);
     }
 
diff --git a/aslam_optimizer/aslam_backend_expressions/src/MappedRotationQuaternion.cpp b/aslam_optimizer/aslam_backend_expressions/src/MappedRotationQuaternion.cpp
index 52d7d61..b8be1f8 100644
--- a/aslam_optimizer/aslam_backend_expressions/src/MappedRotationQuaternion.cpp
+++ b/aslam_optimizer/aslam_backend_expressions/src/MappedRotationQuaternion.cpp
@@ -74,7 +74,7 @@ namespace aslam {
     void MappedRotationQuaternion::minimalDifferenceImplementation(const Eigen::MatrixXd& xHat, Eigen::VectorXd& outDifference) const
     {
      SM_ASSERT_TRUE(aslam::InvalidArgumentException, (xHat.rows() == 4)&&(xHat.cols() == 1), "The dimension of xHat does not conform to a 4x1 quaternion vector");
-     outDifference = sm::kinematics::qlog(sm::kinematics::qplus(_p_q, sm::kinematics::quatInv(xHat)));
+     outDifference = sm::kinematics::qlog(sm::kinematics::qplus(_q, sm::kinematics::quatInv(xHat)));
     }
 
     void MappedRotationQuaternion::minimalDifferenceAndJacobianImplementation(const Eigen::MatrixXd& xHat, Eigen::VectorXd& outDifference, Eigen::MatrixXd& outJacobian) const
@@ -82,7 +82,7 @@ namespace aslam {
      minimalDifferenceImplementation(xHat, outDifference);
      // compute the evaluation point:
      Eigen::Vector4d quatHat(xHat(0,0),xHat(1,0),xHat(2,0),xHat(3,0));
-     Eigen::Vector4d evalPoint= sm::kinematics::qplus(_p_q, sm::kinematics::quatInv(quatHat));
+     Eigen::Vector4d evalPoint= sm::kinematics::qplus(_q, sm::kinematics::quatInv(quatHat));
      outJacobian = sm::kinematics::quatLogJacobian(evalPoint)*sm::kinematics::quatJacobian(evalPoint); //???
     }
 
-- 
2.43.0


From 6b08c1923bcc7bd37061fd034a169da3a782bb90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:49 +0000
Subject: [PATCH 057/155] fix: finite Jacobian of the quaternion minimal
 difference

---
 .../aslam_backend_expressions/src/HomogeneousPoint.cpp          | 2 +-
 .../aslam_backend_expressions/src/MappedHomogeneousPoint.cpp    | 2 +-
 .../aslam_backend_expressions/src/MappedRotationQuaternion.cpp  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/aslam_optimizer/aslam_backend_expressions/src/HomogeneousPoint.cpp b/aslam_optimizer/aslam_backend_expressions/src/HomogeneousPoint.cpp
index a716dae..419eae3 100644
--- a/aslam_optimizer/aslam_backend_expressions/src/HomogeneousPoint.cpp
+++ b/aslam_optimizer/aslam_backend_expressions/src/HomogeneousPoint.cpp
@@ -85,7 +85,7 @@ namespace aslam {
      // compute the evaluation point:
      Eigen::Vector4d quatHat; quatHat(0) = xHat(0,0); quatHat(1) = xHat(1,0); quatHat(2) = xHat(2,0); quatHat(3) = xHat(3,0);
      Eigen::Vector4d evalPoint= sm::kinematics::qplus(_p, sm::kinematics::quatInv(quatHat));
-     outJacobian = sm::kinematics::quatLogJacobian(evalPoint)*sm::kinematics::quatJacobian(evalPoint);
+     outJacobian = sm::kinematics::quatLogJacobian2(evalPoint)*sm::kinematics::quatJacobian(evalPoint);
     }
 
   } // namespace backend
diff --git a/aslam_optimizer/aslam_backend_expressions/src/MappedHomogeneousPoint.cpp b/aslam_optimizer/aslam_backend_expressions/src/MappedHomogeneousPoint.cpp
index 969c1cc..122eb1c 100644
--- a/aslam_optimizer/aslam_backend_expressions/src/MappedHomogeneousPoint.cpp
+++ b/aslam_optimizer/aslam_backend_expressions/src/MappedHomogeneousPoint.cpp
@@ -85,7 +85,7 @@ namespace aslam {
      // compute the evaluation point:
      Eigen::Vector4d quatHat; quatHat(0) = xHat(0,0); quatHat(1) = xHat(1,0); quatHat(2) = xHat(2,0); quatHat(3) = xHat(3,0);
      Eigen::Vector4d evalPoint= sm::kinematics::qplus(_p, sm::kinematics::quatInv(quatHat));
-     outJacobian = sm::kinematics::quatLogJacobian(evalPoint)*sm::kinematics::quatJacobian(evalPoint);
+     outJacobian = sm::kinematics::quatLogJacobian2(evalPoint)*sm::kinematics::quatJacobian(evalPoint);
     }
 
   } // namespace backend
diff --git a/aslam_optimizer/aslam_backend_expressions/src/MappedRotationQuaternion.cpp b/aslam_optimizer/aslam_backend_expressions/src/MappedRotationQuaternion.cpp
index b8be1f8..6794b7a 100644
--- a/aslam_optimizer/aslam_backend_expressions/src/MappedRotationQuaternion.cpp
+++ b/aslam_optimizer/aslam_backend_expressions/src/MappedRotationQuaternion.cpp
@@ -83,7 +83,7 @@ namespace aslam {
      // compute the evaluation point:
      Eigen::Vector4d quatHat(xHat(0,0),xHat(1,0),xHat(2,0),xHat(3,0));
      Eigen::Vector4d evalPoint= sm::kinematics::qplus(_q, sm::kinematics::quatInv(quatHat));
-     outJacobian = sm::kinematics::quatLogJacobian(evalPoint)*sm::kinematics::quatJacobian(evalPoint); //???
+     outJacobian = sm::kinematics::quatLogJacobian2(evalPoint)*sm::kinematics::quatJacobian(evalPoint); //???
     }
 
   } // namespace backend
-- 
2.43.0


From 8f279b8a34a146c426bce8a4eec213e1c05f698a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:16 +0000
Subject: [PATCH 058/155] fix: matrix square root of singular matrices

---
 .../sm_eigen/include/sm_eigen/matrix_sqrt.hpp        | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/Schweizer-Messer/sm_eigen/include/sm_eigen/matrix_sqrt.hpp b/Schweizer-Messer/sm_eigen/include/sm_eigen/matrix_sqrt.hpp
index da815ac..f35bf62 100755
--- a/Schweizer-Messer/sm_eigen/include/sm_eigen/matrix_sqrt.hpp
+++ b/Schweizer-Messer/sm_eigen/include/sm_eigen/matrix_sqrt.hpp
@@ -3,6 +3,7 @@
 
 #include <sm_common/assert_macros.hpp>
 #include <Eigen/Cholesky>
+#include <Eigen/Eigenvalues>
 
 namespace sm {
     namespace eigen {
@@ -31,6 +32,17 @@ namespace sm {
             // which is not an actual matrix. Using DERIVED1 as the template argument
             // in that case will cause a firestorm of compiler errors.
             Eigen::LDLT< DERIVED2 > ldlt(inMatrix.derived());
+            if (ldlt.vectorD().size() > 0 && ldlt.vectorD().minCoeff() < 0) {
+                // The decomposition is unstable for singular matrices.
+                Eigen::SelfAdjointEigenSolver< DERIVED2 > eig(inMatrix.derived());
+                auto d = eig.eigenvalues().eval();
+                const double eps = d.size() * Eigen::NumTraits<double>::epsilon() * d.array().abs().maxCoeff();
+                for (int i = 0; i < d.size(); ++i) {
+                    if (d[i] < 0 && -d[i] <= eps) d[i] = 0;
+                }
+                result = eig.eigenvectors() * d.array().sqrt().matrix().asDiagonal();
+                return;
+            }
             result = ldlt.matrixL();
             result = ldlt.transpositionsP().transpose() * result;
             result *= ldlt.vectorD().array().sqrt().matrix().asDiagonal();
-- 
2.43.0


From a8cc3fed864e92ac9cc4e3eaa495717efa50d460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:16 +0000
Subject: [PATCH 059/155] fix: refuse an error term before adding it

---
 aslam_optimizer/aslam_backend/src/OptimizationProblem.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aslam_optimizer/aslam_backend/src/OptimizationProblem.cpp b/aslam_optimizer/aslam_backend/src/OptimizationProblem.cpp
index 6c0e392..7510159 100644
--- a/aslam_optimizer/aslam_backend/src/OptimizationProblem.cpp
+++ b/aslam_optimizer/aslam_backend/src/OptimizationProblem.cpp
@@ -58,11 +58,13 @@ namespace aslam {
     /// \brief Add an error term to the problem
     void OptimizationProblem::addErrorTerm(const boost::shared_ptr<ErrorTerm> & et)
     {
+      for (size_t i = 0; i < et->numDesignVariables(); ++i) {
+        SM_ASSERT_TRUE_DBG(aslam::InvalidArgumentException, isDesignVariableInProblem(et->designVariable(i)), "It is illegal to add an error term that contains a missing design variable. Add the design variables to the problem before adding the error terms.");
+      }
       _errorTerms.push_back(et);
       // add this error term to the multi-map
       for (size_t i = 0; i < et->numDesignVariables(); ++i) {
         DesignVariable* dv = et->designVariable(i);
-        SM_ASSERT_TRUE_DBG(aslam::InvalidArgumentException, isDesignVariableInProblem(dv), "It is illegal to add an error term that contains a missing design variable. Add the design variables to the problem before adding the error terms.");
         _errorTermMap.insert(std::make_pair(dv, et.get()));
       }
     }
-- 
2.43.0


From 6f604a5e3bc72875cb0084040320a797fe7bfcc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:16 +0000
Subject: [PATCH 060/155] fix: ErrorTermEuclidean can be instantiated

---
 .../include/aslam_backend_expressions/ErrorTermEuclidean.hpp    | 2 +-
 .../aslam_backend_expressions/src/ErrorTermEuclidean.cpp        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/ErrorTermEuclidean.hpp b/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/ErrorTermEuclidean.hpp
index 8b6fd3f..6306802 100644
--- a/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/ErrorTermEuclidean.hpp
+++ b/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/ErrorTermEuclidean.hpp
@@ -41,7 +41,7 @@ namespace aslam {
       virtual double evaluateErrorImplementation();
 
       /// \brief evaluate the jacobian
-      virtual void evaluateJacobiansImplementation(JacobianContainer & J);
+      virtual void evaluateJacobiansImplementation(JacobianContainer & J) const;
 
     private:
       aslam::backend::EuclideanExpression _t;
diff --git a/aslam_optimizer/aslam_backend_expressions/src/ErrorTermEuclidean.cpp b/aslam_optimizer/aslam_backend_expressions/src/ErrorTermEuclidean.cpp
index c476aa5..e12948b 100644
--- a/aslam_optimizer/aslam_backend_expressions/src/ErrorTermEuclidean.cpp
+++ b/aslam_optimizer/aslam_backend_expressions/src/ErrorTermEuclidean.cpp
@@ -59,7 +59,7 @@ namespace aslam {
 
 
   /// \brief evaluate the jacobians
-  void ErrorTermEuclidean::evaluateJacobiansImplementation(JacobianContainer & _jacobians)
+  void ErrorTermEuclidean::evaluateJacobiansImplementation(JacobianContainer & _jacobians) const
   {
      _t.evaluateJacobians(_jacobians);
   }
-- 
2.43.0


From de774063b361b2f0bd3bbcb9cbc9c934fbfaaddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:16 +0000
Subject: [PATCH 061/155] fix: ExpressionErrorTerm can be instantiated and
 weighs its error by the inverse covariance

---
 .../aslam_backend_expressions/ExpressionErrorTerm.hpp        | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/ExpressionErrorTerm.hpp b/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/ExpressionErrorTerm.hpp
index b11284b..02e33f8 100644
--- a/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/ExpressionErrorTerm.hpp
+++ b/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/ExpressionErrorTerm.hpp
@@ -96,12 +96,11 @@ class ExpressionErrorTerm : public aslam::backend::ErrorTermFs<IDimension> {
   virtual double evaluateErrorImplementation() {
     auto error = internal::ExpressionToEigenVectorTraits<TExpression>::toEigenErrorVector(_expression.evaluate());
     this->setError(error);
-    auto tmp = (this->sqrtInvR() * error).eval();
-    return tmp.dot(tmp);
+    return this->evaluateChiSquaredError();
   }
 
   /// \brief evaluate the jacobian
-  virtual void evaluateJacobiansImplementation(JacobianContainer & jacobians) {
+  virtual void evaluateJacobiansImplementation(JacobianContainer & jacobians) const {
     _expression.evaluateJacobians(jacobians);
   }
 
-- 
2.43.0


From a6312f6b227d902554ed5bb566911f5b54717854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:42 +0000
Subject: [PATCH 062/155] fix: block Cholesky restores the Hessian's diagonal
 after a solve

---
 .../aslam_backend/src/BlockCholeskyLinearSystemSolver.cpp     | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aslam_optimizer/aslam_backend/src/BlockCholeskyLinearSystemSolver.cpp b/aslam_optimizer/aslam_backend/src/BlockCholeskyLinearSystemSolver.cpp
index 3dc73cf..828ea25 100644
--- a/aslam_optimizer/aslam_backend/src/BlockCholeskyLinearSystemSolver.cpp
+++ b/aslam_optimizer/aslam_backend/src/BlockCholeskyLinearSystemSolver.cpp
@@ -92,7 +92,7 @@ namespace aslam {
         int rowBase = 0;
         for (int i = 0; i < _H._M.bRows(); ++i) {
           Eigen::MatrixXd& block = *_H._M.block(i, i, true);
-          block.diagonal() -= _diagonalConditioner.segment(rowBase, block.rows());
+          block.diagonal() -= _diagonalConditioner.segment(rowBase, block.rows()).cwiseAbs2();
           rowBase += block.rows();
         }
       }
@@ -141,7 +141,7 @@ namespace aslam {
         int rowBase = 0;
         for (int i = 0; i < _H._M.bRows(); ++i) {
           Eigen::MatrixXd& block = *_H._M.block(i, i, true);
-          block.diagonal() -= _diagonalConditioner.segment(rowBase, block.rows());
+          block.diagonal() -= _diagonalConditioner.segment(rowBase, block.rows()).cwiseAbs2();
           rowBase += block.rows();
         }
       }
-- 
2.43.0


From 50708e46d21c812c2dc9f64ddd3bc282170b48b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:42 +0000
Subject: [PATCH 063/155] fix: block Cholesky's rhsJtJrhs uses the whole
 Hessian

---
 .../src/BlockCholeskyLinearSystemSolver.cpp        | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/aslam_optimizer/aslam_backend/src/BlockCholeskyLinearSystemSolver.cpp b/aslam_optimizer/aslam_backend/src/BlockCholeskyLinearSystemSolver.cpp
index 828ea25..96da60e 100644
--- a/aslam_optimizer/aslam_backend/src/BlockCholeskyLinearSystemSolver.cpp
+++ b/aslam_optimizer/aslam_backend/src/BlockCholeskyLinearSystemSolver.cpp
@@ -170,9 +170,17 @@ namespace aslam {
       
       
     double BlockCholeskyLinearSystemSolver::rhsJtJrhs() {
-        Eigen::VectorXd JtJrhs;
-        _H.rightMultiply(_rhs, JtJrhs);
-        return _rhs.dot(JtJrhs);
+        // Only the upper triangle of the symmetric Hessian is stored.
+        double result = 0.0;
+        for (int c = 0; c < _H._M.bCols(); ++c) {
+          const SparseBlockMatrix::IntBlockMap& column = _H._M.blockCols()[c];
+          for (SparseBlockMatrix::IntBlockMap::const_iterator it = column.begin(); it != column.end(); ++it) {
+            const Eigen::MatrixXd& block = *it->second;
+            const double rHr = _rhs.segment(_H._M.rowBaseOfBlock(it->first), block.rows()).dot(block * _rhs.segment(_H._M.colBaseOfBlock(c), block.cols()));
+            result += it->first == c ? rHr : 2.0 * rHr;
+          }
+        }
+        return result;
     }
       
 
-- 
2.43.0


From 2ff2653957ddc7d4cb2c16a1df77a30c763413eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:42 +0000
Subject: [PATCH 064/155] fix: dense QR uses the diagonal conditioner when
 asked to

---
 .../aslam_backend/src/DenseQrLinearSystemSolver.cpp            | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aslam_optimizer/aslam_backend/src/DenseQrLinearSystemSolver.cpp b/aslam_optimizer/aslam_backend/src/DenseQrLinearSystemSolver.cpp
index 580e199..a4a6680 100644
--- a/aslam_optimizer/aslam_backend/src/DenseQrLinearSystemSolver.cpp
+++ b/aslam_optimizer/aslam_backend/src/DenseQrLinearSystemSolver.cpp
@@ -24,8 +24,9 @@ namespace aslam {
       return &_J;
     }
 
-  void DenseQrLinearSystemSolver::initMatrixStructureImplementation(const std::vector<DesignVariable*>& /* dvs */, const std::vector<ErrorTerm*>& /* errors */, bool /* useDiagonalConditioner */)
+  void DenseQrLinearSystemSolver::initMatrixStructureImplementation(const std::vector<DesignVariable*>& /* dvs */, const std::vector<ErrorTerm*>& /* errors */, bool useDiagonalConditioner)
     {
+      _useDiagonalConditioner = useDiagonalConditioner;
       // \todo Verify that this is similar to the "reserve()" feature in a standard vector.
       _J._M.resize(_JRows, _JCols);
     }
-- 
2.43.0


From 2817c6553680fab9aa10d672a447202723b5a2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:51 +0000
Subject: [PATCH 065/155] fix: QR solvers solve the system that was built

---
 .../aslam_backend/backend/DenseQrLinearSystemSolver.hpp  | 3 ++-
 .../aslam_backend/backend/SparseQrLinearSystemSolver.hpp | 3 +++
 .../aslam_backend/src/DenseQrLinearSystemSolver.cpp      | 9 +++++----
 .../aslam_backend/src/SparseQrLinearSystemSolver.cpp     | 3 ++-
 4 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/aslam_optimizer/aslam_backend/include/aslam_backend/backend/DenseQrLinearSystemSolver.hpp b/aslam_optimizer/aslam_backend/include/aslam_backend/backend/DenseQrLinearSystemSolver.hpp
index d57f106..efdca59 100644
--- a/aslam_optimizer/aslam_backend/include/aslam_backend/backend/DenseQrLinearSystemSolver.hpp
+++ b/aslam_optimizer/aslam_backend/include/aslam_backend/backend/DenseQrLinearSystemSolver.hpp
@@ -54,7 +54,8 @@ namespace aslam {
       /// \brief the dense Jacobian matrix
       DenseMatrix _J;
 
-      Eigen::VectorXd _truncated_e;
+      /// \brief the error vector the system was built with; _e follows later evaluations of the error
+      Eigen::VectorXd _builtError;
 
       /// Options
       DenseQRLinearSolverOptions _options;
diff --git a/aslam_optimizer/aslam_backend/include/aslam_backend/backend/SparseQrLinearSystemSolver.hpp b/aslam_optimizer/aslam_backend/include/aslam_backend/backend/SparseQrLinearSystemSolver.hpp
index 3e4f794..abd682d 100644
--- a/aslam_optimizer/aslam_backend/include/aslam_backend/backend/SparseQrLinearSystemSolver.hpp
+++ b/aslam_optimizer/aslam_backend/include/aslam_backend/backend/SparseQrLinearSystemSolver.hpp
@@ -62,6 +62,9 @@ namespace aslam {
 
       CompressedColumnJacobianTransposeBuilder<index_t> _jacobianBuilder;
 
+      /// \brief the error vector the system was built with; _e follows later evaluations of the error
+      Eigen::VectorXd _builtError;
+
       Cholmod<index_t> _cholmod;
       cholmod_sparse _cholmodLhs;
       cholmod_dense  _cholmodRhs;
diff --git a/aslam_optimizer/aslam_backend/src/DenseQrLinearSystemSolver.cpp b/aslam_optimizer/aslam_backend/src/DenseQrLinearSystemSolver.cpp
index a4a6680..14ae38a 100644
--- a/aslam_optimizer/aslam_backend/src/DenseQrLinearSystemSolver.cpp
+++ b/aslam_optimizer/aslam_backend/src/DenseQrLinearSystemSolver.cpp
@@ -36,6 +36,7 @@ namespace aslam {
       _J._M.setZero();
       setupThreadedJob(boost::bind(&DenseQrLinearSystemSolver::evaluateJacobians, this, _1, _2, _3, _4), nThreads, useMEstimator);
       _rhs = _J._M.transpose() * _e;
+      _builtError = _e;
     }
 
 
@@ -46,14 +47,14 @@ namespace aslam {
         _J._M.conservativeResize(_JRows + _JCols, Eigen::NoChange);
         _J._M.bottomRows(_JCols) = _diagonalConditioner.asDiagonal();
         // Append zeros to make the sizes match.
-        _e.conservativeResize(_JRows + _JCols);
-        _e.tail(_JCols) = Eigen::VectorXd::Zero(_JCols);
+        _builtError.conservativeResize(_JRows + _JCols);
+        _builtError.tail(_JCols) = Eigen::VectorXd::Zero(_JCols);
       }
-      outDx = _J._M.colPivHouseholderQr().solve(_e);
+      outDx = _J._M.colPivHouseholderQr().solve(_builtError);
       if (_useDiagonalConditioner) {
         // Remove the diagonal
         _J._M.conservativeResize(_JRows, Eigen::NoChange);
-        _e.conservativeResize(_JRows);
+        _builtError.conservativeResize(_JRows);
       }
       return true;
     }
diff --git a/aslam_optimizer/aslam_backend/src/SparseQrLinearSystemSolver.cpp b/aslam_optimizer/aslam_backend/src/SparseQrLinearSystemSolver.cpp
index a54ab3c..89f87a5 100644
--- a/aslam_optimizer/aslam_backend/src/SparseQrLinearSystemSolver.cpp
+++ b/aslam_optimizer/aslam_backend/src/SparseQrLinearSystemSolver.cpp
@@ -57,6 +57,7 @@ namespace aslam {
       _jacobianBuilder.buildSystem(nThreads, useMEstimator);
       CompressedColumnMatrix<SuiteSparse_long>& J_transpose = _jacobianBuilder.J_transpose();
       J_transpose.rightMultiply(_e, _rhs);
+      _builtError = _e;
       //std::cout << "build system complete\n";
       _R.clear();
     }
@@ -68,7 +69,7 @@ namespace aslam {
         J_transpose.pushDiagonalBlock(_diagonalConditioner);
       }
       J_transpose.getView(&_cholmodLhs);
-      _cholmod.view(_e, &_cholmodRhs);
+      _cholmod.view(_builtError, &_cholmodRhs);
       //std::cout << "solve system\n";
       if (!_factor) {
         //std::cout << "\tAnalyze system\n";
-- 
2.43.0


From f47e58103366f6089bdb8b9d7d007822abf74f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:58 +0000
Subject: [PATCH 066/155] fix: dog leg at a stationary point

---
 aslam_optimizer/aslam_backend/src/DogLegTrustRegionPolicy.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aslam_optimizer/aslam_backend/src/DogLegTrustRegionPolicy.cpp b/aslam_optimizer/aslam_backend/src/DogLegTrustRegionPolicy.cpp
index bfed369..10fdb5b 100644
--- a/aslam_optimizer/aslam_backend/src/DogLegTrustRegionPolicy.cpp
+++ b/aslam_optimizer/aslam_backend/src/DogLegTrustRegionPolicy.cpp
@@ -67,7 +67,9 @@ namespace aslam {
 
                 // calculate steepest descent step:
 
-                _sd_scale = _solver->rhs().squaredNorm() / _solver->rhsJtJrhs();
+                const double rhsJtJrhs = _solver->rhsJtJrhs();
+                // There is no steepest descent step where the gradient vanishes.
+                _sd_scale = rhsJtJrhs > 0.0 ? _solver->rhs().squaredNorm() / rhsJtJrhs : 0.0;
                 _dx_sd = _sd_scale * _solver->rhs();
 
 
-- 
2.43.0


From 876ccbabb45fff64342253ac2474909428355228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:16 +0000
Subject: [PATCH 067/155] fix: Optimizer2 rejects steps to a cost that is not a
 number

---
 aslam_optimizer/aslam_backend/src/Optimizer2.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_optimizer/aslam_backend/src/Optimizer2.cpp b/aslam_optimizer/aslam_backend/src/Optimizer2.cpp
index 2feb50f..8757347 100644
--- a/aslam_optimizer/aslam_backend/src/Optimizer2.cpp
+++ b/aslam_optimizer/aslam_backend/src/Optimizer2.cpp
@@ -240,7 +240,7 @@ namespace aslam {
                     // This was a regression.
                     if( _trustRegionPolicy->revertOnFailure() )
                     {
-                        if(deltaJ < 0.0)
+                        if(!(deltaJ >= 0.0)) // also when the cost is not a number
                         {
                             _options.verbose && std::cout << "Last step was a regression. Reverting\n";
                             revertLastStateUpdate();
-- 
2.43.0


From 8889f3889b9e93230da1ed5a4743e1dc48880a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:16 +0000
Subject: [PATCH 068/155] fix: Optimizer2 recovers from a failed linear solve

---
 aslam_optimizer/aslam_backend/src/Optimizer2.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aslam_optimizer/aslam_backend/src/Optimizer2.cpp b/aslam_optimizer/aslam_backend/src/Optimizer2.cpp
index 8757347..2e6832b 100644
--- a/aslam_optimizer/aslam_backend/src/Optimizer2.cpp
+++ b/aslam_optimizer/aslam_backend/src/Optimizer2.cpp
@@ -228,6 +228,7 @@ namespace aslam {
                     linearSolverFailure = true;
                     srv.failedIterations++;
                 } else {
+                    linearSolverFailure = false;
                     /// Apply the state update. _A, _b, _dx, and _H are passed in implicitly.
                     timeBackSub.start();
                     deltaX = applyStateUpdate();
-- 
2.43.0


From 102282a5078f9c19cf5dcfc4b7ddd4a240dfd7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:16 +0000
Subject: [PATCH 069/155] fix: Optimizer2::J is the cost of the state it ends
 with

---
 aslam_optimizer/aslam_backend/src/Optimizer2.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aslam_optimizer/aslam_backend/src/Optimizer2.cpp b/aslam_optimizer/aslam_backend/src/Optimizer2.cpp
index 2e6832b..f938b8b 100644
--- a/aslam_optimizer/aslam_backend/src/Optimizer2.cpp
+++ b/aslam_optimizer/aslam_backend/src/Optimizer2.cpp
@@ -266,6 +266,8 @@ namespace aslam {
                 } // if the linear solver failed / else
             }
 
+            // The last step may have been rejected.
+            _J = _p_J;
             srv.JFinal = _p_J;
             srv.dXFinal = deltaX;
             srv.dJFinal = deltaJ;
-- 
2.43.0


From a7dd0a16f1e166fd96e487cc204197524fc778bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:32 +0000
Subject: [PATCH 070/155] fix: dog leg never uses a Gauss-Newton step that was
 not computed

---
 .../aslam_backend/backend/DogLegTrustRegionPolicy.hpp     | 2 ++
 .../aslam_backend/src/DogLegTrustRegionPolicy.cpp         | 8 ++++----
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/aslam_optimizer/aslam_backend/include/aslam_backend/backend/DogLegTrustRegionPolicy.hpp b/aslam_optimizer/aslam_backend/include/aslam_backend/backend/DogLegTrustRegionPolicy.hpp
index abe6a57..77126b5 100644
--- a/aslam_optimizer/aslam_backend/include/aslam_backend/backend/DogLegTrustRegionPolicy.hpp
+++ b/aslam_optimizer/aslam_backend/include/aslam_backend/backend/DogLegTrustRegionPolicy.hpp
@@ -40,6 +40,8 @@ namespace aslam {
             double _beta;
             double _delta;
             double _p_delta;
+            /// \brief is _dx_gn the Gauss-Newton step of the current system?
+            bool _gnComputed;
             std::string _stepType;
 
         };
diff --git a/aslam_optimizer/aslam_backend/src/DogLegTrustRegionPolicy.cpp b/aslam_optimizer/aslam_backend/src/DogLegTrustRegionPolicy.cpp
index 10fdb5b..8bea848 100644
--- a/aslam_optimizer/aslam_backend/src/DogLegTrustRegionPolicy.cpp
+++ b/aslam_optimizer/aslam_backend/src/DogLegTrustRegionPolicy.cpp
@@ -18,6 +18,7 @@ namespace aslam {
             std::string _stepType;
             _delta  = 0;
             _p_delta = 0;
+            _gnComputed = false;
 
         }
 
@@ -57,7 +58,6 @@ namespace aslam {
                         _delta /= 2.0;
                 }
             }
-            bool gnComputed = true;
             // successful step:
             // rebuild system and recalculate sd-solution
             if(!previousIterationFailed) {
@@ -77,7 +77,7 @@ namespace aslam {
                 _dx_sd_norm = _dx_sd.norm();
 
                 // invalidate GN solution
-                gnComputed = false;
+                _gnComputed = false;
             }
 
             // Trust Region smaller than SD:
@@ -91,14 +91,14 @@ namespace aslam {
             else
             {
                 // calculate the GN step.
-                if(!gnComputed)
+                if(!_gnComputed)
                 {
                     solutionSuccess = _solver->solveSystem(_dx_gn);
 
                     if(!solutionSuccess)
                         return solutionSuccess;
 
-                    gnComputed = true;  // now we have it!
+                    _gnComputed = true;  // now we have it!
                     // and calculate the norm:
                     _dx_gn_norm = _dx_gn.norm();
                 }
-- 
2.43.0


From 3341e8133956a598b871b045fbfe3fe137cffbea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:32 +0000
Subject: [PATCH 071/155] fix: measure a failed step against the state it
 started from

---
 aslam_optimizer/aslam_backend/src/TrustRegionPolicy.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aslam_optimizer/aslam_backend/src/TrustRegionPolicy.cpp b/aslam_optimizer/aslam_backend/src/TrustRegionPolicy.cpp
index 3e7b135..6184e11 100644
--- a/aslam_optimizer/aslam_backend/src/TrustRegionPolicy.cpp
+++ b/aslam_optimizer/aslam_backend/src/TrustRegionPolicy.cpp
@@ -39,6 +39,8 @@ namespace aslam {
         bool TrustRegionPolicy::solveSystem(double J, bool previousIterationFailed, int nThreads, Eigen::VectorXd& outDx)
         {
             if(previousIterationFailed) {
+                // The failed step started from the last successful one.
+                _p_J = _last_successful_J;
                 _J = J;
             } else {
                 _p_J = _last_successful_J;
-- 
2.43.0


From fb803418df21dcd26a7f3e06b5372fe90102323e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:33 +0000
Subject: [PATCH 072/155] fix: dog leg shrinks the trust region after a step to
 NaN

---
 aslam_optimizer/aslam_backend/src/DogLegTrustRegionPolicy.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_optimizer/aslam_backend/src/DogLegTrustRegionPolicy.cpp b/aslam_optimizer/aslam_backend/src/DogLegTrustRegionPolicy.cpp
index 8bea848..81271f8 100644
--- a/aslam_optimizer/aslam_backend/src/DogLegTrustRegionPolicy.cpp
+++ b/aslam_optimizer/aslam_backend/src/DogLegTrustRegionPolicy.cpp
@@ -49,7 +49,7 @@ namespace aslam {
                 {
                     _delta /= 2.0;
                 }
-                else if (rho <= 0)  // step failed
+                else if (!(rho > 0))  // step failed, possibly to a cost that is not a number
                 {
                     // if we took a GN step set the trust region to the GN Step / 2
                     if(_stepType == "GN")
-- 
2.43.0


From 2b1df78a6e7a0f821f3e72c69f7dbad8a1a6749a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:32 +0000
Subject: [PATCH 073/155] fix: dog leg interpolates between equal steps

---
 .../aslam_backend/src/DogLegTrustRegionPolicy.cpp  | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/aslam_optimizer/aslam_backend/src/DogLegTrustRegionPolicy.cpp b/aslam_optimizer/aslam_backend/src/DogLegTrustRegionPolicy.cpp
index 81271f8..05fb878 100644
--- a/aslam_optimizer/aslam_backend/src/DogLegTrustRegionPolicy.cpp
+++ b/aslam_optimizer/aslam_backend/src/DogLegTrustRegionPolicy.cpp
@@ -121,15 +121,21 @@ namespace aslam {
                     double gdnsd_norm_sqr = dgnsd.squaredNorm();
 
                     double c = _dx_sd.transpose() * ( dgnsd );
-                    if(c <= 0)
+                    // Rounding makes this negative where the steps are about as long as the trust region.
+                    const double gap = std::max(0.0, _delta*_delta - _dx_sd_norm*_dx_sd_norm);
+                    if(gdnsd_norm_sqr == 0.0)
                     {
-                        _beta = -c + sqrt( c*c + gdnsd_norm_sqr*(_delta*_delta - _dx_sd_norm*_dx_sd_norm) );
+                        _beta = 1.0;
+                    }
+                    else if(c <= 0)
+                    {
+                        _beta = -c + sqrt( c*c + gdnsd_norm_sqr*gap );
                         _beta /= gdnsd_norm_sqr;
                     }
                     else
                     {
-                        _beta = (_delta*_delta - _dx_sd_norm*_dx_sd_norm);
-                        _beta /= c + sqrt( c*c + gdnsd_norm_sqr*(_delta*_delta - _dx_sd_norm*_dx_sd_norm) );
+                        _beta = gap;
+                        _beta /= c + sqrt( c*c + gdnsd_norm_sqr*gap );
                     }
 
                     _dx = _dx_sd + _beta * ( dgnsd );
-- 
2.43.0


From 5d76adde51a35930c81ca9743c0abde869914c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:32 +0000
Subject: [PATCH 074/155] fix: Optimizer2 goes on after a step to a cost that
 is not a number

---
 aslam_optimizer/aslam_backend/src/Optimizer2.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aslam_optimizer/aslam_backend/src/Optimizer2.cpp b/aslam_optimizer/aslam_backend/src/Optimizer2.cpp
index f938b8b..40b49a0 100644
--- a/aslam_optimizer/aslam_backend/src/Optimizer2.cpp
+++ b/aslam_optimizer/aslam_backend/src/Optimizer2.cpp
@@ -214,8 +214,8 @@ namespace aslam {
             // Loop until convergence
             while (srv.iterations <  _options.maxIterations &&
                    srv.failedIterations < _options.maxIterations &&
-                   ((deltaX > _options.convergenceDeltaX &&
-                     fabs(deltaJ) > _options.convergenceDeltaJ) ||
+                   ((!(deltaX <= _options.convergenceDeltaX) &&
+                     !(fabs(deltaJ) <= _options.convergenceDeltaJ)) ||
                     linearSolverFailure)) {
 
                 timeSolve.start();
-- 
2.43.0


From 5482a7583b478f0c014883233c335ad7bd97d3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:29 +0000
Subject: [PATCH 075/155] fix: estimate the initial lambda from the Hessian's
 diagonal

---
 aslam_optimizer/aslam_backend/src/Optimizer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_optimizer/aslam_backend/src/Optimizer.cpp b/aslam_optimizer/aslam_backend/src/Optimizer.cpp
index 20c8113..2afafd4 100644
--- a/aslam_optimizer/aslam_backend/src/Optimizer.cpp
+++ b/aslam_optimizer/aslam_backend/src/Optimizer.cpp
@@ -149,7 +149,7 @@ namespace aslam {
           if (H) {
             for (int j = 0; j < H->rows(); j++) {
               if (fabs((*H)(j, j)) > maximum)
-                maximum = fabs((*H)(i, j));
+                maximum = fabs((*H)(j, j));
             }
           }
         }
-- 
2.43.0


From 43106eea8e4e496a88767ab75dd5741829aa1c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:30 +0000
Subject: [PATCH 076/155] fix: Optimizer keeps the last step when the linear
 solver fails

---
 aslam_optimizer/aslam_backend/src/Optimizer.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/aslam_optimizer/aslam_backend/src/Optimizer.cpp b/aslam_optimizer/aslam_backend/src/Optimizer.cpp
index 2afafd4..be08d77 100644
--- a/aslam_optimizer/aslam_backend/src/Optimizer.cpp
+++ b/aslam_optimizer/aslam_backend/src/Optimizer.cpp
@@ -520,9 +520,8 @@ namespace aslam {
         if (!solutionSuccess) {
           // \todo do something better
           //SM_ASSERT_TRUE(Exception, solutionSuccess, "The linear solution failed");
+          // No step was taken, so there is none to revert.
           isLmRegression = true;
-          // **** if J is a regression
-          revertLastStateUpdate();
           // ***** Update lambda
           // _lambda *= 1000;
           _lambda *= mu;
-- 
2.43.0


From 893b88cd4752ace72e1df54cc332004471228dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:30 +0000
Subject: [PATCH 077/155] fix: Optimizer reports the cost of the state it ends
 with and rejects steps to NaN

---
 aslam_optimizer/aslam_backend/src/Optimizer.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/aslam_optimizer/aslam_backend/src/Optimizer.cpp b/aslam_optimizer/aslam_backend/src/Optimizer.cpp
index be08d77..edaf986 100644
--- a/aslam_optimizer/aslam_backend/src/Optimizer.cpp
+++ b/aslam_optimizer/aslam_backend/src/Optimizer.cpp
@@ -493,8 +493,8 @@ namespace aslam {
       bool isLmRegression = false;
       // Loop until convergence
       while (srv.iterations <  _options.maxIterations &&
-             deltaX > _options.convergenceDeltaX &&
-             fabs(deltaJ) > _options.convergenceDeltaJ) {
+             !(deltaX <= _options.convergenceDeltaX) &&
+             !(fabs(deltaJ) <= _options.convergenceDeltaJ)) {
         // *** build: J, U, Vi, Wi, ea, ebi
         if (! isLmRegression) {
           timeGn.start();
@@ -541,10 +541,11 @@ namespace aslam {
             // update rho:
             double rho = getLmRho();
             // if(_J > _p_J)
-            if (rho <= 0) {
+            if (!(rho > 0)) { // also when the cost is not a number
               isLmRegression = true;
               // **** if J is a regression
               revertLastStateUpdate();
+              _J = _p_J;
               // ***** Update lambda
               // _lambda *= 1000;
               _lambda *= mu;
-- 
2.43.0


From 955261198cc5ef7222866d598310c52497628393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:35 +0000
Subject: [PATCH 078/155] fix: invert the square part of R in the marginalizer

---
 aslam_optimizer/aslam_backend/src/Marginalizer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_optimizer/aslam_backend/src/Marginalizer.cpp b/aslam_optimizer/aslam_backend/src/Marginalizer.cpp
index 29ca601..7530a18 100644
--- a/aslam_optimizer/aslam_backend/src/Marginalizer.cpp
+++ b/aslam_optimizer/aslam_backend/src/Marginalizer.cpp
@@ -152,7 +152,7 @@ void marginalize(
 			  if(numTopRowsInCov > 0)
 			  {
 				sm::timing::Timer myTimer("Covariance computation");
-				Eigen::FullPivLU<Eigen::MatrixXd> lu_decomp(R);
+				Eigen::FullPivLU<Eigen::MatrixXd> lu_decomp(R.topRows(jcols));
 				Eigen::MatrixXd Rinv = lu_decomp.inverse();
 				Eigen::MatrixXd covariance = Rinv * Rinv.transpose();
 				outCov = covariance.block(0, 0, numTopRowsInCov, numTopRowsInCov);
-- 
2.43.0


From 1cf71adc06198fe0e6335a085b39ec7b5fa3849d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:54 +0000
Subject: [PATCH 079/155] fix: CompressedColumnMatrix looks up entries of its
 last columns without indexing past the end

---
 .../backend/implementation/CompressedColumnMatrix.hpp       | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aslam_optimizer/aslam_backend/include/aslam_backend/backend/implementation/CompressedColumnMatrix.hpp b/aslam_optimizer/aslam_backend/include/aslam_backend/backend/implementation/CompressedColumnMatrix.hpp
index 1263f48..6105d62 100644
--- a/aslam_optimizer/aslam_backend/include/aslam_backend/backend/implementation/CompressedColumnMatrix.hpp
+++ b/aslam_optimizer/aslam_backend/include/aslam_backend/backend/implementation/CompressedColumnMatrix.hpp
@@ -171,15 +171,15 @@ namespace aslam {
       SM_ASSERT_LT_DBG(Exception, c, _cols, "Index out of bounds");
       // Search for the element in the array.
       // The column is sorted so we can use a binary search.
-      const I* colBegin = &_row_ind[_col_ptr[c]];
-      const I* colEnd = &_row_ind[_col_ptr[c + 1]];
+      const I* colBegin = _row_ind.data() + _col_ptr[c];
+      const I* colEnd = _row_ind.data() + _col_ptr[c + 1];
       const I* result = std::lower_bound(colBegin, colEnd, r);
       // Found if
       if (result != colEnd && // (a) the search did not go off the end, and
           *result == (I)r) {  // (b) we found the exact row we were looking for
         // Here, the result was found to be at the parallel spot in the values array
         // Use pointer arithmetic to recover.
-        return _values[result - &_row_ind[0]];
+        return _values[result - _row_ind.data()];
       } else {
         return 0.0;
       }
-- 
2.43.0


From 7b480f2aa24fe1d8f03660697c96e2ba731aac5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:54 +0000
Subject: [PATCH 080/155] fix: fill compressed column values of row-major
 blocks in the right order

---
 .../implementation/sparse_block_matrix.hpp                | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/aslam_optimizer/aslam_sparse_block_matrix/include/aslam_sparse_block_matrix/implementation/sparse_block_matrix.hpp b/aslam_optimizer/aslam_sparse_block_matrix/include/aslam_sparse_block_matrix/implementation/sparse_block_matrix.hpp
index 532caf0..8f09094 100755
--- a/aslam_optimizer/aslam_sparse_block_matrix/include/aslam_sparse_block_matrix/implementation/sparse_block_matrix.hpp
+++ b/aslam_optimizer/aslam_sparse_block_matrix/include/aslam_sparse_block_matrix/implementation/sparse_block_matrix.hpp
@@ -689,8 +689,8 @@ IntType SparseBlockMatrix<MatrixType>::fillCCS(double* Cx, bool upperTriangle) c
         int elemsToCopy = b->rows();
         if (upperTriangle && rstart == cstart)
           elemsToCopy = c + 1;
-        memcpy(Cx, b->data() + c * b->rows(), elemsToCopy * sizeof(double));
-        Cx += elemsToCopy;
+        for (int r = 0; r < elemsToCopy; ++r)
+          *Cx++ = (*b)(r, c);
 
       }
     }
@@ -824,8 +824,8 @@ IntType SparseBlockMatrix<MatrixType>::fillUpperTriangleCCS(double* Cx) const {
         // if the Block sits on the diagonal
         if (rstart == cstart)
           elemsToCopy = c + 1;  // do not copy the symmetric parts
-        memcpy(Cx, b->data() + c * b->rows(), elemsToCopy * sizeof(double));
-        Cx += elemsToCopy;
+        for (int r = 0; r < elemsToCopy; ++r)
+          *Cx++ = (*b)(r, c);
       }
 
       // this gave as the upper triangle part of the column
-- 
2.43.0


From 7ce713139636b21ec998935274ef2536c6d69729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:08 +0000
Subject: [PATCH 081/155] fix: clear and init leave a CompressedColumnMatrix
 consistent

---
 .../backend/implementation/CompressedColumnMatrix.hpp         | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aslam_optimizer/aslam_backend/include/aslam_backend/backend/implementation/CompressedColumnMatrix.hpp b/aslam_optimizer/aslam_backend/include/aslam_backend/backend/implementation/CompressedColumnMatrix.hpp
index 6105d62..815ddb4 100644
--- a/aslam_optimizer/aslam_backend/include/aslam_backend/backend/implementation/CompressedColumnMatrix.hpp
+++ b/aslam_optimizer/aslam_backend/include/aslam_backend/backend/implementation/CompressedColumnMatrix.hpp
@@ -37,7 +37,9 @@ namespace aslam {
     {
       _rows = rows;
       _cols = cols;
+      _values.clear();
       _values.reserve(nnz);
+      _row_ind.clear();
       _row_ind.reserve(nnz);
       _col_ptr.reserve(num_cols);
       _col_ptr.assign(_cols + 1, (index_t)0);
@@ -133,7 +135,7 @@ namespace aslam {
     {
       _values.clear();
       _row_ind.clear();
-      _col_ptr.assign(_rows + 1, (index_t)0);
+      _col_ptr.assign(_cols + 1, (index_t)0);
     }
 
 
-- 
2.43.0


From 60b227441ad34c55ad0befd115f4f6b8150b97be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:08 +0000
Subject: [PATCH 082/155] fix: covariances of a matrix that is not positive
 definite are refused

---
 .../aslam_sparse_block_matrix/linear_solver_cholmod.h       | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/aslam_optimizer/aslam_sparse_block_matrix/include/aslam_sparse_block_matrix/linear_solver_cholmod.h b/aslam_optimizer/aslam_sparse_block_matrix/include/aslam_sparse_block_matrix/linear_solver_cholmod.h
index e18139b..b50d1c8 100755
--- a/aslam_optimizer/aslam_sparse_block_matrix/include/aslam_sparse_block_matrix/linear_solver_cholmod.h
+++ b/aslam_optimizer/aslam_sparse_block_matrix/include/aslam_sparse_block_matrix/linear_solver_cholmod.h
@@ -137,7 +137,8 @@ class LinearSolverCholmod : public LinearSolver<MatrixType>
 
       // convert the factorization to LL, simplical, packed, monotonic
       int change_status = cholmod_change_factor(CHOLMOD_REAL, 1, 0, 1, 1, _cholmodFactor, &_cholmodCommon);
-      if (! change_status) {
+      // an LDL' factorization accepts a negative pivot, which leaves no LL' factor
+      if (! change_status || _cholmodFactor->minor < _cholmodFactor->n) {
         return false;
       }
       assert(_cholmodFactor->is_ll && !_cholmodFactor->is_super && _cholmodFactor->is_monotonic && "Cholesky factor has wrong format");
@@ -177,7 +178,8 @@ class LinearSolverCholmod : public LinearSolver<MatrixType>
 
       // convert the factorization to LL, simplical, packed, monotonic
       int change_status = cholmod_change_factor(CHOLMOD_REAL, 1, 0, 1, 1, _cholmodFactor, &_cholmodCommon);
-      if (! change_status) {
+      // an LDL' factorization accepts a negative pivot, which leaves no LL' factor
+      if (! change_status || _cholmodFactor->minor < _cholmodFactor->n) {
         return false;
       }
       assert(_cholmodFactor->is_ll && !_cholmodFactor->is_super && _cholmodFactor->is_monotonic && "Cholesky factor has wrong format");
-- 
2.43.0


From fe183d86f5826f70ae71840ba9b3b622a7fc2998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:57 +0000
Subject: [PATCH 083/155] fix: CompressedColumnMatrix reads dense and cholmod
 matrices afresh

---
 .../implementation/CompressedColumnMatrix.hpp       | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/aslam_optimizer/aslam_backend/include/aslam_backend/backend/implementation/CompressedColumnMatrix.hpp b/aslam_optimizer/aslam_backend/include/aslam_backend/backend/implementation/CompressedColumnMatrix.hpp
index 815ddb4..700522c 100644
--- a/aslam_optimizer/aslam_backend/include/aslam_backend/backend/implementation/CompressedColumnMatrix.hpp
+++ b/aslam_optimizer/aslam_backend/include/aslam_backend/backend/implementation/CompressedColumnMatrix.hpp
@@ -418,6 +418,7 @@ namespace aslam {
     {
       _rows = M.rows();
       _cols = M.cols();
+      _hasDiagonalAppended = false;
       _values.clear();
       _row_ind.clear();
       _col_ptr.resize(1);
@@ -467,13 +468,15 @@ namespace aslam {
       const I* row_ind = reinterpret_cast<const I*>(cs->i);
       const I* col_ptr = reinterpret_cast<const I*>(cs->p);
       const double* values = reinterpret_cast<const double*>(cs->x);
-      const size_t nzmax = cs->nzmax;
       _col_ptr.resize(_cols + 1);
       std::copy(col_ptr, col_ptr + _cols + 1, _col_ptr.begin());
-      _row_ind.resize(nzmax);
-      std::copy(row_ind, row_ind + nzmax, _row_ind.begin());
-      _values.resize(nzmax);
-      std::copy(values, values + nzmax, _values.begin());
+      // cs->nzmax is the room of the arrays, which may be more than is used
+      const size_t nnz = _col_ptr[_cols];
+      _row_ind.resize(nnz);
+      std::copy(row_ind, row_ind + nnz, _row_ind.begin());
+      _values.resize(nnz);
+      std::copy(values, values + nnz, _values.begin());
+      _hasDiagonalAppended = false;
       checkMatrixDbg();
     }
 
-- 
2.43.0


From 4abad6cff1bb8478abd694420a008d6e8c4cecd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:16 +0000
Subject: [PATCH 084/155] fix: keypoint time of a global shutter camera has a
 Jacobian of the shutter's size

---
 .../implementation/ScalarExpressionNodeKeypointTime.hpp     | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/aslam_cv/aslam_cv_backend/include/aslam_cv_backend/implementation/ScalarExpressionNodeKeypointTime.hpp b/aslam_cv/aslam_cv_backend/include/aslam_cv_backend/implementation/ScalarExpressionNodeKeypointTime.hpp
index 1b72fa2..fe3fa0f 100644
--- a/aslam_cv/aslam_cv_backend/include/aslam_cv_backend/implementation/ScalarExpressionNodeKeypointTime.hpp
+++ b/aslam_cv/aslam_cv_backend/include/aslam_cv_backend/implementation/ScalarExpressionNodeKeypointTime.hpp
@@ -31,8 +31,7 @@ namespace aslam {
     ) const{
       Eigen::MatrixXd Ji;
 
-      Ji.resize(1, 1);
-      Ji(0, 0) = _y[1];
+      _dv->camera()->shutter().temporalOffsetIntrinsicsJacobian(_y, Ji);
       outJacobians.add(_dv->shutterDesignVariable().get(), Ji);
     }
 
@@ -43,8 +42,7 @@ namespace aslam {
     ) const {
       Eigen::MatrixXd Ji;
 
-      Ji.resize(1, 1);
-      Ji(0, 0) = _y[1];
+      _dv->camera()->shutter().temporalOffsetIntrinsicsJacobian(_y, Ji);
       outJacobians.add(_dv->shutterDesignVariable().get(), applyChainRule * Ji);
     }
 
-- 
2.43.0


From d10eded7feebb913697f59eda3747020cf9ded9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:16 +0000
Subject: [PATCH 085/155] fix: covariance reprojection error without a spline
 uses the keypoint's covariance

---
 .../implementation/CovarianceReprojectionError.hpp            | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aslam_cv/aslam_cv_error_terms/include/aslam_cv_error_terms/implementation/CovarianceReprojectionError.hpp b/aslam_cv/aslam_cv_error_terms/include/aslam_cv_error_terms/implementation/CovarianceReprojectionError.hpp
index c900641..09ab1e3 100644
--- a/aslam_cv/aslam_cv_error_terms/include/aslam_cv_error_terms/implementation/CovarianceReprojectionError.hpp
+++ b/aslam_cv/aslam_cv_error_terms/include/aslam_cv_error_terms/implementation/CovarianceReprojectionError.hpp
@@ -27,8 +27,8 @@ namespace aslam {
       SM_ASSERT_TRUE(Exception, _frame->numKeypoints() > _keypointIndex, "Keypoint index must be in bounds of frame.");
 
       // if a spline is given, estimate the covariance in each iteration
-      //if(!spline)
-      //    parent_t::_invR = _frame->keypoint(_keypointIndex).invR();
+      if(!spline)
+        parent_t::setInvR(_frame->keypoint(_keypointIndex).invR());
       JacobianContainer::set_t dvs;
       point.getDesignVariables(dvs);	// point dv's
       camera.getDesignVariables(dvs);	// camera dv's
-- 
2.43.0


From 976497df8e34ebee856ff161bd7fec43df91044d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:16 +0000
Subject: [PATCH 086/155] fix: covariance map of the rolling shutter error
 takes the point's motion in the camera frame

---
 .../implementation/CovarianceReprojectionError.hpp              | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv/aslam_cv_error_terms/include/aslam_cv_error_terms/implementation/CovarianceReprojectionError.hpp b/aslam_cv/aslam_cv_error_terms/include/aslam_cv_error_terms/implementation/CovarianceReprojectionError.hpp
index 09ab1e3..1e62cde 100644
--- a/aslam_cv/aslam_cv_error_terms/include/aslam_cv_error_terms/implementation/CovarianceReprojectionError.hpp
+++ b/aslam_cv/aslam_cv_error_terms/include/aslam_cv_error_terms/implementation/CovarianceReprojectionError.hpp
@@ -68,7 +68,7 @@ namespace aslam {
 
     	//std::cout << "TPboxminus:" << std::endl << TPboxminus << std::endl;
 
-    	Eigen::MatrixXd J = outJp * TPboxminus * JT * Phi_dot_c * lineDelay; //outJp * J_t;
+    	Eigen::MatrixXd J = outJp * T.inverse() * TPboxminus * JT * Phi_dot_c * lineDelay; //outJp * J_t;
     	//std::cout << "J: " << std::endl << J << std::endl;
 
     	Eigen::MatrixXd A = Eigen::MatrixXd::Identity(2,2);
-- 
2.43.0


From 42001d44c8a6fb8335e9176e71c9c41b9f16489b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:09 +0000
Subject: [PATCH 087/155] fix: a refused batch leaves the incremental
 optimization problem unchanged

---
 .../core/IncrementalOptimizationProblem.cpp   | 33 ++++++++++---------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/aslam_incremental_calibration/aslam_incremental_calibration/src/core/IncrementalOptimizationProblem.cpp b/aslam_incremental_calibration/aslam_incremental_calibration/src/core/IncrementalOptimizationProblem.cpp
index e5e6748..fc25f1e 100644
--- a/aslam_incremental_calibration/aslam_incremental_calibration/src/core/IncrementalOptimizationProblem.cpp
+++ b/aslam_incremental_calibration/aslam_incremental_calibration/src/core/IncrementalOptimizationProblem.cpp
@@ -188,8 +188,24 @@ namespace aslam {
       if (!problem)
         throw NullPointerException("problem", __FILE__, __LINE__,
           __PRETTY_FUNCTION__);
-      // update design variable counts, grouping, and storing
+      // refuse inconsistent problems before anything is changed
       const size_t numDV = problem->numDesignVariables();
+      for (size_t i = 0; i < numDV; ++i) {
+        const DesignVariable* dv = problem->designVariable(i);
+        if (isDesignVariableInProblem(dv) &&
+            getGroupId(dv) != problem->getGroupId(dv))
+          throw InvalidOperationException("group mismatch", __FILE__,
+            __LINE__, __PRETTY_FUNCTION__);
+      }
+      const size_t numET = problem->numErrorTerms();
+      for (size_t i = 0; i < numET; ++i) {
+        const ErrorTerm* et = problem->errorTerm(i);
+        if (isErrorTermInProblem(et))
+          throw InvalidOperationException("error term already in the problem",
+            __FILE__, __LINE__, __PRETTY_FUNCTION__);
+      }
+
+      // update design variable counts, grouping, and storing
       _designVariablesCounts.reserve(_designVariablesCounts.size() + numDV);
       for (size_t i = 0; i < numDV; ++i) {
         const DesignVariable* dv = problem->designVariable(i);
@@ -201,21 +217,8 @@ namespace aslam {
             std::make_pair(1, groupId)));
           _designVariables[groupId].push_back(dv);
         }
-        else {
-          if (getGroupId(dv) != groupId)
-            throw InvalidOperationException("group mismatch", __FILE__,
-              __LINE__, __PRETTY_FUNCTION__);
+        else
           _designVariablesCounts[dv].first++;
-        }
-      }
-
-      // keep trace of the error terms of this problem
-      const size_t numET = problem->numErrorTerms();
-      for (size_t i = 0; i < numET; ++i) {
-        const ErrorTerm* et = problem->errorTerm(i);
-        if (isErrorTermInProblem(et))
-          throw InvalidOperationException("error term already in the problem",
-            __FILE__, __LINE__, __PRETTY_FUNCTION__);
       }
 
       // insert the problem
-- 
2.43.0


From 69bf1aebc52f7c6e8dd35964f705d095ed6c62be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:09 +0000
Subject: [PATCH 088/155] fix: clearing the incremental optimization problem
 drops its saved design variables

---
 .../src/core/IncrementalOptimizationProblem.cpp                  | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aslam_incremental_calibration/aslam_incremental_calibration/src/core/IncrementalOptimizationProblem.cpp b/aslam_incremental_calibration/aslam_incremental_calibration/src/core/IncrementalOptimizationProblem.cpp
index fc25f1e..e1acb97 100644
--- a/aslam_incremental_calibration/aslam_incremental_calibration/src/core/IncrementalOptimizationProblem.cpp
+++ b/aslam_incremental_calibration/aslam_incremental_calibration/src/core/IncrementalOptimizationProblem.cpp
@@ -273,6 +273,7 @@ namespace aslam {
       _designVariablesCounts.clear();
       _designVariables.clear();
       _groupsOrdering.clear();
+      _designVariablesBackup.clear();
     }
 
     size_t IncrementalOptimizationProblem::
-- 
2.43.0


From d289366ddcc7e51e889e82e442471b06ee54c1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:28 +0000
Subject: [PATCH 089/155] fix: permute refuses a permutation that is not one
 before changing the container

---
 .../aslam_incremental_calibration/algorithms/permute.tpp  | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/aslam_incremental_calibration/aslam_incremental_calibration/include/aslam_incremental_calibration/algorithms/permute.tpp b/aslam_incremental_calibration/aslam_incremental_calibration/include/aslam_incremental_calibration/algorithms/permute.tpp
index e3110c3..f01c20b 100644
--- a/aslam_incremental_calibration/aslam_incremental_calibration/include/aslam_incremental_calibration/algorithms/permute.tpp
+++ b/aslam_incremental_calibration/aslam_incremental_calibration/include/aslam_incremental_calibration/algorithms/permute.tpp
@@ -33,11 +33,19 @@ namespace aslam {
         throw OutOfBoundException<I>(permutation.size(), container.size(),
           "permutation vector must match container size",
           __FILE__, __LINE__, __PRETTY_FUNCTION__);
+      std::vector<bool> seen(container.size(), false);
       for (I i = 0; i < container.size(); ++i) {
         if (permutation[i] >= static_cast<I>(container.size()))
           throw OutOfBoundException<I>(permutation[i], static_cast<I>(
             container.size()), "permutation vector index out of bound",
             __FILE__, __LINE__, __PRETTY_FUNCTION__);
+        if (seen[permutation[i]])
+          throw OutOfBoundException<I>(permutation[i],
+            "permutation vector index repeated",
+            __FILE__, __LINE__, __PRETTY_FUNCTION__);
+        seen[permutation[i]] = true;
+      }
+      for (I i = 0; i < container.size(); ++i) {
         I k = permutation[i];
         while (k < i)
           k = permutation[k];
-- 
2.43.0


From f9a025eef35f50dc0905f4be78394f325377fedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:28 +0000
Subject: [PATCH 090/155] fix: mean and median of a uniform distribution are
 the middle of its support

---
 .../statistics/UniformDistribution1v.tpp                      | 4 ++--
 .../statistics/UniformDistributionMv.tpp                      | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/aslam_incremental_calibration/aslam_incremental_calibration/include/aslam_incremental_calibration/statistics/UniformDistribution1v.tpp b/aslam_incremental_calibration/aslam_incremental_calibration/include/aslam_incremental_calibration/statistics/UniformDistribution1v.tpp
index 4d17e61..23d3257 100644
--- a/aslam_incremental_calibration/aslam_incremental_calibration/include/aslam_incremental_calibration/statistics/UniformDistribution1v.tpp
+++ b/aslam_incremental_calibration/aslam_incremental_calibration/include/aslam_incremental_calibration/statistics/UniformDistribution1v.tpp
@@ -149,13 +149,13 @@ namespace aslam {
     template <typename X>
     typename UniformDistribution<X>::Mean UniformDistribution<X>::getMean()
         const {
-      return 0.5 * (mMaxSupport - mMinSupport);
+      return 0.5 * (mMaxSupport + mMinSupport);
     }
 
     template <typename X>
     typename UniformDistribution<X>::Median UniformDistribution<X>::getMedian()
         const {
-      return 0.5 * (mMaxSupport - mMinSupport);
+      return 0.5 * (mMaxSupport + mMinSupport);
     }
 
     template <typename X>
diff --git a/aslam_incremental_calibration/aslam_incremental_calibration/include/aslam_incremental_calibration/statistics/UniformDistributionMv.tpp b/aslam_incremental_calibration/aslam_incremental_calibration/include/aslam_incremental_calibration/statistics/UniformDistributionMv.tpp
index 120bc73..8139a57 100644
--- a/aslam_incremental_calibration/aslam_incremental_calibration/include/aslam_incremental_calibration/statistics/UniformDistributionMv.tpp
+++ b/aslam_incremental_calibration/aslam_incremental_calibration/include/aslam_incremental_calibration/statistics/UniformDistributionMv.tpp
@@ -154,7 +154,7 @@ namespace aslam {
     template <typename X, int M>
     typename UniformDistribution<X, M>::Mean
         UniformDistribution<X, M>::getMean() const {
-      return 0.5 * (mMaxSupport - mMinSupport).template cast<double>();
+      return 0.5 * (mMaxSupport + mMinSupport).template cast<double>();
     }
 
     template <typename X, int M>
@@ -167,7 +167,7 @@ namespace aslam {
     template <typename X, int M>
     typename UniformDistribution<X, M>::Median
         UniformDistribution<X, M>::getMedian() const {
-      return 0.5 * (mMaxSupport - mMinSupport).template cast<double>();
+      return 0.5 * (mMaxSupport + mMinSupport).template cast<double>();
     }
 
     template <typename X, int M>
-- 
2.43.0


From 1e3c8019182828d5dda44e8d0025ee682d953d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:28 +0000
Subject: [PATCH 091/155] fix: covariance of a multivariate uniform
 distribution takes each dimension's own width

---
 .../statistics/UniformDistributionMv.tpp      | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/aslam_incremental_calibration/aslam_incremental_calibration/include/aslam_incremental_calibration/statistics/UniformDistributionMv.tpp b/aslam_incremental_calibration/aslam_incremental_calibration/include/aslam_incremental_calibration/statistics/UniformDistributionMv.tpp
index 8139a57..9a61a29 100644
--- a/aslam_incremental_calibration/aslam_incremental_calibration/include/aslam_incremental_calibration/statistics/UniformDistributionMv.tpp
+++ b/aslam_incremental_calibration/aslam_incremental_calibration/include/aslam_incremental_calibration/statistics/UniformDistributionMv.tpp
@@ -204,12 +204,9 @@ namespace aslam {
     UniformDistribution<X, M>::Traits::getCovariance(
         const Eigen::Matrix<Z, M, 1>& minSupport,
         const Eigen::Matrix<Z, M, 1>& maxSupport) {
-      const Eigen::Matrix<double, M, M> covariance =
-        Eigen::Matrix<double, M, M>::Identity(minSupport.size(),
-        minSupport.size());
-      const double supportArea =
-        Traits::template getSupportArea<Z, true>(minSupport, maxSupport);
-      return (supportArea * supportArea) / 12.0 * covariance;
+      const Eigen::Matrix<double, M, 1> width =
+        maxSupport.template cast<double>() - minSupport.template cast<double>();
+      return (width.array().square() / 12.0).matrix().asDiagonal();
     }
 
     template <typename X, int M>
@@ -218,12 +215,10 @@ namespace aslam {
     UniformDistribution<X, M>::Traits::getCovariance(
         const Eigen::Matrix<Z, M, 1>& minSupport,
         const Eigen::Matrix<Z, M, 1>& maxSupport) {
-      const Eigen::Matrix<double, M, M> covariance =
-        Eigen::Matrix<double, M, M>::Identity(minSupport.size(),
-        minSupport.size());
-      const double supportArea =
-        Traits::template getSupportArea<Z, true>(minSupport, maxSupport);
-      return (supportArea * supportArea - 1.0) / 12.0 * covariance;
+      const Eigen::Matrix<double, M, 1> width =
+        maxSupport.template cast<double>() - minSupport.template cast<double>();
+      return (((width.array() + 1.0).square() - 1.0) / 12.0).matrix()
+        .asDiagonal();
     }
 
   }
-- 
2.43.0


From 70b70d696319d3a4e9c23bc0bc127478a7d304b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:07 +0000
Subject: [PATCH 092/155] fix: Kullback-Leibler divergence of gamma
 distributions

---
 .../statistics/GammaDistribution.tpp                           | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/aslam_incremental_calibration/aslam_incremental_calibration/include/aslam_incremental_calibration/statistics/GammaDistribution.tpp b/aslam_incremental_calibration/aslam_incremental_calibration/include/aslam_incremental_calibration/statistics/GammaDistribution.tpp
index 4638e33..dd61612 100644
--- a/aslam_incremental_calibration/aslam_incremental_calibration/include/aslam_incremental_calibration/statistics/GammaDistribution.tpp
+++ b/aslam_incremental_calibration/aslam_incremental_calibration/include/aslam_incremental_calibration/statistics/GammaDistribution.tpp
@@ -196,8 +196,7 @@ namespace aslam {
         const {
       LogGammaFunction<T> logGammaFunction;
       const DigammaFunction<T> digammaFunction;
-      return (mShape - 1) * digammaFunction(mShape) -
-        (other.mShape - 1) * digammaFunction(other.mShape) -
+      return (mShape - other.mShape) * digammaFunction(mShape) -
         logGammaFunction(mShape) +
         logGammaFunction(other.mShape) + other.mShape *
         (log(mInvScale) - log(other.mInvScale)) +
-- 
2.43.0


From 351f368f468b0b325b7fe20eefc56cf9e06eeb57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:07 +0000
Subject: [PATCH 093/155] fix: normal distribution refuses a singular
 covariance and keeps its own

---
 .../statistics/NormalDistributionMv.tpp                      | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/aslam_incremental_calibration/aslam_incremental_calibration/include/aslam_incremental_calibration/statistics/NormalDistributionMv.tpp b/aslam_incremental_calibration/aslam_incremental_calibration/include/aslam_incremental_calibration/statistics/NormalDistributionMv.tpp
index f88c9a2..c427c78 100644
--- a/aslam_incremental_calibration/aslam_incremental_calibration/include/aslam_incremental_calibration/statistics/NormalDistributionMv.tpp
+++ b/aslam_incremental_calibration/aslam_incremental_calibration/include/aslam_incremental_calibration/statistics/NormalDistributionMv.tpp
@@ -114,8 +114,8 @@ namespace aslam {
           "NormalDistribution<M>::setCovariance(): "
           "covariance must be symmetric",
           __FILE__, __LINE__);
-      mTransformation = Eigen::LLT<Covariance>(covariance);
-      if (!Eigen::LDLT<Covariance>(covariance).isPositive())
+      const Eigen::LLT<Covariance> transformation(covariance);
+      if (transformation.info() != Eigen::Success)
         throw BadArgumentException<Covariance>(covariance,
           "NormalDistribution<M>::setCovariance(): covariance must be positive "
           "definite",
@@ -124,6 +124,7 @@ namespace aslam {
         throw BadArgumentException<Covariance>(covariance,
           "NormalDistribution<M>::setCovariance(): variances must be positive",
           __FILE__, __LINE__);
+      mTransformation = transformation;
       mPrecision = covariance.inverse();
       mDeterminant = covariance.determinant();
       mNormalizer = 0.5 * mMean.size() * log(2.0 * M_PI) + 0.5 *
-- 
2.43.0


From ad694b2c630ae4dff7e03c6141365c04d9ea0b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:07 +0000
Subject: [PATCH 094/155] fix: randomizer of integers draws from the
 distributions it names

---
 .../statistics/Randomizer.h                   |  8 ++++
 .../statistics/Randomizer.tpp                 | 41 ++++++++++++++-----
 2 files changed, 38 insertions(+), 11 deletions(-)

diff --git a/aslam_incremental_calibration/aslam_incremental_calibration/include/aslam_incremental_calibration/statistics/Randomizer.h b/aslam_incremental_calibration/aslam_incremental_calibration/include/aslam_incremental_calibration/statistics/Randomizer.h
index 44e9de8..9f88f2a 100644
--- a/aslam_incremental_calibration/aslam_incremental_calibration/include/aslam_incremental_calibration/statistics/Randomizer.h
+++ b/aslam_incremental_calibration/aslam_incremental_calibration/include/aslam_incremental_calibration/statistics/Randomizer.h
@@ -51,6 +51,14 @@ namespace aslam {
         /// Round function for integer types
         template <typename Z, typename IsInteger<Z>::Result::Numeric>
           static Z round(const double& value);
+        /// Uniform sample between 0 and 1
+        static double uniform();
+        /// Uniform sample within a support for real types
+        template <typename Z, typename IsReal<Z>::Result::Numeric>
+          static Z scale(const Z& minSupport, const Z& maxSupport);
+        /// Uniform sample within a support for integer types
+        template <typename Z, typename IsInteger<Z>::Result::Numeric>
+          static Z scale(const Z& minSupport, const Z& maxSupport);
       };
       /** @}
         */
diff --git a/aslam_incremental_calibration/aslam_incremental_calibration/include/aslam_incremental_calibration/statistics/Randomizer.tpp b/aslam_incremental_calibration/aslam_incremental_calibration/include/aslam_incremental_calibration/statistics/Randomizer.tpp
index e00c066..e294b63 100644
--- a/aslam_incremental_calibration/aslam_incremental_calibration/include/aslam_incremental_calibration/statistics/Randomizer.tpp
+++ b/aslam_incremental_calibration/aslam_incremental_calibration/include/aslam_incremental_calibration/statistics/Randomizer.tpp
@@ -103,8 +103,7 @@ namespace aslam {
           "Randomizer<T, M>::sampleUniform(): minimum support must be smaller "
           "than maximum support",
           __FILE__, __LINE__);
-      return minSupport + Traits::template round<T, true>(random() /
-        (double)RAND_MAX * (maxSupport - minSupport));
+      return Traits::template scale<T, true>(minSupport, maxSupport);
     }
 
     template <typename T, int M>
@@ -116,8 +115,8 @@ namespace aslam {
           __FILE__, __LINE__);
       double u, v, s;
       do {
-        u = 2.0 * sampleUniform() - 1.0;
-        v = 2.0 * sampleUniform() - 1.0;
+        u = 2.0 * Traits::uniform() - 1.0;
+        v = 2.0 * Traits::uniform() - 1.0;
         s = u * u + v * v;
       }
       while (s >= 1.0 || s == 0.0);
@@ -136,7 +135,7 @@ namespace aslam {
           "to 1 and probabilities bigger or equal to 0",
           __FILE__, __LINE__);
       double sum = probabilities(0);
-      const double u = sampleUniform();
+      const double u = Traits::uniform();
       for (size_t i = 1; i < (size_t)probabilities.size(); ++i)
         if (u > sum)
           sum += probabilities(i);
@@ -156,7 +155,7 @@ namespace aslam {
       double p = 1.0;
       do {
         k++;
-        p *= sampleUniform();
+        p *= Traits::uniform();
       }
       while (p > l);
       return k - 1;
@@ -171,7 +170,7 @@ namespace aslam {
           __FILE__, __LINE__);
       double u;
       do {
-        u = sampleUniform();
+        u = Traits::uniform();
       }
       while (u == 0);
       return -log(u) / rate;
@@ -186,7 +185,7 @@ namespace aslam {
           __FILE__, __LINE__);
       double u;
       do {
-        u = sampleUniform();
+        u = Traits::uniform();
       }
       while (u == 0);
       return floor(log(u) / log(1 - probability));
@@ -212,17 +211,17 @@ namespace aslam {
       double z = 0;
       if (fabs(fractionalPart) > std::numeric_limits<double>::epsilon())
         while (true) {
-          const double p = b * sampleUniform();
+          const double p = b * Traits::uniform();
           if (p > 1) {
             z = -log((b - p) / fractionalPart);
-            if (sampleUniform() > pow(z, fractionalPart - 1))
+            if (Traits::uniform() > pow(z, fractionalPart - 1))
               continue;
             else
               break;
           }
           else {
             z = pow(p, 1.0 / fractionalPart);
-            if (sampleUniform() > exp(-z))
+            if (Traits::uniform() > exp(-z))
               continue;
             else
               break;
@@ -243,5 +242,25 @@ namespace aslam {
       return (Z)::round(value);
     }
 
+    template <typename T, int M>
+    double Randomizer<T, M>::Traits::uniform() {
+      return random() / (double)RAND_MAX;
+    }
+
+    template <typename T, int M>
+    template <typename Z, typename IsReal<Z>::Result::Numeric>
+    Z Randomizer<T, M>::Traits::scale(const Z& minSupport, const Z&
+        maxSupport) {
+      return minSupport + uniform() * (maxSupport - minSupport);
+    }
+
+    template <typename T, int M>
+    template <typename Z, typename IsInteger<Z>::Result::Numeric>
+    Z Randomizer<T, M>::Traits::scale(const Z& minSupport, const Z&
+        maxSupport) {
+      return minSupport + (Z)floor(random() / (RAND_MAX + 1.0) *
+        ((double)maxSupport - (double)minSupport + 1.0));
+    }
+
   }
 }
-- 
2.43.0


From b400c64c523f008efa18608cebb93a961a7927ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:47 +0000
Subject: [PATCH 095/155] fix: grid cell of a point just below the maximum

---
 .../aslam_incremental_calibration/data-structures/Grid.tpp   | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/aslam_incremental_calibration/aslam_incremental_calibration/include/aslam_incremental_calibration/data-structures/Grid.tpp b/aslam_incremental_calibration/aslam_incremental_calibration/include/aslam_incremental_calibration/data-structures/Grid.tpp
index 519f318..20d7555 100644
--- a/aslam_incremental_calibration/aslam_incremental_calibration/include/aslam_incremental_calibration/data-structures/Grid.tpp
+++ b/aslam_incremental_calibration/aslam_incremental_calibration/include/aslam_incremental_calibration/data-structures/Grid.tpp
@@ -16,6 +16,8 @@
  * along with this program. If not, see <http://www.gnu.org/licenses/>.       *
  ******************************************************************************/
 
+#include <algorithm>
+
 #include "aslam_incremental_calibration/exceptions/OutOfBoundException.h"
 #include "aslam_incremental_calibration/exceptions/BadArgumentException.h"
 
@@ -191,7 +193,8 @@ namespace aslam {
         if (point(i) == mMaximum(i))
           idx(i) = mNumCells(i) - 1;
         else
-          idx(i) = (point(i) - mMinimum(i)) / mResolution(i);
+          idx(i) = std::min<size_t>((point(i) - mMinimum(i)) / mResolution(i),
+            mNumCells(i) - 1);
       return idx;
     }
 
-- 
2.43.0


From 56ddb2380760eb6b57043e45692cac135841a7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:47 +0000
Subject: [PATCH 096/155] fix: inverse of 2-D and 3-D transformations inverts
 the transformation matrix

---
 .../geometry/Transformation2d.tpp                  | 13 +++++++++----
 .../geometry/Transformation3d.tpp                  | 14 +++++++++-----
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/aslam_incremental_calibration/aslam_incremental_calibration/include/aslam_incremental_calibration/geometry/Transformation2d.tpp b/aslam_incremental_calibration/aslam_incremental_calibration/include/aslam_incremental_calibration/geometry/Transformation2d.tpp
index 0968958..0c13e54 100644
--- a/aslam_incremental_calibration/aslam_incremental_calibration/include/aslam_incremental_calibration/geometry/Transformation2d.tpp
+++ b/aslam_incremental_calibration/aslam_incremental_calibration/include/aslam_incremental_calibration/geometry/Transformation2d.tpp
@@ -149,10 +149,15 @@ namespace aslam {
 
     template <typename T>
     const Transformation<T, 2>& Transformation<T, 2>::inverse() {
-      mRotationMatrix.transposeInPlace();
-      mTranslationMatrix(0, 2) = -mTranslationMatrix(0, 2);
-      mTranslationMatrix(1, 2) = -mTranslationMatrix(1, 2);
-      mTransformationMatrix = mRotationMatrix * mTranslationMatrix;
+      const Eigen::Matrix<double, 2, 2> rotation = mTransformationMatrix.
+        template topLeftCorner<2, 2>().transpose();
+      const Eigen::Matrix<double, 2, 1> translation = -rotation *
+        mTransformationMatrix.template topRightCorner<2, 1>();
+      mRotationMatrix.setIdentity();
+      mRotationMatrix.template topLeftCorner<2, 2>() = rotation;
+      mTranslationMatrix.setIdentity();
+      mTranslationMatrix.template topRightCorner<2, 1>() = translation;
+      mTransformationMatrix = mTranslationMatrix * mRotationMatrix;
       return *this;
     }
 
diff --git a/aslam_incremental_calibration/aslam_incremental_calibration/include/aslam_incremental_calibration/geometry/Transformation3d.tpp b/aslam_incremental_calibration/aslam_incremental_calibration/include/aslam_incremental_calibration/geometry/Transformation3d.tpp
index 8729080..fa5addf 100644
--- a/aslam_incremental_calibration/aslam_incremental_calibration/include/aslam_incremental_calibration/geometry/Transformation3d.tpp
+++ b/aslam_incremental_calibration/aslam_incremental_calibration/include/aslam_incremental_calibration/geometry/Transformation3d.tpp
@@ -153,11 +153,15 @@ namespace aslam {
 
     template <typename T>
     const Transformation<T, 3>& Transformation<T, 3>::inverse() {
-      mRotationMatrix.transposeInPlace();
-      mTranslationMatrix(0, 3) = -mTranslationMatrix(0, 3);
-      mTranslationMatrix(1, 3) = -mTranslationMatrix(1, 3);
-      mTranslationMatrix(2, 3) = -mTranslationMatrix(2, 3);
-      mTransformationMatrix = mRotationMatrix * mTranslationMatrix;
+      const Eigen::Matrix<double, 3, 3> rotation = mTransformationMatrix.
+        template topLeftCorner<3, 3>().transpose();
+      const Eigen::Matrix<double, 3, 1> translation = -rotation *
+        mTransformationMatrix.template topRightCorner<3, 1>();
+      mRotationMatrix.setIdentity();
+      mRotationMatrix.template topLeftCorner<3, 3>() = rotation;
+      mTranslationMatrix.setIdentity();
+      mTranslationMatrix.template topRightCorner<3, 1>() = translation;
+      mTransformationMatrix = mTranslationMatrix * mRotationMatrix;
       return *this;
     }
 
-- 
2.43.0


From 14fbc97227f38e5adb0188c5b5c9fa6f99640650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:49 +0000
Subject: [PATCH 097/155] fix: grid refuses negative cell indices

---
 .../aslam_incremental_calibration/data-structures/Grid.tpp     | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aslam_incremental_calibration/aslam_incremental_calibration/include/aslam_incremental_calibration/data-structures/Grid.tpp b/aslam_incremental_calibration/aslam_incremental_calibration/include/aslam_incremental_calibration/data-structures/Grid.tpp
index 20d7555..55fc652 100644
--- a/aslam_incremental_calibration/aslam_incremental_calibration/include/aslam_incremental_calibration/data-structures/Grid.tpp
+++ b/aslam_incremental_calibration/aslam_incremental_calibration/include/aslam_incremental_calibration/data-structures/Grid.tpp
@@ -229,7 +229,8 @@ namespace aslam {
 
     template <typename T, typename C, int M>
     bool Grid<T, C, M>::isValidIndex(const Index& idx) const {
-      return ((idx.array() < mNumCells.array()).all());
+      return ((idx.array() >= 0).all() &&
+        (idx.array() < mNumCells.array()).all());
     }
 
     template <typename T, typename C, int M>
-- 
2.43.0


From 229d7f1bb85325af491aeb72c91d391b15874f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:25 +0000
Subject: [PATCH 098/155] fix: the estimator of a multivariate normal
 distribution compiles

---
 .../statistics/EstimatorMLNormalMv.tpp                     | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/aslam_incremental_calibration/aslam_incremental_calibration/include/aslam_incremental_calibration/statistics/EstimatorMLNormalMv.tpp b/aslam_incremental_calibration/aslam_incremental_calibration/include/aslam_incremental_calibration/statistics/EstimatorMLNormalMv.tpp
index 41b7de8..82798d5 100644
--- a/aslam_incremental_calibration/aslam_incremental_calibration/include/aslam_incremental_calibration/statistics/EstimatorMLNormalMv.tpp
+++ b/aslam_incremental_calibration/aslam_incremental_calibration/include/aslam_incremental_calibration/statistics/EstimatorMLNormalMv.tpp
@@ -121,11 +121,12 @@ namespace aslam {
       mSquaredValuesSum += OuterProduct::compute<double, M>(point);
       try {
         mValid = true;
-        const Eigen::Matrix<double, M, 1> mean = mValuesSum / mNumPoints;
+        const double numPoints = mNumPoints;
+        const Eigen::Matrix<double, M, 1> mean = mValuesSum / numPoints;
         mDistribution.setMean(mean);
-        mDistribution.setCovariance(mSquaredValuesSum / mNumPoints -
+        mDistribution.setCovariance(mSquaredValuesSum / numPoints -
           OuterProduct::compute<double, M>(mValuesSum) * 2 /
-          (mNumPoints * mNumPoints) + OuterProduct::compute<double, M>(mean));
+          (numPoints * numPoints) + OuterProduct::compute<double, M>(mean));
       }
       catch (...) {
         mValid = false;
-- 
2.43.0


From 898cc43973510d9f00e5476fbcb6c99bee2743f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:16 +0000
Subject: [PATCH 099/155] fix: moments of histograms compile

---
 .../statistics/Histogram1v.tpp                            | 8 ++++----
 .../statistics/HistogramMv.tpp                            | 6 +++---
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/aslam_incremental_calibration/aslam_incremental_calibration/include/aslam_incremental_calibration/statistics/Histogram1v.tpp b/aslam_incremental_calibration/aslam_incremental_calibration/include/aslam_incremental_calibration/statistics/Histogram1v.tpp
index 0ca1b04..c64cc02 100644
--- a/aslam_incremental_calibration/aslam_incremental_calibration/include/aslam_incremental_calibration/statistics/Histogram1v.tpp
+++ b/aslam_incremental_calibration/aslam_incremental_calibration/include/aslam_incremental_calibration/statistics/Histogram1v.tpp
@@ -57,7 +57,7 @@ namespace aslam {
     double Histogram<T, 1>::getMean() const {
       double mean = 0;
       for (Index i = Index::Zero(this->mNumCells.size()); i != this->mNumCells;
-          incrementIndex(i))
+          this->incrementIndex(i))
         mean += this->getCoordinates(i)(0) * this->getCell(i);
       return mean / getSum();
     }
@@ -67,7 +67,7 @@ namespace aslam {
       const double sum = getSum();
       double currentSum = 0;
       for (Index i = Index::Zero(this->mNumCells.size()); i != this->mNumCells;
-          incrementIndex(i)) {
+          this->incrementIndex(i)) {
         currentSum += this->getCell(i);
         if (currentSum >= sum * 0.5)
           return this->getCoordinates(i)(0);
@@ -80,7 +80,7 @@ namespace aslam {
       double max = -std::numeric_limits<double>::infinity();
       Index modeIdx;
       for (Index i = Index::Zero(this->mNumCells.size()); i != this->mNumCells;
-          incrementIndex(i)) {
+          this->incrementIndex(i)) {
         if (this->getCell(i) > max) {
           max = this->getCell(i);
           modeIdx = i;
@@ -94,7 +94,7 @@ namespace aslam {
       double variance = 0;
       const double mean = getMean();
       for (Index i = Index::Zero(this->mNumCells.size()); i != this->mNumCells;
-          incrementIndex(i))
+          this->incrementIndex(i))
         variance += (this->getCoordinates(i)(0) - mean) *
           (this->getCoordinates(i)(0) - mean) * this->getCell(i);
       return variance / (getSum() - 1);
diff --git a/aslam_incremental_calibration/aslam_incremental_calibration/include/aslam_incremental_calibration/statistics/HistogramMv.tpp b/aslam_incremental_calibration/aslam_incremental_calibration/include/aslam_incremental_calibration/statistics/HistogramMv.tpp
index 3f99149..0962481 100644
--- a/aslam_incremental_calibration/aslam_incremental_calibration/include/aslam_incremental_calibration/statistics/HistogramMv.tpp
+++ b/aslam_incremental_calibration/aslam_incremental_calibration/include/aslam_incremental_calibration/statistics/HistogramMv.tpp
@@ -56,7 +56,7 @@ namespace aslam {
     typename Histogram<T, M>::Mean Histogram<T, M>::getMean() const {
       Mean mean = Mean::Zero(this->mNumCells.size());
       for (Index i = Index::Zero(this->mNumCells.size()); i != this->mNumCells;
-          incrementIndex(i))
+          this->incrementIndex(i))
         mean += this->getCoordinates(i).template cast<double>() *
           this->getCell(i);
       return mean / getSum();
@@ -67,7 +67,7 @@ namespace aslam {
       double max = -std::numeric_limits<double>::infinity();
       Index modeIdx;
       for (Index i = Index::Zero(this->mNumCells.size()); i != this->mNumCells;
-          incrementIndex(i)) {
+          this->incrementIndex(i)) {
         if (this->getCell(i) > max) {
           max = this->getCell(i);
           modeIdx = i;
@@ -83,7 +83,7 @@ namespace aslam {
         this->mNumCells.size());
       const Mean mean = getMean();
       for (Index i = Index::Zero(this->mNumCells.size()); i != this->mNumCells;
-          incrementIndex(i))
+          this->incrementIndex(i))
         covariance += (this->getCoordinates(i).template cast<double>() - mean) *
           (this->getCoordinates(i).template cast<double>() - mean).transpose() *
           this->getCell(i);
-- 
2.43.0


From 91470be05b72198e272eefcaf232b5b41bfd7bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:08 +0000
Subject: [PATCH 100/155] fix: filter the rows and columns of small images and
 the ends of every row

---
 .../aslam_apriltag2/src/Gaussian.cc           | 24 ++++---------------
 1 file changed, 4 insertions(+), 20 deletions(-)

diff --git a/aslam_offline_calibration/aslam_apriltag2/src/Gaussian.cc b/aslam_offline_calibration/aslam_apriltag2/src/Gaussian.cc
index 8bd60a9..bb35a36 100644
--- a/aslam_offline_calibration/aslam_apriltag2/src/Gaussian.cc
+++ b/aslam_offline_calibration/aslam_apriltag2/src/Gaussian.cc
@@ -37,29 +37,13 @@ void Gaussian::convolveSymmetricCentered(const std::vector<float>& a, unsigned i
     warned = true;
   }
 
-  for (size_t i = f.size()/2; i < f.size(); i++) {
+  // pixels beyond either end repeat the first or the last one
+  for (size_t i = f.size()/2; i < alen + f.size()/2; i++) {
     double acc = 0;
     for (size_t j = 0; j < f.size(); j++) {
-      if ((aoff + i) < j || (aoff + i) >= (alen + j))
+      if (i < j)
 	acc += a[aoff] * f[j];
-      else
-	acc += a[aoff + i - j] * f[j];
-    }
-    r[roff + i - f.size()/2] = (float)acc;
-  }
-
-  for (size_t i = f.size(); i < alen; i++) {
-    double acc = 0;
-    for (unsigned int j = 0; j < f.size(); j++) {
-      acc += a[aoff + i - j] * f[j];
-    }
-    r[roff + i - f.size()/2] = (float)acc;
-  }
-
-  for (size_t i = alen; i < alen + f.size()/2; i++) {
-    double acc = 0;
-    for (size_t j = 0; j < f.size(); j++) {
-      if ((aoff + i) >= (alen + j) || (aoff + i) < j)
+      else if (i >= alen + j)
 	acc += a[aoff + alen - 1] * f[j];
       else
 	acc += a[aoff + i - j] * f[j];
-- 
2.43.0


From d7f3da4c12c4a29e4d85da4b749305b95e052365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:08 +0000
Subject: [PATCH 101/155] fix: detect tags in images whose rows are not
 contiguous

---
 aslam_offline_calibration/aslam_apriltag2/src/TagDetector.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/aslam_offline_calibration/aslam_apriltag2/src/TagDetector.cc b/aslam_offline_calibration/aslam_apriltag2/src/TagDetector.cc
index d49cea6..563a233 100644
--- a/aslam_offline_calibration/aslam_apriltag2/src/TagDetector.cc
+++ b/aslam_offline_calibration/aslam_apriltag2/src/TagDetector.cc
@@ -41,11 +41,10 @@ namespace AprilTags {
     int width = image.cols;
     int height = image.rows;
     AprilTags::FloatImage fimOrig(width, height);
-    int i = 0;
     for (int y=0; y<height; y++) {
+      const uchar* row = image.ptr<uchar>(y);
       for (int x=0; x<width; x++) {
-        fimOrig.set(x, y, image.data[i]/255.);
-        i++;
+        fimOrig.set(x, y, row[x]/255.);
       }
     }
     std::pair<int,int> opticalCenter(width/2, height/2);
-- 
2.43.0


From 9f838557bba86b0bd9916ec18ef91a5da8fe917b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:08 +0000
Subject: [PATCH 102/155] fix: corners of an earlier april grid observation do
 not stay observed

---
 .../aslam_cameras_april/src/GridCalibrationTargetAprilgrid.cpp  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv/aslam_cameras_april/src/GridCalibrationTargetAprilgrid.cpp b/aslam_cv/aslam_cameras_april/src/GridCalibrationTargetAprilgrid.cpp
index daf77c5..bec6491 100644
--- a/aslam_cv/aslam_cameras_april/src/GridCalibrationTargetAprilgrid.cpp
+++ b/aslam_cv/aslam_cameras_april/src/GridCalibrationTargetAprilgrid.cpp
@@ -275,7 +275,7 @@ bool GridCalibrationTargetAprilgrid::computeObservation(
   ///   ^      0-------1  2-------3
   ///   |-->x
 
-  outCornerObserved.resize(size(), false);
+  outCornerObserved.assign(size(), false);
   outImagePoints.resize(size(), 2);
 
   for (unsigned int i = 0; i < detections.size(); i++) {
-- 
2.43.0


From 1a90698a2cc2d60ac9cb9eead1fb5ece571fd0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:31 +0000
Subject: [PATCH 103/155] fix: clear strings from the matrix archive and count
 its matrices

---
 Schweizer-Messer/sm_matrix_archive/src/MatrixArchive.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Schweizer-Messer/sm_matrix_archive/src/MatrixArchive.cpp b/Schweizer-Messer/sm_matrix_archive/src/MatrixArchive.cpp
index a9e8508..4c673f0 100644
--- a/Schweizer-Messer/sm_matrix_archive/src/MatrixArchive.cpp
+++ b/Schweizer-Messer/sm_matrix_archive/src/MatrixArchive.cpp
@@ -32,7 +32,7 @@ namespace sm
   void MatrixArchive::clear(std::string const & entryName)
   {
     m_values.erase(entryName);
-    m_values.erase(entryName);
+    m_strings.erase(entryName);
   }
 
   void MatrixArchive::setScalar(std::string const & scalarName, double scalar)
@@ -175,7 +175,7 @@ namespace sm
   }
   size_t MatrixArchive::sizeMatrices() const
   {
-    return m_strings.size();
+    return m_values.size();
   }
 
   MatrixArchive::matrix_map_t::const_iterator MatrixArchive::begin() const
-- 
2.43.0


From dc19eda55425b26045a5a656c9f870ae4de6c688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:31 +0000
Subject: [PATCH 104/155] fix: keep one entry per name in the matrix archive

---
 .../include/sm_matrix_archive/MatrixArchive.hpp            | 3 ++-
 Schweizer-Messer/sm_matrix_archive/src/MatrixArchive.cpp   | 7 +++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/Schweizer-Messer/sm_matrix_archive/include/sm_matrix_archive/MatrixArchive.hpp b/Schweizer-Messer/sm_matrix_archive/include/sm_matrix_archive/MatrixArchive.hpp
index 5aec5ba..bbc47aa 100644
--- a/Schweizer-Messer/sm_matrix_archive/include/sm_matrix_archive/MatrixArchive.hpp
+++ b/Schweizer-Messer/sm_matrix_archive/include/sm_matrix_archive/MatrixArchive.hpp
@@ -121,10 +121,10 @@ namespace sm {
     template<typename Derived>
     void MatrixArchive::setMatrix(std::string const & matrixName, Eigen::MatrixBase<Derived> const & matrix)
     {
+      validateName(matrixName, SM_SOURCE_FILE_POS);
       if(m_strings.count(matrixName) > 0){
         m_strings.erase(matrixName);
       }
-      validateName(matrixName, SM_SOURCE_FILE_POS);
       m_values[matrixName] = matrix;
     }
   
@@ -133,6 +133,7 @@ namespace sm {
     {
       SM_ASSERT_EQ(MatrixArchiveException, vector.cols(),1, "The input must be a column vector");
       validateName(vectorName, SM_SOURCE_FILE_POS);
+      m_strings.erase(vectorName);
       m_values[vectorName] = vector;
     }
 
diff --git a/Schweizer-Messer/sm_matrix_archive/src/MatrixArchive.cpp b/Schweizer-Messer/sm_matrix_archive/src/MatrixArchive.cpp
index 4c673f0..2686089 100644
--- a/Schweizer-Messer/sm_matrix_archive/src/MatrixArchive.cpp
+++ b/Schweizer-Messer/sm_matrix_archive/src/MatrixArchive.cpp
@@ -38,6 +38,7 @@ namespace sm
   void MatrixArchive::setScalar(std::string const & scalarName, double scalar)
   {
     validateName(scalarName,SM_SOURCE_FILE_POS);
+    m_strings.erase(scalarName);
     Eigen::MatrixXd & M = m_values[scalarName];
     M.resize(1,1);
     M(0,0) = scalar;
@@ -73,6 +74,8 @@ namespace sm
       }
     }
 
+    validateName(matrixName, SM_SOURCE_FILE_POS);
+    m_strings.erase(matrixName);
     Eigen::MatrixXd & val = m_values[matrixName];
     m_values[matrixName].resize(rows, cols);
     return val;
@@ -424,10 +427,10 @@ namespace sm
         validateName(name,SM_SOURCE_FILE_POS);
         switch(blockType){
           case MATRIX:
-            m_values[name] = matrix;
+            setMatrix(name, matrix);
             break;
           case STRING:
-            m_strings[name] = valueString;
+            setString(name, valueString);
             break;
         }
       }
-- 
2.43.0


From e1f7af4b7f91691891960b0a733c4dfc4992935a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:57 +0000
Subject: [PATCH 105/155] fix: append the entries to the matrix archive file

---
 Schweizer-Messer/sm_matrix_archive/src/MatrixArchive.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Schweizer-Messer/sm_matrix_archive/src/MatrixArchive.cpp b/Schweizer-Messer/sm_matrix_archive/src/MatrixArchive.cpp
index 2686089..b86de85 100644
--- a/Schweizer-Messer/sm_matrix_archive/src/MatrixArchive.cpp
+++ b/Schweizer-Messer/sm_matrix_archive/src/MatrixArchive.cpp
@@ -439,10 +439,14 @@ namespace sm
 
   }
 
-  void MatrixArchive::append(boost::filesystem::path const & amaFilePath, std::set<std::string> const & /* validNames */) const
+  void MatrixArchive::append(boost::filesystem::path const & amaFilePath, std::set<std::string> const & validNames) const
   {
     std::ofstream fout(amaFilePath.string().c_str(), std::ios::binary | std::ios::app);
     SM_ASSERT_TRUE(MatrixArchiveException, fout.good(), "Unable to open file " << amaFilePath.string() << " for writing");
+
+    save(fout, validNames);
+
+    fout.close();
   }
 
   size_t MatrixArchive::maxNameSize()
-- 
2.43.0


From fa96e55230f4a5f255bed6fd3dd75c3afe05e8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:57 +0000
Subject: [PATCH 106/155] fix: report matrix archives that could not be written

---
 Schweizer-Messer/sm_matrix_archive/src/MatrixArchive.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Schweizer-Messer/sm_matrix_archive/src/MatrixArchive.cpp b/Schweizer-Messer/sm_matrix_archive/src/MatrixArchive.cpp
index b86de85..6b0363b 100644
--- a/Schweizer-Messer/sm_matrix_archive/src/MatrixArchive.cpp
+++ b/Schweizer-Messer/sm_matrix_archive/src/MatrixArchive.cpp
@@ -369,6 +369,7 @@ namespace sm
     save(fout, validNames);
 
     fout.close();
+    SM_ASSERT_TRUE(MatrixArchiveException, fout.good(), "Error while writing file " << amaFilePath.string());
   }
 
   void MatrixArchive::save(std::ostream & fout, std::set<std::string> const & validNames) const
@@ -447,6 +448,7 @@ namespace sm
     save(fout, validNames);
 
     fout.close();
+    SM_ASSERT_TRUE(MatrixArchiveException, fout.good(), "Error while writing file " << amaFilePath.string());
   }
 
   size_t MatrixArchive::maxNameSize()
-- 
2.43.0


From c573a53cc789d00ee463d829c318588977c712d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:12 +0000
Subject: [PATCH 107/155] fix: refuse truncated and corrupted matrix archives

---
 .../sm_matrix_archive/MatrixArchive.hpp       |  3 ++
 .../sm_matrix_archive/src/MatrixArchive.cpp   | 38 ++++++++++++++-----
 2 files changed, 32 insertions(+), 9 deletions(-)

diff --git a/Schweizer-Messer/sm_matrix_archive/include/sm_matrix_archive/MatrixArchive.hpp b/Schweizer-Messer/sm_matrix_archive/include/sm_matrix_archive/MatrixArchive.hpp
index bbc47aa..ac5e4f0 100644
--- a/Schweizer-Messer/sm_matrix_archive/include/sm_matrix_archive/MatrixArchive.hpp
+++ b/Schweizer-Messer/sm_matrix_archive/include/sm_matrix_archive/MatrixArchive.hpp
@@ -4,6 +4,7 @@
 #include <string>
 #include <map>
 #include <set>
+#include <boost/cstdint.hpp>
 #include <boost/static_assert.hpp>
 #include <boost/filesystem.hpp>
 #include <sm_common/assert_macros.hpp>
@@ -97,6 +98,8 @@ namespace sm {
       void writeMatrixBlockSwapBytes(std::ostream & fout, std::string const & name, Eigen::MatrixXd const & matrix) const;
       void writeStringBlock(std::ostream & fout, std::string const & name, std::string const & stringValue) const;
 
+      void read(std::istream & fin, char * data, size_t size) const;
+      void checkRemaining(std::istream & fin, boost::uint64_t size) const;
       void readMatrix(std::istream & fin, Eigen::MatrixXd & matrix) const;
       void readMatrixSwapBytes(std::istream & fin, std::string & name, Eigen::MatrixXd & matrix) const;
       void readString(std::istream & fin, std::string & stringValue) const;
diff --git a/Schweizer-Messer/sm_matrix_archive/src/MatrixArchive.cpp b/Schweizer-Messer/sm_matrix_archive/src/MatrixArchive.cpp
index 6b0363b..02aa738 100644
--- a/Schweizer-Messer/sm_matrix_archive/src/MatrixArchive.cpp
+++ b/Schweizer-Messer/sm_matrix_archive/src/MatrixArchive.cpp
@@ -1,5 +1,6 @@
 #include <fstream>
 #include <cstdio>
+#include <limits>
 #include <boost/algorithm/string/trim.hpp>
 #include <sm_matrix_archive/MatrixArchive.hpp>
 
@@ -235,21 +236,39 @@ namespace sm
     SM_THROW(MatrixArchiveException, "Not Implemented");
   }
   
+  void MatrixArchive::read(std::istream & fin, char * data, size_t size) const
+  {
+    fin.read(data, (std::streamsize)size);
+    SM_ASSERT_EQ(MatrixArchiveException, (size_t)fin.gcount(), size, "The file ended within a block");
+  }
+
+  void MatrixArchive::checkRemaining(std::istream & fin, boost::uint64_t size) const
+  {
+    const std::istream::pos_type position = fin.tellg();
+    fin.seekg(0, std::ios::end);
+    const boost::uint64_t remaining = (boost::uint64_t)(fin.tellg() - position);
+    fin.seekg(position);
+    SM_ASSERT_TRUE(MatrixArchiveException, fin.good() && size <= remaining, "The block is longer than the file");
+  }
+
   void MatrixArchive::readMatrix(std::istream & fin, Eigen::MatrixXd & matrix) const
   {
     // 4 byte rows
     boost::uint32_t rows;
-    fin.read(reinterpret_cast<char *>(&rows),4);
+    read(fin, reinterpret_cast<char *>(&rows),4);
     // 4 byte columns
     boost::uint32_t cols;
-    fin.read(reinterpret_cast<char *>(&cols),4);
+    read(fin, reinterpret_cast<char *>(&cols),4);
     
     // data
+    const boost::uint64_t elements = (boost::uint64_t)rows * cols;
+    SM_ASSERT_LE(MatrixArchiveException, elements, std::numeric_limits<boost::uint64_t>::max() / sizeof(double), "The matrix is too large");
+    const boost::uint64_t dataSize = elements * sizeof(double);
+    checkRemaining(fin, dataSize);
 
     matrix.resize(rows,cols);
-    std::streamsize dataSize = rows * cols * sizeof(double);
     //std::cout << "Reading matrix \"" << name << "\", size: " << rows << "x" << cols << ", dataSize: " << dataSize << std::endl; 
-    fin.read(reinterpret_cast<char *>(matrix.data()),dataSize);
+    read(fin, reinterpret_cast<char *>(matrix.data()),dataSize);
   }
 
   void MatrixArchive::writeStringBlock(std::ostream & fout, std::string const & name, std::string const & stringValue) const
@@ -273,18 +292,19 @@ namespace sm
   {
     // 4 byte rows
     boost::uint32_t stringSize;
-    fin.read(reinterpret_cast<char *>(&stringSize),4);
+    read(fin, reinterpret_cast<char *>(&stringSize),4);
 
     // data
+    checkRemaining(fin, stringSize);
     stringValue.resize(stringSize);
-    fin.read(&stringValue[0], stringSize);
+    read(fin, &stringValue[0], stringSize);
   }
 
   MatrixArchive::BlockType MatrixArchive::readBlock(std::istream & fin, std::string & name, Eigen::MatrixXd & matrix, std::string & stringValue) const
   {
     char start, end;
     // start character
-    fin.read(&start,1);
+    read(fin, &start,1);
     BlockType blockType;
     if(start == s_magicCharStartAStringBlock){
       blockType = STRING;
@@ -297,7 +317,7 @@ namespace sm
     // 64 character name
     char nameBuffer[s_fixedNameSize + 1];
     nameBuffer[s_fixedNameSize] = '\0';
-    fin.read(nameBuffer,(std::streamsize)s_fixedNameSize);
+    read(fin, nameBuffer,s_fixedNameSize);
     name = nameBuffer;
     boost::trim(name);
 
@@ -311,7 +331,7 @@ namespace sm
     }
 
     // end character
-    fin.read(&end,1);
+    read(fin, &end,1);
     SM_ASSERT_EQ(MatrixArchiveException, end, s_magicCharEnd, "The matrix block didn't end with the expected character");
     return blockType;
   }
-- 
2.43.0


From 4018b91c304114d7104a0d7c6919e9b28ce04a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:45 +0000
Subject: [PATCH 108/155] fix: answer whether a property exists

---
 .../sm_property_tree/src/BoostPropertyTreeImplementation.cpp    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Schweizer-Messer/sm_property_tree/src/BoostPropertyTreeImplementation.cpp b/Schweizer-Messer/sm_property_tree/src/BoostPropertyTreeImplementation.cpp
index be7c99f..b23e019 100755
--- a/Schweizer-Messer/sm_property_tree/src/BoostPropertyTreeImplementation.cpp
+++ b/Schweizer-Messer/sm_property_tree/src/BoostPropertyTreeImplementation.cpp
@@ -86,7 +86,7 @@ namespace sm {
 
   bool BoostPropertyTreeImplementation::doesKeyExist(const std::string & key) const
   {
-    boost::optional<std::string> val = _ptree.get<std::string>(boost::property_tree::ptree::path_type(key.c_str(),'/'));
+    boost::optional<std::string> val = _ptree.get_optional<std::string>(boost::property_tree::ptree::path_type(key.substr(1),'/'));
     
     return (bool)val;
   }
-- 
2.43.0


From 437a982afa28d5c8205dc46a829ca553bd8c9b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:06 +0000
Subject: [PATCH 109/155] fix: load empty row vectors

---
 .../sm_eigen/include/sm_eigen/serialization.hpp             | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Schweizer-Messer/sm_eigen/include/sm_eigen/serialization.hpp b/Schweizer-Messer/sm_eigen/include/sm_eigen/serialization.hpp
index 22b3283..da0c1f5 100755
--- a/Schweizer-Messer/sm_eigen/include/sm_eigen/serialization.hpp
+++ b/Schweizer-Messer/sm_eigen/include/sm_eigen/serialization.hpp
@@ -142,8 +142,10 @@ namespace boost { namespace serialization {
       SM_ASSERT_EQ(sm::eigen::SerializationException,rows,A,"Unexpected number of rows found for fixed-sized type");
     
       M.resize(Eigen::NoChange,cols);
-      ar >> make_nvp("data",make_array(&M(0,0),M.rows()*M.cols()));
-
+      if(rows > 0 && cols > 0)
+	{
+	  ar >> make_nvp("data",make_array(&M(0,0),M.rows()*M.cols()));
+	}
     }
 
     /// 
-- 
2.43.0


From 95e899abdadfe28fef2a196cd3f75dab08024931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:07 +0000
Subject: [PATCH 110/155] fix: store and load parts of images

---
 .../sm_opencv/include/sm_opencv/serialization.hpp          | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/Schweizer-Messer/sm_opencv/include/sm_opencv/serialization.hpp b/Schweizer-Messer/sm_opencv/include/sm_opencv/serialization.hpp
index 68cb49f..fecc9a8 100755
--- a/Schweizer-Messer/sm_opencv/include/sm_opencv/serialization.hpp
+++ b/Schweizer-Messer/sm_opencv/include/sm_opencv/serialization.hpp
@@ -123,7 +123,7 @@ namespace boost
       ar & make_nvp("rows",mat_.rows);
       ar & make_nvp("cols",mat_.cols);
       ar & make_nvp("type",type);
-      ar & make_nvp("data",boost::serialization::make_binary_object(mat_.data, mat_.step*mat_.rows));
+      ar & make_nvp("data",boost::serialization::make_binary_object(mat_.data, mat_.total()*mat_.elemSize()));
     }
  
     template<class Archive>
@@ -133,8 +133,11 @@ namespace boost
       ar & make_nvp("rows",rows);
       ar & make_nvp("cols",cols);
       ar & make_nvp("type",type);
+      if (!mat.isContinuous()) {
+		mat.release();
+      }
       mat.create(rows, cols, type);
-      ar & make_nvp("data",boost::serialization::make_binary_object(mat.data, mat.step*mat.rows));
+      ar & make_nvp("data",boost::serialization::make_binary_object(mat.data, mat.total()*mat.elemSize()));
     }
  
   }} // namespace boost::serialization.
-- 
2.43.0


From bb734d496ed3c177c1277ba4be5e2cf2e2781601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:07 +0000
Subject: [PATCH 111/155] fix: return the converted time from ptimeToTimeval

---
 Schweizer-Messer/sm_boost/include/sm_boost/ptime.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/Schweizer-Messer/sm_boost/include/sm_boost/ptime.hpp b/Schweizer-Messer/sm_boost/include/sm_boost/ptime.hpp
index 3831f58..2b97831 100644
--- a/Schweizer-Messer/sm_boost/include/sm_boost/ptime.hpp
+++ b/Schweizer-Messer/sm_boost/include/sm_boost/ptime.hpp
@@ -5,7 +5,7 @@
 
 namespace sm {
     
-    timeval ptimeToTimeval(const boost::posix_time::ptime time)
+    inline timeval ptimeToTimeval(const boost::posix_time::ptime time)
     {
         static const boost::posix_time::ptime UNIX_EPOCH(boost::gregorian::date(1970,1,1));
         
@@ -13,10 +13,9 @@ namespace sm {
         boost::posix_time::time_duration duration( time - UNIX_EPOCH );
         timeval tv;
         tv.tv_sec = duration.total_seconds();
-        tv.tv_usec = duration.fractional_seconds();
-        
-        
+        tv.tv_usec = duration.total_microseconds() % 1000000;
         
+        return tv;
     }
 
     
-- 
2.43.0


From c2b2e57d345c9d7411759adfad790dd617826dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:07 +0000
Subject: [PATCH 112/155] fix: balance SM_CHECKMEMBERSSAME with verbosity

---
 .../sm_common/include/sm_common/serialization_macros.hpp        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Schweizer-Messer/sm_common/include/sm_common/serialization_macros.hpp b/Schweizer-Messer/sm_common/include/sm_common/serialization_macros.hpp
index dc8043a..411111c 100644
--- a/Schweizer-Messer/sm_common/include/sm_common/serialization_macros.hpp
+++ b/Schweizer-Messer/sm_common/include/sm_common/serialization_macros.hpp
@@ -352,7 +352,7 @@ struct VerboseChecker {
 
 #define SM_SERIALIZATION_CHECKMEMBERSSAME_VERBOSE(OTHER, MEMBER, VERBOSE) \
     (SET_CHECKSAME_VERBOSITY(VERBOSE) && \
-        SM_SERIALIZATION_CHECKMEMBERSSAME_IMPL(OTHER, MEMBER)
+        SM_SERIALIZATION_CHECKMEMBERSSAME_IMPL(OTHER, MEMBER))
 
 #define SM_SERIALIZATION_CHECKMEMBERSSAME_IMPL(OTHER, MEMBER) \
     (((sm::serialization::internal::checkTypeIsNotOpencvMat<\
-- 
2.43.0


From 2d0ffc42077513599fd7e96d08d05bf5bfd07abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:07 +0000
Subject: [PATCH 113/155] fix: report objects that could not be written to a
 file

---
 .../include/sm_boost/serialization.hpp        | 29 +++++++++++++------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/Schweizer-Messer/sm_boost/include/sm_boost/serialization.hpp b/Schweizer-Messer/sm_boost/include/sm_boost/serialization.hpp
index 8297d78..477e4b9 100755
--- a/Schweizer-Messer/sm_boost/include/sm_boost/serialization.hpp
+++ b/Schweizer-Messer/sm_boost/include/sm_boost/serialization.hpp
@@ -21,9 +21,13 @@ namespace sm { namespace boost_serialization {
         {
             std::ofstream ofs(filename.string().c_str(), std::ios::binary);
             SM_ASSERT_TRUE(std::runtime_error,ofs.good(), "Unable to open file " << filename << " for writing");
-            ::boost::archive::binary_oarchive oa(ofs);
-    
-            oa << object;
+            {
+                ::boost::archive::binary_oarchive oa(ofs);
+
+                oa << object;
+            }
+            ofs.close();
+            SM_ASSERT_TRUE(std::runtime_error,ofs.good(), "Error while writing file " << filename);
         }
 
         template<typename T>
@@ -44,9 +48,13 @@ namespace sm { namespace boost_serialization {
         {
             std::ofstream ofs(filename.string().c_str(), std::ios::binary);
             SM_ASSERT_TRUE(std::runtime_error,ofs.good(), "Unable to open file " << filename << " for writing");
-            ::boost::archive::text_oarchive oa(ofs);
-    
-            oa << object;
+            {
+                ::boost::archive::text_oarchive oa(ofs);
+
+                oa << object;
+            }
+            ofs.close();
+            SM_ASSERT_TRUE(std::runtime_error,ofs.good(), "Error while writing file " << filename);
         }
 
         template<typename T>
@@ -67,14 +75,17 @@ namespace sm { namespace boost_serialization {
         {
             std::ofstream ofs(filename.string().c_str());
             SM_ASSERT_TRUE(std::runtime_error,ofs.good(), "Unable to open file " << filename << " for writing");
-            ::boost::archive::xml_oarchive oa(ofs);
             if(topLevelXmlTag.size() == 0)
             {
                 topLevelXmlTag = "object";
             }
 
-            oa << ::boost::serialization::make_nvp(topLevelXmlTag.c_str(), object);
-
+            {
+                ::boost::archive::xml_oarchive oa(ofs);
+                oa << ::boost::serialization::make_nvp(topLevelXmlTag.c_str(), object);
+            }
+            ofs.close();
+            SM_ASSERT_TRUE(std::runtime_error,ofs.good(), "Error while writing file " << filename);
         }
 
         template<typename T>
-- 
2.43.0


From 63ef5ef75d98d42b0b994e52ad91f2439251b197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:54 +0000
Subject: [PATCH 114/155] fix: reading a constant property tree does not change
 it

---
 Schweizer-Messer/sm_property_tree/src/PropertyTree.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Schweizer-Messer/sm_property_tree/src/PropertyTree.cpp b/Schweizer-Messer/sm_property_tree/src/PropertyTree.cpp
index b1d4f88..805758f 100755
--- a/Schweizer-Messer/sm_property_tree/src/PropertyTree.cpp
+++ b/Schweizer-Messer/sm_property_tree/src/PropertyTree.cpp
@@ -59,7 +59,7 @@ namespace sm {
   double PropertyTree::getDouble(const std::string & key, double defaultValue) const
   {
       SM_ASSERT_TRUE(Exception, _imp, "The implementation is NULL");
-      return _imp->getDouble(buildQualifiedKeyName(key), defaultValue);
+      return boost::shared_ptr<const PropertyTreeImplementation>(_imp)->getDouble(buildQualifiedKeyName(key), defaultValue);
   }
 
   double PropertyTree::getDouble(const std::string & key, double defaultValue)
@@ -77,7 +77,7 @@ namespace sm {
   int PropertyTree::getInt(const std::string & key, int defaultValue) const
   {
       SM_ASSERT_TRUE(Exception, _imp, "The implementation is NULL");
-    return _imp->getInt(buildQualifiedKeyName(key),defaultValue);
+    return boost::shared_ptr<const PropertyTreeImplementation>(_imp)->getInt(buildQualifiedKeyName(key),defaultValue);
   }
 
   int PropertyTree::getInt(const std::string & key, int defaultValue)
@@ -95,7 +95,7 @@ namespace sm {
   bool PropertyTree::getBool(const std::string & key, bool defaultValue) const
   {
       SM_ASSERT_TRUE(Exception, _imp, "The implementation is NULL");
-    return _imp->getBool(buildQualifiedKeyName(key), defaultValue);
+    return boost::shared_ptr<const PropertyTreeImplementation>(_imp)->getBool(buildQualifiedKeyName(key), defaultValue);
   }
 
   bool PropertyTree::getBool(const std::string & key, bool defaultValue) 
@@ -114,7 +114,7 @@ namespace sm {
   std::string PropertyTree::getString(const std::string & key, const std::string & defaultValue) const
   {
       SM_ASSERT_TRUE(Exception, _imp, "The implementation is NULL");
-    return _imp->getString(buildQualifiedKeyName(key), defaultValue);
+    return boost::shared_ptr<const PropertyTreeImplementation>(_imp)->getString(buildQualifiedKeyName(key), defaultValue);
   }
 
   std::string PropertyTree::getString(const std::string & key, const std::string & defaultValue) 
-- 
2.43.0


From fe3f9f021f047ef22c6d79a382a346451f6307e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:14 +0000
Subject: [PATCH 115/155] fix: refuse text that is not hexadecimal as a hash id

---
 Schweizer-Messer/sm_common/include/sm_common/hash_id.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Schweizer-Messer/sm_common/include/sm_common/hash_id.hpp b/Schweizer-Messer/sm_common/include/sm_common/hash_id.hpp
index d3a5010..2393ca8 100644
--- a/Schweizer-Messer/sm_common/include/sm_common/hash_id.hpp
+++ b/Schweizer-Messer/sm_common/include/sm_common/hash_id.hpp
@@ -59,6 +59,9 @@ class HashId {
     if (hexString.size() != 2*sizeof(val_)){
       return false;
     }
+    if (hexString.find_first_not_of("0123456789abcdefABCDEF") != std::string::npos){
+      return false;
+    }
     for (size_t i = 0; i < sizeof(val_); ++i){
       unsigned int integerValue;
       std::istringstream ss(std::string(hexString, 2*i, 2));
-- 
2.43.0


From 83fbe3ed5c0139a89081775f8e2de374cfd1119d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:14 +0000
Subject: [PATCH 116/155] fix: end string replacement by the same character,
 and at the first one

---
 .../sm_common/include/sm_common/string_routines.hpp    | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/Schweizer-Messer/sm_common/include/sm_common/string_routines.hpp b/Schweizer-Messer/sm_common/include/sm_common/string_routines.hpp
index ef65196..38900ee 100755
--- a/Schweizer-Messer/sm_common/include/sm_common/string_routines.hpp
+++ b/Schweizer-Messer/sm_common/include/sm_common/string_routines.hpp
@@ -15,12 +15,10 @@ namespace sm
         while( (pos = str.find(target, pos)) != std::string::npos)
         {
             if(skip)
-            {
                 skip--;
-                pos++;
-            }
             else
                 str[pos] = replacement;
+            pos++;
         }
         return str;
     }
@@ -33,12 +31,12 @@ namespace sm
         while( (pos = str.rfind(target, pos)) != std::string::npos)
         {
             if(skip)
-            {
                 skip--;
-                pos--;
-            }
             else
                 str[pos] = replacement;
+            if(pos == 0)
+                break;
+            pos--;
         }
         return str;
     }
-- 
2.43.0


From 12d03328342d434607353ee2b26a9e79a9eca94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:14 +0000
Subject: [PATCH 117/155] fix: round large numbers and those just below one
 half

---
 Schweizer-Messer/sm_common/include/sm_common/round.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/Schweizer-Messer/sm_common/include/sm_common/round.hpp b/Schweizer-Messer/sm_common/include/sm_common/round.hpp
index 6e8860e..abcaad3 100644
--- a/Schweizer-Messer/sm_common/include/sm_common/round.hpp
+++ b/Schweizer-Messer/sm_common/include/sm_common/round.hpp
@@ -1,16 +1,18 @@
 #ifndef SM_ROUND_HPP
 #define SM_ROUND_HPP
 
+#include <cmath>
+
 namespace sm {
     
     inline double round (double number)
     {
-        return (number < 0.0 ? ceil (number - 0.5) : floor (number + 0.5));
+        return std::round(number);
     }
 
     inline float round (float number)
     {
-        return (number < 0.0f ? ceilf (number - 0.5f) : floorf (number + 0.5f));
+        return std::round(number);
     }
 
     inline int rint(double number)
@@ -25,7 +27,7 @@ namespace sm {
 
     inline long int lrint(double number)
     {
-        return static_cast<int>( round(number) );
+        return static_cast<long int>( round(number) );
     }
 
     inline long int lrint(float number)
-- 
2.43.0


From 243c35c03a135d7f6c1aed3efeadb5ebcc9711ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:14 +0000
Subject: [PATCH 118/155] fix: solve a x^2 = 0

---
 Schweizer-Messer/sm_common/include/sm_common/maths.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Schweizer-Messer/sm_common/include/sm_common/maths.hpp b/Schweizer-Messer/sm_common/include/sm_common/maths.hpp
index 9eea956..63c0273 100755
--- a/Schweizer-Messer/sm_common/include/sm_common/maths.hpp
+++ b/Schweizer-Messer/sm_common/include/sm_common/maths.hpp
@@ -34,6 +34,10 @@ namespace sm {
 	n = -sqrt(bb_m_4ac) - b;
       }
 
+    // b = c = 0: the double root zero.
+    if(n == 0.0)
+      return std::make_pair(0.0, 0.0);
+
     return std::make_pair(n/(2*a),(2*c)/n);
 
   }
-- 
2.43.0


From ff63283a5033a2cb908f4e8237679591038f66f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:14 +0000
Subject: [PATCH 119/155] fix: switch log streams without holding the stream
 lock

---
 .../sm_logging/src/LoggingGlobals.cpp          | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/Schweizer-Messer/sm_logging/src/LoggingGlobals.cpp b/Schweizer-Messer/sm_logging/src/LoggingGlobals.cpp
index 70307ab..1cf8e2d 100644
--- a/Schweizer-Messer/sm_logging/src/LoggingGlobals.cpp
+++ b/Schweizer-Messer/sm_logging/src/LoggingGlobals.cpp
@@ -105,19 +105,25 @@ namespace sm {
         }
 
         void LoggingGlobals::enableNamedStream( const std::string & name ) {
-            boost::recursive_mutex::scoped_lock lock(_named_stream_mutex);
-            _namedStreamsEnabled.insert(name);
+            {
+                boost::recursive_mutex::scoped_lock lock(_named_stream_mutex);
+                _namedStreamsEnabled.insert(name);
+            }
+            // Without the lock: this takes the locations mutex and then the lock again.
             notifyLoggerLevelsChanged();
         }
 
         void LoggingGlobals::disableNamedStream( const std::string & name ) {
-            boost::recursive_mutex::scoped_lock lock(_named_stream_mutex);
-            std::set< std::string >::iterator it = _namedStreamsEnabled.find(name);
-            if(it != _namedStreamsEnabled.end())
             {
+                boost::recursive_mutex::scoped_lock lock(_named_stream_mutex);
+                std::set< std::string >::iterator it = _namedStreamsEnabled.find(name);
+                if(it == _namedStreamsEnabled.end())
+                {
+                    return;
+                }
                 _namedStreamsEnabled.erase(it);
-                notifyLoggerLevelsChanged();
             }
+            notifyLoggerLevelsChanged();
         }
 
 
-- 
2.43.0


From fd2258dee6938475c5b5ce405a4c8bdd50fa6a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:14 +0000
Subject: [PATCH 120/155] fix: replace the format of a log formatter when a new
 one is set

---
 Schweizer-Messer/sm_logging/src/Formatter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Schweizer-Messer/sm_logging/src/Formatter.cpp b/Schweizer-Messer/sm_logging/src/Formatter.cpp
index a1a6d0d..26b5494 100644
--- a/Schweizer-Messer/sm_logging/src/Formatter.cpp
+++ b/Schweizer-Messer/sm_logging/src/Formatter.cpp
@@ -47,6 +47,7 @@ namespace sm {
             void Formatter::init(const char* fmt)
                 {
                     format_ = fmt;
+                    tokens_.clear();
 
                     boost::regex e("\\$\\{([a-z|A-Z]+)\\}");
                     boost::match_results<std::string::const_iterator> results;
-- 
2.43.0


From b649d23cfcacdc1ba30b21a8a10fde952efb82d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:15 +0000
Subject: [PATCH 121/155] fix: end a job queue without losing track of its
 threads

---
 Schweizer-Messer/sm_boost/src/JobQueue.cpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/Schweizer-Messer/sm_boost/src/JobQueue.cpp b/Schweizer-Messer/sm_boost/src/JobQueue.cpp
index 4efc256..959a761 100644
--- a/Schweizer-Messer/sm_boost/src/JobQueue.cpp
+++ b/Schweizer-Messer/sm_boost/src/JobQueue.cpp
@@ -4,11 +4,7 @@ namespace sm {
     
     JobQueue::JobQueue() : killWorkers_(false), started_(false), threadsInPool_(0), activeThreads_(0) {}
     JobQueue::~JobQueue() { // we must kill thread before we're dead
-        boost::mutex::scoped_lock lck(mutex_);
-        killWorkers_ = true; // flag to tell thread to die
-        condition_.notify_all();
-        while (threadsInPool_) // all threads must exit
-            condition_.wait(lck);
+        join(); // all threads must exit, also those that did not get going yet
     }
 
     void JobQueue::scheduleWork(boost::function<void(void)> const & fn)
@@ -30,14 +26,17 @@ namespace sm {
     }
 
     void JobQueue::stop() {
-        killWorkers_ = true;
+        // With the lock, so that no thread misses this between its test of the flag and its wait.
+        boost::mutex::scoped_lock lck(mutex_);
+        killWorkers_ = true; // flag to tell thread to die
+        condition_.notify_all();
     }
 
     void JobQueue::join()
     {
         stop();
-        condition_.notify_all();
-        work_->join_all();
+        if(work_)
+            work_->join_all();
     }
 
     bool JobQueue::empty()
-- 
2.43.0


From 2e13904d2d94761861f3f8f4907578ed242c0cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:15 +0000
Subject: [PATCH 122/155] fix: time in universal time

---
 Schweizer-Messer/sm_timing/src/Timer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Schweizer-Messer/sm_timing/src/Timer.cpp b/Schweizer-Messer/sm_timing/src/Timer.cpp
index 7b47c28..04ed87c 100755
--- a/Schweizer-Messer/sm_timing/src/Timer.cpp
+++ b/Schweizer-Messer/sm_timing/src/Timer.cpp
@@ -92,7 +92,7 @@ namespace timing {
 #ifdef SM_USE_HIGH_PERF_TIMER
     QueryPerformanceCounter(&m_time);
 #else
-    m_time = boost::posix_time::microsec_clock::local_time();
+    m_time = boost::posix_time::microsec_clock::universal_time();
 #endif
   }
   
@@ -105,7 +105,7 @@ namespace timing {
     QueryPerformanceCounter(&end);
     dt = (double)(end.QuadPart - m_time.QuadPart)*Timing::instance().m_clockPeriod;	
 #else
-    boost::posix_time::ptime now = boost::posix_time::microsec_clock::local_time();
+    boost::posix_time::ptime now = boost::posix_time::microsec_clock::universal_time();
     boost::posix_time::time_duration t = now - m_time;
     dt = ((double)t.total_nanoseconds() * 1e-9);
 #endif
-- 
2.43.0


From 949de9bec8e484cc9ea8e2abd08fbdde63a51f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:15 +0000
Subject: [PATCH 123/155] fix: do not report negative variances of timers

---
 Schweizer-Messer/sm_timing/include/sm_timing/Timer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Schweizer-Messer/sm_timing/include/sm_timing/Timer.hpp b/Schweizer-Messer/sm_timing/include/sm_timing/Timer.hpp
index d87b6ec..7373981 100755
--- a/Schweizer-Messer/sm_timing/include/sm_timing/Timer.hpp
+++ b/Schweizer-Messer/sm_timing/include/sm_timing/Timer.hpp
@@ -34,7 +34,7 @@ namespace timing {
     boost::accumulators::accumulator_set<
       double, 
       boost::accumulators::features<
-	boost::accumulators::tag::lazy_variance,
+	boost::accumulators::tag::variance,
 	boost::accumulators::tag::sum,
 	boost::accumulators::tag::min,
 	boost::accumulators::tag::max,
-- 
2.43.0


From fbda9305b6cc57d4ec0386258b5a0b8b6a917c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:15 +0000
Subject: [PATCH 124/155] fix: round time strings to the digits printed

---
 Schweizer-Messer/sm_timing/src/Timer.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/Schweizer-Messer/sm_timing/src/Timer.cpp b/Schweizer-Messer/sm_timing/src/Timer.cpp
index 04ed87c..183bbc5 100755
--- a/Schweizer-Messer/sm_timing/src/Timer.cpp
+++ b/Schweizer-Messer/sm_timing/src/Timer.cpp
@@ -189,9 +189,11 @@ namespace timing {
 
   std::string Timing::secondsToTimeString(double seconds) {
     
-    double secs = fmod(seconds,60);
-    int minutes = (long)(seconds/60);
-    int hours = (long)(seconds/3600);
+    // Round to the digits printed first, so that 59.9999999 becomes a minute.
+    double microseconds = floor(seconds*1e6 + 0.5);
+    double secs = fmod(microseconds,60e6)*1e-6;
+    int minutes = (long)(microseconds/60e6);
+    int hours = (long)(microseconds/3600e6);
     minutes = minutes - (hours*60);
     
     char buffer[256];
-- 
2.43.0


From 559ca54ecc1e7da0d61abc8b7abb04dfd0a686ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:15 +0000
Subject: [PATCH 125/155] fix: keep random numbers inside their half-open range

---
 Schweizer-Messer/sm_random/src/random.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/Schweizer-Messer/sm_random/src/random.cpp b/Schweizer-Messer/sm_random/src/random.cpp
index 617fb81..03e71b5 100755
--- a/Schweizer-Messer/sm_random/src/random.cpp
+++ b/Schweizer-Messer/sm_random/src/random.cpp
@@ -5,6 +5,7 @@
 #include <boost/random/uniform_real.hpp>
 #include <boost/random/variate_generator.hpp>
 #include <boost/random/normal_distribution.hpp>
+#include <cmath>
 
 
 namespace sm {
@@ -77,12 +78,16 @@ double rand()
 
 double randLU(double lowerBoundInclusive, double upperBoundExclusive)
 {
-  return Random::instance().uniform() * (upperBoundExclusive - lowerBoundInclusive) + lowerBoundInclusive;
+  double sample = Random::instance().uniform() * (upperBoundExclusive - lowerBoundInclusive) + lowerBoundInclusive;
+  // The sum may be rounded up to the bound that is excluded.
+  if(sample >= upperBoundExclusive && lowerBoundInclusive < upperBoundExclusive)
+    sample = std::nextafter(upperBoundExclusive, lowerBoundInclusive);
+  return sample;
 }
 
 int randLUi(int lowerBoundInclusive, int upperBoundExclusive)
 {
-  return (int)floor(Random::instance().uniform() * (upperBoundExclusive - lowerBoundInclusive)) + lowerBoundInclusive;
+  return (int)(floor(Random::instance().uniform() * ((double)upperBoundExclusive - lowerBoundInclusive)) + lowerBoundInclusive);
 }
 
 void seed(boost::uint64_t s)
-- 
2.43.0


From d890c38820c01425f50618557bd803287f9a6b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:15 +0000
Subject: [PATCH 126/155] fix: keep the geometry of pinhole cameras without
 distortion

---
 .../kalibr/python/kalibr_common/ConfigReader.py                 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_offline_calibration/kalibr/python/kalibr_common/ConfigReader.py b/aslam_offline_calibration/kalibr/python/kalibr_common/ConfigReader.py
index c38559d..e6f0736 100644
--- a/aslam_offline_calibration/kalibr/python/kalibr_common/ConfigReader.py
+++ b/aslam_offline_calibration/kalibr/python/kalibr_common/ConfigReader.py
@@ -64,7 +64,7 @@ class AslamCamera(object):
                                             principalPoint[0], principalPoint[1], 
                                             resolution[0], resolution[1])
                 
-                self.camera = cv.PinholeCameraGeometry(proj)
+                self.geometry = cv.PinholeCameraGeometry(proj)
                 
                 self.frameType = cv.PinholeFrame
                 self.keypointType = cv.Keypoint2
-- 
2.43.0


From d911db62a8b080daa10f2b030a49f59a80af1580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:15 +0000
Subject: [PATCH 127/155] fix: refuse unsupported pinhole distortion models
 with a RuntimeError

---
 .../kalibr/python/kalibr_common/ConfigReader.py                 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_offline_calibration/kalibr/python/kalibr_common/ConfigReader.py b/aslam_offline_calibration/kalibr/python/kalibr_common/ConfigReader.py
index e6f0736..0ee099a 100644
--- a/aslam_offline_calibration/kalibr/python/kalibr_common/ConfigReader.py
+++ b/aslam_offline_calibration/kalibr/python/kalibr_common/ConfigReader.py
@@ -70,7 +70,7 @@ class AslamCamera(object):
                 self.keypointType = cv.Keypoint2
                 self.reprojectionErrorType = cvb.PinholeReprojectionErrorSimple
             else:
-                self.raiseError("pinhole camera model does not support distortion model '{}'".format(dist_model))
+                raise RuntimeError("pinhole camera model does not support distortion model '{}'".format(dist_model))
                 
         elif camera_model == 'omni':
             xi_omni = intrinsics[0]
-- 
2.43.0


From c34aa578c060a172e1990e1986d6de9e13cea2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:15 +0000
Subject: [PATCH 128/155] fix: report invalid calibration target parameters

---
 .../kalibr/python/kalibr_common/ConfigReader.py               | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aslam_offline_calibration/kalibr/python/kalibr_common/ConfigReader.py b/aslam_offline_calibration/kalibr/python/kalibr_common/ConfigReader.py
index 0ee099a..e9038a0 100644
--- a/aslam_offline_calibration/kalibr/python/kalibr_common/ConfigReader.py
+++ b/aslam_offline_calibration/kalibr/python/kalibr_common/ConfigReader.py
@@ -548,6 +548,7 @@ class CalibrationTargetParameters(ParametersBase):
     def getTargetParams(self):
         #read target specidic data
         targetType = self.getTargetType()
+        errList = []
         
         if targetType == 'checkerboard':
             try:
@@ -620,6 +621,9 @@ class CalibrationTargetParameters(ParametersBase):
                             'tagSize': tagSize,
                             'tagSpacing': tagSpacing,
                             'targetType': targetType}
+        
+        if errList:
+            self.raiseError("; ".join(errList))
             
         return targetParams
         
-- 
2.43.0


From 2833e1e93ca561b6f8d0d0612fd0ba9aed9ee30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:15 +0000
Subject: [PATCH 129/155] fix: print the header of camera chain details to the
 given destination

---
 .../kalibr/python/kalibr_common/ConfigReader.py                 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_offline_calibration/kalibr/python/kalibr_common/ConfigReader.py b/aslam_offline_calibration/kalibr/python/kalibr_common/ConfigReader.py
index e9038a0..b4b1082 100644
--- a/aslam_offline_calibration/kalibr/python/kalibr_common/ConfigReader.py
+++ b/aslam_offline_calibration/kalibr/python/kalibr_common/ConfigReader.py
@@ -755,7 +755,7 @@ class CameraChainParameters(ParametersBase):
     
     def printDetails(self, dest=sys.stdout):
         for camNr in range(0, self.numCameras()):
-            print("Camera chain - cam{0}:".format(camNr))
+            print("Camera chain - cam{0}:".format(camNr), file=dest)
             camConfig = self.getCameraParameters(camNr)
             camConfig.printDetails(dest)
             
-- 
2.43.0


From ca9c11e15201c77f797e43c19ce94a15dafd4f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:36 +0000
Subject: [PATCH 130/155] fix: keep the message indices when a bag is truncated
 in time

---
 .../kalibr/python/kalibr_common/ImageDatasetReader.py           | 2 +-
 .../kalibr/python/kalibr_common/ImuDatasetReader.py             | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/aslam_offline_calibration/kalibr/python/kalibr_common/ImageDatasetReader.py b/aslam_offline_calibration/kalibr/python/kalibr_common/ImageDatasetReader.py
index 3dbd5e6..9a5f217 100644
--- a/aslam_offline_calibration/kalibr/python/kalibr_common/ImageDatasetReader.py
+++ b/aslam_offline_calibration/kalibr/python/kalibr_common/ImageDatasetReader.py
@@ -95,7 +95,7 @@ class BagImageDatasetReader(object):
     valid_indices = []
     for idx, timestamp in enumerate(timestamps):
       if timestamp >= (bagstart + bag_from_to[0]) and timestamp <= (bagstart + bag_from_to[1]):
-        valid_indices.append(idx)
+        valid_indices.append(indices[idx])
     sm_python.logWarn(
         "BagImageDatasetReader: truncated {0} / {1} images.".format(len(indices) - len(valid_indices), len(indices)))
     return valid_indices
diff --git a/aslam_offline_calibration/kalibr/python/kalibr_common/ImuDatasetReader.py b/aslam_offline_calibration/kalibr/python/kalibr_common/ImuDatasetReader.py
index 0f7fccc..ab39ab4 100644
--- a/aslam_offline_calibration/kalibr/python/kalibr_common/ImuDatasetReader.py
+++ b/aslam_offline_calibration/kalibr/python/kalibr_common/ImuDatasetReader.py
@@ -87,7 +87,7 @@ class BagImuDatasetReader(object):
         valid_indices = []
         for idx, timestamp in enumerate(timestamps):
              if timestamp>=(bagstart+bag_from_to[0]) and timestamp<=(bagstart+bag_from_to[1]):
-                 valid_indices.append(idx)  
+                 valid_indices.append(indices[idx])  
         sm_python.logWarn("BagImuDatasetReader: truncated {0} / {1} messages.".format(len(indices)-len(valid_indices), len(indices)))
         
         return valid_indices
-- 
2.43.0


From 3bbb90686439b91fadabec277fc59b82f022fa2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:36 +0000
Subject: [PATCH 131/155] fix: shuffle a copy of the bag indices

---
 .../kalibr/python/kalibr_common/ImageDatasetReader.py           | 2 +-
 .../kalibr/python/kalibr_common/ImuDatasetReader.py             | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/aslam_offline_calibration/kalibr/python/kalibr_common/ImageDatasetReader.py b/aslam_offline_calibration/kalibr/python/kalibr_common/ImageDatasetReader.py
index 9a5f217..946b561 100644
--- a/aslam_offline_calibration/kalibr/python/kalibr_common/ImageDatasetReader.py
+++ b/aslam_offline_calibration/kalibr/python/kalibr_common/ImageDatasetReader.py
@@ -108,7 +108,7 @@ class BagImageDatasetReader(object):
     return BagImageDatasetReaderIterator(self, self.indices)
 
   def readDatasetShuffle(self):
-    indices = self.indices
+    indices = list(self.indices)
     np.random.shuffle(indices)
     return BagImageDatasetReaderIterator(self, indices)
 
diff --git a/aslam_offline_calibration/kalibr/python/kalibr_common/ImuDatasetReader.py b/aslam_offline_calibration/kalibr/python/kalibr_common/ImuDatasetReader.py
index ab39ab4..c55c26a 100644
--- a/aslam_offline_calibration/kalibr/python/kalibr_common/ImuDatasetReader.py
+++ b/aslam_offline_calibration/kalibr/python/kalibr_common/ImuDatasetReader.py
@@ -100,7 +100,7 @@ class BagImuDatasetReader(object):
         return BagImuDatasetReaderIterator(self, self.indices)
 
     def readDatasetShuffle(self):
-        indices = self.indices
+        indices = list(self.indices)
         np.random.shuffle(indices)
         return BagImuDatasetReaderIterator(self,indices)
 
-- 
2.43.0


From 83f29c52b17669787a0cba6e44225fbeba683ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:36 +0000
Subject: [PATCH 132/155] fix: print the observation table

---
 .../kalibr/python/kalibr_camera_calibration/ObsDb.py   | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/aslam_offline_calibration/kalibr/python/kalibr_camera_calibration/ObsDb.py b/aslam_offline_calibration/kalibr/python/kalibr_camera_calibration/ObsDb.py
index 74ecfa6..1b7e257 100644
--- a/aslam_offline_calibration/kalibr/python/kalibr_camera_calibration/ObsDb.py
+++ b/aslam_offline_calibration/kalibr/python/kalibr_camera_calibration/ObsDb.py
@@ -143,22 +143,22 @@ class ObservationDatabase(object):
 #############################################################    
     def printTable(self):
         #header
-        print("timestamp \t",)
+        print("timestamp \t", end=" ")
         for cam_id in range(0, self.numCameras()):
-            print( "cam{0} \t".format(cam_id),)
+            print( "cam{0} \t".format(cam_id), end=" ")
         print()
         
         #sort for time
-        times_sorted = np.sort(self.targetViews.keys())
+        times_sorted = np.sort(list(self.targetViews.keys()))
         
         #data lines
         for time in times_sorted:
-            print (time,)
+            print (time, end=" ")
             for cam_id in range(0, self.numCameras()):
                 try:
                     numCorners = len(self.targetViews[time][cam_id]['observed_corners'])
                 except KeyError:
                     numCorners = "-"
-                print("\t", numCorners,)
+                print("\t", numCorners, end=" ")
             print()
 
-- 
2.43.0


From cf5694131e12f34d803c3e4db96b9dcf3d643377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:16 +0000
Subject: [PATCH 133/155] fix: split okvis topics at the last slash

---
 .../kalibr/python/exporters/kalibr_okvis_config                | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/aslam_offline_calibration/kalibr/python/exporters/kalibr_okvis_config b/aslam_offline_calibration/kalibr/python/exporters/kalibr_okvis_config
index f56b94e..2d03d52 100755
--- a/aslam_offline_calibration/kalibr/python/exporters/kalibr_okvis_config
+++ b/aslam_offline_calibration/kalibr/python/exporters/kalibr_okvis_config
@@ -34,8 +34,7 @@ def printCameraBlock(camConfig, T_SC):
     image_topic=tokens[-1] #=image_raw
     
     #extract base topic
-    tokens=topic.split(image_topic)
-    image_base_topic=tokens[0].replace("/", "", 1) #=cam0/    
+    image_base_topic=topic[:len(topic)-len(image_topic)].replace("/", "", 1) #=cam0/    
     
     STRING_OUT=""
     STRING_OUT+="    - {"+"image_base_topic: {0}, image_topic: {1}, info_topic: camera_info,\n".format(image_base_topic, image_topic)
-- 
2.43.0


From efa9e51fb2b42c16829019ffff50624388eb47aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:16 +0000
Subject: [PATCH 134/155] fix: export okvis cameras without four distortion
 coefficients

---
 .../python/exporters/kalibr_okvis_config       | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/aslam_offline_calibration/kalibr/python/exporters/kalibr_okvis_config b/aslam_offline_calibration/kalibr/python/exporters/kalibr_okvis_config
index 2d03d52..aba38c9 100755
--- a/aslam_offline_calibration/kalibr/python/exporters/kalibr_okvis_config
+++ b/aslam_offline_calibration/kalibr/python/exporters/kalibr_okvis_config
@@ -36,6 +36,14 @@ def printCameraBlock(camConfig, T_SC):
     #extract base topic
     image_base_topic=topic[:len(topic)-len(image_topic)].replace("/", "", 1) #=cam0/    
     
+    intrinsics = camConfig.getIntrinsics()
+    proj_model = intrinsics[0]
+    intrinsic_params = intrinsics[1]
+    
+    if proj_model!="pinhole":
+        sm_python.logFatal("aslam only supports pinhole projection. removed camera with topic {0}!".format(topic))
+        return ""
+    
     STRING_OUT=""
     STRING_OUT+="    - {"+"image_base_topic: {0}, image_topic: {1}, info_topic: camera_info,\n".format(image_base_topic, image_topic)
     
@@ -55,17 +63,9 @@ def printCameraBlock(camConfig, T_SC):
     if dist_model=="radtan":
         dist_model="radialtangential" #aslam has a different name...
 
-    STRING_OUT+="       distortion_coefficients: [{0}, {1}, {2}, {3}],\n".format(dist_params[0], dist_params[1], dist_params[2], dist_params[3])
+    STRING_OUT+="       distortion_coefficients: [{0}],\n".format(", ".join("{0}".format(p) for p in dist_params))
     STRING_OUT+="       distortion_type: {0},\n".format(dist_model)
     
-    intrinsics = camConfig.getIntrinsics()
-    proj_model = intrinsics[0]
-    intrinsic_params = intrinsics[1]
-    
-    if proj_model!="pinhole":
-        sm_python.logFatal("aslam only supports pinhole projection. removed camera with topic {0}!".format(topic))
-        return ""
-    
     STRING_OUT+="       focal_length: [{0}, {1}],\n".format(intrinsic_params[0], intrinsic_params[1])
     STRING_OUT+="       principal_point: [{0}, {1}]".format(intrinsic_params[2], intrinsic_params[3]) + "}\n"
     STRING_OUT+="\n"
-- 
2.43.0


From 20246e2ed0df95a9ec072f3957c1146cc1134236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:16 +0000
Subject: [PATCH 135/155] fix: number rovio cameras by their place in the chain

---
 .../kalibr/python/exporters/kalibr_rovio_config     | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/aslam_offline_calibration/kalibr/python/exporters/kalibr_rovio_config b/aslam_offline_calibration/kalibr/python/exporters/kalibr_rovio_config
index 562809e..3318ab7 100755
--- a/aslam_offline_calibration/kalibr/python/exporters/kalibr_rovio_config
+++ b/aslam_offline_calibration/kalibr/python/exporters/kalibr_rovio_config
@@ -30,19 +30,10 @@ def map_dist_model(model_kalibr, params_kalibr):
         return model_kalibr, params_kalibr
 
 
-def printCameraBlock(camConfig, t_SC, q_CS):
+def printCameraBlock(camConfig, t_SC, q_CS, cidx):
     #example topic= /cam0/image_raw
     topic = camConfig.getRosTopic()
 
-    #extract image name
-    tokens=topic.split("/")
-    image_topic=tokens[-1] #=image_raw
-
-    #extract base topic
-    tokens=topic.split(image_topic)
-    image_base_topic=tokens[0].replace("/", "", -1) #=cam0/
-    cidx = image_base_topic[-1:]
-
     STRING_OUT=""
     STRING_OUT+= "Camera{0}\n".format(cidx)
 
@@ -142,7 +133,7 @@ if __name__ == "__main__":
         # Hamilton, which cancels out with the first inversion, resulting in no explicit inversion.
         q_CS = TF_imu_cam.q()
 
-        CONFIG += printCameraBlock(camConfig, t_SC, q_CS)
+        CONFIG += printCameraBlock(camConfig, t_SC, q_CS, cidx)
 
     with open(kalibr_path + '/python/exporters/auxiliary_files/rovio_footer.txt', 'r') as file_:
         CONFIG += file_.read()
-- 
2.43.0


From e3046e562c3e2342fb5a742098d4aa136ea615df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:16 +0000
Subject: [PATCH 136/155] fix: let the maplab exporter run on Python 3

---
 .../kalibr/python/exporters/kalibr_maplab_config       | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/aslam_offline_calibration/kalibr/python/exporters/kalibr_maplab_config b/aslam_offline_calibration/kalibr/python/exporters/kalibr_maplab_config
index 0a31d8a..77bb798 100755
--- a/aslam_offline_calibration/kalibr/python/exporters/kalibr_maplab_config
+++ b/aslam_offline_calibration/kalibr/python/exporters/kalibr_maplab_config
@@ -3,7 +3,7 @@
 import argparse
 from collections import OrderedDict
 import numpy as np
-import md5
+import hashlib
 import sm_python
 import sys
 import yaml
@@ -80,7 +80,7 @@ class ImuConfig:
         imu0_dict = imu_dict['imu0']
 
         self.rostopic = imu0_dict['rostopic']
-        self.id = md5.new(self.rostopic).hexdigest()
+        self.id = hashlib.md5(self.rostopic.encode()).hexdigest()
         self.T_i_b = np.array(imu0_dict['T_i_b'])
         self.time_offset = imu0_dict['time_offset']
         self.update_rate = imu0_dict['update_rate']
@@ -160,7 +160,7 @@ class CameraConfig:
     def __init__(self, name):
         self.name = name
         self.__is_initialized = False
-        self.id = md5.new(name).hexdigest()
+        self.id = hashlib.md5(name.encode()).hexdigest()
         self.line_delay_nanoseconds = 0
         self.cam_overlaps = list()
         self.timeshift_cam_imu = 0.0
@@ -266,7 +266,7 @@ class IndentDumper(yaml.Dumper):
 def read_yaml(file_name):
     yaml_file = open(file_name, 'r')
     try:
-        return yaml.load(yaml_file)
+        return yaml.safe_load(yaml_file)
     except yaml.YAMLError as exception:
         print(exception)
 
@@ -296,7 +296,7 @@ class CalibrationConfig:
         self.imu = ImuConfig()
         self.__has_imu = False
         self.ncamera_label = parsed_args.ncamera_label
-        self.id = md5.new(self.ncamera_label).hexdigest()
+        self.id = hashlib.md5(self.ncamera_label.encode()).hexdigest()
         self.cameras = dict()
         self.input_file_name = parsed_args.cam_yaml
         data = read_yaml(self.input_file_name)
-- 
2.43.0


From 595269fae4a29bdfb266326f60cb37a5a27eec56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:16 +0000
Subject: [PATCH 137/155] fix: keep a single distortion coefficient a list when
 converting from maplab

---
 .../kalibr/python/exporters/kalibr_maplab_config              | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aslam_offline_calibration/kalibr/python/exporters/kalibr_maplab_config b/aslam_offline_calibration/kalibr/python/exporters/kalibr_maplab_config
index 77bb798..567430c 100755
--- a/aslam_offline_calibration/kalibr/python/exporters/kalibr_maplab_config
+++ b/aslam_offline_calibration/kalibr/python/exporters/kalibr_maplab_config
@@ -65,7 +65,9 @@ def list_to_ordered_dict(input_list):
 
 def dict_to_list(input_dict):
     shape = [input_dict['cols'], input_dict['rows']]
-    return np.squeeze(np.array(input_dict['data']).reshape(shape)).tolist()
+    if 1 in shape:
+        return list(input_dict['data'])
+    return np.array(input_dict['data']).reshape(shape).tolist()
 
 
 class ImuConfig:
-- 
2.43.0


From 52a4474297cc197123b99f71033a8f0cf844b25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:28 +0000
Subject: [PATCH 138/155] fix: export the resolution of the cameras to okvis

---
 .../kalibr/python/exporters/kalibr_okvis_config                 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_offline_calibration/kalibr/python/exporters/kalibr_okvis_config b/aslam_offline_calibration/kalibr/python/exporters/kalibr_okvis_config
index aba38c9..b121359 100755
--- a/aslam_offline_calibration/kalibr/python/exporters/kalibr_okvis_config
+++ b/aslam_offline_calibration/kalibr/python/exporters/kalibr_okvis_config
@@ -54,7 +54,7 @@ def printCameraBlock(camConfig, T_SC):
     STRING_OUT+="          0.0, 0.0, 0.0, 1.0],\n"
     
     resolution = camConfig.getResolution()
-    STRING_OUT+="       image_dimension: [752, 480],\n".format(resolution[0], resolution[1])    
+    STRING_OUT+="       image_dimension: [{0}, {1}],\n".format(resolution[0], resolution[1])    
 
     distortion = camConfig.getDistortion()
     dist_model = distortion[0]
-- 
2.43.0


From 267d8f9b0a67a48c89fe5df0436b4bc8917a6664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:54 +0000
Subject: [PATCH 139/155] fix: chain the baselines between cameras that are not
 neighbours

---
 .../python/kalibr_imu_camera_calibration/IccSensors.py   | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/aslam_offline_calibration/kalibr/python/kalibr_imu_camera_calibration/IccSensors.py b/aslam_offline_calibration/kalibr/python/kalibr_imu_camera_calibration/IccSensors.py
index c628913..ac799eb 100644
--- a/aslam_offline_calibration/kalibr/python/kalibr_imu_camera_calibration/IccSensors.py
+++ b/aslam_offline_calibration/kalibr/python/kalibr_imu_camera_calibration/IccSensors.py
@@ -484,11 +484,14 @@ class IccCameraChain():
 
     #return the baseline transformation from camA to camB
     def getResultBaseline(self, fromCamANr, toCamBNr):
-        #transformation from cam a to b is always stored in the higer ID cam
-        idx = np.max([fromCamANr, toCamBNr])
+        #the transformation between neighbouring cams is always stored in the higer ID cam
+        idx_min = min(fromCamANr, toCamBNr)
+        idx_max = max(fromCamANr, toCamBNr)
         
         #get the transform from camNrmin to camNrmax
-        T_cB_cA = sm_python.Transformation( self.camList[idx].T_c_b_Dv.T() )
+        T_cB_cA = sm_python.Transformation()
+        for cam in self.camList[idx_min+1:idx_max+1]:
+            T_cB_cA = sm_python.Transformation( cam.T_c_b_Dv.T() ) * T_cB_cA
         
         #get the transformation direction right
         if fromCamANr > toCamBNr:
-- 
2.43.0


From a293d3cd64ad406f64bf809a66da4876468be9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:54 +0000
Subject: [PATCH 140/155] fix: print the last lever arm to the given
 destination

---
 .../kalibr/python/kalibr_imu_camera_calibration/IccSensors.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_offline_calibration/kalibr/python/kalibr_imu_camera_calibration/IccSensors.py b/aslam_offline_calibration/kalibr/python/kalibr_imu_camera_calibration/IccSensors.py
index ac799eb..1d95874 100644
--- a/aslam_offline_calibration/kalibr/python/kalibr_imu_camera_calibration/IccSensors.py
+++ b/aslam_offline_calibration/kalibr/python/kalibr_imu_camera_calibration/IccSensors.py
@@ -1082,7 +1082,7 @@ class IccScaledMisalignedSizeEffectImu(IccScaledMisalignedImu):
                                                np.array(self.data["accelerometers"]["ry_i"])), file=dest)
             print("    rz_i [m]:", file=dest)
             print(self.formatIndented("      ", \
-                                               np.array(self.data["accelerometers"]["rz_i"])))
+                                               np.array(self.data["accelerometers"]["rz_i"])), file=dest)
 
         def setAccelerometerLeverArms(self, rx_i, ry_i, rz_i):
             self.data["accelerometers"]["rx_i"] = rx_i.tolist()
-- 
2.43.0


From 1827e82f0b6353479888a1d4c7b93da5b5cf2937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:15 +0000
Subject: [PATCH 141/155] fix: return the target point from
 CalibrationTarget.getPoint

---
 .../kalibr/python/kalibr_camera_calibration/CameraCalibrator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_offline_calibration/kalibr/python/kalibr_camera_calibration/CameraCalibrator.py b/aslam_offline_calibration/kalibr/python/kalibr_camera_calibration/CameraCalibrator.py
index f8acd90..f1b39ed 100644
--- a/aslam_offline_calibration/kalibr/python/kalibr_camera_calibration/CameraCalibrator.py
+++ b/aslam_offline_calibration/kalibr/python/kalibr_camera_calibration/CameraCalibrator.py
@@ -138,7 +138,7 @@ class CalibrationTarget(object):
         self.P_t_dv = P_t_dv
         self.P_t_ex = P_t_ex
     def getPoint(self,i):
-        return P_t_ex[i]
+        return self.P_t_ex[i]
 
 class CalibrationTargetOptimizationProblem(ic.CalibrationOptimizationProblem):        
     @classmethod
-- 
2.43.0


From f11cc16484bc31ad2d2246063d50b3c53ee862ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:15 +0000
Subject: [PATCH 142/155] fix: refuse unknown calibration targets in the camera
 calibrator

---
 .../kalibr/python/kalibr_camera_calibration/CameraCalibrator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_offline_calibration/kalibr/python/kalibr_camera_calibration/CameraCalibrator.py b/aslam_offline_calibration/kalibr/python/kalibr_camera_calibration/CameraCalibrator.py
index f1b39ed..dd1da8b 100644
--- a/aslam_offline_calibration/kalibr/python/kalibr_camera_calibration/CameraCalibrator.py
+++ b/aslam_offline_calibration/kalibr/python/kalibr_camera_calibration/CameraCalibrator.py
@@ -114,7 +114,7 @@ class TargetDetector(object):
                                                                  targetParams['tagSpacing'], 
                                                                  options)
         else:
-            RuntimeError('Unknown calibration target type!')
+            raise RuntimeError('Unknown calibration target type!')
 
         options = acv.GridDetectorOptions() 
         options.imageStepping = showOneStep
-- 
2.43.0


From 15319cf497f62c4ad2ffcfaaada5c3474947aeba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:15 +0000
Subject: [PATCH 143/155] fix: keep the geometry passed to CameraGeometry

---
 .../kalibr/python/kalibr_camera_calibration/CameraCalibrator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aslam_offline_calibration/kalibr/python/kalibr_camera_calibration/CameraCalibrator.py b/aslam_offline_calibration/kalibr/python/kalibr_camera_calibration/CameraCalibrator.py
index dd1da8b..ecde715 100644
--- a/aslam_offline_calibration/kalibr/python/kalibr_camera_calibration/CameraCalibrator.py
+++ b/aslam_offline_calibration/kalibr/python/kalibr_camera_calibration/CameraCalibrator.py
@@ -32,6 +32,8 @@ class CameraGeometry(object):
         self.model = cameraModel
         if geometry is None:
             self.geometry = cameraModel.geometry()
+        else:
+            self.geometry = geometry
         
         if not type(self.geometry) == cameraModel.geometry:
             raise RuntimeError("The type of geometry passed in \"%s\" does not match the model type \"%s\"" % (type(geometry),type(cameraModel.geometry)))
-- 
2.43.0


From 49e8ffb44ad647f2d7db88e34b181c9a63825ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:15 +0000
Subject: [PATCH 144/155] fix: take point statistics from the error term of the
 camera

---
 .../python/kalibr_camera_calibration/CameraCalibrator.py    | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/aslam_offline_calibration/kalibr/python/kalibr_camera_calibration/CameraCalibrator.py b/aslam_offline_calibration/kalibr/python/kalibr_camera_calibration/CameraCalibrator.py
index ecde715..54ad670 100644
--- a/aslam_offline_calibration/kalibr/python/kalibr_camera_calibration/CameraCalibrator.py
+++ b/aslam_offline_calibration/kalibr/python/kalibr_camera_calibration/CameraCalibrator.py
@@ -325,11 +325,7 @@ def getPointStatistics(cself,view_id,cam_id,pidx):
     e = None
     
     if valid:
-        #translate point index to error term index (pidx!=eidx if not all points are observed!)
-        pidx_observed = obs.getCornersIdx()
-        eidx=list(pidx_observed).index(pidx)
-    
-        rerr = view.errorTerm(eidx)
+        rerr = view.rerrs[cam_id][pidx]
         e = rerr.error()
         yhat = y - e
         v = normalize(geometry.keypointToEuclidean(y))
-- 
2.43.0


From 502055b2d551d9f7ca798c5a97c46205a75b6121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:24 +0000
Subject: [PATCH 145/155] fix: print the header of the calibration results to
 the given destination

---
 .../kalibr/python/kalibr_camera_calibration/CameraCalibrator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_offline_calibration/kalibr/python/kalibr_camera_calibration/CameraCalibrator.py b/aslam_offline_calibration/kalibr/python/kalibr_camera_calibration/CameraCalibrator.py
index 54ad670..b2a8741 100644
--- a/aslam_offline_calibration/kalibr/python/kalibr_camera_calibration/CameraCalibrator.py
+++ b/aslam_offline_calibration/kalibr/python/kalibr_camera_calibration/CameraCalibrator.py
@@ -579,7 +579,7 @@ def printParameters(cself, dest=sys.stdout):
     std_baselines, std_cameras = recoverCovariance(cself)
 
     #print cameras
-    print(dest, "Camera-system parameters:")
+    print("Camera-system parameters:", file=dest)
     for cidx, cam in enumerate(cself.cameras):
         d = cam.geometry.projection().distortion().getParameters().flatten()
         p = cam.geometry.projection().getParameters().flatten()
-- 
2.43.0


From 0753ff5d4009775f4a4c0957d8a766778020e137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:18 +0000
Subject: [PATCH 146/155] fix: only cut /image_raw off the end of topics for
 maplab

---
 .../kalibr/python/exporters/kalibr_maplab_config              | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aslam_offline_calibration/kalibr/python/exporters/kalibr_maplab_config b/aslam_offline_calibration/kalibr/python/exporters/kalibr_maplab_config
index 567430c..d9ff6b3 100755
--- a/aslam_offline_calibration/kalibr/python/exporters/kalibr_maplab_config
+++ b/aslam_offline_calibration/kalibr/python/exporters/kalibr_maplab_config
@@ -180,7 +180,9 @@ class CameraConfig:
         self.distortion_model = cam_dict['distortion_model']
         self.intrinsics = cam_dict['intrinsics']
         self.resolution = cam_dict['resolution']
-        self.rostopic = cam_dict['rostopic'].replace('/image_raw', '')
+        self.rostopic = cam_dict['rostopic']
+        if self.rostopic.endswith('/image_raw'):
+            self.rostopic = self.rostopic[:-len('/image_raw')]
         if 'timeshift_cam_imu' in cam_dict:
             self.timeshift_cam_imu = cam_dict['timeshift_cam_imu']
         self.__is_initialized = True
-- 
2.43.0


From 7e3c91af22c1dbd7ee32fffceeb65a84fe8393da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:19 +0000
Subject: [PATCH 147/155] fix: read arrays stored in another byte order
 correctly from Python

---
 .../include/sm_numpy_eigen/NumpyEigenConverter.hpp           | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Schweizer-Messer/sm_numpy_eigen/include/sm_numpy_eigen/NumpyEigenConverter.hpp b/Schweizer-Messer/sm_numpy_eigen/include/sm_numpy_eigen/NumpyEigenConverter.hpp
index c566d0e..21c3306 100755
--- a/Schweizer-Messer/sm_numpy_eigen/include/sm_numpy_eigen/NumpyEigenConverter.hpp
+++ b/Schweizer-Messer/sm_numpy_eigen/include/sm_numpy_eigen/NumpyEigenConverter.hpp
@@ -265,6 +265,11 @@ struct NumpyEigenConverter
 
     matrix_t & M = *Mp;
 
+    // The copy routines read the elements directly, so arrays stored in the
+    // other byte order or at unaligned addresses are copied first.
+    boost::python::handle<> native(PyArray_FROM_OF(obj_ptr, NPY_ARRAY_ALIGNED | NPY_ARRAY_NOTSWAPPED));
+    obj_ptr = native.get();
+
     int nd = PyArray_NDIM(obj_ptr);
     if(nd == 1)
       {
-- 
2.43.0


From a39748b6792e2b6c6ccc3a842ed9d3d796d19a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:19 +0000
Subject: [PATCH 148/155] fix: let overloads be chosen by the size of the
 arrays they take

---
 .../sm_numpy_eigen/NumpyEigenConverter.hpp    | 63 +++++++------------
 1 file changed, 22 insertions(+), 41 deletions(-)

diff --git a/Schweizer-Messer/sm_numpy_eigen/include/sm_numpy_eigen/NumpyEigenConverter.hpp b/Schweizer-Messer/sm_numpy_eigen/include/sm_numpy_eigen/NumpyEigenConverter.hpp
index 21c3306..a453d38 100755
--- a/Schweizer-Messer/sm_numpy_eigen/include/sm_numpy_eigen/NumpyEigenConverter.hpp
+++ b/Schweizer-Messer/sm_numpy_eigen/include/sm_numpy_eigen/NumpyEigenConverter.hpp
@@ -131,61 +131,41 @@ struct NumpyEigenConverter
     return valid;
   }
       
-  static void checkMatrixSizes(PyObject * obj_ptr)
+  static bool checkMatrixSizes(PyObject * obj_ptr)
   {
     int rows = PyArray_DIM(obj_ptr, 0);
     int cols = PyArray_DIM(obj_ptr, 1);
 
     bool rowsValid = isDimensionValid(rows, RowsAtCompileTime, MaxRowsAtCompileTime);
     bool colsValid = isDimensionValid(cols, ColsAtCompileTime, MaxColsAtCompileTime);
-    if(!rowsValid || !colsValid)
-    {
-	THROW_TYPE_ERROR("Can not convert " << npyArrayTypeString(obj_ptr) << " to " << toString() 
-			 << ". Mismatched sizes.");
-      }
+    return rowsValid && colsValid;
   }
 
-  static void checkRowVectorSizes(PyObject * obj_ptr, int cols)
+  static bool checkRowVectorSizes(int cols)
   {
-    if(!isDimensionValid(cols, ColsAtCompileTime, MaxColsAtCompileTime))
-      {
-	THROW_TYPE_ERROR("Can not convert " << npyArrayTypeString(obj_ptr) << " to " << toString() 
-			 << ". Mismatched sizes.");
-      }
+    return isDimensionValid(cols, ColsAtCompileTime, MaxColsAtCompileTime);
   }
 
-  static void checkColumnVectorSizes(PyObject * obj_ptr, int rows)
+  static bool checkColumnVectorSizes(int rows)
   {
     // Check if the type can accomidate one column.
-    if(ColsAtCompileTime == Eigen::Dynamic || ColsAtCompileTime == 1)
-      {
-	if(!isDimensionValid(rows, RowsAtCompileTime, MaxRowsAtCompileTime))
-	  {
-	    THROW_TYPE_ERROR("Can not convert " << npyArrayTypeString(obj_ptr) << " to " << toString() 
-			     << ". Mismatched sizes.");
-	  }
-      }
-    else
-      {
-	THROW_TYPE_ERROR("Can not convert " << npyArrayTypeString(obj_ptr) << " to " << toString() 
-			 << ". Mismatched sizes.");
-      }
-
+    return (ColsAtCompileTime == Eigen::Dynamic || ColsAtCompileTime == 1)
+      && isDimensionValid(rows, RowsAtCompileTime, MaxRowsAtCompileTime);
   }
 
-  static void checkVectorSizes(PyObject * obj_ptr)
+  static bool checkVectorSizes(PyObject * obj_ptr)
   {
-	int size = PyArray_DIM(obj_ptr, 0);
+    int size = PyArray_DIM(obj_ptr, 0);
 
     // If the number of rows is fixed at 1, assume that is the sense of the vector.
     // Otherwise, assume it is a column.
     if(RowsAtCompileTime == 1)
       {
-	checkRowVectorSizes(obj_ptr, size);
+	return checkRowVectorSizes(size);
       }
     else
       {
-	checkColumnVectorSizes(obj_ptr, size);
+	return checkColumnVectorSizes(size);
       }
   }
 
@@ -218,24 +198,25 @@ struct NumpyEigenConverter
 
     
 
-    // Check the array dimensions.
+    // Check the array dimensions. Throwing here would keep boost::python from
+    // trying the remaining overloads of the function, so just refuse the array.
     int nd = PyArray_NDIM(obj_ptr);
     
-    if(nd != 1 && nd != 2)
-      {
-	THROW_TYPE_ERROR("Conversion is only valid for arrays with 1 or 2 dimensions. Argument has " << nd << " dimensions");
-      }
-
     if(nd == 1)
       {
-	checkVectorSizes(obj_ptr);
+	if(!checkVectorSizes(obj_ptr))
+	  return 0;
       }
-    else 
+    else if(nd == 2)
       {
 	// Two-dimensional matrix type.
-	checkMatrixSizes(obj_ptr);
+	if(!checkMatrixSizes(obj_ptr))
+	  return 0;
+      }
+    else
+      {
+	return 0;
       }
-
 
     return obj_ptr;
   }
-- 
2.43.0


From 24d9d30faa61a873eee5c44cd50f8b076e8b2928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:40 +0000
Subject: [PATCH 149/155] fix: keep the uncertainty of operands and inverses of
 transformations in Python

---
 .../sm_python/src/exportTransformation.cpp            | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/Schweizer-Messer/sm_python/src/exportTransformation.cpp b/Schweizer-Messer/sm_python/src/exportTransformation.cpp
index d264799..52c2cdf 100755
--- a/Schweizer-Messer/sm_python/src/exportTransformation.cpp
+++ b/Schweizer-Messer/sm_python/src/exportTransformation.cpp
@@ -47,10 +47,11 @@ void exportTransformation()
       // the list in reverse order looking for a match. If the
       // Eigen export is first, the others are disabled.
       //.def(self * Eigen::Vector4d())
-    .def(self * UncertainTransformation())
+    // The overload defined last is tried first.
     .def(self * self)
-    .def(self * UncertainHomogeneousPoint())
+    .def(self * UncertainTransformation())
     .def(self * HomogeneousPoint())
+    .def(self * UncertainHomogeneousPoint())
       .def(self * Eigen::Vector3d())
       //.def(self * Eigen::Vector4d())
       .def("checkTransformationIsValid", &Transformation::checkTransformationIsValid)
@@ -72,10 +73,11 @@ void exportTransformation()
     .def(init<const Eigen::Vector4d &, const Eigen::Vector3d>())
       .def("save", &saveobj<UncertainTransformation>)
       .def("load", &loadobj<UncertainTransformation>)
+    // The overload defined last is tried first.
+    .def(self * Transformation())
     .def(self * self)
-    .def(self * UncertainHomogeneousPoint())
     .def(self * HomogeneousPoint())
-    .def(self * Transformation())
+    .def(self * UncertainHomogeneousPoint())
     //.def(self * Eigen::Vector3d())
     //.def(self * Eigen::Vector4d())
     .def("inverse",&UncertainTransformation::inverse)
@@ -87,7 +89,6 @@ void exportTransformation()
     .def("t", &Transformation::t, return_value_policy<copy_const_reference>())
     .def("q", &Transformation::q, return_value_policy<copy_const_reference>())
     .def("T3x4", &Transformation::T3x4)
-    .def("inverse", &Transformation::inverse)
     .def("setIdentity", &Transformation::setIdentity)
     .def("setRandom", setRandom1)
     .def("setRandom", setRandom2)
-- 
2.43.0


From f898c442e1f96e385521584af32fb302dfbb4eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:40 +0000
Subject: [PATCH 150/155] fix: pickle the covariance of uncertain
 transformations

---
 Schweizer-Messer/sm_python/src/exportTransformation.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Schweizer-Messer/sm_python/src/exportTransformation.cpp b/Schweizer-Messer/sm_python/src/exportTransformation.cpp
index 52c2cdf..48ae746 100755
--- a/Schweizer-Messer/sm_python/src/exportTransformation.cpp
+++ b/Schweizer-Messer/sm_python/src/exportTransformation.cpp
@@ -93,6 +93,7 @@ void exportTransformation()
     .def("setRandom", setRandom1)
     .def("setRandom", setRandom2)
     .def("S", &Transformation::S)
+      .def_pickle( sm::python::pickle_suite<UncertainTransformation>() )
 
     ;
 
-- 
2.43.0


From 2260bcbe01990f6515196f45b70d908748420a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:17 +0000
Subject: [PATCH 151/155] fix: bind segmentCoefficientVector of splines to its
 name in Python

---
 .../aslam_bsplines_python/src/BSplinePython.cpp                 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_nonparametric_estimation/aslam_bsplines_python/src/BSplinePython.cpp b/aslam_nonparametric_estimation/aslam_bsplines_python/src/BSplinePython.cpp
index 3f883a3..7df26d6 100644
--- a/aslam_nonparametric_estimation/aslam_bsplines_python/src/BSplinePython.cpp
+++ b/aslam_nonparametric_estimation/aslam_bsplines_python/src/BSplinePython.cpp
@@ -77,7 +77,7 @@ void import_bspline_python()
     .def("localBasisMatrix", &BSpline::localBasisMatrix, "Evaluate the local basis matrix at a point in time")
     .def("localCoefficientMatrix", &BSpline::localCoefficientMatrix, "Get the matrix of locally-active coefficients for a specified time in matrix form")
     .def("localCoefficientVector", &BSpline::localCoefficientVector, "Get the stacked vector of locally-active coefficients for a specified time.")
-    .def("segmentCoefficientVector", &BSpline::localCoefficientVector, "Get the stacked vector of locally-active coefficients for a specified segment.")
+    .def("segmentCoefficientVector", &BSpline::segmentCoefficientVector, "Get the stacked vector of locally-active coefficients for a specified segment.")
     .def("initSpline", &BSpline::initSpline, "Initialize the spline to interpolate a set of points")
     .def("initSpline3", &BSpline::initSpline3, "Initialize the spline to interpolate a set of points")
     .def("initSplineSparse", &BSpline::initSplineSparse, "Initialize the spline to interpolate a set of points (Sparse Solution)")
-- 
2.43.0


From 17fd3dcc2164b7faa01d41019d3df5e47cb8dd93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:17 +0000
Subject: [PATCH 152/155] fix: bind the back-projections of camera models to
 their names in Python

---
 aslam_cv/aslam_cv_python/src/CameraProjections.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aslam_cv/aslam_cv_python/src/CameraProjections.cpp b/aslam_cv/aslam_cv_python/src/CameraProjections.cpp
index 447475e..b44b2b1 100644
--- a/aslam_cv/aslam_cv_python/src/CameraProjections.cpp
+++ b/aslam_cv/aslam_cv_python/src/CameraProjections.cpp
@@ -179,14 +179,14 @@ void exportGenericProjectionFunctions(T & proj) {
       "Map a keypoint to a 4x1 homogeneous Euclidean point.\np = keypointToHomogeneous(k)");
   proj.def(
       "keypointToHomogeneousJk",
-      &eh2kJp<C>,
+      &k2ehJk<C>,
       "Map a keypoint to a 4x1 homogeneous Euclidean point and get the Jacobian of the mapping with respect to small changes in the keypoint.\n(p, Jk) = keypointToHomogeneousJk(k)");
   proj.def(
       "keypointToEuclidean", &k2e<C>,
       "Map a keypoint to a 3x1 Euclidean point.\np = keypointToEuclidean(k)");
   proj.def(
       "keypointToEuclideanJk",
-      &e2kJp<C>,
+      &k2eJk<C>,
       "Map a keypoint to a 3x1 Euclidean point and get the Jacobian of the mapping with respect to small changes in the keypoint.\n(p, Jk) = keypointToEuclideanJk(k)");
   proj.def("isValid", &C::template isValid<Eigen::VectorXd>);
   proj.def("setParameters", &C::setParameters,
-- 
2.43.0


From 0531d1c6ce2bac4448cbba178906dd3f7a038f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:17 +0000
Subject: [PATCH 153/155] fix: give the undistortion with Jacobian a Python
 name of its own

---
 aslam_cv/aslam_cv_python/src/CameraProjections.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv/aslam_cv_python/src/CameraProjections.cpp b/aslam_cv/aslam_cv_python/src/CameraProjections.cpp
index b44b2b1..396b805 100644
--- a/aslam_cv/aslam_cv_python/src/CameraProjections.cpp
+++ b/aslam_cv/aslam_cv_python/src/CameraProjections.cpp
@@ -203,7 +203,7 @@ void exportGenericDistortionFunctions(T & dist) {
       "Apply distortion and get the Jacobian with respect to the input point");
   dist.def("undistort", &undistort1<C>, "Undistort a keypoint");
   dist.def(
-      "undistort",
+      "undistortJd",
       &undistort2<C>,
       "Undistort a keypoint and get the Jacobian with respect to small chages in the input (distorted) keypoint.");
   dist.def(
-- 
2.43.0


From 1a5a13283327054cd4d73d2a7efb660888c31782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:58 +0000
Subject: [PATCH 154/155] fix: write portable archives on stream buffers in the
 requested byte order

---
 .../sm_boost/include/sm_boost/portable_binary_oarchive.hpp      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Schweizer-Messer/sm_boost/include/sm_boost/portable_binary_oarchive.hpp b/Schweizer-Messer/sm_boost/include/sm_boost/portable_binary_oarchive.hpp
index aed96df..ee62a72 100755
--- a/Schweizer-Messer/sm_boost/include/sm_boost/portable_binary_oarchive.hpp
+++ b/Schweizer-Messer/sm_boost/include/sm_boost/portable_binary_oarchive.hpp
@@ -186,7 +186,7 @@ public:
             0 != (flags & boost::archive::no_codecvt)
         ),
         archive_base_t(flags),
-        m_flags(0)
+        m_flags(flags & (endian_big | endian_little))
     {
         init(flags);
     }
-- 
2.43.0


From 1d3d7ec38429bff8669bb9d0b3d8c843c790c052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:10 +0000
Subject: [PATCH 155/155] fix: the marginal system keeps the first n columns of
 Q, not n + 1

---
 .../aslam_incremental_calibration/src/algorithms/linalg.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/aslam_incremental_calibration/aslam_incremental_calibration/src/algorithms/linalg.cpp b/aslam_incremental_calibration/aslam_incremental_calibration/src/algorithms/linalg.cpp
index bfc8073..01e38e0 100644
--- a/aslam_incremental_calibration/aslam_incremental_calibration/src/algorithms/linalg.cpp
+++ b/aslam_incremental_calibration/aslam_incremental_calibration/src/algorithms/linalg.cpp
@@ -306,7 +306,8 @@ namespace aslam {
         throw InvalidOperationException("SuiteSparseQR_qmult failed",
           __FILE__, __LINE__, __PRETTY_FUNCTION__);
       try {
-        *A_rtQ = columnSubmatrix(A_rtQFull, 0, factor->QRsym->n, cholmod);
+        *A_rtQ = columnSubmatrix(A_rtQFull, 0, factor->QRsym->n - 1,
+          cholmod);
       }
       catch (const InvalidOperationException& e) {
         cholmod_l_free_sparse(&A_rtQFull, cholmod);
@@ -375,7 +376,8 @@ namespace aslam {
       }
       cholmod_sparse* Qtb;
       try {
-        Qtb = rowSubmatrix(QtbFull, 0, factor->QRsym->n, cholmod);
+        Qtb = rowSubmatrix(QtbFull, 0, factor->QRsym->n - 1,
+          cholmod);
       }
       catch (const InvalidOperationException& e) {
         cholmod_l_free_sparse(&A_rtb, cholmod);
-- 
2.43.0


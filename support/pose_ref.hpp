// Pose splines with a reference curve.
#pragma once
#include <pbt.hpp>
#include <spline_ref.hpp>
#include <aslam_bsplines/BSplinePose.hpp>
#include <sm_kinematics/EulerAnglesYawPitchRoll.hpp>
#include <sm_kinematics/EulerAnglesZXY.h>
#include <sm_kinematics/EulerAnglesZYX.hpp>
#include <sm_kinematics/EulerRodriguez.hpp>
#include <sm_kinematics/RotationVector.hpp>
namespace pse {
using namespace spl;
using namespace num;
using aslam_bsplines::BSpline;
using aslam_bsplines::BSplinePose;
using sm::kinematics::RotationalKinematics;
typedef RotationalKinematics::Ptr Rot;

inline Rot anyRotation(pbt::Case& c, double* amplitude) {
  switch (c.integer(0, 4)) {
    case 0: c << "rotation vector, "; *amplitude = 1.8; return Rot(new sm::kinematics::RotationVector());
    case 1: c << "yaw pitch roll, "; *amplitude = 1.2; return Rot(new sm::kinematics::EulerAnglesYawPitchRoll());
    case 2: c << "zyx, "; *amplitude = 1.2; return Rot(new sm::kinematics::EulerAnglesZYX());
    case 3: c << "zxy, "; *amplitude = 1.2; return Rot(new sm::kinematics::EulerAnglesZXY());
    default: c << "rodriguez, "; *amplitude = 2; return Rot(new sm::kinematics::EulerRodriguez());
  }
}
struct Pose {
  Rot rot;
  BSplinePose b;
  Ref r;
  double t;      // a time in the spline
  int iv, seg;   // its interval and segment
  double gap;    // length of its interval
  Pose(Rot R, int k) : rot(R), b(k, R) {}
  VectorXd p(ld s, int d = 0) const { return r.eval(s, d, iv); }
  Matrix3d C(const VectorXd& v) const { return rot->parametersToRotationMatrix(v.tail<3>()); }
  // angular velocity of the body in the world: dC/dt = omega^x C
  Vector3d omega(const VectorXd& v, const VectorXd& vd) const { return -rot->parametersToSMatrix(v.tail<3>()) * vd.tail<3>(); }
  Matrix4d T(const VectorXd& v) const {
    Matrix4d M = Matrix4d::Identity();
    M.topLeftCorner<3, 3>() = C(v);
    M.topRightCorner<3, 1>() = v.head<3>();
    return M;
  }
  // curve value and derivative after a change of the coefficients of the segment
  VectorXd moved(const VectorXd& d, int n) const {
    Ref q = r;
    for (int i = 0; i < r.k; ++i) q.c.col(seg + i) += d.segment(6 * i, 6);
    return q.eval(t, n, iv);
  }
};
inline Pose anyPose(pbt::Case& c, bool farTimes = false) {
  const int k = c.integer(2, 6), n = c.integer(1, 5);
  double a;
  Rot R = anyRotation(c, &a);
  Pose s(R, k);
  s.r.k = k;
  std::string kind;
  for (int i = 0; ; ++i) {
    s.r.knots = anyKnots(c, k, n, c.oneIn(3), &kind);
    if (s.r.tmax() > s.r.tmin() && (farTimes || std::fabs(s.r.tmin()) < 1e5)) break;
    if (i == 4) c.discard();
  }
  s.r.c = MatrixXd(6, n + k - 1);
  const VectorXd mid = vec(c, 3, a * 0.5);
  const bool still = c.oneIn(8), planar = c.oneIn(6);
  for (int i = 0; i < s.r.c.cols(); ++i) {
    s.r.c.col(i).head(3) = vec(c, 3, 5);
    s.r.c.col(i).tail(3) = still ? mid : VectorXd(mid + vec(c, 3, a * 0.25));
    if (planar) { s.r.c(4, i) = 0; s.r.c(5, i) = 0; }
  }
  s.b.setKnotsAndCoefficients(s.r.knots, s.r.c);
  s.t = anyTime(c, s.r);
  if (s.t < s.r.tmax() && s.r.tmax() - s.t < 1e-9) s.t = s.r.tmax();
  s.iv = s.r.interval(s.t);
  s.seg = s.iv - k + 1;
  s.gap = s.r.knots[s.iv + 1] - s.r.knots[s.iv];
  if (s.gap < 1e-4) c.discard();
  c << "order " << k << ", " << n << " segments, " << kind << ", t " << s.t << " (" << (s.t - s.r.tmin()) / (s.r.tmax() - s.r.tmin()) << "), rotation " << str(s.p(s.t).tail(3).transpose());
  c.nontrivial(!still && s.p(s.t).tail(3).norm() > 1e-3);
  return s;
}
inline VectorXd vee(const Matrix3d& D) { return 0.5 * Vector3d(D(2, 1) - D(1, 2), D(0, 2) - D(2, 0), D(1, 0) - D(0, 1)); }
}  // namespace pse

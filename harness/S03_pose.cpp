// S03: pose splines: pose, rates and Jacobians.
#include <pose_ref.hpp>
using namespace pse;
static void wantIndices(pbt::Case& c, const Pose& s, const Eigen::VectorXi& idx, const char* what) {
  c.eq((int)idx.size(), 6 * s.r.k, std::string(what) + ": number of indices");
  for (int i = 0; i < idx.size(); ++i) c.eq(idx(i), 6 * s.seg + i, std::string(what) + ": index");
}

PBT_CLAIM(pose, 2500) {
  const Pose s = anyPose(c, true);
  const VectorXd v = s.p(s.t);
  const double tol = 1e-10 * s.r.scale(0);
  const Matrix4d T = s.T(v);
  c.nearMat(s.b.transformation(s.t), T, tol, 0, "transformation");
  c.nearMat(s.b.inverseTransformation(s.t), T.inverse(), tol * 5, 0, "inverseTransformation");
  c.nearMat(s.b.position(s.t), v.head(3), tol, 0, "position");
  c.nearMat(s.b.orientation(s.t), s.C(v), tol, 0, "orientation");
  c.nearMat(s.b.inverseOrientation(s.t), s.C(v).transpose(), tol, 0, "inverseOrientation");
  MatrixXd J;
  Eigen::VectorXi idx;
  c.nearMat(s.b.transformationAndJacobian(s.t), T, tol, 0, "transformationAndJacobian without a Jacobian");
  c.nearMat(s.b.transformationAndJacobian(s.t, &J, &idx), T, tol, 0, "transformationAndJacobian");
  wantIndices(c, s, idx, "transformationAndJacobian");
  idx.resize(0);
  c.nearMat(s.b.inverseTransformationAndJacobian(s.t), T.inverse(), tol * 5, 0, "inverseTransformationAndJacobian without a Jacobian");
  c.nearMat(s.b.inverseTransformationAndJacobian(s.t, &J, &idx), T.inverse(), tol * 5, 0, "inverseTransformationAndJacobian");
  wantIndices(c, s, idx, "inverseTransformationAndJacobian");
  idx.resize(0);
  c.nearMat(s.b.orientationAndJacobian(s.t, &J, &idx), s.C(v), tol, 0, "orientationAndJacobian");
  wantIndices(c, s, idx, "orientationAndJacobian");
  idx.resize(0);
  c.nearMat(s.b.inverseOrientationAndJacobian(s.t, &J, &idx), s.C(v).transpose(), tol, 0, "inverseOrientationAndJacobian");
  wantIndices(c, s, idx, "inverseOrientationAndJacobian");
  c.nearMat(s.b.orientationAndJacobian(s.t, 0, 0), s.C(v), tol, 0, "orientationAndJacobian without a Jacobian");
  c.nearMat(s.b.inverseOrientationAndJacobian(s.t, 0, 0), s.C(v).transpose(), tol, 0, "inverseOrientationAndJacobian without a Jacobian");
  const Vector4d x = vecAny(c, 4, 5);
  idx.resize(0);
  c.nearMat(s.b.transformVectorAndJacobian(s.t, x, &J, &idx), T * x, tol * 20, 0, "transformVectorAndJacobian");
  wantIndices(c, s, idx, "transformVectorAndJacobian");
  c.nearMat(s.b.transformVectorAndJacobian(s.t, x), T * x, tol * 20, 0, "transformVectorAndJacobian without a Jacobian");
  c.check(s.b.rotation() == s.rot, "rotation");
  // the curve value and back
  c.nearMat(s.b.curveValueToTransformation(v), T, 1e-15 * s.r.scale(0), 0, "curveValueToTransformation");
  c.nearMat(s.b.curveValueToTransformationAndJacobian(v, &J), T, 1e-15 * s.r.scale(0), 0, "curveValueToTransformationAndJacobian");
  c.nearMat(s.b.curveValueToTransformationAndJacobian(v, 0), T, 1e-15 * s.r.scale(0), 0, "curveValueToTransformationAndJacobian without a Jacobian");
  c.nearMat(s.T(s.b.transformationToCurveValue(T)), T, 1e-7, 0, "transformationToCurveValue");
}

PBT_CLAIM(rates, 2500) {
  const Pose s = anyPose(c);
  const VectorXd v = s.p(s.t), vd = s.p(s.t, 1), vdd = s.p(s.t, 2);
  const double t0 = s.t, s1 = 1e-10 * s.r.scale(1), s2 = 1e-10 * s.r.scale(2);
  const Matrix3d C = s.C(v);
  const double h = s.gap * 0.02;
  c.nearMat(s.b.linearVelocity(t0), vd.head(3), s1, 0, "linearVelocity");
  c.nearMat(s.b.linearVelocityBodyFrame(t0), C.transpose() * vd.head(3), s1 * 2, 0, "linearVelocityBodyFrame");
  c.nearMat(s.b.linearAcceleration(t0), vdd.head(3), s2, 0, "linearAcceleration");
  c.nearMat(s.b.linearAccelerationBodyFrame(t0), C.transpose() * vdd.head(3), s2 * 2, 0, "linearAccelerationBodyFrame");
  // the velocity is the derivative of the position
  checkJacobian(c, MatrixXd(s.b.linearVelocity(t0)), [&](const VectorXd& d) -> VectorXd { return s.p(t0 + (ld)d(0)).head(3); }, h, 1e-6, s1 * 10, "linearVelocity");
  checkJacobian(c, MatrixXd(s.b.linearAcceleration(t0)), [&](const VectorXd& d) -> VectorXd { return s.p(t0 + (ld)d(0), 1).head(3); }, h, 1e-6, s2 * 10, "linearAcceleration");
  // the angular velocity is that of the orientation, in the world and in the body
  auto turned = [&](const VectorXd& d) -> VectorXd { return vee(s.C(s.p(t0 + (ld)d(0))) * C.transpose()); };
  const Vector3d w = s.b.angularVelocity(t0);
  c.nearMat(w, s.omega(v, vd), s1 * 100, 1e-9, "angularVelocity");
  checkJacobian(c, MatrixXd(w), turned, h, 1e-6, s1 * 100, "angularVelocity");
  checkJacobian(c, MatrixXd(C * s.b.angularVelocityBodyFrame(t0)), turned, h, 1e-6, s1 * 100, "angularVelocityBodyFrame");
  MatrixXd J;
  Eigen::VectorXi idx;
  c.nearMat(s.b.angularVelocityAndJacobian(t0, &J, &idx), w, s1, 1e-12, "angularVelocityAndJacobian");
  wantIndices(c, s, idx, "angularVelocityAndJacobian");
  idx.resize(0);
  c.nearMat(s.b.angularVelocityAndJacobian(t0, 0, 0), w, s1, 1e-12, "angularVelocityAndJacobian without a Jacobian");
  c.nearMat(s.b.angularVelocityBodyFrameAndJacobian(t0, &J, &idx), C.transpose() * w, s1, 1e-10, "angularVelocityBodyFrameAndJacobian");
  wantIndices(c, s, idx, "angularVelocityBodyFrameAndJacobian");
  c.nearMat(s.b.angularVelocityBodyFrameAndJacobian(t0, 0, 0), C.transpose() * w, s1, 1e-10, "angularVelocityBodyFrameAndJacobian without a Jacobian");
  idx.resize(0);
  c.nearMat(s.b.linearAccelerationAndJacobian(t0, &J, &idx), vdd.head(3), s2, 0, "linearAccelerationAndJacobian");
  wantIndices(c, s, idx, "linearAccelerationAndJacobian");
  c.nearMat(s.b.linearAccelerationAndJacobian(t0, 0, 0), vdd.head(3), s2, 0, "linearAccelerationAndJacobian without a Jacobian");
  // angular acceleration: the known finding is that the change of the rate matrix
  // is left out; the rest is compared, and all of it where the rate matrix does not matter
  const Vector3d part = s.omega(v, vdd), w2 = s.b.angularAccelerationBodyFrame(t0);
  c.nearMat(w2, C.transpose() * part, s2 * 100, 1e-9, "angularAccelerationBodyFrame (without the change of the rate matrix)");
  idx.resize(0);
  c.nearMat(s.b.angularAccelerationBodyFrameAndJacobian(t0, &J, &idx), w2, s2, 1e-10, "angularAccelerationBodyFrameAndJacobian");
  wantIndices(c, s, idx, "angularAccelerationBodyFrameAndJacobian");
  idx.resize(0);
  c.nearMat(s.b.angularAccelerationAndJacobian(t0, &J, &idx), C * w2, s2, 1e-10, "angularAccelerationAndJacobian against the body frame");
  wantIndices(c, s, idx, "angularAccelerationAndJacobian");
  const double bend = Vector3d(v.tail(3)).cross(Vector3d(vd.tail(3))).norm();
  if (bend == 0 && dynamic_cast<sm::kinematics::RotationVector*>(s.rot.get())) {
    checkJacobian(c, MatrixXd(C * w2), [&](const VectorXd& d) -> VectorXd { return s.omega(s.p(t0 + (ld)d(0)), s.p(t0 + (ld)d(0), 1)); }, h, 1e-6, s2 * 100, "angularAcceleration about a fixed axis");
    c.label("fixed axis");
  }
}
PBT_KNOWN(angular_acceleration, "BSplinePose::angularAcceleration* leave out the change of the rate matrix S, so they are not the derivative of the angular velocity") {
  Rot R(new sm::kinematics::RotationVector());
  BSplinePose b(4, R);
  MatrixXd C(6, 4);
  C << 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0.5, 0.2, -0.4, 0.3, -0.3, 0.6, 0.1, 0.9, 1, 0.1, 0.4, -0.7;
  b.setKnotsAndCoefficients({0, 1, 2, 3, 4, 5, 6, 7}, C);
  const double h = 1e-5, t = 3.4;
  const Vector3d a = (b.angularVelocity(t + h) - b.angularVelocity(t - h)) / (2 * h);
  return (b.orientation(t) * b.angularAccelerationBodyFrame(t) - a).norm() > 1e-3;
}

PBT_CLAIM(jacobians, 2500) {
  const Pose s = anyPose(c);
  const VectorXd v = s.p(s.t);
  const int n = 6 * s.r.k;
  const Matrix3d C = s.C(v);
  const Matrix4d T = s.T(v);
  const double h = 0.02;
  MatrixXd J;
  auto pose = [&](const Matrix4d& M) {   // M = [1 - phi^x, rho; 0 1]
    VectorXd x(6);
    x.head(3) = M.topRightCorner(3, 1);
    x.tail(3) = -vee(M.topLeftCorner(3, 3));
    return x;
  };
  s.b.transformationAndJacobian(s.t, &J, 0);
  checkJacobian(c, J, [&](const VectorXd& d) -> VectorXd { return pose(s.T(s.moved(d, 0)) * T.inverse()); }, h, 1e-6, 1e-8, "transformation");
  s.b.inverseTransformationAndJacobian(s.t, &J, 0);
  checkJacobian(c, J, [&](const VectorXd& d) -> VectorXd { return pose(s.T(s.moved(d, 0)).inverse() * T); }, h, 1e-6, 1e-8, "inverse transformation");
  s.b.curveValueToTransformationAndJacobian(v, &J);
  checkJacobian(c, J, [&](const VectorXd& d) -> VectorXd { return pose(s.T(v + d) * T.inverse()); }, h, 1e-6, 1e-8, "curveValueToTransformation");
  s.b.orientationAndJacobian(s.t, &J, 0);
  checkJacobian(c, J, [&](const VectorXd& d) -> VectorXd { return -vee(s.C(s.moved(d, 0)) * C.transpose()); }, h, 1e-6, 1e-9, "orientation");
  s.b.inverseOrientationAndJacobian(s.t, &J, 0);
  checkJacobian(c, J, [&](const VectorXd& d) -> VectorXd { return -vee(s.C(s.moved(d, 0)).transpose() * C); }, h, 1e-6, 1e-9, "inverse orientation");
  const Vector4d x = vecAny(c, 4, 5);
  s.b.transformVectorAndJacobian(s.t, x, &J, 0);
  checkJacobian(c, J, [&](const VectorXd& d) -> VectorXd { return s.T(s.moved(d, 0)) * x; }, h, 1e-6, 1e-8, "transformed vector");
  const double s1 = 2 * (s.r.k - 1) / s.gap, s2 = s1 * s1;
  s.b.linearAccelerationAndJacobian(s.t, &J, 0);
  c.eq((int)J.cols(), n, "linear acceleration: columns");
  checkJacobian(c, J, [&](const VectorXd& d) -> VectorXd { return s.moved(d, 2).head(3); }, h, 1e-6, 1e-8 * s2, "linear acceleration");
  s.b.angularVelocityAndJacobian(s.t, &J, 0);
  checkJacobian(c, J, [&](const VectorXd& d) -> VectorXd { return s.omega(s.moved(d, 0), s.moved(d, 1)); }, h, 1e-6, 1e-8 * s1, "angular velocity");
  s.b.angularVelocityBodyFrameAndJacobian(s.t, &J, 0);
  checkJacobian(c, J, [&](const VectorXd& d) -> VectorXd { const VectorXd m = s.moved(d, 0); return s.C(m).transpose() * s.omega(m, s.moved(d, 1)); }, h, 1e-6, 1e-8 * s1, "angular velocity in the body");
  // (the angular accelerations are those of the known finding)
  s.b.angularAccelerationAndJacobian(s.t, &J, 0);
  checkJacobian(c, J, [&](const VectorXd& d) -> VectorXd { return s.omega(s.moved(d, 0), s.moved(d, 2)); }, h, 1e-6, 1e-8 * s2, "angular acceleration");
  s.b.angularAccelerationBodyFrameAndJacobian(s.t, &J, 0);
  checkJacobian(c, J, [&](const VectorXd& d) -> VectorXd { const VectorXd m = s.moved(d, 0); return s.C(m).transpose() * s.omega(m, s.moved(d, 2)); }, h, 1e-6, 1e-8 * s2, "angular acceleration in the body");
}

PBT_CLAIM(building, 1500) {
  double a;
  Rot R = anyRotation(c, &a);
  const int k = c.integer(2, 6);
  BSplinePose b(k, R);
  const double t0 = c.real(-50, 50), t1 = t0 + c.logReal(0.1, 10);
  const Matrix4d T0 = transform(c, 1.2, 5), T1 = transform(c, 1.2, 5);
  c << "order " << k << " from " << t0 << " to " << t1;
  c.nontrivial();
  b.initPoseSpline(t0, t1, T0, T1);
  const double tol = 1e-6;
  c.nearMat(b.transformation(b.t_min()), T0, tol, 0, "initPoseSpline: first pose");
  c.nearMat(b.transformation(b.t_max()), T1, tol, 0, "initPoseSpline: last pose");
  const double e1 = b.t_max() + (b.t_max() - t0) * c.real(0.7, 1.4);
  const Matrix4d Tm = b.transformation(b.t_max()), T2 = transform(c, 1.2, 5);
  if (c.boolean()) b.addPoseSegment(e1, T2);
  else b.addPoseSegment2(e1, T2, 0.);
  c.eq(b.t_max(), e1, "addPoseSegment: end");
  c.nearMat(b.transformation(t1 > b.t_max() ? b.t_max() : b.timeInterval(1).first), Tm, tol * 10, 0, "addPoseSegment: the old end");
  c.nearMat(b.transformation(e1), T2, tol * 10, 0, "addPoseSegment: the new end");
  // from many poses: like the spline of their curve values
  const int m = c.integer(8, 14), n = c.integer(1, 3), how = c.integer(0, 3);
  const double lambda = c.logReal(1e-4, 1);
  VectorXd times(m);
  Eigen::Matrix<double, 6, Eigen::Dynamic> P(6, m);
  for (int i = 0; i < m; ++i) {
    times(i) = t0 + (t1 - t0) * i / (m - 1);
    P.col(i) = b.transformationToCurveValue(transform(c, 1.2, 5));
  }
  times(m - 1) = t1;
  BSpline plain(k);
  BSplinePose q(k, R);
  VectorXd knots(n + 2 * k - 1);
  for (int i = 0; i < knots.size(); ++i) knots(i) = t0 + (i - k + 1) * (t1 - t0) / n;
  knots(n + k - 1) = t1;
  if (how == 0 && k < 3) return;
  switch (how) {
    case 0: q.initPoseSpline2(times, P, n, lambda); plain.initSpline2(times, P, n, lambda); break;
    case 1: q.initPoseSpline3(times, P, n, lambda); plain.initSpline3(times, P, n, lambda); break;
    case 2: q.initPoseSplineSparse(times, P, n, lambda); plain.initSplineSparse(times, P, n, lambda); break;
    default: q.initPoseSplineSparseKnots(times, P, knots, lambda); plain.initSplineSparseKnots(times, P, knots, lambda);
  }
  c.check(q.knots() == plain.knots(), "the knots of an initialized pose spline");
  c.nearMat(q.coefficients(), plain.coefficients(), 1e-12, 1e-12, "the coefficients of an initialized pose spline");
  c.label(how == 0 ? "2" : how == 1 ? "3" : how == 2 ? "sparse" : "sparse with knots");
}
PBT_MAIN("S03", "Pose splines of order 2 to 6 over five rotation parameterizations with random, uneven and repeated knots, evaluated at ends, knots and "
         "in between; rates and Jacobians against Ridders' numerical derivatives of the reference curve; non-trivial: the orientation is not the identity and changes.")

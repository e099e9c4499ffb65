// K01: every rotation parameterisation describes the same rotations.
#include <num.hpp>
#include <sm_kinematics/EulerAnglesYawPitchRoll.hpp>
#include <sm_kinematics/EulerAnglesZXY.h>
#include <sm_kinematics/EulerAnglesZYX.hpp>
#include <sm_kinematics/EulerRodriguez.hpp>
#include <sm_kinematics/RotationVector.hpp>
#include <sm_kinematics/quaternion_algebra.hpp>
#include <sm_kinematics/rotations.hpp>
#include <sm_kinematics/three_point_methods.hpp>
using namespace num;
using namespace sm::kinematics;

// Elementary rotations, from scratch: R(axis, a) turns vectors by +a.
static Matrix3d E(int axis, double a) { return expSO3(a * Vector3d::Unit(axis)); }
static void isRotation(pbt::Case& c, const Matrix3d& R, const std::string& what) {
  c.nearMat(R * R.transpose(), Matrix3d::Identity(), 1e-13, 0, what + " is orthonormal");
  c.near(R.determinant(), 1, 1e-13, 0, what + " has determinant one");
}
// the library's quaternions are passive: (e sin(a/2), cos(a/2)) gives exp(-a e^x)
static Vector4d Q(const Vector3d& aa) {
  double t = aa.norm();
  Vector4d q;
  q.head<3>() = t > 1e-3 ? Vector3d(aa * (std::sin(t / 2) / t)) : Vector3d(aa * (0.5 - t * t / 48 + t * t * t * t / 3840));
  q[3] = std::cos(t / 2);
  return q;
}
static Matrix3d C(const Vector4d& q) {
  Vector3d e = q.head<3>();
  return (q[3] * q[3] - e.dot(e)) * Matrix3d::Identity() + 2 * e * e.transpose() - 2 * q[3] * skew(e);
}
static Vector4d quat(pbt::Case& c) {
  Vector4d q = Q(angle(c, M_PI) * unit3(c));
  if (c.oneIn(3)) q = -q;
  return q / q.norm();
}
static Vector4d anyQuat(pbt::Case& c) { return Vector4d(c.anyReal(3), c.anyReal(3), c.anyReal(3), c.anyReal(3)); }
// how well a rotation's vector can be known from its matrix entries
static double logTol(double a) {
  double t = 1e-7;
  t = std::min(t, 5e-14 / std::max(1e-300, std::fabs(std::sin(a))));
  return t + 1e-13;
}

PBT_CLAIM(elementary_and_euler_rotations, 6000) {
  double x = c.anyReal(7), y = c.anyReal(7), z = c.anyReal(7);
  c << "angles " << x << " " << y << " " << z;
  c.nontrivial(x != 0 && y != 0 && z != 0);
  c.nearMat(Rx(x), E(0, x), 1e-14, 0, "Rx");
  c.nearMat(Ry(x), E(1, x), 1e-14, 0, "Ry");
  c.nearMat(Rz(x), E(2, x), 1e-14, 0, "Rz");
  c.nearMat(Cx(x), E(0, -x), 1e-14, 0, "Cx");
  c.nearMat(Cy(x), E(1, -x), 1e-14, 0, "Cy");
  c.nearMat(Cz(x), E(2, -x), 1e-14, 0, "Cz");
  c.nearMat(rph2R(x, y, z), E(2, z) * E(1, y) * E(0, x), 1e-14, 0, "rph2R");
  c.nearMat(rph2R(Vector3d(x, y, z)), rph2R(x, y, z), 0, 0, "rph2R of a vector");
  c.nearMat(rph2C(x, y, z), E(2, -z) * E(1, -y) * E(0, -x), 1e-14, 0, "rph2C");
  c.nearMat(rph2C(Vector3d(x, y, z)), rph2C(x, y, z), 0, 0, "rph2C of a vector");
  Matrix3d R = rotation(c);
  double cp = std::sqrt(std::max(0., 1 - R(2, 0) * R(2, 0)));
  if (cp < 1e-5) { c.label("gimbal lock"); return; }
  double tol = 1e-13 + 1e-15 / cp / cp;
  c.nearMat(rph2R(R2rph(R)), R, tol, 0, "rph2R after R2rph");
  c.nearMat(rph2C(C2rph(R)), R, tol, 0, "rph2C after C2rph");
  Vector3d p = R2rph(R);
  c.check(std::fabs(p[1]) <= M_PI / 2 + 1e-12 && std::fabs(p[0]) <= M_PI + 1e-12 && std::fabs(p[2]) <= M_PI + 1e-12, "R2rph in principal range");
}

template <class P>
static void euler(pbt::Case& c, int kind) {
  P par;
  Vector3d p(c.anyReal(6), c.anyReal(6), c.anyReal(6));
  c << "p " << str(p);
  Matrix3d want = kind == 0 ? Matrix3d(E(2, p[0]) * E(1, p[1]) * E(0, p[2]))
                : kind == 1 ? Matrix3d(E(2, p[0]) * E(0, p[1]) * E(1, p[2]))
                            : Matrix3d(E(2, -p[0]) * E(1, -p[1]) * E(0, -p[2]));
  Matrix3d R = par.parametersToRotationMatrix(p);
  c.nearMat(R, want, 1e-14, 0, "rotation matrix of Euler angles");
  isRotation(c, R, "rotation matrix of Euler angles");
  Matrix3d S;
  c.nearMat(par.parametersToRotationMatrix(p, &S), R, 0, 0, "rotation matrix with S");
  Matrix3d A = rotation(c);
  double s = kind == 1 ? A(2, 1) : A(2, 0), cp = std::sqrt(std::max(0., 1 - s * s));
  if (cp < 1e-5) { c.label("gimbal lock"); return; }
  double tol = 1e-13 + 1e-15 / cp / cp;
  Vector3d b = par.rotationMatrixToParameters(A);
  c.nearMat(par.parametersToRotationMatrix(b), A, tol, 0, "rotation after parameters");
  c.check(std::fabs(b[1]) <= M_PI / 2 + 1e-12, "middle angle in its principal range");
  // inside the principal range the parameters themselves come back
  Vector3d pr(c.real(-3.14, 3.14), c.real(-1.5, 1.5), c.real(-3.14, 3.14));
  c.nearMat(par.rotationMatrixToParameters(par.parametersToRotationMatrix(pr)), pr, 1e-11, 0, "parameters after rotation");
  c.nontrivial();
}
PBT_CLAIM(euler_ypr, 4000) { euler<EulerAnglesYawPitchRoll>(c, 0); }
PBT_CLAIM(euler_zxy, 4000) { euler<EulerAnglesZXY>(c, 1); }
PBT_CLAIM(euler_zyx, 4000) { euler<EulerAnglesZYX>(c, 2); }

PBT_CLAIM(rotation_vector, 8000) {
  RotationVector par;
  double a = angle(c, M_PI);
  Vector3d e = unit3(c), p = a * e;
  c << "angle " << a << " axis " << str(e);
  c.nontrivial(a > 0);
  c.label(a == 0 ? "zero" : a < 1e-6 ? "tiny" : a > 3.13 ? "near pi" : "generic");
  Matrix3d R = par.parametersToRotationMatrix(p), want = expSO3(-p);
  c.nearMat(R, want, 2e-14, 0, "rotation matrix of a rotation vector");
  isRotation(c, R, "rotation matrix of a rotation vector");
  Matrix3d S;
  c.nearMat(par.parametersToRotationMatrix(p, &S), R, 0, 0, "rotation matrix with S");
  Vector3d b = par.rotationMatrixToParameters(R);
  c.check(b.allFinite() && b.norm() <= M_PI + 1e-9, "recovered rotation vector within pi");
  c.nearMat(expSO3(-b), want, 3 * logTol(a), 0, "rotation of the recovered vector");
  // beyond pi: the same rotation comes back
  Vector3d big = c.real(M_PI, 12) * e;
  Matrix3d B = par.parametersToRotationMatrix(big);
  c.nearMat(B, expSO3(-big), 1e-13, 0, "rotation matrix of a long rotation vector");
  c.nearMat(expSO3(-par.rotationMatrixToParameters(B)), B, 2e-7, 0, "rotation of the recovered long vector");
  // the axis-angle functions of the same convention
  c.nearMat(axisAngle2R(p), want, 2e-12, 0, "axisAngle2R of a vector");
  c.nearMat(axisAngle2R(p[0], p[1], p[2]), want, 2e-12, 0, "axisAngle2R of three numbers");
  double sa = c.sign() * a;
  c.nearMat(axisAngle2R(sa, e[0], e[1], e[2]), expSO3(-sa * e), 2e-12, 0, "axisAngle2R of a signed angle and an axis");
  c.nearMat(expSO3(-R2AxisAngle(R)), want, 3 * logTol(a), 0, "rotation of R2AxisAngle");
}

PBT_CLAIM(half_turns, 3000) {
  // a rotation by exactly pi, as a symmetric matrix
  Vector3d e = unit3(c);
  if (c.oneIn(3)) { e[c.integer(0, 2)] = 0; if (e.norm() < 1e-3) e = Vector3d(0, 1, 0); e.normalize(); }
  Matrix3d R = 2 * e * e.transpose() - Matrix3d::Identity();
  c << "half turn about " << str(e);
  c.nontrivial();
  c.nearMat(expSO3(-RotationVector().rotationMatrixToParameters(R)), R, 1e-7, 0, "rotation vector of a half turn");
  c.nearMat(expSO3(-R2AxisAngle(R)), R, 1e-7, 0, "R2AxisAngle of a half turn");
  c.nearMat(quat2r(r2quat(R)), R, 1e-13, 0, "quaternion of a half turn");
}

PBT_CLAIM(euler_rodriguez, 6000) {
  EulerRodriguez par;
  double a = c.oneIn(8) ? c.logReal(1e-12, 1e-6) : c.real(0, 3.1);
  Vector3d e = unit3(c), p = std::tan(a / 2) * e;
  c << "angle " << a << " axis " << str(e);
  c.nontrivial(a > 0);
  Matrix3d R = par.parametersToRotationMatrix(p);
  c.nearMat(R, expSO3(-a * e), 1e-13, 0, "rotation matrix of Rodriguez parameters");
  Matrix3d S;
  c.nearMat(par.parametersToRotationMatrix(p, &S), R, 0, 0, "rotation matrix with S");
  Vector3d b = par.rotationMatrixToParameters(R);
  c.check(b.allFinite(), "recovered Rodriguez parameters are finite");
  c.nearMat(expSO3(-2 * std::atan(b.norm()) * (b.norm() > 0 ? b.normalized() : b)), R, 3 * logTol(a), 0, "rotation of the recovered parameters");
  // a matrix that is a rotation up to rounding
  Matrix3d N = expSO3(c.logReal(1e-10, 1e-7) * unit3(c));
  for (int i = 0; i < 3; ++i) N(i, i) += c.integer(-1, 1) * 2.3e-16;
  c.check(par.rotationMatrixToParameters(N).allFinite(), "parameters of a nearly identical rotation are finite");
  c.nearMat(par.rotationMatrixToParameters(N), Vector3d::Zero(), 2e-7, 0, "parameters of a nearly identical rotation are small");
}

PBT_CLAIM(quaternion_rotation_matrix, 6000) {
  Vector4d q = quat(c), p = quat(c);
  c << "q " << str(q) << " p " << str(p);
  c.nontrivial(std::fabs(q[3]) < 1 && std::fabs(p[3]) < 1);
  Matrix3d Rq = quat2r(q);
  isRotation(c, Rq, "quat2r");
  c.nearMat(Rq, C(q), 1e-14, 0, "quat2r");
  Vector4d back = r2quat(Rq);
  c.near(back.norm(), 1, 1e-13, 0, "norm of r2quat");
  c.check(back[3] >= 0, "r2quat has a non-negative scalar");
  double d = std::min((back - q).norm(), (back + q).norm());
  c.check(d < 1e-7, "r2quat of quat2r is the same quaternion up to sign");
  c.nearMat(quat2r(back / back.norm()), Rq, 1e-13, 0, "rotation after r2quat");
  // homomorphism, inverse, rotation of vectors
  c.nearMat(quat2r(qplus(q, p)), Rq * quat2r(p), 1e-13, 0, "qplus is composition");
  c.nearMat(quat2r(quatInv(q)), Rq.transpose(), 1e-14, 0, "quatInv is the inverse rotation");
  Vector4d qi = q;
  invertQuat(qi);
  c.nearMat(qi, quatInv(q), 0, 0, "invertQuat");
  c.nearMat(qplus(q, quatInv(q)), quatIdentity(), 1e-14, 0, "q times its inverse");
  Vector3d v = vecAny(c, 3, 10);
  c.nearMat(quatRotate(q, v), Rq * v, 1e-13, 1e-13, "quatRotate");
}

PBT_CLAIM(quaternion_algebra, 5000) {
  Vector4d q = anyQuat(c), p = anyQuat(c), r = anyQuat(c);
  c << "q " << str(q) << " p " << str(p);
  c.nontrivial(q.norm() > 0 && p.norm() > 0);
  // q = (e, n): e-part n_q e_p + n_p e_q - e_q x e_p, scalar n n - e.e
  Vector3d eq = q.head<3>(), ep = p.head<3>();
  Vector4d w;
  w.head<3>() = q[3] * ep + p[3] * eq - eq.cross(ep);
  w[3] = q[3] * p[3] - eq.dot(ep);
  c.nearMat(qplus(q, p), w, 1e-13, 1e-13, "qplus");
  c.nearMat(quatPlus(q) * p, w, 1e-13, 1e-13, "quatPlus times a quaternion");
  c.nearMat(quatOPlus(p) * q, w, 1e-13, 1e-13, "quatOPlus times a quaternion");
  c.nearMat(qoplus(p, q), w, 1e-13, 1e-13, "qoplus");
  c.nearMat(qplus(qplus(q, p), r), qplus(q, qplus(p, r)), 1e-11, 1e-12, "associativity");
  c.nearMat(qplus(q, quatIdentity()), q, 0, 0, "right identity");
  c.nearMat(qplus(quatIdentity(), q), q, 0, 0, "left identity");
  c.nearMat(qeps(q), eq, 0, 0, "qeps");
  c.eq(qeta(q), q[3], "qeta");
  // q^-1 * dq/dt relations: quatS and quatInvS are inverse on the unit sphere
  Vector4d u = quat(c);
  c.nearMat(quatS(u) * quatInvS(u), Matrix3d::Identity(), 1e-14, 0, "quatS quatInvS");
  Vector3d om = vec(c, 3, 2);
  Vector4d qd = quatInvS(u) * om;
  c.near(qd.dot(u), 0, 1e-13, 0, "quatInvS stays on the sphere");
  c.nearMat(quatS(u) * qd, om, 1e-13, 1e-13, "quatS of the quaternion rate");
  c.nearMat(quatJacobian(u) * om, qplus((Vector4d() << om / 2, 0).finished(), u), 1e-13, 1e-13, "quatJacobian");
}

PBT_CLAIM(quaternion_exp_log, 6000) {
  double a = angle(c, 2 * M_PI - 1e-3);
  Vector3d e = unit3(c), aa = a * e;
  c << "vector " << str(aa);
  c.nontrivial(a > 0);
  Vector4d q = axisAngle2quat(aa);
  c.nearMat(q, Q(aa), 3e-16, 0, "axisAngle2quat");
  c.nearMat(q.head<3>(), Q(aa).head<3>(), 1e-300, 1e-13, "vector part of axisAngle2quat");
  c.nearMat(qexp(aa), q, 0, 0, "qexp");
  c.nearMat(quat2r(q), expSO3(-aa), 1e-13, 0, "rotation of axisAngle2quat");
  c.nearMat(quat2r(q), axisAngle2R(aa), 2e-12, 0, "axisAngle2quat and axisAngle2R agree");
  c.near(q.norm(), 1, 1e-15, 0, "norm of axisAngle2quat");
  q /= q.norm();
  if (std::fabs(q.norm() - 1) < 8e-16) {
    double s = std::max(1e-9, std::fabs(std::sin(a / 2)));
    c.nearMat(quat2AxisAngle(q), aa, 1e-15, a < 3.2 ? 1e-8 : 1e-6, "quat2AxisAngle");
    c.nearMat(qlog(q), aa, 1e-15, a < M_PI ? 1e-12 : 1e-13 / s / s, "qlog");
  }
  // update: q <- exp(dq) q
  Vector4d u = quat(c);
  Vector4d v = updateQuat(u, aa);
  c.nearMat(v, qplus(Q(aa), u), 1e-14, 0, "updateQuat");
  // an input type of its own: single precision
  if (a < 3 && a > 1e-3) {
    Eigen::Vector4f qf = q.cast<float>();
    qf /= qf.norm();
    if (std::fabs(qf.norm() - 1) < 8 * std::numeric_limits<float>::epsilon())
      c.nearMat(quat2AxisAngle<float>(qf), aa, 1e-6, 3e-6, "quat2AxisAngle in single precision");
  }
}

PBT_CLAIM(quaternion_jacobians, 3000) {
  double a = angle(c, 2.9);
  Vector3d aa = a * unit3(c);
  c << "vector " << str(aa);
  c.nontrivial(a > 0);
  c.label(a == 0 ? "zero" : a < 1e-3 ? "tiny" : "generic");
  checkJacobian(c, quatExpJacobian<double>(aa), [&](const VectorXd& d) -> VectorXd { return Q(aa + d); }, 0.02, 1e-8, 1e-9, "quatExpJacobian");
  // expDiffMat and logDiffMat: exp(v + d) = exp(D d) exp(v), to first order
  checkJacobian(c, expDiffMat<double>(aa), [&](const VectorXd& d) -> VectorXd {
    Vector4d r = qplus(Q(aa + d), quatInv(Q(aa))); return 2 * r.head<3>(); }, 0.02, 1e-8, 1e-9, "expDiffMat");
  c.nearMat(logDiffMat<double>(aa) * expDiffMat<double>(aa), Matrix3d::Identity(), 1e-9, 0, "logDiffMat inverts expDiffMat");
  Vector4d q = Q(aa);
  q /= q.norm();
  if (std::fabs(q.norm() - 1) < 1e-15) {
    Eigen::Matrix<double, 3, 4> JL = quatLogJacobian2<double>(q);
    c.nearMat(JL * quatExpJacobian<double>(aa), Matrix3d::Identity(), 1e-8, 0, "the log Jacobian inverts the exp Jacobian");
    c.near((JL * q).norm(), 0, 1e-8, 0, "the log Jacobian ignores changes of norm");
    if (a > 0.05 && a < 2.8) {
      // quatLogJacobian is the derivative of 2 acos(q3) e/|e|
      checkJacobian(c, quatLogJacobian(q), [&](const VectorXd& d) -> VectorXd {
        Vector4d x = q + d; Vector3d e = x.head<3>(); return 2 * std::acos(x[3]) * e / e.norm(); }, 0.1 * std::min(0.05, (1 - std::fabs(q[3])) ), 1e-6, 1e-7, "quatLogJacobian");
    }
  }
  Vector3d big = aa.cast<double>();
  Eigen::Matrix<float, 4, 3> Jf = quatExpJacobian<float>(big.cast<float>());
  c.nearMat(Jf, quatExpJacobian<double>(aa), 5e-4, 0, "quatExpJacobian in single precision");
}

PBT_CLAIM(interpolation, 3000) {
  Vector4d q0 = quat(c), q1 = quat(c);
  double t = c.oneIn(6) ? c.real(-1, 2) : c.real(0, 1);
  c << "q0 " << str(q0) << " q1 " << str(q1) << " t " << t;
  // qslerp's logarithm asks for a unit quaternion to a few ulp
  Vector4d rel = qplus(quatInv(q0), q1);
  if (std::fabs(rel.norm() - 1) > 1e-15) c.discard();
  Vector4d q = qslerp(q0, q1, t);
  c.near(q.norm(), 1, 1e-12, 0, "slerp stays on the sphere");
  if (t <= 0) { c.nearMat(q, q0, 0, 0, "slerp before 0"); return; }
  if (t >= 1) { c.nearMat(q, q1, 0, 0, "slerp after 1"); return; }
  c.nontrivial();
  double whole = 2 * std::acos(std::min(1., std::fabs(q0.dot(q1))));
  double part = 2 * std::acos(std::min(1., std::fabs(q0.dot(q))));
  if (whole > 3.1) return;
  c.near(part, t * whole, 1e-6, 0, "slerp turns by t of the angle, the short way");
  double rest = 2 * std::acos(std::min(1., std::fabs(q1.dot(q))));
  c.near(rest, (1 - t) * whole, 1e-6, 0, "what is left of the angle");
  int n = c.integer(1, 5);
  VectorXd a = vecAny(c, n, 5), b = vecAny(c, n, 5);
  c.nearMat(lerp(a, b, t), a + t * (b - a), 1e-13, 1e-13, "lerp");
  c.nearMat(lerp(a, b, -t), a, 0, 0, "lerp before 0");
  c.nearMat(lerp(a, b, 1 + t), b, 0, 0, "lerp after 1");
}

PBT_CLAIM(alignment, 2000) {
  // the rotation or rigid transform that aligns two point sets is recovered
  Matrix4d T = transform(c, M_PI, 5);
  int n = c.integer(3, 10);
  MatrixXd p1 = mat(c, 3, n, 3);
  Eigen::JacobiSVD<MatrixXd> svd(p1.colwise() - p1.rowwise().mean());
  if (svd.singularValues()[1] < 0.1) c.discard();
  if (c.oneIn(4)) {  // coplanar points: the reflection must not win
    Vector3d m = p1.rowwise().mean();
    p1.row(2).setConstant(m[2]);
    Eigen::JacobiSVD<MatrixXd> s2(p1.colwise() - p1.rowwise().mean());
    if (s2.singularValues()[1] < 0.1) c.discard();
    c.label("coplanar");
  }
  MatrixXd p0 = T.topLeftCorner<3, 3>() * p1;
  p0.colwise() += T.topRightCorner<3, 1>();
  c << "n " << n << " T " << str(T);
  c.nontrivial();
  Matrix4d G = threePointSvd(p0, p1);
  c.nearMat(G, T, 1e-10, 1e-10, "threePointSvd");
  MatrixXd u1 = p1, u0;
  for (int i = 0; i < n; ++i) u1.col(i) = unit3(c);
  Eigen::JacobiSVD<MatrixXd> s3(u1);
  if (s3.singularValues()[1] < 0.1) c.discard();
  u0 = T.topLeftCorner<3, 3>() * u1;
  VectorXd w(n);
  for (int i = 0; i < n; ++i) w[i] = c.real(0.1, 3);
  c.nearMat(qMethod(u0, u1), T.topLeftCorner<3, 3>(), 1e-9, 0, "qMethod");
  c.nearMat(qMethod(u0, u1, w), T.topLeftCorner<3, 3>(), 1e-9, 0, "weighted qMethod");
}

PBT_CLAIM(scalar_angles, 2000) {
  double a = c.anyReal(1000);
  c << "a " << a;
  c.nontrivial(std::fabs(a) > M_PI);
  double m = angleMod(a);
  c.check(std::fabs(m) <= M_PI + 1e-9, "angleMod within pi");
  c.near(std::cos(m), std::cos(a), 1e-9, 0, "angleMod keeps the cosine");
  c.near(std::sin(m), std::sin(a), 1e-9, 0, "angleMod keeps the sine");
  c.near(rad2deg(deg2rad(a)), a, 0, 1e-12, "rad2deg after deg2rad");
  c.near(deg2rad(a), a * M_PI / 180, 0, 1e-12, "deg2rad");
  Vector3d v = vecAny(c, 3, 5), w = vecAny(c, 3, 5);
  c.nearMat(crossMx(v) * w, v.cross(w), 1e-13, 1e-13, "crossMx");
  c.nearMat(crossMx(v[0], v[1], v[2]), skew(v), 0, 0, "crossMx of three numbers");
}

PBT_MAIN("K01",
         "Random rotations (axis uniform or a coordinate axis; angle zero, tiny, generic or next to pi), Euler angles, "
         "quaternions of both signs and point sets, compared with rotations built from Rodrigues' formula; non-trivial: "
         "the rotation (or each angle) is not the identity and the case was not discarded as gimbal-locked.")

// K03: rigid transformations form a group acting on points, and first-order
// covariances travel with them.
#include <num.hpp>
#include <sm_kinematics/HomogeneousPoint.hpp>
#include <sm_kinematics/Transformation.hpp>
#include <sm_kinematics/UncertainHomogeneousPoint.hpp>
#include <sm_kinematics/UncertainTransformation.hpp>
#include <sm_kinematics/UncertainVector.hpp>
#include <sm_kinematics/homogeneous_coordinates.hpp>
#include <sm_kinematics/transformations.hpp>
using namespace num;
using namespace sm::kinematics;
typedef Eigen::Matrix<double, 6, 1> V6;
typedef Eigen::Matrix<double, 6, 6> M6;

static Matrix4d inv(const Matrix4d& T) {
  Matrix4d I = Matrix4d::Identity();
  I.topLeftCorner<3, 3>() = T.topLeftCorner<3, 3>().transpose();
  I.topRightCorner<3, 1>() = -T.topLeftCorner<3, 3>().transpose() * T.topRightCorner<3, 1>();
  return I;
}
static Vector4d hpoint(pbt::Case& c) {
  Vector4d p(c.anyReal(5), c.anyReal(5), c.anyReal(5), 0);
  switch (c.bits(4)) {
    case 0: p[3] = 1; break;
    case 1: p[3] = c.sign() * c.logReal(0.01, 10); break;
    case 2: p[3] = 0; break;
    default: p[3] = c.real(0.1, 3); break;
  }
  if (p.norm() < 1e-6) p[3] = 1;
  return p;
}
// the update of a transformation: t + dt, exp(-dtheta^x) C
static Matrix4d plus(const Matrix4d& T, const V6& d) {
  Matrix4d R = T;
  R.topLeftCorner<3, 3>() = expSO3(-d.tail<3>()) * T.topLeftCorner<3, 3>();
  R.topRightCorner<3, 1>() += d.head<3>();
  return R;
}
// its inverse near T, to first order
static V6 minusT(const Matrix4d& A, const Matrix4d& T) {
  V6 d;
  d.head<3>() = A.topRightCorner<3, 1>() - T.topRightCorner<3, 1>();
  Matrix3d D = A.topLeftCorner<3, 3>() * T.topLeftCorner<3, 3>().transpose();
  d.tail<3>() = -0.5 * Vector3d(D(2, 1) - D(1, 2), D(0, 2) - D(2, 0), D(1, 0) - D(0, 1));
  return d;
}
static const double H = 0.02;

PBT_CLAIM(group_and_action, 30000) {
  Matrix4d A = transform(c, M_PI, 20), B = transform(c, M_PI, 20), D = transform(c, M_PI, 20);
  Transformation a(A), b(B), d(D), e;
  c << "A " << str(A) << " B " << str(B);
  c.nontrivial((A - Matrix4d::Identity()).norm() > 1e-9 && (B - Matrix4d::Identity()).norm() > 1e-9);
  const double t = 1e-11;
  c.nearMat(a.T(), A, t, 0, "matrix of a transformation");
  c.nearMat(a.C(), A.topLeftCorner<3, 3>(), t, 0, "rotation part");
  c.nearMat(a.t(), A.topRightCorner<3, 1>(), 0, 0, "translation part");
  c.nearMat(a.T3x4(), A.topRows<3>(), t, 0, "3x4 matrix");
  c.near(a.q().norm(), 1, 1e-13, 0, "unit quaternion");
  Transformation a2(a.q(), a.t()), a3, a4(c.sign() * c.logReal(0.1, 10) * a.q(), a.t());
  c.nearMat(a2.T(), A, t, 0, "transformation of quaternion and translation");
  c.nearMat(a4.T(), A, t, 0, "transformation of an unnormalised quaternion");
  a3.set(A);
  c.nearMat(a3.T(), A, t, 0, "set");
  c.nearMat((a * b).T(), A * B, t, t, "composition is matrix multiplication");
  c.nearMat(((a * b) * d).T(), (a * (b * d)).T(), 5 * t, t, "associativity");
  c.nearMat(a.inverse().T(), inv(A), t, t, "inverse");
  c.nearMat((a * a.inverse()).T(), Matrix4d::Identity(), 5 * t, 0, "a times its inverse");
  c.nearMat((a.inverse() * a).T(), Matrix4d::Identity(), 5 * t, 0, "inverse times a");
  c.nearMat((a * e).T(), A, t, 0, "right identity");
  c.nearMat((e * a).T(), A, t, 0, "left identity");
  Vector3d p = vecAny(c, 3, 10);
  Vector4d ph = hpoint(c);
  Vector3d want = A.topLeftCorner<3, 3>() * p + A.topRightCorner<3, 1>();
  c.nearMat(a * p, want, t, t, "a point");
  c.nearMat(a * ph, A * ph, t, t, "a homogeneous point");
  c.nearMat((a * HomogeneousPoint(ph)).toHomogeneous(), A * ph, t, t, "a HomogeneousPoint");
  c.nearMat((a * b) * p, a * (b * p), 10 * t, t, "action of a product");
  c.nearMat(a.rotate(p), A.topLeftCorner<3, 3>() * p, t, t, "rotate");
  Vector4d rh = ph;
  rh.head<3>() = A.topLeftCorner<3, 3>() * ph.head<3>();
  c.nearMat(a.rotate(ph), rh, t, t, "rotate a homogeneous point");
  Matrix3d P = spd(c, 3, 0.01, 10);
  UncertainVector3 uv = a.rotate(UncertainVector3(p, P));
  c.nearMat(uv.mean(), A.topLeftCorner<3, 3>() * p, t, t, "rotate an uncertain vector");
  c.nearMat(uv.covariance(), A.topLeftCorner<3, 3>() * P * A.topLeftCorner<3, 3>().transpose(), t, t, "its covariance");
  Transformation i(a);
  i.setIdentity();
  c.nearMat(i.T(), Matrix4d::Identity(), 0, 0, "setIdentity");
  // functions on matrices
  c.nearMat(inverseTransform(A), inv(A), t, t, "inverseTransform");
  c.nearMat(rt2Transform(A.topLeftCorner<3, 3>(), A.topRightCorner<3, 1>()), A, 0, 0, "rt2Transform");
  c.nearMat(transform2C(A), A.topLeftCorner<3, 3>(), 0, 0, "transform2C");
  c.nearMat(transform2rho(A), A.topRightCorner<3, 1>(), 0, 0, "transform2rho");
  c.nearMat(transform2rhoHomogeneous(A), A.topRightCorner<4, 1>(), 0, 0, "transform2rhoHomogeneous");
  if (std::fabs(A(2, 0)) < 0.9999) {
    c.nearMat(toTEuler(fromTEuler(A)), A, 1e-10, 0, "toTEuler after fromTEuler");
    V6 x = fromTEuler(A);
    c.nearMat(toTEuler(x[0], x[1], x[2], x[3], x[4], x[5]), A, 1e-10, 0, "toTEuler of six numbers");
  }
}

PBT_CLAIM(update, 20000) {
  Matrix4d A = transform(c, M_PI, 20);
  Transformation a(A);
  V6 d;
  for (int i = 0; i < 6; ++i) d[i] = c.anyReal(2);
  c << "A " << str(A) << " d " << str(d);
  c.nontrivial(d.norm() > 0);
  a.oplus(d);
  c.nearMat(a.T(), plus(A, d), 1e-12, 1e-12, "oplus");
  c.near(a.q().norm(), 1, 1e-12, 0, "oplus keeps the quaternion unit");
  // many small updates do not leave the group
  int n = c.integer(1, 60);
  Matrix4d M = a.T();
  for (int k = 0; k < n; ++k) {
    for (int i = 0; i < 6; ++i) d[i] = c.real(-0.3, 0.3);
    a.oplus(d);
    M = plus(M, d);
  }
  c.nearMat(a.T(), M, 1e-11, 1e-11, "a history of updates");
}

PBT_CLAIM(interpolation, 10000) {
  Matrix4d A = transform(c, 2.5, 20), B = A * transform(c, 2.5, 5);
  Transformation a(A), b(B);
  Vector4d rel = a.q();
  double s0 = c.real(-10, 10), s1 = s0 + c.logReal(1e-3, 100), s = c.real(s0 - 1, s1 + 1);
  if (c.oneIn(5)) s = c.boolean() ? s0 : s1;
  c << "s0 " << s0 << " s1 " << s1 << " s " << s;
  double u = std::min(1., std::max(0., (s - s0) / (s1 - s0)));
  Transformation x, y;
  try {
    x = interpolateTransformations(a, s0, b, s1, s);
    y = interpolateTransformations(b, s1, a, s0, s);
  } catch (const std::runtime_error& e) {
    // the quaternion logarithm insists on unit norm to 8 ulp
    if (std::string(e.what()).find("unit qu") != std::string::npos) c.discard();
    throw;
  }
  c.nontrivial(u > 0 && u < 1);
  c.nearMat(x.T(), y.T(), 1e-12, 0, "the order of the end points does not matter");
  c.nearMat(x.t(), (1 - u) * a.t() + u * b.t(), 1e-10, 1e-10, "translation is interpolated linearly");
  Matrix3d R = b.C() * a.C().transpose();
  Eigen::AngleAxisd aa(R);
  Matrix3d W = Eigen::AngleAxisd(u * aa.angle(), aa.axis()).toRotationMatrix() * a.C();
  c.nearMat(x.C(), W, 1e-6, 0, "rotation is interpolated at constant rate");
}

PBT_CLAIM(homogeneous_points, 20000) {
  Vector4d p = hpoint(c), q = hpoint(c);
  c << "p " << str(p) << " q " << str(q);
  c.nontrivial(p[3] != 1 && q[3] != 1 && p[3] != 0 && q[3] != 0);
  HomogeneousPoint a(p), b(q);
  c.nearMat(a.toHomogeneous(), p, 0, 0, "toHomogeneous");
  c.eq(a.atInfinity(), p[3] == 0, "atInfinity");
  c.eq(a.isVector(), p[3] == 0, "isVector");
  if (std::fabs(p[3]) > 1e-3) {
    Vector3d e = p.head<3>() / p[3];
    c.nearMat(a.toEuclidean(), e, 1e-13, 1e-13, "toEuclidean");
    Matrix3d J;
    c.nearMat(a.toEuclideanAndJacobian(J), e, 1e-13, 1e-13, "toEuclideanAndJacobian");
    checkJacobian(c, J, [&](const VectorXd& d) -> VectorXd { HomogeneousPoint x(p); x.oplus(d); return x.toEuclidean(); },
                  0.02 * std::fabs(p[3]) / p.norm(), 1e-6, 1e-8, "Jacobian of toEuclidean");
    Eigen::Matrix<double, 3, 4> J34;
    c.nearMat(fromHomogeneous(p, &J34), e, 1e-13, 1e-13, "fromHomogeneous");
    c.nearMat(fromHomogeneousJacobian(p), J34, 0, 0, "fromHomogeneousJacobian");
    checkJacobian(c, J34, [&](const VectorXd& d) -> VectorXd { Vector4d x = p + d; return x.head<3>() / x[3]; }, 0.05 * std::fabs(p[3]), 1e-6, 1e-8, "Jacobian of fromHomogeneous");
    if (std::fabs(q[3]) > 1e-3) {
      Vector3d f = q.head<3>() / q[3];
      c.nearMat((a + b).toEuclidean(), e + f, 1e-12, 1e-10, "sum");
      c.nearMat((a - b).toEuclidean(), e - f, 1e-12, 1e-10, "difference");
      HomogeneousPoint s(p), n(p);
      double k = c.logReal(0.1, 10);
      s.scale(k);
      c.nearMat(s.toEuclidean(), k * e, 1e-12, 1e-12, "scale");
      n.normalize();
      c.near(n.toHomogeneous().norm(), 1, 1e-14, 0, "normalize");
      c.nearMat(n.toEuclidean(), e, 1e-12, 1e-12, "normalize keeps the point");
      c.nearMat(toHomogeneousPlus(p) * q, (a + b).toHomogeneous(), 1e-12, 1e-12, "toHomogeneousPlus");
      c.nearMat(toHomogeneousMinus(p) * q, (b - a).toHomogeneous(), 1e-12, 1e-12, "toHomogeneousMinus");
    }
  }
  Eigen::Matrix<double, 4, 3> Jh;
  c.nearMat(a.toHomogeneousAndJacobian(Jh), p, 0, 0, "toHomogeneousAndJacobian");
  checkJacobian(c, Jh, [&](const VectorXd& d) -> VectorXd { HomogeneousPoint x(p); x.oplus(d); return x.toHomogeneous(); }, H, 1e-8, 1e-8, "Jacobian of oplus");
  Vector3d d = vecAny(c, 3, 1);
  HomogeneousPoint o(p);
  o.oplus(d);
  c.near(o.toHomogeneous().norm(), p.norm(), 1e-12, 1e-12, "oplus keeps the norm");
  Vector3d v = vecAny(c, 3, 5);
  HomogeneousPoint ev(v), as, ps;
  c.nearMat(ev.toEuclidean(), v, 0, 0, "from a Euclidean point");
  as = v;
  c.nearMat(as.toHomogeneous(), ev.toHomogeneous(), 0, 0, "assignment of a Euclidean point");
  as = p;
  c.nearMat(as.toHomogeneous(), p, 0, 0, "assignment of a homogeneous point");
  ps.set(v);
  c.nearMat(ps.toHomogeneous(), ev.toHomogeneous(), 0, 0, "set a Euclidean point");
  ps.set(p);
  c.nearMat(ps.toHomogeneous(), p, 0, 0, "set a homogeneous point");
  ps.convertToVector();
  c.check(ps.isVector() && ps.toHomogeneous().head<3>() == p.head<3>(), "convertToVector");
  c.nearMat(toHomogeneous(v), ev.toHomogeneous(), 0, 0, "toHomogeneous of a vector");
  MatrixXd M = mat(c, 3, c.integer(1, 4), 4);
  c.nearMat(fromHomogeneousColumns(toHomogeneousColumns(M)), M, 1e-14, 0, "columns to homogeneous and back");
  MatrixXd K = toHomogeneousColumns(M);
  for (int i = 0; i < K.cols(); ++i) K.col(i) *= c.sign() * c.logReal(0.1, 10);
  c.nearMat(fromHomogeneousColumns(K), M, 1e-12, 1e-12, "columns of any weight");
}

PBT_CLAIM(covariance_of_transformations, 4000) {
  Matrix4d A = transform(c, 3, 5), B = transform(c, 3, 5);
  M6 UA = spd(c, 6, 1e-4, 1), UB = spd(c, 6, 1e-4, 1);
  c << "A " << str(A) << " B " << str(B);
  c.nontrivial();
  UncertainTransformation a, b;
  a = UncertainTransformation(A, M6(M6::Zero()));
  b = UncertainTransformation(B, M6(M6::Zero()));
  a.setUOplus(UA);
  b.setUOplus(UB);
  c.nearMat(a.UOplus(), UA, 1e-9, 1e-9, "UOplus after setUOplus");
  c.nearMat(a.T(), A, 1e-11, 0, "the mean is unchanged");
  c.nearMat(a.toTransformation().T(), A, 1e-11, 0, "toTransformation");
  // numerical Jacobians of the operations in the coordinates of the update
  V6 z = V6::Zero();
  auto JA = jacobian([&](const VectorXd& d) -> VectorXd { return minusT(plus(A, d) * B, A * B); }, 6, H);
  auto JB = jacobian([&](const VectorXd& d) -> VectorXd { return minusT(A * plus(B, d), A * B); }, 6, H);
  auto JI = jacobian([&](const VectorXd& d) -> VectorXd { return minusT(inv(plus(A, d)), inv(A)); }, 6, H);
  double t = 1e-7;
  UncertainTransformation ab = a * b;
  c.nearMat(ab.T(), A * B, 1e-10, 1e-10, "mean of the product");
  c.nearMat(ab.UOplus(), JA * UA * JA.transpose() + JB * UB * JB.transpose(), t, t, "covariance of the product");
  UncertainTransformation ai = a.inverse();
  c.nearMat(ai.T(), inv(A), 1e-10, 1e-10, "mean of the inverse");
  c.nearMat(ai.UOplus(), JI * UA * JI.transpose(), t, t, "covariance of the inverse");
  Transformation tb(B), ta(A);
  UncertainTransformation atb = a * tb, tab = ta * b;
  c.nearMat(atb.UOplus(), JA * UA * JA.transpose(), t, t, "covariance of uncertain times certain");
  c.nearMat(tab.UOplus(), JB * UB * JB.transpose(), t, t, "covariance of certain times uncertain");
  c.nearMat(atb.T(), A * B, 1e-10, 1e-10, "mean of uncertain times certain");
  c.nearMat(tab.T(), A * B, 1e-10, 1e-10, "mean of certain times uncertain");
  // composition is associative in the covariance, too
  c.nearMat((a * (b * a)).U(), ((a * b) * a).U(), t, t, "associativity of covariances");
  // points
  Vector4d p = hpoint(c);
  if (p.norm() < 1e-3) p[3] = 1;
  Matrix4d UP = spd(c, 4, 1e-4, 1);
  auto JT = jacobian([&](const VectorXd& d) -> VectorXd { return plus(A, d) * p; }, 6, H);
  MatrixXd fromT = JT * UA * JT.transpose(), fromP = A * UP * A.transpose();
  UncertainHomogeneousPoint x = a * HomogeneousPoint(p), y = a * UncertainHomogeneousPoint(p, UP), w = ta * UncertainHomogeneousPoint(p, UP);
  c.nearMat(x.toHomogeneous(), A * p, 1e-10, 1e-10, "mean of an uncertain transformation of a point");
  c.nearMat(x.U4(), fromT, t, t, "covariance of an uncertain transformation of a point");
  c.nearMat(y.toHomogeneous(), A * p, 1e-10, 1e-10, "mean of an uncertain transformation of an uncertain point");
  c.nearMat(y.U4(), fromT + fromP, t, t, "covariance of an uncertain transformation of an uncertain point");
  c.nearMat(w.U4(), fromP, t, t, "covariance of a transformation of an uncertain point");
  // constructors
  double st = c.logReal(1e-3, 1), sr = c.logReal(1e-3, 1);
  M6 DU = M6::Zero();
  DU.diagonal() << st, st, st, sr, sr, sr;
  Transformation base(A);
  c.nearMat(UncertainTransformation(A, st, sr).U(), DU, 0, 0, "diagonal covariance");
  c.nearMat(UncertainTransformation(base, st, sr).U(), DU, 0, 0, "diagonal covariance");
  c.nearMat(UncertainTransformation(base.q(), base.t(), st, sr).U(), DU, 0, 0, "diagonal covariance");
  c.nearMat(UncertainTransformation(base.q(), base.t(), UA).U(), UA, 0, 0, "covariance given");
  c.nearMat(UncertainTransformation(base, UA).U(), UA, 0, 0, "covariance given");
  c.nearMat(UncertainTransformation(base).U(), M6::Zero(), 0, 0, "no covariance given");
  a.setU(UB);
  c.nearMat(a.U(), UB, 0, 0, "setU");
  // the library's Jacobians of applying a transformation: T <- exp(...)T
  Eigen::Matrix<double, 4, 6> J;
  Vector4d out;
  transformationAndJacobian(A, p, out, J);
  c.nearMat(out, A * p, 1e-11, 1e-11, "transformationAndJacobian");
  // boxMinus perturbs in U's coordinates: convert with S
  M6 S = ta.S();
  c.nearMat(J * S, JT, 1e-7, 1e-7, "its Jacobian");
  Matrix4d T_ba = A;
  inverseTransformationAndJacobian(T_ba, p, out, J);
  c.nearMat(out, inv(A) * p, 1e-10, 1e-10, "inverseTransformationAndJacobian");
  auto JJ = jacobian([&](const VectorXd& d) -> VectorXd { return inv(plus(A, d)) * p; }, 6, H);
  c.nearMat(J * S, JJ, 1e-7, 1e-7, "its Jacobian");
  V6 v6 = vec(c, 6, 1);
  c.nearMat(boxMinus(p) * v6, -boxPlus(v6) * p + 0 * p, 1e-12, 1e-12, "boxMinus p d = -boxPlus d p");
}

PBT_CLAIM(covariance_of_points, 6000) {
  Vector4d p = hpoint(c), q = hpoint(c);
  if (std::fabs(p[3]) < 0.05) p[3] = 0.05;
  if (std::fabs(q[3]) < 0.05) q[3] = -0.05;
  Matrix4d UP = spd(c, 4, 1e-4, 1), UQ = spd(c, 4, 1e-4, 1);
  c << "p " << str(p) << " q " << str(q);
  c.nontrivial();
  UncertainHomogeneousPoint a(p, UP), b(q, UQ);
  HomogeneousPoint hp(p), hq(q);
  auto euc = [](const VectorXd& x) -> VectorXd { return x.head(3) / x[3]; };
  auto JE = [&](const Vector4d& x) { return jacobian([&](const VectorXd& d) -> VectorXd { return euc(x + d); }, 4, 0.05 * std::fabs(x[3])); };
  MatrixXd JP = JE(p), JQ = JE(q), EP = JP * UP * JP.transpose(), EQ = JQ * UQ * JQ.transpose();
  double t = 1e-6;
  c.nearMat(a.U3(), EP, t, t, "Euclidean covariance");
  c.nearMat((a + b).U3(), EP + EQ, t, t, "covariance of a sum");
  c.nearMat((a - b).U3(), EP + EQ, t, t, "covariance of a difference");
  c.nearMat((a + hq).U3(), EP, t, t, "covariance of uncertain plus certain");
  c.nearMat((a - hq).U3(), EP, t, t, "covariance of uncertain minus certain");
  c.nearMat((hp + b).U3(), EQ, t, t, "covariance of certain plus uncertain");
  c.nearMat((hp - b).U3(), EQ, t, t, "covariance of certain minus uncertain");
  Vector3d ep = euc(p), eq = euc(q);
  c.nearMat((a + b).toEuclidean(), ep + eq, t, t, "sum");
  c.nearMat((a - b).toEuclidean(), ep - eq, t, t, "difference");
  c.nearMat((a + hq).toEuclidean(), ep + eq, t, t, "uncertain plus certain");
  c.nearMat((a - hq).toEuclidean(), ep - eq, t, t, "uncertain minus certain");
  c.nearMat((hp + b).toEuclidean(), ep + eq, t, t, "certain plus uncertain");
  c.nearMat((hp - b).toEuclidean(), ep - eq, t, t, "certain minus uncertain");
  UncertainHomogeneousPoint n = a;
  n.normalize();
  c.nearMat(n.toEuclidean(), ep, t, t, "normalize keeps the point");
  c.nearMat(n.U3(), EP, t, t, "normalize keeps the Euclidean covariance");
  Matrix3d UA = spd(c, 3, 1e-4, 1);
  Vector4d u = p / p.norm();
  UncertainHomogeneousPoint o(u, UA);
  c.nearMat(o.U_av_form(), UA, 1e-9, 1e-9, "covariance of the update");
  auto JO = jacobian([&](const VectorXd& d) -> VectorXd { HomogeneousPoint x(u); x.oplus(d); return x.toHomogeneous(); }, 3, H);
  c.nearMat(o.U4(), JO * UA * JO.transpose(), 1e-8, 1e-8, "4x4 covariance of the update");
  Matrix3d U3 = spd(c, 3, 1e-4, 1);
  c.nearMat(UncertainHomogeneousPoint(Vector3d(ep), U3).U3(), U3, 1e-10, 1e-10, "covariance of a Euclidean point");
}

PBT_CLAIM(uncertain_vectors, 6000) {
  Vector3d u = vec(c, 3, 3), v = vec(c, 3, 3);
  if (u.norm() < 0.1) u[0] += 1;
  Matrix3d U = spd(c, 3, 1e-3, 1), V = spd(c, 3, 1e-3, 1);
  double s = c.anyReal(3), w = c.sign() * c.logReal(0.1, 3), S = c.logReal(1e-3, 1), W = c.logReal(1e-3, 1);
  c << "u " << str(u) << " v " << str(v) << " s " << s << " w " << w;
  c.nontrivial();
  UncertainVector3 a(u, U), b(v, V);
  UncertainScalar x(s, S), y(w, W);
  double t = 1e-7;
  // first-order propagation with numerical derivatives
  VectorXd all(8);
  all << u, v, s, w;
  MatrixXd P = MatrixXd::Zero(8, 8);
  P.block(0, 0, 3, 3) = U; P.block(3, 3, 3, 3) = V; P(6, 6) = S; P(7, 7) = W;
  auto prop = [&](std::function<VectorXd(const VectorXd&)> f, std::vector<int> certain) {
    MatrixXd Q = P;
    for (int i : certain) { Q.row(i).setZero(); Q.col(i).setZero(); }
    MatrixXd J = jacobian([&](const VectorXd& d) -> VectorXd { return f(all + d); }, 8, 0.01);
    return MatrixXd(J * Q * J.transpose());
  };
  auto cmp = [&](const UncertainVector3& g, std::function<VectorXd(const VectorXd&)> f, std::vector<int> k, const char* m) {
    c.nearMat(g.mean(), f(all), 1e-12, 1e-12, std::string("mean of ") + m);
    c.nearMat(g.covariance(), prop(f, k), t, t, std::string("covariance of ") + m);
  };
  auto cmp1 = [&](const UncertainScalar& g, std::function<VectorXd(const VectorXd&)> f, std::vector<int> k, const char* m) {
    c.near(g.mean(), f(all)[0], 1e-12, 1e-12, std::string("mean of ") + m);
    c.near(g.covariance(), prop(f, k)(0, 0), t, t, std::string("covariance of ") + m);
  };
  auto one = [](double d) { VectorXd r(1); r[0] = d; return r; };
  cmp(a + b, [](const VectorXd& z) -> VectorXd { return z.head(3) + z.segment(3, 3); }, {}, "a sum");
  cmp(a - b, [](const VectorXd& z) -> VectorXd { return z.head(3) - z.segment(3, 3); }, {}, "a difference");
  cmp(a + v, [](const VectorXd& z) -> VectorXd { return z.head(3) + z.segment(3, 3); }, {3, 4, 5}, "a sum with a vector");
  cmp(a - v, [](const VectorXd& z) -> VectorXd { return z.head(3) - z.segment(3, 3); }, {3, 4, 5}, "a difference with a vector");
  cmp(a * x, [](const VectorXd& z) -> VectorXd { return z.head(3) * z[6]; }, {}, "a product with an uncertain scalar");
  cmp(a * s, [](const VectorXd& z) -> VectorXd { return z.head(3) * z[6]; }, {6}, "a product with a scalar");
  cmp(a.normalized(), [](const VectorXd& z) -> VectorXd { return z.head(3) / z.head(3).norm(); }, {}, "normalized");
  UncertainVector3 n = a;
  n.normalize();
  cmp(n, [](const VectorXd& z) -> VectorXd { return z.head(3) / z.head(3).norm(); }, {}, "normalize");
  cmp1(a.dot(b), [&](const VectorXd& z) { return one(z.head(3).dot(z.segment(3, 3))); }, {}, "dot");
  cmp1(a.dot(v), [&](const VectorXd& z) { return one(z.head(3).dot(z.segment(3, 3))); }, {3, 4, 5}, "dot with a vector");
  cmp1(x * y, [&](const VectorXd& z) { return one(z[6] * z[7]); }, {}, "a scalar product");
  cmp1(x * w, [&](const VectorXd& z) { return one(z[6] * z[7]); }, {7}, "a scalar product with a number");
  cmp1(x + y, [&](const VectorXd& z) { return one(z[6] + z[7]); }, {}, "a scalar sum");
  cmp1(x - y, [&](const VectorXd& z) { return one(z[6] - z[7]); }, {}, "a scalar difference");
  cmp1(x + w, [&](const VectorXd& z) { return one(z[6] + z[7]); }, {7}, "a scalar sum with a number");
  cmp1(x - w, [&](const VectorXd& z) { return one(z[6] - z[7]); }, {7}, "a scalar difference with a number");
  cmp1(x / y, [&](const VectorXd& z) { return one(z[6] / z[7]); }, {}, "a quotient");
  cmp1(x / w, [&](const VectorXd& z) { return one(z[6] / z[7]); }, {7}, "a quotient by a number");
  cmp(x * a, [](const VectorXd& z) -> VectorXd { return z.head(3) * z[6]; }, {}, "an uncertain scalar times an uncertain vector");
}

PBT_CLAIM(random_transformations, 3000) {
  double mt = c.logReal(0.01, 50), mr = c.logReal(0.01, 3);
  srand(c.integer(1, 1 << 30));
  c << "max translation " << mt << " max rotation " << mr;
  c.nontrivial();
  Transformation t;
  t.setRandom(mt, mr);
  c.near(t.q().norm(), 1, 1e-12, 0, "a random transformation has a unit quaternion");
  c.check(t.t().norm() <= mt * (1 + 1e-12), "its translation is within the bound");
  c.check(2 * std::acos(std::min(1., std::fabs(t.q()[3]))) <= mr + 1e-7, "its rotation is within the bound");
  t.setRandom();
  c.near(t.q().norm(), 1, 1e-12, 0, "a random transformation has a unit quaternion");
  UncertainTransformation u;
  u.setRandom();
  c.nearMat(u.U(), u.U().transpose(), 1e-12, 0, "a random covariance is symmetric");
  Eigen::SelfAdjointEigenSolver<M6> es(u.U());
  c.check(es.eigenvalues()[0] > -1e-9, "a random covariance is positive");
}

PBT_MAIN("K03",
         "Random rigid transformations (rotations up to pi with zero, tiny and coordinate-axis cases), homogeneous points of "
         "any weight, symmetric positive definite covariances; the oracle is 4x4 matrix algebra and, for covariances, "
         "first-order propagation with numerical Jacobians; non-trivial: no operand is the identity / weights differ from 0 and 1.")

// F01: calibration residuals against the measurement models they stand for.
#include <cameras.hpp>
#include <dv.hpp>
#include <aslam_cameras/cameras.hpp>
#include <aslam_cameras/Frame.hpp>
#include <aslam_cameras/Keypoint.hpp>
#include <aslam_cv_backend/CameraDesignVariable.hpp>
#include <aslam_cv_error_terms/SimpleReprojectionError.hpp>
#include <aslam_cv_error_terms/ReprojectionError.hpp>
#include <aslam_cv_error_terms/CovarianceReprojectionError.hpp>
#include <aslam_backend_expressions/EuclideanPoint.hpp>
#include <aslam_backend_expressions/HomogeneousPoint.hpp>
#include <aslam_backend_expressions/RotationQuaternion.hpp>
#include <aslam_backend_expressions/MatrixBasic.hpp>
#include <aslam_backend_expressions/TransformationBasic.hpp>
#include <aslam_backend_expressions/ErrorTermEuclidean.hpp>
#include <aslam_backend_expressions/ErrorTermTransformation.hpp>
#include <sm_kinematics/Transformation.hpp>
#include <sm_kinematics/rotations.hpp>
#include <sm_kinematics/RotationVector.hpp>
#include <sm_kinematics/EulerAnglesZYX.hpp>
#include <kalibr/AccelerometerError.hpp>
#include <kalibr/GyroscopeError.hpp>
#include <kalibr/EuclideanError.hpp>
using namespace dvs;
using namespace aslam::backend;
using Eigen::Vector2d;
using Eigen::Matrix2d;
using cam::Spec;
namespace ac = aslam::cameras;

template <int N> static void checkTerm(pbt::Case& c, ErrorTermFs<N>& t, const VectorXd& want, const MatrixXd& invR, double size,
                                       const std::string& what) {
  c.nearMat(MatrixXd(t.invR()), invR, 1e-10 * invR.norm(), 1e-9, what + ": weight");
  const double s = t.evaluateError();
  c.nearMat(VectorXd(t.error()), want, 1e-9 * size, 1e-9, what + ": error");
  const double q = want.dot(invR * want), e = 1e-9 * (size + want.norm());
  c.near(s, q, invR.norm() * e * (e + want.norm()) * 4, 1e-8, what + ": squared error");
  c.near(t.getRawSquaredError(), q, invR.norm() * e * (e + want.norm()) * 4, 1e-8, what + ": raw squared error");
}
template <class T> static void wantTermVariables(pbt::Case& c, T& t, const std::set<DesignVariable*>& want, const std::string& what) {
  std::set<DesignVariable*> got;
  for (size_t i = 0; i < t.numDesignVariables(); ++i) got.insert(t.designVariable(i));
  c.eq(got.size(), t.numDesignVariables(), what + ": a design variable is listed twice");
  c.check(got == want, what + ": the term's design variables are not those it depends on");
}
template <int N> static void checkTermJacobians(pbt::Case& c, ErrorTermFs<N>& t, const List& all, double h, double rtol, double atol, const std::string& what) {
  t.evaluateError();
  JacobianContainer J(N);
  t.evaluateJacobians(J);
  checkJacobians(c, J, all, [&]() -> VectorXd { t.evaluateError(); return t.error(); }, h, rtol, atol, what);
  t.evaluateError();
  JacobianContainer W(N);
  t.getWeightedJacobians(W, false);
  const MatrixXd S = t.sqrtInvR();
  for (auto it = J.begin(); it != J.end(); ++it) {
    const MatrixXd* w = find(W, it->first);
    if (!w) c.fail(what + ": no weighted Jacobian");
    c.nearMat(*w, S.transpose() * it->second, 1e-10 * S.norm() * it->second.norm(), 1e-9, what + ": weighted Jacobian");
  }
}

// ---------------------------------------------------------------- cameras
template <class C> struct Bench {
  pbt::Case& c;
  const Spec& s;
  boost::shared_ptr<C> camera;
  boost::shared_ptr<CameraDesignVariable<C> > dv;
  typedef aslam::Frame<C> frame_t;
  Vector2d y;
  Matrix2d invR;
  Bench(pbt::Case& c_, const Spec& s_, const boost::shared_ptr<C>& k) : c(c_), s(s_), camera(k), dv(new CameraDesignVariable<C>(k)) {}

  Vector2d project(const Vector4d& p) const {
    VectorXd k = VectorXd::Zero(2);
    camera->vsHomogeneousToKeypoint(p, k);
    return k;
  }
  double tolerance() const { return 1e-7 * (1 + s.fu + s.fv) * (s.dist == cam::FOV ? 30 : 1); }

  void reprojection(const Vector3d& p0) {
    // the point in the camera frame is T * l, or l
    const double w = c.boolean() ? 1 : c.sign() * c.logReal(0.3, 3);
    const Matrix4d T = transform(c, 3, 3);
    const bool moved = c.boolean();
    Vector4d pc;
    pc << p0 * w, w;
    HomogeneousPoint point(moved ? Vector4d(T.inverse() * pc) : pc);
    RotationQuaternion q(sm::kinematics::r2quat(Matrix3d(T.topLeftCorner<3, 3>())));
    EuclideanPoint t(Vector3d(T.topRightCorner<3, 1>()));
    auto pose = std::make_shared<TransformationBasic>(q.toExpression(), t.toExpression());
    HomogeneousExpression e = point.toExpression();
    List l = {&point};
    if (moved) {
      e = pose->toExpression() * e;
      l.push_back(&q);
      l.push_back(&t);
    }
    List cams = {dv->projectionDesignVariable().get(), dv->distortionDesignVariable().get(), dv->shutterDesignVariable().get()}, all = l;
    all.insert(all.end(), cams.begin(), cams.end());
    activate(c, all);
    if (c.boolean()) {
      const bool a = c.boolean(), b = c.boolean(), d = c.boolean();
      dv->setActive(a, b, d);
      c.eq(cams[0]->isActive(), a, "setActive: projection");
      c.eq(cams[1]->isActive(), b, "setActive: distortion");
      c.eq(cams[2]->isActive(), d, "setActive: shutter");
    }
    const Vector2d h = project(pc);
    const bool exact = c.oneIn(6);
    y = exact ? h : Vector2d(h + vec(c, 2, 20));
    if (c.oneIn(2)) invR = spd(c, 2, 0.1, 10);
    else invR = Matrix2d::Identity() * c.logReal(0.01, 100);
    const double size = s.fu + s.fv + std::fabs(s.cu) + std::fabs(s.cv);
    frame_t frame;
    frame.setGeometry(camera);
    aslam::Keypoint<2> kp;
    kp.setMeasurement(y);
    kp.setInverseMeasurementCovariance(invR);
    int index = c.integer(0, 3);
    for (int i = 0; i < 4; ++i) {
      if (i == index) { frame.addKeypoint(kp); continue; }
      aslam::Keypoint<2> o;
      o.setMeasurement(vec(c, 2, 100));
      frame.addKeypoint(o);
    }
    const VectorXd want = y - h;
    std::set<DesignVariable*> sl(l.begin(), l.end()), sa(all.begin(), all.end());
    const double hstep = 1e-3;
    {
      boost::shared_ptr<SimpleReprojectionError<frame_t> > t0;
      if (c.boolean()) t0.reset(new SimpleReprojectionError<frame_t>(&frame, index, e));
      else t0.reset(new SimpleReprojectionError<frame_t>(y, invR, e, *camera));
      wantTermVariables(c, *t0, sl, "simple reprojection error");
      checkTerm<2>(c, *t0, want, invR, size, "simple reprojection error");
      checkTermJacobians<2>(c, *t0, l, hstep, 1e-5, tolerance(), "simple reprojection error");
    }
    boost::shared_ptr<ReprojectionError<C> > t1;
    if (c.boolean()) t1.reset(new ReprojectionError<C>(&frame, index, e, *dv));
    else t1.reset(new ReprojectionError<C>(y, invR, e, *dv));
    wantTermVariables(c, *t1, sa, "reprojection error");
    c.nearMat(t1->getMeasurement(), y, 0, 0, "getMeasurement");
    c.nearMat(t1->getPredictedMeasurement(), h, 1e-9 * size, 1e-9, "getPredictedMeasurement");
    checkTerm<2>(c, *t1, want, invR, size, "reprojection error");
    checkTermJacobians<2>(c, *t1, all, hstep, 1e-5, tolerance(), "reprojection error");
    if (exact) c.check(t1->evaluateError() <= 1e-16 * size * size * invR.norm(), "zero residual for an exact measurement");
    // a new measurement
    const Vector2d y2 = h + vec(c, 2, 5);
    if (c.boolean()) {
      t1->updateMeasurement(y2);
    } else {
      invR = spd(c, 2, 0.1, 10);
      t1->updateMeasurementAndCovariance(y2, invR);
    }
    checkTerm<2>(c, *t1, y2 - h, invR, size, "after an updated measurement");
    // a new state
    for (DesignVariable* d : all) {
      VectorXd step = vec(c, d->minimalDimensions(), 1e-3);
      if (step.size()) d->update(step.data(), (int)step.size());
    }
    checkTerm<2>(c, *t1, y2 - project(e.toHomogeneous()), invR, size, "after an update of the state");
    c.nontrivial(!exact && moved);
  }

  void times() {
    List cams = {dv->projectionDesignVariable().get(), dv->distortionDesignVariable().get(), dv->shutterDesignVariable().get()};
    activate(c, cams);
    const aslam::Time stamp((uint32_t)c.integer(0, 2000000), (uint32_t)c.integer(0, 999999999));
    const VectorXd k = Vector2d(c.real(0, s.ru), c.real(0, s.rv));
    const bool on = cams[2]->isActive();
    const double ld = s.rs ? s.lineDelay : 0;
    ScalarExpression t = dv->keypointTime(stamp, k), o = dv->temporalOffset(k);
    c << "keypoint time of " << str(k.transpose()) << " shutter " << (on ? "active" : "fixed") << " line delay " << ld;
    c.near(t.toScalar(), stamp.toSec() + ld * k[1], 3e-9, 0, "keypoint time");
    c.near(o.toScalar(), ld * k[1], 1.1e-9, 0, "temporal offset");
    DesignVariable::set_t sv;
    t.getDesignVariables(sv);
    c.check(std::set<DesignVariable*>(sv.begin(), sv.end()) == (on ? std::set<DesignVariable*>{cams[2]} : std::set<DesignVariable*>()), "keypoint time: design variables");
    const MatrixXd M = mat(c, c.integer(1, 3), 1, 2);
    JacobianContainer a(1), b(M.rows());
    o.evaluateJacobians(a);
    o.evaluateJacobians(b, M);
    const MatrixXd *A = find(a, cams[2]), *B = find(b, cams[2]);
    if (!on) { c.check(!A && !B, "temporal offset: Jacobian of a fixed shutter"); return; }
    const MatrixXd want = s.rs ? MatrixXd::Constant(1, 1, k[1]) : MatrixXd(1, 0);
    if (s.rs || A) {
      if (!A || !B) c.fail("temporal offset: no Jacobian");
      c.eq((int)A->cols(), (int)want.cols(), "temporal offset: columns of the Jacobian");
      c.nearMat(*A, want, 0, 1e-14, "temporal offset: Jacobian");
      c.nearMat(*B, M * want, 1e-12, 1e-13, "temporal offset: Jacobian with chain rule");
    }
    if (s.rs) {
      const double d = c.real(std::max(-1e-4, -ld), 1e-4);
      cams[2]->update(&d, 1);
      c.near(o.toScalar(), (ld + d) * k[1], 1.1e-9, 1e-14, "temporal offset after an update of the shutter");
      cams[2]->revertUpdate();
    }
    c.nontrivial(s.rs && on);
  }
};

template <class C> static bool as(const Spec& s, const cam::Ptr& k, pbt::Case& c, int what, const Vector3d& p) {
  boost::shared_ptr<C> t = boost::dynamic_pointer_cast<C>(k);
  if (!t) return false;
  Bench<C> b(c, s, t);
  if (what == 0) b.reprojection(p);
  else b.times();
  return true;
}
static void withCamera(pbt::Case& c, int what) {
  Spec s = cam::anySpec(c);
  if (s.rs && s.model >= cam::EUCM) c.discard();
  Vector3d p = Vector3d::Zero();
  if (what == 0) {
    Vector2d y;
    if (!cam::visiblePoint(c, s, p, &y, 0)) c.discard();
    p *= c.logReal(0.5, 10) / p.norm();
    double m;
    cam::refNormalize(s, p, m);
    if (m < 0.05 * p.norm()) c.discard();
    const double r = y.norm();
    if (s.dist == cam::FOV && !(s.d[0] > 0.52 && s.d[0] < 1.48)) c.discard();  // a step would leave the valid range
    if ((s.dist == cam::FOV && r < 0.02) || (s.dist == cam::EQUI && r < 1e-3)) c.discard();
    c << "point " << str(p.transpose()) << " ";
  }
  cam::Ptr k = cam::makeCamera(s);
#define AS(X) as<ac::X##CameraGeometry>(s, k, c, what, p)
  const bool done = AS(Pinhole) || AS(DistortedPinhole) || AS(EquidistantDistortedPinhole) || AS(FovDistortedPinhole) || AS(Omni) || AS(DistortedOmni) ||
                    AS(ExtendedUnified) || AS(DoubleSphere) || AS(PinholeRs) || AS(DistortedPinholeRs) ||
                    AS(EquidistantDistortedPinholeRs) || AS(FovDistortedPinholeRs) || AS(OmniRs) || AS(DistortedOmniRs) || AS(MaskedDistortedPinhole) || AS(MaskedDistortedPinholeRs);
#undef AS
  if (!done) c.discard();
}
PBT_CLAIM(reprojection, 1500) { withCamera(c, 0); }
PBT_CLAIM(keypoint_times, 1500) { withCamera(c, 1); }

// ---------------------------------------------------------------- rolling shutter along a spline
template <class C> static bool rolling(const Spec& s, const cam::Ptr& base, pbt::Case& c, const Vector3d& p0) {
  boost::shared_ptr<C> camera = boost::dynamic_pointer_cast<C>(base);
  if (!camera) return false;
  typedef aslam::Frame<C> frame_t;
  const int k = c.integer(4, 6), n = c.integer(2, 4);
  const double gap = c.logReal(0.1, 2), t0 = c.real(0, 100);
  aslam_bsplines::BSplinePose bs(k, c.boolean() ? sm::kinematics::RotationalKinematics::Ptr(new sm::kinematics::RotationVector())
                                                : sm::kinematics::RotationalKinematics::Ptr(new sm::kinematics::EulerAnglesZYX()));
  std::vector<double> knots;
  for (int i = 0; i < n + 2 * k - 1; ++i) knots.push_back(t0 + gap * (i - k + 1));
  MatrixXd K(6, n + k - 1);
  const VectorXd mid = vec(c, 6, 0.7);
  const double motion = c.logReal(0.01, 0.5);
  for (int i = 0; i < K.cols(); ++i) K.col(i) = mid + vec(c, 6, motion);
  bs.setKnotsAndCoefficients(knots, K);
  aslam::splines::BSplinePoseDesignVariable spline(bs);
  const int seg = c.integer(0, n - 1);
  const double tk = t0 + gap * (seg + c.real(0.2, 0.8));  // time of the keypoint
  const Vector2d h = [&]() { VectorXd z = VectorXd::Zero(2); camera->vsEuclideanToKeypoint(p0, z); return Vector2d(z); }();
  const Vector2d y = h + vec(c, 2, 3);
  if (!(std::fabs(y[1]) > 1)) c.discard();
  // line delay such that the row is within the neighbouring segment's reach
  const double ld = c.real(0.001, 0.3) * gap / s.rv;
  camera->shutter() = ac::RollingShutter(ld);
  const double stamp = tk - ld * y[1];
  if (stamp <= 0) c.discard();
  CameraDesignVariable<C>* raw = new CameraDesignVariable<C>(camera);
  boost::shared_ptr<CameraDesignVariable<C> > dv(raw);
  List cams = {dv->projectionDesignVariable().get(), dv->distortionDesignVariable().get(), dv->shutterDesignVariable().get()}, all;
  for (size_t i = 0; i < spline.numDesignVariables(); ++i) all.push_back(spline.designVariable(i));
  auto pose = [&](double t) { return spline.spline().transformation(t); };
  Vector4d pc;
  pc << p0, 1;
  HomogeneousPoint point(Vector4d(pose(tk) * pc));
  all.push_back(&point);
  all.insert(all.end(), cams.begin(), cams.end());
  activate(c, all);
  ScalarExpression time = dv->keypointTime(aslam::Time(stamp), y);
  const double pad = 0.1 * gap;
  TransformationExpression T_w_c = cams[2]->isActive() ? spline.transformationAtTime(time, pad, pad) : spline.transformation(time.toScalar());
  HomogeneousExpression e = T_w_c.inverse() * point.toExpression();
  frame_t frame;
  frame.setGeometry(camera);
  frame.setTime(aslam::Time(stamp));
  aslam::Keypoint<2> kp;
  kp.setMeasurement(y);
  const Matrix2d invR = c.boolean() ? Matrix2d(spd(c, 2, 0.1, 10)) : Matrix2d(Matrix2d::Identity() * c.logReal(0.1, 10));
  kp.setInverseMeasurementCovariance(invR);
  const int index = c.integer(0, 2);
  for (int i = 0; i < 3; ++i) {
    aslam::Keypoint<2> o;
    o.setMeasurement(vec(c, 2, 100));
    frame.addKeypoint(i == index ? kp : o);
  }
  c << "rolling shutter, order " << k << ", gap " << gap << ", motion " << motion << ", line delay " << ld << ", row " << y[1];
  const bool adaptive = !c.oneIn(4);
  CovarianceReprojectionError<frame_t> term(&frame, index, e, *dv, adaptive ? &spline : nullptr);
  // residual if the row (and so the time) were another
  auto residual = [&](const Vector2d& z) -> VectorXd {
    const double t = stamp + camera->shutter().lineDelay() * z[1];
    VectorXd r = VectorXd::Zero(2);
    camera->vsHomogeneousToKeypoint(pose(t).inverse() * point.toHomogeneous(), r);
    return VectorXd(z - r);
  };
  const double size = s.fu + s.fv + std::fabs(s.cu) + std::fabs(s.cv);
  // nanosecond times
  const double slack = size * 1e-8 * (1 + motion / gap) * 10;
  c.near(term.observationTime(), tk, 5e-9, 1e-15, "observation time");
  MatrixXd W = invR;
  if (adaptive) {
    MatrixXd A = term.covarianceMap();
    const double hr = 0.05 * gap / ld;  // in rows
    checkJacobian(c, A, [&](const VectorXd& d) { return residual(y + Vector2d(d)); }, std::min(hr, 20.), 1e-4, 1e-5 + size * 1e-7, "covariance map");
    if (std::fabs(A.determinant()) < 0.05) c.discard();
    W = (A * invR.inverse() * A.transpose()).inverse();
    c.nontrivial((A - Matrix2d::Identity()).norm() > 1e-4);
  }
  const double chi = term.evaluateError();
  c.nearMat(VectorXd(term.error()), residual(y), slack, 1e-9, "error");
  c.nearMat(MatrixXd(term.invR()), W, 1e-9 * W.norm(), 1e-7, adaptive ? "weight: covariance propagated through the row time" : "weight without a spline");
  const VectorXd r = term.error();
  c.near(chi, r.dot(W * r), 1e-12 * W.norm(), 1e-7, "squared error");
  std::set<DesignVariable*> want(cams.begin(), cams.end());
  want.insert(&point);
  std::set<DesignVariable*> got;
  for (size_t i = 0; i < term.numDesignVariables(); ++i) got.insert(term.designVariable(i));
  for (auto* d : want) c.check(got.count(d), "a design variable is missing from the term");
  for (int i = 0; i < k; ++i) c.check(got.count(all[seg + i]), "a spline design variable is missing from the term");
  term.evaluateError();
  JacobianContainer J(2);
  term.evaluateJacobians(J);
  for (DesignVariable* d : all) {
    const MatrixXd* A = find(J, d);
    if (!d->isActive()) { c.check(!A, "Jacobian of an inactive variable"); continue; }
    const MatrixXd Z = MatrixXd::Zero(2, d->minimalDimensions());
    const bool shutter = d == cams[2];
    // the time changes by whole nanoseconds
    checkJacobian(c, A ? *A : Z, stepped(d, [&]() -> VectorXd { term.evaluateError(); return term.error(); }),
                  shutter ? 0.02 * gap / std::fabs(y[1]) : 1e-3, shutter ? 1e-4 : 1e-5,
                  shutter ? 3e-7 * size * std::fabs(y[1]) * (1 + 1 / gap) : 1e-7 * (1 + size) * (s.dist == cam::FOV ? 30 : 1) ,
                  shutter ? "Jacobian with respect to the line delay" : "Jacobian");
  }
  return true;
}
PBT_CLAIM(rolling_shutter, 600) {
  Spec s = cam::anySpec(c);
  if (s.model >= cam::EUCM) c.discard();
  s.rs = true;
  s.masked = false;
  Vector3d p;
  Vector2d y;
  if (!cam::visiblePoint(c, s, p, &y, 0)) c.discard();
  p *= c.logReal(1, 10) / p.norm();
  double m;
  cam::refNormalize(s, p, m);
  if (s.dist == cam::FOV && !(s.d[0] > 0.52 && s.d[0] < 1.48)) c.discard();
  if (m < 0.1 * p.norm() || (s.dist == cam::FOV && y.norm() < 0.02) || (s.dist == cam::EQUI && y.norm() < 1e-3)) c.discard();
  cam::Ptr k = cam::makeCamera(s);
#define AS(X) rolling<ac::X##RsCameraGeometry>(s, k, c, p)
  if (!(AS(Pinhole) || AS(DistortedPinhole) || AS(EquidistantDistortedPinhole) || AS(FovDistortedPinhole) || AS(Omni) || AS(DistortedOmni))) c.discard();
#undef AS
}

// ---------------------------------------------------------------- inertial measurements
namespace {
struct Imu {
  pbt::Case& c;
  std::vector<std::shared_ptr<DesignVariable> > keep;
  std::vector<std::shared_ptr<EuclideanPoint> > vectors;
  List all;
  Imu(pbt::Case& c_) : c(c_) {}
  std::shared_ptr<EuclideanPoint> vector(double size) {
    if (!vectors.empty() && c.oneIn(8)) return vectors[c.integer(0, (int)vectors.size() - 1)];  // shared between roles
    auto p = std::make_shared<EuclideanPoint>(Vector3d(vec(c, 3, size)));
    vectors.push_back(p);
    keep.push_back(p);
    all.push_back(p.get());
    return p;
  }
  std::shared_ptr<RotationQuaternion> rotation() {
    auto q = std::make_shared<RotationQuaternion>(sm::kinematics::r2quat(num::rotation(c, M_PI)));
    keep.push_back(q);
    all.push_back(q.get());
    return q;
  }
  std::shared_ptr<MatrixBasic> matrix(MatrixXd& A) {
    A = MatrixXd::Identity(3, 3) + mat(c, 3, 3, 0.5);
    Eigen::Matrix3i P;
    const int kind = c.integer(0, 2);
    for (int i = 0; i < 3; ++i)
      for (int j = 0; j < 3; ++j) P(i, j) = kind == 0 ? 1 : kind == 1 ? i >= j : (int)c.boolean();
    auto m = std::make_shared<MatrixBasic>(Matrix3d(A), P);
    keep.push_back(m);
    if (P.sum() > 0) all.push_back(m.get());
    return m;
  }
};
template <class T> struct Access : T {
  template <class... A> Access(A&&... a) : T(std::forward<A>(a)...) {}
};
}  // namespace
static Vector3d value(const std::shared_ptr<EuclideanPoint>& p) { return p->toEuclidean(); }

static void inertial(pbt::Case& c, int kind) {
  Imu m(c);
  auto C_b_w = m.rotation(), C_i_b = m.rotation();
  auto a = m.vector(10), g = m.vector(10), w = m.vector(3), al = m.vector(3), b = m.vector(1), rx = m.vector(0.5), ry = m.vector(0.5), rz = m.vector(0.5);
  MatrixXd M0, Ma0;
  auto M = m.matrix(M0), Ma = m.matrix(Ma0);
  const Matrix3d W = c.boolean() ? Matrix3d(spd(c, 3, 0.01, 100)) : Matrix3d(Matrix3d::Identity() * c.logReal(0.01, 1e4));
  const Vector3d z = vec(c, 3, 10);
  auto E = [](std::shared_ptr<EuclideanPoint>& p) { return p->toExpression(); };
  std::set<DesignVariable*> want;
  boost::shared_ptr<ErrorTermFs<3> > t;
  EuclideanExpression ea = E(a), eg = E(g), ew = E(w), eal = E(al), eb = E(b), erx = E(rx), ery = E(ry), erz = E(rz);
  auto uses = [&](std::initializer_list<DesignVariable*> l) { for (auto* d : l) if (d->minimalDimensions() > 0) want.insert(d); };
  std::string name;
  switch (kind) {
    case 0: {
      const int how = c.integer(0, 2);
      EuclideanExpression e = how == 0 ? ea : how == 1 ? C_b_w->toExpression() * (ea + ew) : ea.cross(ew);
      t.reset(new kalibr::EuclideanError(z, W, e));
      uses({a.get()});
      if (how) uses({w.get()});
      if (how == 1) uses({C_b_w.get()});
      c << "Euclidean error " << how;
      c.label("Euclidean");
      std::function<Vector3d()> f;
      activate(c, m.all);
      const Vector3d x = how == 0 ? value(a) : how == 1 ? Vector3d(C_b_w->toRotationMatrix() * (value(a) + value(w))) : value(a).cross(value(w));
      wantTermVariables(c, *t, want, "Euclidean error");
      checkTerm<3>(c, *t, x - z, W, 100, "Euclidean error");
      checkTermJacobians<3>(c, *t, m.all, 1e-2, 1e-6, 1e-8, "Euclidean error");
      auto* ee = dynamic_cast<kalibr::EuclideanError*>(t.get());
      c.nearMat(ee->getMeasurement(), z, 0, 0, "getMeasurement");
      c.nearMat(ee->getPredictedMeasurement(), x, 1e-10, 1e-12, "getPredictedMeasurement");
      kalibr::EuclideanError same(x, W, e);
      c.check(same.evaluateError() <= 1e-18 * W.norm(), "zero residual for an exact measurement");
      c.nontrivial(how > 0);
      return;
    }
    case 1:
      t.reset(new kalibr::AccelerometerError(z, W, C_b_w->toExpression(), ea, eb, eg));
      uses({C_b_w.get(), a.get(), b.get(), g.get()});
      name = "accelerometer error";
      break;
    case 2:
      t.reset(new kalibr::AccelerometerErrorEccentric(z, W, M->toExpression(), C_b_w->toExpression(), ea, ew, eal, C_i_b->toExpression(), erx, ery, erz, eb, eg));
      uses({M.get(), C_b_w.get(), a.get(), w.get(), al.get(), C_i_b.get(), rx.get(), ry.get(), rz.get(), b.get(), g.get()});
      name = "eccentric accelerometer error";
      break;
    case 3:
      t.reset(new kalibr::GyroscopeError(z, W, ew, eb));
      uses({w.get(), b.get()});
      name = "gyroscope error";
      break;
    case 4:
      t.reset(new kalibr::GyroscopeNoBiasError(z, W, ew));
      uses({w.get()});
      name = "gyroscope error without bias";
      break;
    default:
      t.reset(new kalibr::GyroscopeErrorEccentric(z, W, M->toExpression(), Ma->toExpression(), C_b_w->toExpression(), ea, ew, eal, C_i_b->toExpression(), erx, eb, eg));
      uses({M.get(), Ma.get(), C_b_w.get(), a.get(), w.get(), al.get(), C_i_b.get(), rx.get(), b.get(), g.get()});
      name = "eccentric gyroscope error";
  }
  c << name << " ";
  activate(c, m.all);
  auto predict = [&]() -> Vector3d {
    const Matrix3d Cbw = C_b_w->toRotationMatrix(), Cib = C_i_b->toRotationMatrix();
    MatrixXd pM, pMa;
    Matrix3d Mm = M->toExpression().toMatrix3x3(), Mam = Ma->toExpression().toMatrix3x3();
    const Matrix3d O = skew(value(al)) + skew(value(w)) * skew(value(w));
    const Vector3d f = Cbw * (value(a) - value(g));
    switch (kind) {
      case 1: return f + value(b);
      case 2: return Mm * Cib * (f + Vector3d((O * value(rx))[0], (O * value(ry))[1], (O * value(rz))[2])) + value(b);
      case 3: return value(w) + value(b);
      case 4: return value(w);
      default: return Mm * (Cib * value(w) + Mam * Cib * (f + O * value(rx))) + value(b);
    }
  };
  wantTermVariables(c, *t, want, name);
  checkTerm<3>(c, *t, predict() - z, W, 200, name);
  checkTermJacobians<3>(c, *t, m.all, 1e-2, 1e-6, 1e-7, name);
  if (auto* e = dynamic_cast<kalibr::EuclideanError*>(t.get())) {
    c.nearMat(e->getMeasurement(), z, 0, 0, name + ": getMeasurement");
    c.nearMat(e->getPredictedMeasurement(), predict(), 1e-9, 1e-10, name + ": getPredictedMeasurement");
  }
  for (DesignVariable* d : m.all) {
    VectorXd s = vec(c, d->minimalDimensions(), 0.2);
    d->update(s.data(), (int)s.size());
  }
  checkTerm<3>(c, *t, predict() - z, W, 200, name + " after an update");
  c.nontrivial(true);
  c.label(name);
}
PBT_CLAIM(inertial, 1500) { inertial(c, c.integer(0, 5)); }

// ---------------------------------------------------------------- priors
PBT_CLAIM(position_prior, 600) {
  EuclideanPoint p(Vector3d(vecAny(c, 3, 10))), o(Vector3d(vec(c, 3, 3)));
  RotationQuaternion q(sm::kinematics::r2quat(num::rotation(c)));
  const bool composed = c.boolean();
  List all = {&p, &o, &q};
  activate(c, all);
  EuclideanExpression e = composed ? q.toExpression() * (p.toExpression() - o.toExpression()) : p.toExpression();
  const Vector3d x = composed ? Vector3d(q.toRotationMatrix() * (p.toEuclidean() - o.toEuclidean())) : p.toEuclidean();
  const Vector3d prior = c.oneIn(6) ? x : Vector3d(vecAny(c, 3, 10));
  Matrix3d invR;
  boost::shared_ptr<ErrorTermEuclidean> t;
  if (c.boolean()) {
    const Matrix3d N = spd(c, 3, 0.01, 100);
    invR = N.inverse();
    t.reset(new ErrorTermEuclidean(e, prior, N));
  } else {
    const double w = c.logReal(0.01, 100);
    invR = Matrix3d::Identity() * w;
    t.reset(new ErrorTermEuclidean(e, prior, w));
  }
  c << "position prior " << composed;
  checkTerm<3>(c, *t, x - prior, invR, 30, "position prior");
  wantTermVariables(c, *t, composed ? std::set<DesignVariable*>(all.begin(), all.end()) : std::set<DesignVariable*>{&p}, "position prior");
  checkTermJacobians<3>(c, *t, all, 1e-2, 1e-6, 1e-8, "position prior");
  c.nontrivial(composed);
}
PBT_CLAIM(pose_prior, 1000) {
  const Matrix4d T = transform(c, M_PI, 5), D = transform(c, c.oneIn(4) ? 1e-3 : 2.9, 5), B = transform(c, M_PI, 2);
  RotationQuaternion q(sm::kinematics::r2quat(Matrix3d(T.topLeftCorner<3, 3>()))), q2(sm::kinematics::r2quat(Matrix3d(B.topLeftCorner<3, 3>())));
  EuclideanPoint p(Vector3d(T.topRightCorner<3, 1>())), p2(Vector3d(B.topRightCorner<3, 1>()));
  TransformationBasic tb(q.toExpression(), p.toExpression()), tb2(q2.toExpression(), p2.toExpression());
  TransformationExpression e = tb.toExpression();
  Matrix4d X = T;
  const int how = c.integer(0, 2);
  if (how == 1) e = e * tb2.toExpression(), X = T * B;
  if (how == 2) e = e.inverse(), X = T.inverse();
  List all = {&q, &p, &q2, &p2};
  activate(c, all);
  // X = D * prior
  const bool same = c.oneIn(8);
  const Matrix4d P = same ? X : Matrix4d(D.inverse() * X);
  sm::kinematics::Transformation prior(P);
  MatrixXd invR;
  boost::shared_ptr<ErrorTermTransformation> t;
  if (c.boolean()) {
    const Eigen::Matrix<double, 6, 6> N = spd(c, 6, 0.01, 100);
    invR = N.inverse();
    t.reset(new ErrorTermTransformation(e, prior, N));
  } else {
    const double wr = c.logReal(0.01, 100), wt = c.logReal(0.01, 100);
    VectorXd d(6);
    d << wt, wt, wt, wr, wr, wr;
    invR = d.asDiagonal();
    t.reset(new ErrorTermTransformation(e, prior, wr, wt));
  }
  c << "pose prior " << how << (same ? " same" : "");
  // e = [translation of T inv(prior); rotation vector v with T inv(prior) = exp(-v^x)]
  const Matrix4d E = X * P.inverse();
  VectorXd want(6);
  want.head(3) = E.topRightCorner<3, 1>();
  Eigen::AngleAxisd aa(Matrix3d(E.topLeftCorner<3, 3>()));
  if (aa.angle() > 3) c.discard();
  want.tail(3) = -aa.angle() * aa.axis();
  const double chi = t->evaluateError();
  c.nearMat(VectorXd(t->error()), want, 2e-7, 1e-7, "pose prior: error");
  c.nearMat(MatrixXd(t->invR()), invR, 1e-9 * invR.norm(), 1e-8, "pose prior: weight");
  const VectorXd r = t->error();
  c.near(chi, r.dot(invR * r), 1e-12 * invR.norm(), 1e-9, "pose prior: squared error");
  if (same) c.check(r.norm() < 2e-7, "pose prior: zero residual at the prior");
  std::set<DesignVariable*> w = {&q, &p};
  if (how == 1) w.insert(&q2), w.insert(&p2);
  wantTermVariables(c, *t, w, "pose prior");
  if (aa.angle() > 0.05 && aa.angle() < 2.9) {
    checkTermJacobians<6>(c, *t, all, 1e-2, 1e-5, 1e-5, "pose prior");
    c.nontrivial(how > 0);
  }
}
PBT_MAIN("F01", "a measurement that differs from the prediction, predicted through at least one composed expression")

// S04: expressions over spline coefficients and times.
#include <pose_ref.hpp>
#include <dv.hpp>
#include <aslam_splines/BSplinePoseDesignVariable.hpp>
#include <aslam_splines/EuclideanBSplineDesignVariable.hpp>
#include <aslam_splines/BSplineDesignVariable.hpp>
#include <aslam_splines/BSplineMotionError.hpp>
#include <aslam_splines/BSplineMotionErrorFactory.hpp>
#include <aslam_splines/SimpleSplineError.hpp>
#include <aslam_backend/backend/OptimizationProblem.hpp>
#include <aslam_backend_expressions/Scalar.hpp>
#include <aslam_backend_expressions/ScalarExpression.hpp>
#include <aslam_backend_expressions/EuclideanExpression.hpp>
#include <aslam_backend_expressions/RotationExpression.hpp>
#include <aslam_backend_expressions/TransformationExpression.hpp>
using namespace pse;
using namespace dvs;
using namespace aslam::backend;
using aslam::splines::BSplineDesignVariable;
using aslam::splines::BSplinePoseDesignVariable;
using aslam::splines::EuclideanBSplineDesignVariable;

template <class S> static List variables(S& s) {
  List l;
  for (size_t i = 0; i < s.numDesignVariables(); ++i) l.push_back(s.designVariable(i));
  return l;
}
template <class S> static void moveSome(pbt::Case& c, S& s, Ref& r, double size) {
  const int D = r.c.rows();
  for (int n = c.integer(0, 3); n > 0; --n) {
    const int i = c.integer(0, (int)r.c.cols() - 1);
    const VectorXd d = vec(c, D, size);
    s.designVariable(i)->update(d.data(), D);
    if (c.oneIn(3)) s.designVariable(i)->revertUpdate();
    else r.c.col(i) += d;
  }
}

PBT_CLAIM(pose_expressions, 1500) {
  Pose s = anyPose(c);
  BSplinePoseDesignVariable b(s.b);
  List all = variables(b);
  c.eq((int)all.size(), (int)s.r.c.cols(), "one design variable per control point");
  moveSome(c, b, s.r, 0.2);
  activate(c, all);
  const double t = s.t;
  std::set<DesignVariable*> want(all.begin() + s.seg, all.begin() + s.seg + s.r.k);
  {
    std::vector<DesignVariable*> g = b.getDesignVariables(t);
    c.check(g == List(all.begin() + s.seg, all.begin() + s.seg + s.r.k), "getDesignVariables(t)");
    Eigen::VectorXi ix = b.getActiveDesignVariableIndices(t);
    for (int i = 0; i < ix.size(); ++i) c.eq(ix(i), s.seg + i, "getActiveDesignVariableIndices");
  }
  const VectorXd v = s.p(t), vd = s.p(t, 1), vdd = s.p(t, 2);
  const Matrix3d C = s.C(v);
  const double h = 0.02, s1 = 2 * (s.r.k - 1) / s.gap, s2 = s1 * s1, tol = 1e-10;
  const MatrixXd M3 = mat(c, c.integer(1, 4), 3, 2), M6 = mat(c, c.integer(1, 7), 6, 2);
  const bool chain = c.boolean();
  auto euclid = [&](EuclideanExpression e, const Vector3d& value, const char* what, double scale) {
    c.nearMat(e.toEuclidean(), value, tol * s.r.scale(0) * scale * 100, 1e-9, what);
    wantVariables(c, e, want, what);
    JacobianContainer j(chain ? M3.rows() : 3);
    chain ? e.evaluateJacobians(j, M3) : e.evaluateJacobians(j);
    checkJacobians(c, j, all, [&]() -> VectorXd { return chain ? VectorXd(M3 * e.toEuclidean()) : VectorXd(e.toEuclidean()); }, h, 1e-6, 1e-8 * scale, what);
  };
  switch (c.integer(0, 7)) {
    case 0: {
      TransformationExpression e = b.transformation(t);
      const Matrix4d T = s.T(v);
      c.nearMat(e.toTransformationMatrix(), T, tol * s.r.scale(0), 0, "transformation");
      wantVariables(c, e, want, "transformation");
      JacobianContainer j(chain ? M6.rows() : 6);
      chain ? e.evaluateJacobians(j, M6) : e.evaluateJacobians(j);
      checkJacobians(c, j, all, [&]() -> VectorXd { VectorXd p = poseStep(e.toTransformationMatrix(), T); return chain ? VectorXd(M6 * p) : p; }, h, 1e-6, 1e-8, "transformation");
      c.label("transformation");
      break;
    }
    case 1: {
      RotationExpression e = b.orientation(t);
      c.nearMat(e.toRotationMatrix(), C, tol * s.r.scale(0), 0, "orientation");
      wantVariables(c, e, want, "orientation");
      if (chain) {   // (the chain rule reaches the node through an operation on it)
        const Vector3d x = vec(c, 3, 2);
        euclid(e * EuclideanExpression(x), C * x, "oriented vector", 1);
        break;
      }
      JacobianContainer j(3);
      e.evaluateJacobians(j);
      checkJacobians(c, j, all, [&]() -> VectorXd { return rotationStep(e.toRotationMatrix(), C); }, h, 1e-6, 1e-8, "orientation");
      c.label("orientation");
      break;
    }
    case 2: euclid(b.position(t), v.head(3), "position", 1); c.label("position"); break;
    case 3: euclid(b.linearVelocity(t), vd.head(3), "velocity", s1); c.label("velocity"); break;
    case 4: euclid(b.linearAcceleration(t), vdd.head(3), "acceleration", s2); c.label("acceleration"); break;
    case 5: euclid(b.linearAccelerationBodyFrame(t), C.transpose() * vdd.head(3), "acceleration in the body frame", s2); c.label("acceleration in the body frame"); break;
    case 6: euclid(b.angularVelocityBodyFrame(t), C.transpose() * s.omega(v, vd), "angular velocity in the body frame", s1); c.label("angular velocity"); break;
    default:   // (the spline's own angular acceleration: see S03's known finding)
      euclid(b.angularAccelerationBodyFrame(t), C.transpose() * s.omega(v, vdd), "angular acceleration in the body frame", s2); c.label("angular acceleration");
  }
}

template <int D> struct Make {
  static BSplineDesignVariable<D>* make(const aslam_bsplines::BSpline& b) { return new BSplineDesignVariable<D>(b); }
  static void euclidean(pbt::Case&, BSplineDesignVariable<D>&, double, int, std::function<void(EuclideanExpression, VectorXd)>) {}
  static void simple(pbt::Case&, BSplineDesignVariable<D>&, VectorExpression<D>&, const List&, double) {}
};
template <> struct Make<3> {
  static BSplineDesignVariable<3>* make(const aslam_bsplines::BSpline& b) { return new EuclideanBSplineDesignVariable(b); }
  static void euclidean(pbt::Case&, BSplineDesignVariable<3>& s, double t, int d, std::function<void(EuclideanExpression, VectorXd)> f) {
    EuclideanBSplineDesignVariable& e = static_cast<EuclideanBSplineDesignVariable&>(s);
    f(e.toEuclideanExpression(t, d), e.toEuclidean(t, d));
  }
  static void simple(pbt::Case&, BSplineDesignVariable<3>&, VectorExpression<3>&, const List&, double) {}
};
struct One : BSplineDesignVariable<1> { enum { Dimension = 1 }; One(const aslam_bsplines::BSpline& b) : BSplineDesignVariable<1>(b) {} };
template <> struct Make<1> {
  static BSplineDesignVariable<1>* make(const aslam_bsplines::BSpline& b) { return new One(b); }
  static void euclidean(pbt::Case&, BSplineDesignVariable<1>&, double, int, std::function<void(EuclideanExpression, VectorXd)>) {}
  static void simple(pbt::Case& c, BSplineDesignVariable<1>& s, VectorExpression<1>& e, const List& all, double scale) {
    Eigen::Matrix<double, 1, 1> y;
    y(0) = c.real(-5, 5);
    SimpleSplineError<One> err(static_cast<One*>(&s), &e, y, 0);
    const double want = std::pow(e.evaluate()(0) - y(0), 2);
    c.near(err.evaluateError(), want, 1e-12, 1e-12, "simple spline error");
    JacobianContainer j(1);
    err.evaluateJacobians(j);
    checkJacobians(c, j, all, [&]() -> VectorXd { return e.evaluate() - y; }, 0.1, 1e-6, 1e-8 * scale, "simple spline error");
    DesignVariable::set_t dv;
    e.getDesignVariables(dv);
    c.eq(err.numDesignVariables(), dv.size(), "simple spline error: design variables");
  }
};
static bool drawCurve(pbt::Case& c, int D, Ref& r, std::string& kind, int maxOrder = 6) {
  r.k = c.integer(2, maxOrder);
  const int n = c.integer(1, 6);
  for (int i = 0; ; ++i) {
    r.knots = anyKnots(c, r.k, n, c.oneIn(3), &kind);
    if (r.tmax() > r.tmin() && std::fabs(r.tmin()) < 1e5) break;
    if (i == 4) return false;
  }
  r.c = mat(c, D, n + r.k - 1, 5);
  return true;
}
template <int D> static void vectorCase(pbt::Case& c) {
  Ref r;
  std::string kind;
  if (!drawCurve(c, D, r, kind)) c.discard();
  aslam_bsplines::BSpline b(r.k);
  b.setKnotsAndCoefficients(r.knots, r.c);
  std::unique_ptr<BSplineDesignVariable<D>> s(Make<D>::make(b));
  moveSome(c, *s, r, 1);
  List all = variables(*s);
  c.eq((int)all.size(), (int)r.c.cols(), "one design variable per control point");
  activate(c, all);
  double t = anyTime(c, r);
  if (t < r.tmax() && r.tmax() - t < 1e-9) t = r.tmax();
  const int iv = r.interval(t), seg = iv - r.k + 1, d = c.integer(0, r.k - 1);
  const double gap = r.knots[iv + 1] - r.knots[iv];
  if (gap < 1e-4) c.discard();
  double scale = 1;
  for (int i = 0; i < d; ++i) scale *= 2 * (r.k - 1) / gap;
  c << "dimension " << D << ", order " << r.k << ", " << r.segments() << " segments, " << kind << ", derivative " << d << " at " << t;
  c.nontrivial();
  std::set<DesignVariable*> want(all.begin() + seg, all.begin() + seg + r.k);
  c.check(s->getDesignVariables(t) == List(all.begin() + seg, all.begin() + seg + r.k), "getDesignVariables(t)");
  const VectorXd v = r.eval(t, d, iv);
  const bool chain = c.boolean();
  const MatrixXd M = mat(c, c.integer(1, 4), D, 2);
  const double tol = 1e-10 * r.scale(d) + 1e-10 * scale;
  VectorExpression<D> e = s->toExpression(t, d);
  c.nearMat(e.evaluate(), v, tol, 0, "vector expression");
  wantVariables(c, e, want, "vector expression");
  JacobianContainer j(chain ? M.rows() : D);
  chain ? e.evaluateJacobians(j, M) : e.evaluateJacobians(j);
  checkJacobians(c, j, all, [&]() -> VectorXd { return chain ? VectorXd(M * e.evaluate()) : VectorXd(e.evaluate()); }, 0.1, 1e-6, 1e-8 * scale, "vector expression");
  Make<D>::simple(c, *s, e, all, scale);
  Make<D>::euclidean(c, *s, t, d, [&](EuclideanExpression x, VectorXd val) {
    c.nearMat(val, v, tol, 0, "toEuclidean");
    c.nearMat(x.toEuclidean(), v, tol, 0, "Euclidean expression");
    wantVariables(c, x, want, "Euclidean expression");
    JacobianContainer j2(chain ? M.rows() : D);
    chain ? x.evaluateJacobians(j2, M) : x.evaluateJacobians(j2);
    checkJacobians(c, j2, all, [&]() -> VectorXd { return chain ? VectorXd(M * x.toEuclidean()) : VectorXd(x.toEuclidean()); }, 0.1, 1e-6, 1e-8 * scale, "Euclidean expression");
  });
}
PBT_CLAIM(vector_expressions, 1500) {
  switch (c.integer(0, 4)) {
    case 0: vectorCase<1>(c); break;
    case 1: vectorCase<2>(c); break;
    case 2: vectorCase<3>(c); break;
    case 3: vectorCase<4>(c); break;
    default: vectorCase<6>(c);
  }
}

// Adding and removing segments keeps every variable on its control point.
template <class S, class F> static void history(pbt::Case& c, S& s, int D, double size, F add) {
  List all;
  MatrixXd ref = s.spline().coefficients();
  const int steps = c.integer(1, 6);
  for (int i = 0; i < steps; ++i) {
    const int op = c.integer(0, 4);
    if (op == 0) {
      const int before = ref.cols();
      add();
      c << "add, ";
      c.eq((int)s.spline().coefficients().cols(), before + 1, "control points after adding a segment");
      MatrixXd now = s.spline().coefficients();
      ref = now;
    } else if (op == 1) {
      if (s.spline().numValidTimeSegments() <= 1) continue;
      c << "remove, ";
      s.removeSegment();
      ref = MatrixXd(ref.rightCols(ref.cols() - 1));
    } else {
      const int k = c.integer(0, (int)ref.cols() - 1);
      const VectorXd d = vec(c, D, size);
      c << "move " << k;
      s.designVariable(k)->update(d.data(), D);
      if (op == 2) { s.designVariable(k)->revertUpdate(); c << " and back"; }
      else ref.col(k) += d;
      c << ", ";
    }
    c.eq((int)s.numDesignVariables(), (int)ref.cols(), "design variables after an operation");
    c.nearMat(s.spline().coefficients(), ref, 1e-13, 1e-13, "control points after an operation");
    for (int k = 0; k < ref.cols(); ++k) {
      c.nearMat(s.designVariable(k)->value(), ref.col(k), 1e-13, 1e-13, "value of a design variable");
      MatrixXd p;
      s.designVariable(k)->getParameters(p);
      c.nearMat(p, ref.col(k), 1e-13, 1e-13, "parameters of a design variable");
    }
  }
  c.nontrivial(steps > 2);
}
PBT_CLAIM(histories, 1500) {
  if (c.boolean()) {
    Pose s = anyPose(c);
    s.b.setKnotsAndCoefficients(s.r.knots, s.r.c);
    BSplinePoseDesignVariable b(s.b);
    const bool second = c.boolean();
    bool dead = false;
    history(c, b, 6, 0.1, [&]() {
      const double t = b.spline().t_max() + (b.spline().t_max() - b.spline().t_min()) / b.spline().numValidTimeSegments();
      const Matrix4d T = transform(c, 1.0, 3);
      MatrixXd before = b.spline().coefficients();
      try { second ? b.addSegment2(t, T, 1e-3) : b.addSegment(t, T); } catch (const std::exception&) { dead = true; c.discard(); }
      if (!b.spline().coefficients().allFinite()) c.discard();
    });
  } else {
    Ref r;
    std::string kind;
    if (!drawCurve(c, 3, r, kind)) c.discard();
    aslam_bsplines::BSpline sp(r.k);
    sp.setKnotsAndCoefficients(r.knots, r.c);
    c << "order " << r.k << ", " << kind << ", ";
    EuclideanBSplineDesignVariable b(sp);
    const bool second = c.boolean();
    history(c, b, 3, 1, [&]() {
      const double t = b.spline().t_max() + (b.spline().t_max() - b.spline().t_min()) / b.spline().numValidTimeSegments();
      try { second ? b.addSegment2(t, vec(c, 3, 3), 1e-3) : b.addSegment(t, vec(c, 3, 3)); } catch (const std::exception&) { c.discard(); }
      if (!b.spline().coefficients().allFinite()) c.discard();
    });
  }
}

// A time that is itself estimated.
PBT_CLAIM(time_expressions, 1500) {
  Pose s = anyPose(c);
  BSplinePoseDesignVariable b(s.b);
  List all = variables(b);
  const double lo = s.r.tmin(), hi = s.r.tmax();
  if (!(s.t < hi)) s.t = lo + (hi - lo) * c.real(0, 0.999);
  boost::shared_ptr<Scalar> time(new Scalar(s.t)), shift(new Scalar(0));
  ScalarExpression te = time->toExpression();
  const bool two = c.oneIn(3);
  if (two) te = te + shift->toExpression();
  const double left = c.pick({0.0, 0.1, 0.4, 1.0, 3.0}) * (hi - lo) * c.real(0, 1), right = c.pick({0.0, 0.1, 0.4, 1.0, 3.0}) * (hi - lo) * c.real(0, 1);
  TransformationExpression e = left == 0 && right == 0 ? b.transformationAtTime(te) : b.transformationAtTime(te, left, right);
  int sl = std::max(s.t - left < lo ? s.r.k - 1 : s.r.interval(s.t - left), s.r.k - 1),
            sr = s.t + right > hi ? (int)s.r.knots.size() - s.r.k - 1 : s.r.interval(s.t + right);
  while (s.r.knots[sl + 1] == s.r.knots[sl]) ++sl;
  while (s.r.knots[sr + 1] == s.r.knots[sr]) --sr;
  const double wlo = s.r.knots[sl], whi = s.r.knots[sr + 1];
  // the window is that of whole segments around [t - left, t + right]; move the time
  double t = s.t;
  if (c.oneIn(3)) t = c.real(lo, hi);
  else if (c.boolean()) t = s.t + c.real(-left, right);
  const double step = t - s.t;
  time->update(&step, 1);
  t = te.toScalar();
  c << "time moved to " << t << ", window [" << wlo << ", " << whi << ")";
  if (t < wlo || t >= whi) {
    c.label("outside the window");
    bool threw = false;
    try { e.toTransformationMatrix(); } catch (const std::exception&) { threw = true; }
    c.check(threw, "a time outside the window is accepted");
    threw = false;
    try { JacobianContainer j(6); e.evaluateJacobians(j); } catch (const std::exception&) { threw = true; }
    c.check(threw, "Jacobians outside the window are given");
    return;
  }
  const int iv = s.r.interval(t), seg = iv - s.r.k + 1;
  const VectorXd v = s.r.eval(t, 0, iv);
  const Matrix4d T = s.T(v);
  c.nearMat(e.toTransformationMatrix(), T, 1e-9 * s.r.scale(0), 0, "transformation at the moved time");
  std::set<DesignVariable*> want(all.begin() + (sl - s.r.k + 1), all.begin() + sr + 1);
  List every = all;
  every.push_back(time.get());
  want.insert(time.get());
  if (two) { every.push_back(shift.get()); want.insert(shift.get()); }
  wantVariables(c, e, want, "transformation at an estimated time");
  activate(c, every);
  // numerical derivatives in time need room inside the segment
  const double room = std::min(t - s.r.knots[iv], s.r.knots[iv + 1] - t);
  const bool timeToo = room > 1e-3 * (s.r.knots[iv + 1] - s.r.knots[iv]) && room > 1e-6;
  if (!timeToo) { time->setActive(false); shift->setActive(false); }
  c.label(timeToo ? "time derivative" : "time fixed");
  const bool chain = c.boolean();
  const MatrixXd M = mat(c, c.integer(1, 7), 6, 2);
  JacobianContainer j(chain ? M.rows() : 6);
  chain ? e.evaluateJacobians(j, M) : e.evaluateJacobians(j);
  auto f = [&]() -> VectorXd { VectorXd p = poseStep(s.T(b.spline().eval(te.toScalar())), T); return chain ? VectorXd(M * p) : p; };
  List points(all), times;
  for (DesignVariable* d : every)
    if (!d->isActive()) c.check(!find(j, d), "a Jacobian is given for an inactive variable");
  for (DesignVariable* d : {(DesignVariable*)time.get(), (DesignVariable*)shift.get()})
    if (d->isActive() && (two || d == time.get())) {
      const MatrixXd* J = find(j, d);
      c.check(J != 0, "no Jacobian for the time");
      const double s1 = 2 * (s.r.k - 1) / s.gap;
      checkJacobian(c, *J, stepped(d, f), 0.4 * room, 1e-6, 1e-7 * s1 + 1e-9 / room, "time");
    }
  int seen = 0;
  for (size_t i = 0; i < all.size(); ++i) {
    if (!all[i]->isActive()) continue;
    const MatrixXd* J = find(j, all[i]);
    const bool in = (int)i >= seg && (int)i < seg + s.r.k;
    c.check(J != 0 || !in, "no Jacobian for a control point");
    if (!J) continue;
    ++seen;
    if (!in) c.check(J->isZero(0), "a Jacobian for a control point that does not matter at this time");
    else checkJacobian(c, *J, stepped(all[i], f), 0.02, 1e-6, 1e-8, "control point");
  }
  c.nontrivial(sl != s.r.k - 1);
}

static double quadratic(const Ref& r, const MatrixXd& W, int d) {
  return integrate(r, r.tmin(), r.tmax(), [&](double t, int iv) -> double { const VectorXd x = r.eval(t, d, iv); return x.dot(W * x); });
}
template <int D> static void motionCase(pbt::Case& c) {
  Ref r;
  std::string kind;
  if (!drawCurve(c, D, r, kind, 5)) c.discard();
  for (int i = r.k - 1; i < (int)r.knots.size() - r.k; ++i)
    if (r.knots[i + 1] - r.knots[i] < 1e-3 * (r.tmax() - r.tmin())) c.discard();
  aslam_bsplines::BSpline sp(r.k);
  sp.setKnotsAndCoefficients(r.knots, r.c);
  BSplineDesignVariable<D> s(sp);
  const int d = c.integer(0, r.k - 1);
  MatrixXd W = spd(c, D, 0.1, 10);
  W = (0.5 * (W + W.transpose())).eval();
  c << "dimension " << D << ", order " << r.k << ", " << r.segments() << " segments, " << kind << ", derivative " << d;
  c.nontrivial();
  List all = variables(s);
  BSplineMotionError<BSplineDesignVariable<D>> whole(&s, W, d);
  OptimizationProblem p;
  for (size_t i = 0; i < all.size(); ++i) p.addDesignVariable(all[i], false);
  addMotionErrorTerms(p, s, W, d);
  c.eq((int)p.numErrorTerms(), r.segments(), "one error term per segment");
  MatrixXd before = r.c;
  for (int round = 0; round < 2; ++round) {
    if (round) {
      for (size_t i = 0; i < all.size(); ++i) {
        if (c.oneIn(3)) continue;
        const VectorXd x = vec(c, D, 2);
        all[i]->update(x.data(), D);
        r.c.col(i) += x;
      }
    }
    const double want = quadratic(r, W, d);
    Ref big = r;
    big.c = r.c.cwiseAbs() + before.cwiseAbs();
    const double s0 = r.scale(d), tol = 1e-8 * s0 * s0 * W.norm() * (r.tmax() - r.tmin());
    c.near(whole.evaluateError(), want, tol, 1e-8, round ? "motion error after an update" : "motion error");
    double sum = 0;
    for (size_t i = 0; i < p.numErrorTerms(); ++i) sum += p.errorTerm(i)->evaluateError();
    c.near(sum, want, tol, 1e-8, round ? "motion error terms after an update" : "motion error terms");
    // gradient and Hessian, in the order of the blocks
    const int n = (int)all.size() * D;
    activate(c, all, 0.2);
    std::vector<int> cols;
    for (size_t i = 0; i < all.size(); ++i) cols.push_back((int)(i + 1) * D);
    MatrixXd Q = whole.Q();
    c.eq((int)Q.rows(), n, "size of Q");
    Eigen::Map<const VectorXd> x(r.c.data(), n);
    c.near(x.dot(Q * x), want, tol, 1e-8, "quadratic form");
    c.nearMat(whole.rhs(), -Q * x, tol, 1e-8, "right-hand side");
    auto dense = [&](std::function<void(SparseBlockMatrix&, VectorXd&)> build, MatrixXd& H, VectorXd& b) {
      SparseBlockMatrix h(cols, cols, true);
      b = VectorXd::Zero(n);
      build(h, b);
      H = h.toDense();
      c.check(MatrixXd(H.template triangularView<Eigen::StrictlyLower>()).isZero(0) || [&] {
        for (size_t i = 0; i < all.size(); ++i)
          for (size_t k = 0; k < i; ++k)
            if (!H.block(i * D, k * D, D, D).isZero(0)) return false;
        return true; }(), "the Hessian has blocks below the diagonal");
      for (size_t i = 0; i < all.size(); ++i)
        for (size_t k = 0; k < i; ++k) H.block(i * D, k * D, D, D) = H.block(k * D, i * D, D, D).transpose().eval();
    };
    MatrixXd wantH = MatrixXd::Zero(n, n);
    VectorXd wantB = VectorXd::Zero(n);
    const VectorXd g = Q * x;
    for (size_t i = 0; i < all.size(); ++i) {
      if (!all[i]->isActive()) continue;
      wantB.segment(all[i]->blockIndex() * D, D) = -g.segment(i * D, D);
      for (size_t k = 0; k < all.size(); ++k)
        if (all[k]->isActive()) wantH.block(all[i]->blockIndex() * D, all[k]->blockIndex() * D, D, D) = Q.block(i * D, k * D, D, D);
    }
    MatrixXd H;
    VectorXd b;
    const double qs = Q.cwiseAbs().maxCoeff() + 1e-300;
    dense([&](SparseBlockMatrix& h, VectorXd& y) { whole.buildHessian(h, y, false); }, H, b);
    c.nearMat(H, wantH, 1e-9 * qs, 1e-9, "motion error: Hessian");
    c.nearMat(b, wantB, 1e-9 * qs * 100 * n, 1e-9, "motion error: right-hand side of the Hessian");
    dense([&](SparseBlockMatrix& h, VectorXd& y) { for (size_t i = 0; i < p.numErrorTerms(); ++i) { p.errorTerm(i)->evaluateError(); p.errorTerm(i)->buildHessian(h, y, false); } }, H, b);
    c.nearMat(H, wantH, 1e-8 * qs, 1e-8, "motion error terms: Hessian");
    c.nearMat(b, wantB, 1e-7 * qs * 100 * n, 1e-8, "motion error terms: right-hand side of the Hessian");
  }
}
PBT_CLAIM(motion_errors, 800) {
  switch (c.integer(0, 2)) {
    case 0: motionCase<1>(c); break;
    case 1: motionCase<2>(c); break;
    default: motionCase<3>(c);
  }
}
PBT_MAIN("S04", "an expression over the curve: time inside the spline, with active control points that matter there")

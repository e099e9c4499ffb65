// S02: building, extending, trimming and editing B-splines.
#include <pbt.hpp>
#include <spline_ref.hpp>
#include <aslam_bsplines/BSpline.hpp>
#include <Eigen/Dense>
using namespace spl;
using aslam_bsplines::BSpline;
using num::str;

static Ref snapshot(const BSpline& b) {
  Ref r;
  r.k = b.splineOrder();
  r.knots = b.knots();
  r.c = b.coefficients();
  return r;
}
static void sameAs(pbt::Case& c, const BSpline& b, const Ref& r, const char* what) {
  c.check(b.knots() == r.knots, std::string(what) + ": knots changed");
  c.check(b.coefficients().rows() == r.c.rows() && b.coefficients().cols() == r.c.cols() && b.coefficients() == r.c, std::string(what) + ": coefficients changed");
}
// everything the spline computes follows its knots and coefficients
static void consistent(pbt::Case& c, const BSpline& b, const std::string& what) {
  const Ref r = snapshot(b);
  if (r.segments() < 1) return;
  c.eq((int)r.c.cols(), r.segments() + r.k - 1, what + ": number of coefficients");
  for (int n = 0; n < 3; ++n) {
    double t = anyTime(c, r);
    if (t < r.tmax() && r.tmax() - t < 1e-9) t = r.tmax();
    const int d = n == 2 ? 1 : 0, iv = r.interval(t);
    c.nearMat(b.evalD(t, d), r.eval(t, d, iv), 1e-10 * r.scale(d), 1e-10, what + ": value");
    c.eq(b.segmentIndex(t), iv - r.k + 1, what + ": segment");
  }
  const double a = anyTime(c, r), e = anyTime(c, r);
  auto f = [&](ld t, int iv) -> VectorXd { return r.eval(t, 0, iv); };
  const VectorXd want = a <= e ? VectorXd(integrate(r, a, e, f)) : VectorXd(-integrate(r, e, a, f));
  c.nearMat(b.evalIntegral(a, e), want, 1e-9 * r.scale(0) * (r.tmax() - r.tmin()) + 1e-9 * r.scale(0), 1e-9, what + ": integral");
}
template <class F> static bool threw(F f) {
  try { f(); } catch (const std::exception&) { return true; }
  return false;
}
static VectorXd anyPoint(pbt::Case& c, int D) { return num::vec(c, D, 5); }
static double anyStart(pbt::Case& c) { return c.oneIn(4) ? std::floor(c.real(1e6, 1.5e9)) : c.oneIn(3) ? 0. : c.real(-50, 50); }

static void initTwoPoints(pbt::Case& c, BSpline& b, int D) {
  const double t0 = anyStart(c), t1 = t0 + (c.oneIn(3) ? 1 : c.logReal(0.05, 20)), dt = t1 - t0;
  const VectorXd p0 = anyPoint(c, D), p1 = anyPoint(c, D);
  c << "initSpline(" << t0 << ", " << t1 << ", " << str(p0.transpose()) << ", " << str(p1.transpose()) << ") ";
  b.initSpline(t0, t1, p0, p1);
  c.eq(b.numValidTimeSegments(), 1, "initSpline: segments");
  const double ulp = 1e-15 * std::fabs(t0), s = 1 + p0.norm() + p1.norm();
  c.near(b.t_min(), t0, ulp, 0, "initSpline: start");
  c.near(b.t_max(), t1, 2 * ulp, 1e-15, "initSpline: end");
  const double tol = (1e-7 + 4 * ulp / dt) * s;
  c.nearMat(b.eval(b.t_min()), p0, tol, 0, "initSpline: first point");
  c.nearMat(b.eval(b.t_max()), p1, tol, 0, "initSpline: last point");
  // moves at constant velocity: for all orders this meets the documented ends
  c.nearMat(b.evalD(b.t_min(), 1), VectorXd((p1 - p0) / dt), tol / dt * 10, 0, "initSpline: velocity at the start");
  c.nearMat(b.evalD(b.t_max(), 1), VectorXd((p1 - p0) / dt), tol / dt * 10, 0, "initSpline: velocity at the end");
  c.nearMat(b.eval(0.5 * (b.t_min() + b.t_max())), VectorXd(0.5 * (p0 + p1)), tol, 0, "initSpline: half way");
}
static void initConstant(pbt::Case& c, BSpline& b, int D) {
  const double t0 = anyStart(c), t1 = t0 + c.logReal(0.05, 50);
  const int n = c.integer(1, 6);
  const VectorXd p = anyPoint(c, D);
  c << "initConstantSpline(" << t0 << ", " << t1 << ", " << n << ", " << str(p.transpose()) << ") ";
  b.initConstantSpline(t0, t1, n, p);
  c.eq(b.numValidTimeSegments(), n, "initConstantSpline: segments");
  c.near(b.t_min(), t0, 1e-14 * (1 + std::fabs(t0)) + 1e-13 * (t1 - t0), 0, "initConstantSpline: start");
  c.near(b.t_max(), t1, 1e-14 * (1 + std::fabs(t0)) + 1e-13 * (t1 - t0), 0, "initConstantSpline: end");
  for (int i = 0; i < 3; ++i) {
    const double t = anyTime(c, snapshot(b));
    c.nearMat(b.eval(t), p, 1e-10, 1e-10, "initConstantSpline: value");
    c.nearMat(b.evalD(t, 1), VectorXd::Zero(D), 1e-8 * (1 + p.norm()) * n / (t1 - t0), 0, "initConstantSpline: derivative");
  }
}
// initSpline2, initSpline3, initSplineSparse, initSplineSparseKnots
static void initData(pbt::Case& c, BSpline& b, int D) {
  const int how = c.integer(0, 3), k = b.splineOrder(), n = c.integer(1, 6), m = c.integer(2, 15);
  Ref r;
  r.k = k;
  double t0, t1;
  if (how == 3) {
    r.knots = anyKnots(c, k, n, false);
    t0 = r.tmin();
    t1 = r.tmax();
  } else {
    t0 = anyStart(c);
    t1 = t0 + c.logReal(0.1, 50);
  }
  std::vector<double> tv;
  for (int i = 0; i < m; ++i) tv.push_back(c.oneIn(6) ? t0 : c.oneIn(6) ? t1 : std::min(t1, t0 + c.real(0, 1) * (t1 - t0)));
  if (how != 3 || c.boolean()) { tv[0] = t0; tv[m - 1] = t1; }
  std::sort(tv.begin(), tv.end());
  if (tv[m - 1] - tv[0] < 0.1 * (t1 - t0)) c.discard();
  const VectorXd times = Eigen::Map<VectorXd>(tv.data(), m);
  const MatrixXd P = num::mat(c, D, m, 5);
  const double lambda = c.logReal(1e-6, 10);
  static const char* names[] = {"initSpline2", "initSpline3", "initSplineSparse", "initSplineSparseKnots"};
  const std::string what = names[how];
  c << what << "(" << m << " points from " << t0 << " to " << t1 << ", " << n << " segments, lambda " << lambda << ") ";
  c.label(what);
  if (how == 0 && k < 3) return;
  if (c.oneIn(4)) {   // bad arguments
    const Ref before = snapshot(b);
    VectorXd bad = times;
    const int kind = c.integer(0, 2);
    if (kind == 0) std::swap(bad(0), bad(m - 1));
    const MatrixXd PP = kind == 1 ? P.leftCols(m - 1).eval() : P;
    const int nn = kind == 2 ? -c.integer(0, 2) : n;
    if (how == 3 && kind == 2) return;
    const VectorXd kn = how == 3 ? VectorXd(Eigen::Map<VectorXd>(r.knots.data(), r.knots.size())) : VectorXd();
    c.check(threw([&] {
      switch (how) {
        case 0: b.initSpline2(bad, PP, nn, lambda); break;
        case 1: b.initSpline3(bad, PP, nn, lambda); break;
        case 2: b.initSplineSparse(bad, PP, nn, lambda); break;
        default: b.initSplineSparseKnots(bad, PP, kn, lambda); break;
      }
    }), what + " accepted bad arguments");
    sameAs(c, b, before, "refused initialization");
    c.label("refused initialization");
    return;
  }
  // the reference: least squares in the coefficients of the spline the function defines
  BSpline trial(k);
  if (how == 3) {
    trial.setKnotsAndCoefficients(r.knots, MatrixXd::Zero(D, n + k - 1));
  } else {
    const double dt = (t1 - t0) / n;
    r.knots.resize(n + 2 * k - 1);
    for (int i = 0; i < (int)r.knots.size(); ++i) r.knots[i] = t0 + (i - k + 1) * dt;
  }
  r.c = MatrixXd::Zero(D, n + k - 1);
  const int C = n + k - 1;
  MatrixXd N = MatrixXd::Zero(C, C), rhs = MatrixXd::Zero(C, D);
  for (int i = 0; i < m; ++i) {
    const VectorXd bi = r.basisAt(std::min(times(i), r.tmax()), 0);
    N += bi * bi.transpose();
    rhs += bi * P.col(i).transpose();
  }
  if (how == 0) {
    for (int i = 0; i <= n; ++i) {
      const VectorXd bi = lambda * r.basisAt(r.knots[k - 1 + i], 2);
      N += bi * bi.transpose();
    }
  } else {
    const int d = k == 2 ? 1 : 2;
    N += lambda * integrate(r, r.tmin(), r.tmax(), [&](ld t, int iv) -> MatrixXd { const VectorXd bi = r.basisAt(t, d, iv); return bi * bi.transpose(); });
  }
  const VectorXd ev = N.selfadjointView<Eigen::Lower>().eigenvalues();
  if (!(ev(0) > 1e-9 * ev(C - 1))) c.discard();
  switch (how) {
    case 0: b.initSpline2(times, P, n, lambda); break;
    case 1: b.initSpline3(times, P, n, lambda); break;
    case 2: b.initSplineSparse(times, P, n, lambda); break;
    default: b.initSplineSparseKnots(times, P, Eigen::Map<VectorXd>(r.knots.data(), r.knots.size()), lambda); break;
  }
  c.eq(b.numValidTimeSegments(), n, what + ": segments");
  c.near(b.t_min(), t0, 1e-15 * std::fabs(t0), 0, what + ": start");
  c.near(b.t_max(), t1, 1e-15 * std::fabs(t1) + 1e-14 * (t1 - t0), 0, what + ": end");
  const MatrixXd x = b.coefficients().transpose();
  c.eq((int)x.rows(), C, what + ": coefficients");
  // knots that follow from large times carry their rounding
  const double noise = 1e-9 + (how == 3 ? 0 : 1e-14 * std::fabs(t0) / ((t1 - t0) / n));
  c.nearMat(N * x, rhs, noise * (N.cwiseAbs().maxCoeff() * x.cwiseAbs().maxCoeff() * C + rhs.cwiseAbs().maxCoeff()), 0, what + ": not the least squares solution");
}
static void anySet(pbt::Case& c, BSpline& b, int D) {
  const int k = b.splineOrder(), n = c.integer(1, 6);
  const std::vector<double> knots = anyKnots(c, k, n, false);
  const MatrixXd C = num::mat(c, D, n + k - 1, 5);
  c << "setKnotsAndCoefficients(" << n << " segments) ";
  b.setKnotsAndCoefficients(knots, C);
  c.check(b.knots() == knots && b.coefficients() == C, "setKnotsAndCoefficients");
}
static void badSet(pbt::Case& c, BSpline& b, int D) {
  const Ref before = snapshot(b);
  const int k = b.splineOrder(), n = c.integer(1, 8);
  std::vector<double> knots = anyKnots(c, k, n, false);
  MatrixXd C = MatrixXd::Ones(D, n + k - 1);
  switch (c.integer(0, 2)) {
    case 0: {   // out of order, anywhere
      const int i = c.integer(1, (int)knots.size() - 1);
      const int j = c.integer(0, i - 1);
      std::swap(knots[i], knots[j]);
      c << "bad knots: " << j << " and " << i << " swapped ";
      break;
    }
    case 1: C = MatrixXd::Ones(D, std::max(0, n + k - 1 + (c.boolean() ? 1 : -1) * c.integer(1, 3))); break;
    default: knots.resize(c.integer(0, 2 * k - 1)); C = MatrixXd::Ones(D, c.integer(0, 1) ? k - 1 : k); break;
  }
  c.check(threw([&] { b.setKnotsAndCoefficients(knots, C); }), "an invalid knot sequence or coefficient matrix was accepted");
  c.label("refused knots");
  sameAs(c, b, before, "refused knots");
}
static bool addSegment(pbt::Case& c, BSpline& b, int D) {
  const Ref before = snapshot(b);
  const int k = before.k, n = before.segments();
  const bool second = c.oneIn(3);
  const double lambda = second ? (c.oneIn(3) ? 0. : c.logReal(1e-3, 10)) : 0;
  const double end = before.tmax(), next = before.knots[n + k];
  const VectorXd p = anyPoint(c, D);
  auto add = [&](double t, const VectorXd& q) { if (second) b.addCurveSegment2(t, q, lambda); else b.addCurveSegment(t, q); };
  if (c.oneIn(5)) {
    c.check(threw([&] { add(c.boolean() ? end : end - c.logReal(1e-3, 10), p); }), "a segment ending before the curve was accepted");
    c.check(threw([&] { add(end + 1, anyPoint(c, D + 1)); }), "a point of the wrong size was accepted");
    sameAs(c, b, before, "refused segment");
    return true;
  }
  double gap = next - end;
  const bool natural = c.boolean() && next > end;
  const double width = c.oneIn(3) ? c.logReal(0.02, 20) : (end - before.tmin()) / n * c.real(0.5, 2);
  const double t = natural ? next : end + std::max(width, 1e-6 * std::fabs(end) * 1e-3);
  c << (second ? "addCurveSegment2(" : "addCurveSegment(") << t << (natural ? " (next knot), " : ", ") << str(p.transpose()) << ", " << lambda << ") ";
  const VectorXd p0 = b.eval(end);
  add(t, p);
  const Ref after = snapshot(b);
  const std::string what = second ? "addCurveSegment2" : "addCurveSegment";
  c.eq(after.segments(), n + 1, what + ": segments");
  c.eq(after.tmax(), t, what + ": end");
  c.eq(after.tmin(), before.tmin(), what + ": start");
  c.eq((int)after.c.cols(), (int)before.c.cols() + 1, what + ": coefficients");
  for (int i = 0; i < n + k; ++i) c.check(after.knots[i] == before.knots[i], what + ": a knot of the existing curve moved");
  c.check(after.c.leftCols(before.c.cols() - 1) == before.c.leftCols(before.c.cols() - 1), what + ": coefficients before the last changed");
  // conditioning of the two coefficients that are chosen
  const VectorXd b0 = after.basisAt(end, 0, after.interval(end)), b1 = after.basisAt(t, 0);
  const int C = after.c.cols();
  const double pivot = std::min(b0(C - 2), b1(C - 1));
  const double scale = 1 + after.scale(0) + before.scale(0);
  const double ill = 1e-13 / std::pow(std::min(pivot, 1.), second ? 4 : 2);
  if (ill > 1e-4) { c.label("ill conditioned"); return false; }
  if (lambda == 0) {
    c.nearMat(b.eval(t), p, (1e-9 + ill) * scale, 0, what + ": the new point");
    c.nearMat(b.eval(end), p0, (1e-9 + ill) * scale, 0, what + ": the old end");
  } else {
    // least squares in the last two coefficients
    const VectorXd s0 = lambda * after.basisAt(end, 2, after.interval(end)), s1 = lambda * after.basisAt(t, 2);
    MatrixXd A(4, C);
    A << b0.transpose(), b1.transpose(), s0.transpose(), s1.transpose();
    MatrixXd R = A * after.c.transpose();
    R.row(0) -= p0.transpose();
    R.row(1) -= p.transpose();
    const MatrixXd grad = A.rightCols(2).transpose() * R;
    const double big = A.cwiseAbs().maxCoeff();
    c.nearMat(grad, MatrixXd::Zero(2, D), 1e-9 * big * big * scale * C + 1e-300, 0, what + ": not the least squares solution");
  }
  // the part of the curve that depends on neither the new knots nor the last coefficients
  const bool kept = natural && lambda == 0;
  const double upTo = kept ? end : before.knots[std::max(k - 1, n + 1)];
  const double span = upTo - before.tmin();
  for (int i = 0; i < 4 && span > 0; ++i) {
    const double u = i == 0 ? upTo : before.tmin() + c.real(0, 1) * span;
    if (u > upTo || (u == upTo && k == 2 && !kept)) continue;
    const int iv = before.interval(u);
    c.nearMat(after.eval(u, 0, iv), before.eval(u, 0, iv), (1e-9 + (kept ? ill : 0)) * scale, 0, what + (kept ? ": the curve changed although the segment ends at its next knot" : ": the curve changed where it should not"));
  }
  c.label(kept ? "segment at the next knot" : "segment anywhere");
  return true;
}
static void removeSegment(pbt::Case& c, BSpline& b) {
  const Ref before = snapshot(b);
  if (before.segments() < 2) return;
  c << "removeCurveSegment ";
  b.removeCurveSegment();
  const Ref after = snapshot(b);
  c.eq(after.segments(), before.segments() - 1, "removeCurveSegment: segments");
  c.eq(after.tmin(), before.knots[before.k], "removeCurveSegment: start");
  c.eq(after.tmax(), before.tmax(), "removeCurveSegment: end");
  c.eq(b.timeInterval(0).first, after.tmin(), "removeCurveSegment: first segment");
  for (int i = 0; i < 4; ++i) {
    double t = anyTime(c, after);
    if (t < after.tmax() && after.tmax() - t < 1e-9) t = after.tmax();
    c.nearMat(b.eval(t), before.eval(t, 0, before.interval(t)), 1e-10 * before.scale(0), 0, "removeCurveSegment: the rest of the curve changed");
  }
  c.label("segment removed");
}
static void edit(pbt::Case& c, BSpline& b, int D) {
  Ref want = snapshot(b);
  const int C = want.c.cols();
  const int how = c.integer(0, 4);
  switch (how) {
    case 0: { want.c = num::mat(c, D, C, 5); b.setCoefficientMatrix(want.c); break; }
    case 1: { want.c = num::mat(c, D, C, 5); b.setCoefficientVector(Eigen::Map<VectorXd>(want.c.data(), want.c.size())); break; }
    case 2: {
      double t = anyTime(c, want);
      if (t < want.tmax() && want.tmax() - t < 1e-9) t = want.tmax();
      const int seg = want.interval(t) - want.k + 1;
      const MatrixXd L = num::mat(c, D, want.k, 5);
      want.c.block(0, seg, D, want.k) = L;
      b.setLocalCoefficientVector(t, Eigen::Map<const VectorXd>(L.data(), L.size()));
      break;
    }
    case 3: { const int i = c.integer(0, C - 1); want.c.col(i) = num::vec(c, D, 5); b.vvCoefficientVector(i) = want.c.col(i); break; }
    default:
      c.check(threw([&] { b.setCoefficientMatrix(MatrixXd::Zero(D + 1, C)); }) && threw([&] { b.setCoefficientMatrix(MatrixXd::Zero(D, C + 1)); }), "a coefficient matrix of another size was accepted");
      c.check(threw([&] { b.setCoefficientVector(VectorXd::Zero(D * C + 1)); }), "a coefficient vector of another size was accepted");
      c.check(threw([&] { b.setLocalCoefficientVector(want.tmin(), VectorXd::Zero(D * want.k - 1)); }), "local coefficients of another size were accepted");
  }
  c << "edit " << how << " ";
  sameAs(c, b, want, "editing coefficients");
}

PBT_CLAIM(histories, 2500) {
  const int k = c.integer(2, 6), D = c.integer(1, 3), steps = c.integer(1, 8);
  BSpline b(k);
  c << "order " << k << " dim " << D << ": ";
  switch (c.integer(0, 4)) {
    case 0: initTwoPoints(c, b, D); break;
    case 1: initConstant(c, b, D); break;
    case 2: initData(c, b, D); break;
    default: anySet(c, b, D);
  }
  if (b.knots().empty()) c.discard();
  consistent(c, b, "after initializing");
  for (int i = 0; i < steps; ++i) {
    const int op = c.integer(0, 15);
    if (op < 5) { if (!addSegment(c, b, D)) return; }
    else if (op < 8) removeSegment(c, b);
    else if (op < 11) edit(c, b, D);
    else if (op < 12) badSet(c, b, D);
    else if (op < 13) initTwoPoints(c, b, D);
    else if (op < 14) initConstant(c, b, D);
    else if (op < 15) initData(c, b, D);
    else anySet(c, b, D);
    consistent(c, b, "after step " + std::to_string(i));
    if (c.oneIn(4)) {   // a copy is independent
      BSpline copy(b);
      const Ref r = snapshot(b);
      copy.vvCoefficientVector(0) = VectorXd::Constant(D, 99);
      if (copy.numValidTimeSegments() > 1) copy.removeCurveSegment();
      sameAs(c, b, r, "changing a copy");
    }
  }
  c.nontrivial();
}
// refusals of a spline that is not initialized, and of other sizes
PBT_CLAIM(first_knots, 1500) {
  const int k = c.integer(2, 6), n = c.integer(1, 5);
  BSpline b(k);
  badSet(c, b, c.integer(1, 3));
  c.check(b.knots().empty() && b.numValidTimeSegments() == 0, "a refused first knot sequence stayed");
  BSpline g(k);
  c.check(threw([&] { g.initSpline(1, 1 - c.integer(0, 2), VectorXd::Zero(2), VectorXd::Zero(2)); }), "initSpline accepted times out of order");
  c.check(threw([&] { g.initSpline(0, 1, VectorXd::Zero(2), VectorXd::Zero(3)); }), "initSpline accepted points of different sizes");
  c.check(threw([&] { g.initConstantSpline(1, 0, n, VectorXd::Zero(2)); }), "initConstantSpline accepted times out of order");
  c.check(threw([&] { g.initConstantSpline(0, 1, 0, VectorXd::Zero(2)); }), "initConstantSpline accepted no segments");
  c.check(threw([&] { g.initConstantSpline(0, 1, n, VectorXd()); }), "initConstantSpline accepted no value");
  c.check(g.knots().empty(), "a refused initialization left knots");
  c.nontrivial();
}
PBT_MAIN("S02", "a history builds a spline and applies at least one operation to it")

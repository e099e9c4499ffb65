// S01: BSpline against the Cox-de Boor definition.
#include <pbt.hpp>
#include <spline_ref.hpp>
#include <aslam_bsplines/BSpline.hpp>
#include <aslam_sparse_block_matrix/sparse_block_matrix.h>
using namespace spl;
using aslam_bsplines::BSpline;
using Eigen::VectorXi;
using num::str;

struct Both { Ref ref; BSpline b; Both(int k) : b(k) { ref.k = k; } };
static Both anySpline(pbt::Case& c, bool repeats = true, int maxOrder = 7) {
  const int k = c.integer(2, maxOrder), n = c.integer(1, 6), D = c.integer(1, 4);
  Both s(k);
  std::string kind;
  s.ref.knots = anyKnots(c, k, n, repeats, &kind);
  if (!(s.ref.tmin() < s.ref.tmax())) c.discard();
  s.ref.c.resize(D, n + k - 1);
  const double mag = c.oneIn(5) ? c.logReal(1e-3, 1e4) : 3;
  for (int i = 0; i < s.ref.c.size(); ++i) s.ref.c(i) = c.oneIn(8) ? 0. : c.real(-mag, mag);
  if (c.boolean()) s.b.setKnotsAndCoefficients(s.ref.knots, s.ref.c);
  else s.b.setKnotVectorAndCoefficients(Eigen::Map<VectorXd>(s.ref.knots.data(), s.ref.knots.size()), s.ref.c);
  c << "order " << k << " dim " << D << " knots [";
  for (double t : s.ref.knots) c << t << " ";
  c << "] ";
  c.label(kind + " knots");
  c.nontrivial();
  return s;
}
// the coefficients' indices, in the stacked vector, that matter on an interval
static VectorXi indices(const Ref& r, int iv) {
  const int D = r.c.rows();
  VectorXi v(r.k * D);
  for (int i = 0; i < v.size(); ++i) v(i) = (iv - r.k + 1) * D + i;
  return v;
}

PBT_CLAIM(values_and_derivatives, 3000) {
  Both s = anySpline(c);
  const Ref& r = s.ref;
  const double t = anyTime(c, r);
  const int d = c.integer(0, r.k + 1), D = r.c.rows();
  c << "t " << t << " derivative " << d;
  int iv = r.interval(t);
  // next to the end the last segment may answer
  const bool end = std::fabs(r.tmax() - t) < 1e-10;
  if (end && t < r.tmax() && r.interval(r.tmax()) != iv) { c.label("next to the end"); iv = r.interval(r.tmax()); if (r.k < 3 || d > 0) c.discard(); }
  const double tol = 1e-11 * r.scale(d) + (t == r.knots[iv] ? 0 : 4e-16 * r.scale(d + 1) * (std::fabs(t) * 0 + 1));
  const VectorXd ref = r.eval(t, d, iv);
  c.nearMat(s.b.evalD(t, d), ref, tol, 1e-11, "evalD");
  if (d == 0) c.nearMat(s.b.eval(t), ref, tol, 1e-11, "eval");
  // basis functions
  const VectorXd all = r.basisAt(t, d, iv), local = all.segment(iv - r.k + 1, r.k);
  const double btol = tol / std::max(1e-300, r.c.cwiseAbs().maxCoeff());
  MatrixXd Phi = MatrixXd::Zero(D, D * r.k);
  for (int i = 0; i < r.k; ++i) Phi.block(0, i * D, D, D).diagonal().setConstant(local(i));
  const double ptol = 1e-12 * r.scale(d) / std::max(1e-300, r.c.cwiseAbs().maxCoeff()) + 1e-15;
  c.nearMat(s.b.Phi(t, d), Phi, ptol * 10, 1e-11, "Phi");
  c.nearMat(s.b.localBasisMatrix(t, d), Phi, ptol * 10, 1e-11, "localBasisMatrix");
  // Jacobians with respect to the local coefficients, and which they are
  MatrixXd J;
  VectorXi idx;
  c.nearMat(s.b.evalDAndJacobian(t, d, &J, &idx), ref, tol, 1e-11, "evalDAndJacobian's value");
  c.nearMat(J, Phi, ptol * 10, 1e-11, "evalDAndJacobian's Jacobian");
  const VectorXi want = indices(r, iv);
  c.check(idx.size() == want.size() && idx == want, "evalDAndJacobian's indices");
  const std::pair<VectorXd, MatrixXd> both = s.b.evalDAndJacobian(t, d);
  c.nearMat(both.first, ref, tol, 1e-11, "value of the pair");
  c.nearMat(both.second, Phi, ptol * 10, 1e-11, "Jacobian of the pair");
  s.b.evalDAndJacobian(t, d, 0, 0);
  VectorXi got = s.b.localCoefficientVectorIndices(t);
  c.check(got.size() == want.size() && got == want, "localCoefficientVectorIndices");
  got = s.b.localVvCoefficientVectorIndices(t);
  c.check(got.size() == r.k, "localVvCoefficientVectorIndices' size");
  for (int i = 0; i < r.k; ++i) c.eq(got(i), iv - r.k + 1 + i, "localVvCoefficientVectorIndices");
  const int seg = iv - r.k + 1;
  c.eq(s.b.segmentIndex(t), seg, "segmentIndex");
  got = s.b.segmentCoefficientVectorIndices(seg);
  c.check(got.size() == want.size() && got == want, "segmentCoefficientVectorIndices");
  got = s.b.segmentVvCoefficientVectorIndices(seg);
  c.check(got.size() == r.k && got(0) == seg && got(r.k - 1) == iv, "segmentVvCoefficientVectorIndices");
  // the coefficients themselves
  const MatrixXd lc = r.c.block(0, seg, D, r.k);
  const VectorXd lv = Eigen::Map<const VectorXd>(lc.data(), lc.size());
  c.check(s.b.localCoefficientMatrix(t) == lc, "localCoefficientMatrix");
  c.check(s.b.localCoefficientVector(t) == lv, "localCoefficientVector");
  c.check(s.b.segmentCoefficientVector(seg) == lv, "segmentCoefficientVector");
  // and the matrix form: value = U' M c
  c.nearMat(s.b.U(t, d).transpose() * (s.b.Mi(seg) * lv), ref, tol * 10, 1e-10, "U' M c");
  const VectorXd u = s.b.u(t, d);
  c.nearMat(s.b.basisMatrix(seg).transpose() * u, local, ptol * 10, 1e-11, "basis matrix times powers");
  MatrixXd B(D * r.k, D * r.k);
  for (int j = 0; j < r.k; ++j) B.block(0, j * D, D * r.k, D) = s.b.Bij(seg, j);
  c.nearMat(B, s.b.Mi(seg), 0, 1e-15, "Bij are the columns of Mi");
  // differentiating powers once more
  c.nearMat(s.b.Dii(seg).transpose() * u, s.b.u(t, d + 1), 1e-13 * (1 + u.norm()), 1e-12, "Dii differentiates the powers");
  c.nearMat(s.b.Di(seg).transpose() * s.b.U(t, d), s.b.U(t, d + 1), 1e-13 * (1 + u.norm()), 1e-12, "Di differentiates the powers");
  if (t == r.tmax()) c.label("end");
  else if (multiplicity(r, t)) c.label("at a knot");
}

PBT_CLAIM(basis_functions, 1500) {
  Both s = anySpline(c);
  const Ref& r = s.ref;
  const double t = anyTime(c, r);
  c << "t " << t;
  if (t < r.tmax() && r.tmax() - t < 1e-10) c.discard();
  const int iv = r.interval(t), seg = iv - r.k + 1;
  const VectorXd all = r.basisAt(t, 0), local = all.segment(seg, r.k);
  const VectorXd bi = s.b.getLocalBiVector(t);
  c.nearMat(bi, local, 1e-10, 0, "getLocalBiVector");
  VectorXd into = VectorXd::Constant(r.k, 7);
  s.b.getLocalBiInto(t, into);
  c.nearMat(into, local, 1e-10, 0, "getLocalBiInto");
  c.near(bi.sum(), 1, 1e-10, 0, "the basis functions sum to one");
  c.check(bi.minCoeff() > -1e-10, "a basis function is negative");
  const VectorXd cum = s.b.getLocalCumulativeBiVector(t);
  for (int i = 0; i < r.k; ++i) c.near(cum(i), local.tail(r.k - i).sum(), 1e-10, 0, "getLocalCumulativeBiVector");
  const VectorXd full = s.b.getBiVector(t), fullCum = s.b.getCumulativeBiVector(t);
  for (int i = 0; i < full.size(); ++i) c.near(full(i), all(i), 1e-10, 0, "getBiVector");
  for (int i = 0; i < fullCum.size(); ++i) c.near(fullCum(i), all.tail(all.size() - i).sum(), 1e-10, 0, "getCumulativeBiVector");
  // affine curves: coefficients at the knot averages reproduce the line
  MatrixXd line(1, r.c.cols());
  for (int i = 0; i < line.cols(); ++i) {
    ld sum = 0;
    for (int j = 1; j < r.k; ++j) sum += (ld)r.knots[i + j] - r.knots[0];
    line(i) = (double)(sum / (r.k - 1));
  }
  BSpline l(r.k);
  l.setKnotsAndCoefficients(r.knots, line);
  const double span = r.knots.back() - r.knots[0];
  c.near(l.eval(t)(0), t - r.knots[0], 1e-11 * span, 1e-11, "a straight line");
  c.near(l.evalD(t, 1)(0), 1, 1e-10 * span / std::max(1e-12, r.knots[iv + 1] - r.knots[iv]), 1e-9, "the slope of a straight line");
}

PBT_CLAIM(layout, 1500) {
  Both s = anySpline(c);
  const Ref& r = s.ref;
  const int D = r.c.rows(), n = r.segments(), C = r.c.cols();
  c.eq(s.b.splineOrder(), r.k, "splineOrder");
  c.eq(s.b.polynomialDegree(), r.k - 1, "polynomialDegree");
  c.eq(s.b.numValidTimeSegments(), n, "numValidTimeSegments");
  c.eq(s.b.numValidTimeSegments((int)r.knots.size()), n, "numValidTimeSegments(knots)");
  c.eq(s.b.numCoefficientsRequired(n), C, "numCoefficientsRequired");
  c.eq(s.b.numKnotsRequired(n), (int)r.knots.size(), "numKnotsRequired");
  c.eq(s.b.minimumKnotsRequired(), 2 * r.k, "minimumKnotsRequired");
  c.eq(s.b.numValidTimeSegments(c.integer(0, 2 * r.k - 1)), 0, "segments of too few knots");
  c.eq(s.b.numCoefficients(), D * C, "numCoefficients");
  c.eq(s.b.coefficientVectorLength(), D * C, "coefficientVectorLength");
  c.eq(s.b.numVvCoefficients(), C, "numVvCoefficients");
  c.check(s.b.knots() == r.knots && s.b.knotVector() == Eigen::Map<const VectorXd>(r.knots.data(), r.knots.size()), "knots");
  c.check(s.b.coefficients() == r.c, "coefficients");
  c.check(s.b.coefficientVector() == Eigen::Map<const VectorXd>(r.c.data(), r.c.size()), "coefficientVector");
  c.check(s.b.t_min() == r.tmin() && s.b.t_max() == r.tmax() && s.b.timeInterval() == std::make_pair(r.tmin(), r.tmax()), "time interval");
  for (int i = 0; i < n; ++i) c.check(s.b.timeInterval(i) == std::make_pair(r.knots[r.k - 1 + i], r.knots[r.k + i]), "segment time interval");
  const int i = c.integer(0, C - 1);
  c.check(s.b.vvCoefficientVector(i) == r.c.col(i) && static_cast<const BSpline&>(s.b).vvCoefficientVector(i) == r.c.col(i), "vvCoefficientVector");
  if (D == 3) c.check(s.b.fixedSizeVvCoefficientVector<3>(i) == r.c.col(i) && static_cast<const BSpline&>(s.b).fixedSizeVvCoefficientVector<3>(i) == r.c.col(i), "fixedSizeVvCoefficientVector");
  // outside of the curve and of the indices
  const double span = r.tmax() - r.tmin();
  const double out = c.boolean() ? r.tmin() - c.logReal(1e-6, 10) * span - 1e-9 * std::fabs(r.tmin()) : r.tmax() + c.logReal(1e-6, 10) * span + 1e-9 * std::fabs(r.tmax()) + 2e-10;
  c << "outside " << out;
  auto refuses = [&](std::function<void()> f, const char* what) {
    try { f(); } catch (const std::exception&) { return; }
    c.fail(std::string(what) + " was not refused");
  };
  refuses([&] { s.b.eval(out); }, "evaluating outside");
  refuses([&] { s.b.evalD(out, 1); }, "differentiating outside");
  refuses([&] { MatrixXd J; s.b.evalDAndJacobian(out, 0, &J, 0); }, "the Jacobian outside");
  refuses([&] { s.b.Phi(out, 0); }, "Phi outside");
  refuses([&] { s.b.localCoefficientVector(out); }, "coefficients outside");
  refuses([&] { s.b.localCoefficientVectorIndices(out); }, "indices outside");
  refuses([&] { s.b.evalIntegral(r.tmin(), out); }, "integrating to the outside");
  refuses([&] { s.b.evalIntegral(out, r.tmax()); }, "integrating from the outside");
  refuses([&] { s.b.getLocalBiVector(out); }, "basis functions outside");
  refuses([&] { s.b.evalD(r.tmin(), -1 - c.integer(0, 3)); }, "a negative derivative order");
  const int bad = c.boolean() ? -1 - c.integer(0, 2) : n + c.integer(0, 2);
  refuses([&] { s.b.timeInterval(bad); }, "the interval of a missing segment");
  refuses([&] { s.b.basisMatrix(bad); }, "the basis matrix of a missing segment");
  refuses([&] { s.b.segmentCoefficientVector(bad); }, "the coefficients of a missing segment");
  refuses([&] { s.b.segmentVvCoefficientVectorIndices(bad); }, "the indices of a missing segment");
  refuses([&] { s.b.Vi(bad); }, "Vi of a missing segment");
  refuses([&] { s.b.segmentQuadraticIntegral(MatrixXd::Identity(D, D), bad, 0); }, "the integral of a missing segment");
  refuses([&] { s.b.vvCoefficientVector(bad < 0 ? bad : C + bad - n); }, "a missing coefficient");
  refuses([&] { BSpline small(c.integer(-1, 1)); }, "an order below two");
  BSpline empty(r.k);
  refuses([&] { empty.t_min(); }, "an empty spline's start");
  refuses([&] { empty.eval(0); }, "an empty spline's value");
}

PBT_CLAIM(integrals, 1500) {
  Both s = anySpline(c);
  const Ref& r = s.ref;
  double a = anyTime(c, r), b = anyTime(c, r);
  c << "from " << a << " to " << b;
  const double span = r.tmax() - r.tmin(), tol = 1e-10 * r.scale(0) * span + 4e-10 * r.scale(0);
  auto f = [&](ld t, int iv) -> VectorXd { return r.eval(t, 0, iv); };
  const VectorXd want = a <= b ? VectorXd(integrate(r, a, b, f)) : VectorXd(-integrate(r, b, a, f));
  c.nearMat(s.b.evalIntegral(a, b), want, tol, 1e-9, "evalIntegral");
  c.nearMat(s.b.evalI(a, b), want, tol, 1e-9, "evalI");
  c.nearMat(s.b.evalIntegral(b, a), VectorXd(-want), tol, 1e-9, "evalIntegral backwards");
  if (a == b) c.label("empty");
}

PBT_CLAIM(quadratic_integrals, 1200) {
  Both s = anySpline(c, true, 6);
  const Ref& r = s.ref;
  const int D = r.c.rows(), n = r.segments(), C = r.c.cols(), d = c.integer(0, std::min(r.k, 4));
  const MatrixXd W = num::spd(c, D, 0.1, 10);
  VectorXd w(D);
  for (int i = 0; i < D; ++i) w(i) = c.oneIn(5) ? 0 : c.real(0, 5);
  c << "derivative " << d;
  const VectorXd x = Eigen::Map<const VectorXd>(r.c.data(), r.c.size());
  // condition: cancellation of derivatives across short segments
  double gap = 1e300;
  for (int j = r.k - 1; j < (int)r.knots.size() - r.k; ++j) if (r.knots[j + 1] > r.knots[j]) gap = std::min(gap, r.knots[j + 1] - r.knots[j]);
  const double span = r.tmax() - r.tmin(), unit = r.scale(d) * r.scale(d) * span;
  const double rtol = 1e-9 + 1e-17 * std::max(std::fabs(r.tmin()), std::fabs(r.tmax())) / gap, tol = 0.1 * rtol * unit * D * 10;
  double sum = 0, sumDiag = 0;
  for (int g = 0; g < n; ++g) {
    const double lo = r.knots[r.k - 1 + g], hi = r.knots[r.k + g];
    double q = 0, qd = 0;
    if (hi > lo) {
      auto fq = [&](ld t, int iv) -> double { const VectorXd v = r.eval(t, d, iv); return v.dot(W * v); };
      auto fd = [&](ld t, int iv) -> double { const VectorXd v = r.eval(t, d, iv); return v.dot(w.asDiagonal() * v); };
      q = integrate(r, lo, hi, fq);
      qd = integrate(r, lo, hi, fd);
    }
    sum += q;
    sumDiag += qd;
    const VectorXd lx = x.segment(g * D, r.k * D);
    const MatrixXd Q = s.b.segmentQuadraticIntegral(W, g, d), Qd = s.b.segmentQuadraticIntegralDiag(w, g, d);
    c.near(lx.dot(Q * lx), q, tol, rtol, "segmentQuadraticIntegral");
    c.near(lx.dot(Qd * lx), qd, tol, rtol, "segmentQuadraticIntegralDiag");
    c.nearMat(Q, Q.transpose(), 1e-12 * Q.cwiseAbs().maxCoeff(), 0, "symmetry of the segment's integral");
    const MatrixXd R = s.b.segmentIntegral(g, W, d);
    c.nearMat(R.transpose() * R, Q, 1e-10 * Q.cwiseAbs().maxCoeff() + 1e-300, 1e-9, "segmentIntegral is a square root of the quadratic one");
    // Vi: products of powers
    const MatrixXd V = s.b.Vi(g);
    for (int i = 0; i < r.k; ++i) for (int j = 0; j < r.k; ++j) c.near(V(i, j), (hi - lo) / (i + j + 1), 0, 1e-13, "Vi");
  }
  const MatrixXd Q = s.b.curveQuadraticIntegral(W, d), Qd = s.b.curveQuadraticIntegralDiag(w, d);
  c.eq((int)Q.rows(), D * C, "size of the curve's integral");
  c.near(x.dot(Q * x), sum, tol * n, rtol, "curveQuadraticIntegral");
  c.near(x.dot(Qd * x), sumDiag, tol * n, rtol, "curveQuadraticIntegralDiag");
  c.nearMat(s.b.curveQuadraticIntegralSparse(W, d).toDense(), Q, 1e-13 * Q.cwiseAbs().maxCoeff(), 0, "curveQuadraticIntegralSparse");
  c.nearMat(s.b.curveQuadraticIntegralDiagSparse(w, d).toDense(), Qd, 1e-13 * Qd.cwiseAbs().maxCoeff(), 0, "curveQuadraticIntegralDiagSparse");
  // an unsymmetric weight is refused
  if (D > 1) {
    MatrixXd bad = W;
    bad(0, 1) += 1;
    bool threw = false;
    try { s.b.segmentQuadraticIntegral(bad, 0, d); } catch (const std::exception&) { threw = true; }
    c.check(threw, "an unsymmetric weight was accepted");
  }
  bool threw = false;
  try { s.b.curveQuadraticIntegral(MatrixXd::Identity(D + 1, D + 1), d); } catch (const std::exception&) { threw = true; }
  c.check(threw, "a weight of the wrong size was accepted");
  c.label(d >= r.k ? "vanishing derivative" : "derivative");
}
PBT_MAIN("S01", "every case builds a spline with a non-empty valid interval and random coefficients")

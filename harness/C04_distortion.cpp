// C04: lens distortion models against their published formulas.
#include <cameras.hpp>
#include <aslam_cameras/cameras/NoDistortion.hpp>
#include <aslam_cameras/cameras/RadialTangentialDistortion.hpp>
#include <aslam_cameras/cameras/EquidistantDistortion.hpp>
#include <aslam_cameras/cameras/FovDistortion.hpp>
#include <sm_property_tree/BoostPropertyTree.hpp>
using namespace cam;
using namespace aslam::cameras;
using num::str;

static Spec spec(pbt::Case& c, int dist) {
  Want w;
  w.model = PINHOLE; w.dist = dist; w.shutters = w.masks = false;
  return anySpec(c, w);
}
// a normalized image point inside the lens model's one-to-one region
static Vector2d pointFor(pbt::Case& c, const Spec& s) {
  const double t = c.oneIn(6) ? c.pick({0., M_PI / 2, M_PI, -M_PI / 2}) : c.real(0, 2 * M_PI);
  const double r = c.oneIn(8) ? 0. : c.oneIn(8) ? c.logReal(1e-9, 1e-2) : c.real(0, 2.5);
  Vector2d y(r * std::cos(t), r * std::sin(t));
  for (int i = 0; i < 10 && !invertible(s, y); ++i) y *= 0.7;
  if (!invertible(s, y)) c.discard();
  c << "point " << str(y.transpose());
  c.label(y.norm() == 0 ? "centre" : y.norm() < 1e-2 ? "near the centre" : "generic");
  c.nontrivial(y.norm() > 0);
  return y;
}
// what the model documents near the centre is the limit value, exact to third order
static double centreSlack(const Spec& s, const Vector2d& y) {
  const double r = y.norm();
  if (s.dist == FOV && r * r < 1e-5) return 1.2 * r * r * 4 * std::pow(std::tan(s.d[0] / 2), 2);
  if (s.dist == EQUI && r <= 1e-8) return 1e-15;
  return 0;
}

template <class D> static void values(pbt::Case& c, int dist, const D& d, const Spec& s) {
  const Vector2d y = pointFor(c, s), ref = refDistort(s, y);
  const double slack = centreSlack(s, y), r = y.norm();
  Vector2d z = y;
  d.distort(z);
  c.nearMat(z, ref, 1e-14 + slack * r, 1e-12, "distorted point");
  Vector2d zj = y;
  MatrixXd J;
  d.distort(zj, J);
  c.nearMat(zj, z, 1e-15, 1e-14, "distorted point with Jacobian");
  if (r * r >= 1.2e-5 || r == 0 || dist != FOV)
    num::checkJacobian(c, J, [&](const VectorXd& e) -> VectorXd { return refDistort(s, y + Vector2d(e)); }, 1e-3 * std::max(r, 0.05), 1e-7, 1e-8 + 3 * slack, "distortion Jacobian");
  else c.nearMat(J, refDistortJacobian(s, y), 1e-6 + 4 * slack, 0, "distortion Jacobian near the centre");
  VectorXd zx = y;   // dynamically sized points
  MatrixXd Jx;
  d.distort(zx, Jx);
  c.nearMat(zx, z, 1e-15, 1e-14, "distorted point, dynamic size");
  c.nearMat(Jx, J, 1e-15, 1e-14, "distortion Jacobian, dynamic size");
  // inverse
  Vector2d back = z;
  d.undistort(back);
  c.nearMat(back, y, 2e-9 + 1e-6 * (r > 1 ? r * r : r) * (dist != NONE) + slack * r, 0, "undistorting the distorted point");
  Vector2d again = back;
  d.distort(again);
  c.nearMat(again, z, 1e-9 + 1e-7 * r + 2 * slack * r, 0, "distorting the undistorted point");
  if (dist != FOV) {
    Vector2d b2 = z;
    MatrixXd Ji(2, 2);
    d.undistort(b2, Ji);
    c.nearMat(b2, back, 1e-15, 1e-14, "undistorted point with Jacobian");
    const Matrix2d inv = refDistortJacobian(s, back).inverse();
    c.nearMat(Ji, inv, 1e-7, 2e-6, "undistortion Jacobian");
  } else {
    try {   // not implemented, and says so
      Vector2d b2 = z;
      MatrixXd Ji(2, 2);
      d.undistort(b2, Ji);
      c.nearMat(Ji, refDistortJacobian(s, back).inverse(), 1e-6, 1e-5, "undistortion Jacobian");
    } catch (const std::runtime_error&) {}
  }
  // coefficients
  MatrixXd Jp;
  d.distortParameterJacobian(y, Jp);
  c.eq((int)Jp.cols(), (int)d.minimalDimensions(), "columns of the coefficient Jacobian");
  if (dist != NONE) {
    c.eq((int)Jp.rows(), 2, "rows of the coefficient Jacobian");
    if (!(dist == FOV && s.d[0] == 0))
      num::checkJacobian(c, Jp, [&](const VectorXd& e) -> VectorXd {
        Spec t = s;
        for (size_t i = 0; i < t.d.size(); ++i) t.d[i] += e[i];
        return refDistort(t, y); }, 0.01, 1e-7, 1e-9 + 4 * slack * r, "coefficient Jacobian");
  }
}

template <class D> static void coefficients(pbt::Case& c, int dist, D d, const Spec& s) {
  const int n = s.nDist();
  c.eq(d.minimalDimensions(), n, "number of coefficients");
  MatrixXd P;
  d.getParameters(P);
  c.eq((int)P.size(), n, "size of the coefficients");
  for (int i = 0; i < n; ++i) c.eq(P(i, 0), s.d[i], "coefficient read back");
  Eigen::Vector2i sz = d.parameterSize();
  c.check(n == 0 || (sz[0] == n && sz[1] == 1), "shape of the coefficients");
  c.nontrivial();
  if (n == 0) return;
  Spec s2 = spec(c, dist), s3 = s2;
  MatrixXd Q(n, 1);
  for (int i = 0; i < n; ++i) Q(i, 0) = s2.d[i];
  d.setParameters(Q);
  d.getParameters(P);
  c.nearMat(P, Q, 0, 0, "coefficients set and read");
  std::vector<double> step(n);
  for (int i = 0; i < n; ++i) {
    const double target = dist == FOV ? c.real(0.51, 1.49) : s2.d[i] + c.real(-0.1, 0.1);
    step[i] = target - s2.d[i];
    s3.d[i] = s2.d[i] + step[i];
  }
  d.update(step.data());
  d.getParameters(P);
  for (int i = 0; i < n; ++i) c.near(P(i, 0), s3.d[i], 1e-15, 1e-15, "coefficient after an additive step");
  Vector2d y(c.real(-0.5, 0.5), c.real(-0.5, 0.5));
  Vector2d z = y;
  d.distort(z);
  if (y.squaredNorm() > 2e-5) c.nearMat(z, refDistort(s3, y), 1e-13, 1e-13, "distortion after a step");
  c.nontrivial();
}
static NoDistortion mk(const Spec&, NoDistortion*) { return NoDistortion(); }
static RadialTangentialDistortion mk(const Spec& s, RadialTangentialDistortion*) { return RadialTangentialDistortion(s.d[0], s.d[1], s.d[2], s.d[3]); }
static EquidistantDistortion mk(const Spec& s, EquidistantDistortion*) { return EquidistantDistortion(s.d[0], s.d[1], s.d[2], s.d[3]); }
static FovDistortion mk(const Spec& s, FovDistortion*) { return FovDistortion(s.d[0]); }
#define MODEL(name, T, dist, n)                                                            \
  PBT_CLAIM(name, n) { Spec s = spec(c, dist); values(c, dist, mk(s, (T*)0), s); }          \
  PBT_CLAIM(name##_coefficients, 2000) { Spec s = spec(c, dist); coefficients(c, dist, mk(s, (T*)0), s); }
MODEL(no_distortion, NoDistortion, NONE, 1000)
MODEL(radial_tangential, RadialTangentialDistortion, RADTAN, 20000)
MODEL(equidistant, EquidistantDistortion, EQUI, 20000)
MODEL(field_of_view, FovDistortion, FOV, 20000)

template <class D> static void config(pbt::Case& c, const Spec& s, std::vector<std::string> keys) {
  sm::BoostPropertyTree t;
  for (size_t i = 0; i < keys.size(); ++i) t.setDouble(keys[i], s.d[i]);
  D d{sm::PropertyTree(t)}, e = mk(s, (D*)0);
  c.check(d.isBinaryEqual(e), "a distortion from a configuration differs from one from its coefficients");
  c.check(e.isBinaryEqual(d), "equality is not symmetric");
  std::vector<double> step(keys.size(), 0.0);
  const int k = c.integer(0, keys.size() - 1);
  step[k] = s.d[k] > 1 ? -0.25 : 0.25;
  if (s.dist == FOV && s.d[0] == 0) step[0] = 0.75;
  if (s.dist == FOV && s.d[0] > 0 && s.d[0] < 1) step[0] = 0.25;
  e.update(step.data());
  c.check(!d.isBinaryEqual(e) && !e.isBinaryEqual(d), "distortions that differ in one coefficient compare equal");
  c.nontrivial();
}
PBT_CLAIM(from_configuration, 3000) {
  const int dist = c.integer(RADTAN, FOV);
  Spec s = spec(c, dist);
  if (dist == RADTAN) config<RadialTangentialDistortion>(c, s, {"k1", "k2", "p1", "p2"});
  else if (dist == EQUI) config<EquidistantDistortion>(c, s, {"k1", "k2", "k3", "k4"});
  else config<FovDistortion>(c, s, {"w"});
}
PBT_CLAIM(invalid_field_of_view, 1000) {
  const double w = c.pick({-1.0, 0.3, 1.6, 2.0, -0.2}) + c.real(0, 0.15);
  c << "w " << w;
  if (w >= 0.5 && w <= 1.5) c.discard();
  bool threw = false;
  try { FovDistortion d(w); } catch (const std::exception&) { threw = true; }
  c.check(threw, "a field-of-view coefficient outside its range is accepted");
  c.nontrivial();
}
PBT_MAIN("C04", "a lens model's coefficients with a normalized point in its one-to-one region (centre, near it, or anywhere); non-trivial off the centre")

// C01: projection and back-projection against reference camera models.
#include <cameras.hpp>
using namespace cam;
using num::str;

struct Result { bool ok; Vector2d k; };

// Every way of projecting the Euclidean point p.
static void sameProjection(pbt::Case& c, const Made& m, const Vector3d& p, const Result& r, const Spec& s, const char* what) {
  auto agree = [&](bool ok, const VectorXd& k, const char* how, bool value = true) {
    c.eq(ok, r.ok, std::string(what) + ": validity from " + how);
    if (value) c.nearMat(k, r.k, 1e-9, 1e-12, std::string(what) + ": pixel from " + how);
  };
  double margin;
  refNormalize(s, p, margin);
  const bool v = margin > 0;
  Vector2d k2; k2.setZero();
  bool ok = m.fixed->e2k(p, k2);
  agree(ok, k2, "the fixed-size interface", v);
  Eigen::Matrix<double, 2, 3> J; J.setZero(); k2.setZero();
  ok = m.fixed->e2k(p, k2, J);
  agree(ok, k2, "the fixed-size interface with Jacobian", v);
  VectorXd k; MatrixXd JX;
  ok = m.cam->vsEuclideanToKeypoint(p, k, JX);
  agree(ok, k, "the call with Jacobian", v);
  c.eq(m.cam->vsIsEuclideanVisible(p), r.ok, std::string(what) + ": visibility");
}

PBT_CLAIM(projection_follows_the_model, 12000) {
  Spec s = anySpec(c);
  Vector3d p;
  const bool seen = c.boolean();
  if (seen) { if (!visiblePoint(c, s, p, 0, 3)) c.discard(); } else p = anyPoint(c, s);
  c << "point " << str(p.transpose());
  Made m = make(s);
  double margin;
  const Vector2d y = refNormalize(s, p, margin);
  if (std::fabs(margin) < 1e-9 * p.norm() || p.norm() < 1e-9) c.discard();
  VectorXd k(2); k.setZero();
  const bool ok = m.cam->vsEuclideanToKeypoint(p, k);
  c.label(s.model == PINHOLE ? "pinhole" : s.model == OMNI ? "omni" : s.model == EUCM ? "eucm" : "ds");
  if (margin <= 0) {
    c.label("outside the domain");
    c.check(!ok, "a point outside the model's domain is reported visible");
  } else {
    const Vector2d ref = refPixel(s, y);
    if (ref.allFinite() && ref.norm() < 1e7) {
      double tol = 1e-9 * (1 + s.fu + s.fv) * (1 + y.norm() + refDistort(s, y).norm());
      if (s.dist == FOV && y.squaredNorm() < 1e-5) tol += 1.2 * std::pow(y.norm(), 3) * 4 * std::pow(std::tan(s.d[0] / 2), 2) * (s.fu + s.fv);
      c.near(k[0], ref[0], tol, 1e-10, "pixel column");
      c.near(k[1], ref[1], tol, 1e-10, "pixel row");
    }
    if (k.allFinite()) {
      const bool in = inImage(s, k);
      c.eq(ok, in && (!in || maskAllows(s, k)), "validity of a projection inside the model's domain");
      c.eq(m.cam->vsIsValid(k), ok, "validity of the pixel");
      c.label(ok ? "visible" : in ? "masked" : "out of the image");
      c.nontrivial(ok);
    }
  }
  Result r{ok, k};
  sameProjection(c, m, p, r, s, "Euclidean");
  // homogeneous: any positive scale is the same point; (-p, -w) too; w = 0 is a direction
  for (double w : {1.0, c.logReal(1e-3, 1e3), 0.0, -c.logReal(1e-3, 1e3)}) {
    const double scale = w == 0 ? 1 : w;
    Vector4d ph; ph << p * scale, w;
    VectorXd kh(2); kh.setZero();
    MatrixXd J;
    const std::string what = "homogeneous with w = " + std::to_string(w);
    c.eq(m.cam->vsHomogeneousToKeypoint(ph, kh), ok, what + ": validity");
    if (margin > 0) c.nearMat(kh, k, 1e-8, 1e-9, what + ": pixel");
    VectorXd kj(2); kj.setZero();
    c.eq(m.cam->vsHomogeneousToKeypoint(ph, kj, J), ok, what + " and Jacobian: validity");
    if (margin > 0) c.nearMat(kj, kh, 1e-9, 1e-12, what + " and Jacobian: pixel");
    Vector2d kf; kf.setZero();
    c.eq(m.fixed->h2k(ph, kf), ok, what + ", fixed size: validity");
    if (margin > 0) c.nearMat(kf, kh, 1e-9, 1e-12, what + ", fixed size: pixel");
    Eigen::Matrix<double, 2, 4> JF;
    kf.setZero();
    c.eq(m.fixed->h2k(ph, kf, JF), ok, what + ", fixed size and Jacobian: validity");
    if (margin > 0) c.nearMat(kf, kh, 1e-9, 1e-12, what + ", fixed size and Jacobian: pixel");
    c.eq(m.cam->vsIsHomogeneousVisible(ph), ok, what + ": visibility");
  }
}

PBT_CLAIM(ray_round_trip, 12000) {
  Spec s = anySpec(c);
  Vector3d p;
  if (!visiblePoint(c, s, p)) c.discard();
  c << "point " << str(p.transpose());
  Made m = make(s);
  VectorXd k(2);
  if (!m.cam->vsEuclideanToKeypoint(p, k)) c.discard();
  c.nontrivial();
  Vector3d q;
  c.check(m.cam->vsKeypointToEuclidean(k, q), "the pixel of a visible point cannot be back-projected");
  const Vector3d dir = p.normalized();
  const double tol = s.dist == NONE ? 1e-7 : 2e-6;
  c.check(q.allFinite() && q.norm() > 0, "the back-projected ray is " + str(q.transpose()));
  c.nearMat(q.normalized(), dir, tol, 0, "direction of the back-projected ray");
  VectorXd k2(2);
  const bool again = m.cam->vsEuclideanToKeypoint(q, k2);
  if ((k.array() > 1e-3).all() && k[0] < s.ru - 1e-3 && k[1] < s.rv - 1e-3 && maskAllows(s, k2))
    c.check(again, "the back-projected ray is not visible");
  c.nearMat(k2, k, 3e-6 * (1 + s.fu + s.fv), 0, "pixel of the back-projected ray");
}

PBT_CLAIM(pixel_round_trip, 12000) {
  Spec s = anySpec(c);
  Vector3d p;
  Vector2d y;
  if (!visiblePoint(c, s, p, &y, 5)) c.discard();
  Made m = make(s);
  const Vector2d k = refPixel(s, y);
  c << "pixel " << str(k.transpose());
  if (s.masked && !inImage(s, k)) c.discard();   // a mask has no pixel there
  const bool allowed = maskAllows(s, k);
  VectorXd kx = k;
  Vector3d q = Vector3d::Constant(7);
  const bool ok = m.cam->vsKeypointToEuclidean(kx, q);
  c.nontrivial(ok);
  c.label(inImage(s, k) ? (allowed ? "in the image" : "masked") : "out of the image");
  if (inImage(s, k)) c.eq(ok, allowed, "validity of the back-projection of a pixel");
  if (s.model == PINHOLE && !inImage(s, k)) c.check(!ok, "a pixel outside the image is back-projected as valid");
  if (ok) {
    VectorXd k2(2);
    const bool seen = m.cam->vsEuclideanToKeypoint(q, k2);
    if (inImage(s, k) && (k.array() > 1e-3).all() && k[0] < s.ru - 1e-3 && k[1] < s.rv - 1e-3 && maskAllows(s, k2))
      c.check(seen, "the ray of a pixel is not visible");
    c.nearMat(k2, k, 3e-6 * (1 + s.fu + s.fv), 0, "pixel of the ray of a pixel");
    // the model's own direction
    c.nearMat(q.normalized(), p.normalized(), 3e-6, 0, "direction of the ray");
  }
  // every variant
  VectorXd qx(3), qj(3);
  MatrixXd J(3, 2);
  c.eq(m.cam->vsKeypointToEuclidean(kx, q), ok, "validity when asked again");
  Vector2d kf = k;
  Vector3d qf = Vector3d::Constant(7);
  c.eq(m.fixed->k2e(kf, qf), ok, "validity from the fixed-size interface");
  Vector4d hf = Vector4d::Constant(7);
  c.eq(m.fixed->k2h(kf, hf), ok, "validity of the homogeneous ray");
  VectorXd hx;
  c.eq(m.cam->vsKeypointToHomogeneous(kx, hx), ok, "validity of the homogeneous ray from the virtual call");
  if (ok) {
    c.nearMat(qf, q, 1e-12, 1e-12, "ray from the fixed-size interface");
    c.nearMat(hf, (Vector4d() << q, 0).finished(), 1e-12, 1e-12, "homogeneous ray");
    c.nearMat(hx, hf, 1e-12, 1e-12, "homogeneous ray from the virtual call");
  }
  if (s.dist != FOV) {
    Eigen::Matrix<double, 3, 2> JF;
    Eigen::Matrix<double, 4, 2> JH;
    Vector3d a = Vector3d::Constant(7); Vector4d h = Vector4d::Constant(7);
    VectorXd av, hv; MatrixXd Jv, Jhv;
    c.eq(m.fixed->k2e(kf, a, JF), ok, "validity with Jacobian");
    c.eq(m.fixed->k2h(kf, h, JH), ok, "validity of the homogeneous ray with Jacobian");
    c.eq(m.cam->vsKeypointToEuclidean(kx, av, Jv), ok, "validity from the virtual call with Jacobian");
    c.eq(m.cam->vsKeypointToHomogeneous(kx, hv, Jhv), ok, "validity of the homogeneous ray from the virtual call with Jacobian");
    if (ok) {
      c.nearMat(a, q, 1e-12, 1e-12, "ray with Jacobian");
      c.nearMat(h, hf, 1e-12, 1e-12, "homogeneous ray with Jacobian");
      c.nearMat(av, q, 1e-12, 1e-12, "ray from the virtual call with Jacobian");
      c.nearMat(hv, hf, 1e-12, 1e-12, "homogeneous ray from the virtual call with Jacobian");
    }
  }
}

// A pixel the model cannot have produced is refused.
PBT_CLAIM(unliftable_pixels, 4000) {
  Want w;
  w.model = c.integer(OMNI, DS);
  w.dist = NONE;
  w.masks = w.shutters = false;
  Spec s = anySpec(c, w);
  double limit = w.model == OMNI ? (s.a > 1 ? 1 / (s.a * s.a - 1) : -1)
                 : w.model == EUCM ? (s.a > 0.5 ? 1 / (s.b * (2 * s.a - 1)) : -1) : (s.b > 0.5 ? 1 / (2 * s.b - 1) : -1);
  if (limit < 0 || limit > 1e4) c.discard();
  const double f = c.real(0.5, 1.5);
  if (std::fabs(f - 1) < 1e-6) c.discard();
  const double t = c.real(0, 2 * M_PI), r = std::sqrt(limit) * f;
  VectorXd k(2);
  k << s.fu * r * std::cos(t) + s.cu, s.fv * r * std::sin(t) + s.cv;
  c << "pixel " << str(k.transpose()) << " at " << f << " of the limit";
  c.nontrivial();
  Vector3d q;
  c.eq(make(s).cam->vsKeypointToEuclidean(k, q), f < 1, "a pixel beyond the model's limit is back-projected");
}

PBT_CLAIM(random_points_are_visible, 1500) {
  Want w;
  w.masks = false;
  w.dist = NONE;
  Spec s = anySpec(c, w);
  if (s.model != PINHOLE) c.discard();
  Made m = make(s);
  VectorXd k = m.cam->createRandomKeypoint();
  c.eq((int)m.cam->keypointDimension(), (int)k.size(), "size of a random keypoint");
  c.check(m.cam->vsIsValid(k), "a random keypoint is not valid: " + str(k.transpose()));
  const double depth = c.boolean() ? c.logReal(0.01, 100) : -1;
  Vector3d p = m.cam->createRandomVisiblePoint(depth);
  c.check(m.cam->vsIsEuclideanVisible(p), "a random visible point is not visible: " + str(p.transpose()));
  if (depth > 0) c.near(p.norm(), depth, 1e-9, 1e-9, "depth of a random visible point");
  c.eq(m.cam->width(), s.ru, "width");
  c.eq(m.cam->height(), s.rv, "height");
  c.eq(m.cam->hasMask(), false, "hasMask");
  c.nontrivial();
}
PBT_MAIN("C01", "a camera of any model, distortion, shutter and mask, with a point or pixel; non-trivial when the point is visible or the pixel can be back-projected")

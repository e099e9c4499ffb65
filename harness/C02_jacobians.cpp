// C02: every camera Jacobian against the numerical derivative.
#include <cameras.hpp>
using namespace cam;
using num::str;

static bool setup(pbt::Case& c, Spec& s, Vector3d& p) {
  s = anySpec(c);
  Vector2d y;
  if (!visiblePoint(c, s, p, &y, 20)) c.discard();
  p *= 1 / p.norm();
  p *= c.logReal(0.3, 10);
  c << "point " << str(p.transpose());
  double m;
  refNormalize(s, p, m);
  if (m < 0.05 * p.norm()) c.discard();
  const double r = y.norm();
  // piecewise near the centre by design
  if ((s.dist == FOV && r * r < 4e-5 && r > 0) || (s.dist == EQUI && r < 1e-6 && r > 0)) c.discard();
  c.label(s.model == PINHOLE ? "pinhole" : s.model == OMNI ? "omni" : s.model == EUCM ? "eucm" : "ds");
  if (r == 0) c.label("on the axis");
  c.nontrivial(r > 0);
  return true;
}
static double atolFor(const Spec& s, const Vector3d&) { return 1e-7 * (1 + s.fu + s.fv) * (s.dist == FOV ? 30 : 1); }
static VectorXd px(const Made& m, const Vector3d& p) { VectorXd k(2); k.setZero(); m.cam->vsEuclideanToKeypoint(p, k); return k; }
static VectorXd pxh(const Made& m, const Vector4d& p) { VectorXd k(2); k.setZero(); m.cam->vsHomogeneousToKeypoint(p, k); return k; }

PBT_CLAIM(point_jacobians, 4000) {
  Spec s; Vector3d p;
  setup(c, s, p);
  Made m = make(s);
  MatrixXd J; VectorXd k;
  m.cam->vsEuclideanToKeypoint(p, k, J);
  const double h = 0.01 * p.norm();
  num::checkJacobian(c, J, [&](const VectorXd& d) { return px(m, p + Vector3d(d)); }, h, 1e-6, atolFor(s, p) / p.norm(), "Jacobian of the pixel with respect to the point");
  Eigen::Matrix<double, 2, 3> JF; Vector2d kf;
  m.fixed->e2k(p, kf, JF);
  c.nearMat(JF, J, 1e-10, 1e-10, "fixed-size Jacobian");
  // a Jacobian with rubbish in it is overwritten
  MatrixXd J5 = MatrixXd::Constant(5, 7, 9);
  m.cam->vsEuclideanToKeypoint(p, k, J5);
  c.nearMat(J5, J, 0, 0, "Jacobian into a used matrix");
  for (int sgn : {1, -1}) {
    const double w = sgn * c.logReal(0.2, 5);
    Vector4d ph; ph << p * w, w;
    c << "w " << w;
    MatrixXd Jh;
    m.cam->vsHomogeneousToKeypoint(ph, k, Jh);
    num::checkJacobian(c, Jh, [&](const VectorXd& d) { return pxh(m, ph + Vector4d(d)); }, 0.01 * ph.norm() * 0.5, 1e-6, atolFor(s, p) / p.norm() / std::fabs(w),
                       sgn > 0 ? "Jacobian with respect to the homogeneous point" : "Jacobian with respect to the homogeneous point of negative scale");
    Eigen::Matrix<double, 2, 4> JH; JH.setConstant(5);
    m.fixed->h2k(ph, kf, JH);
    c.nearMat(JH, Jh, 1e-10, 1e-10, "fixed-size homogeneous Jacobian");
  }
}

PBT_CLAIM(ray_jacobians, 3000) {
  Spec s; Vector3d p;
  setup(c, s, p);
  if (s.dist == FOV) c.discard();
  Made m = make(s);
  VectorXd k = px(m, p);
  if (!inImage(s, k) || !maskAllows(s, k)) c.discard();
  VectorXd q; MatrixXd J;
  if (!m.cam->vsKeypointToEuclidean(k, q, J)) c.discard();
  c.eq((int)J.rows(), 3, "rows of the ray Jacobian");
  c.eq((int)J.cols(), 2, "columns of the ray Jacobian");
  const double h = 0.003 * std::min(s.fu, s.fv);
  num::checkJacobian(c, J, [&](const VectorXd& d) -> VectorXd {
    Vector3d r = Vector3d::Constant(NAN);
    m.cam->vsKeypointToEuclidean(k + d, r);
    return r; }, h, s.dist == NONE ? 1e-6 : 2e-4, 1e-8, "Jacobian of the ray with respect to the pixel");
  Eigen::Matrix<double, 3, 2> JF; Vector3d qf;
  m.fixed->k2e(Vector2d(k), qf, JF);
  c.nearMat(JF, J, 1e-10, 1e-10, "fixed-size ray Jacobian");
  VectorXd qh; MatrixXd Jh;
  m.cam->vsKeypointToHomogeneous(k, qh, Jh);
  MatrixXd E(4, 2); E << J, 0, 0;
  c.nearMat(Jh, E, 1e-10, 1e-10, "homogeneous ray Jacobian");
  Eigen::Matrix<double, 4, 2> JHF; Vector4d qhf;
  m.fixed->k2h(Vector2d(k), qhf, JHF);
  c.nearMat(JHF, E, 1e-10, 1e-10, "fixed-size homogeneous ray Jacobian");
  // it inverts the projection's
  MatrixXd Jp; VectorXd k2;
  m.cam->vsEuclideanToKeypoint(Vector3d(q), k2, Jp);
  c.nearMat(Jp * J, Matrix2d::Identity(), s.dist == NONE ? 1e-6 : 1e-4, 0, "projection Jacobian times ray Jacobian");
}

PBT_CLAIM(parameter_jacobians, 4000) {
  Spec s; Vector3d p;
  setup(c, s, p);
  Made m = make(s);
  const bool P = c.boolean(), D = c.boolean(), S = c.boolean();
  c << "groups " << P << D << S;
  const int n = (P ? s.nProj() : 0) + (D ? s.nDist() : 0) + (S ? s.nShut() : 0);
  c.eq(m.cam->minimalDimensions(P, D, S), n, "number of parameters");
  // distances from the edges of the parameter range
  if (D && s.dist == FOV && (s.d[0] < 0.52 || s.d[0] > 1.48)) c.discard();
  if (P && s.model == OMNI && (s.a < 0.02 || std::fabs(s.a - 1) < 0.02)) c.label("xi at a switch");
  const Spec base = s;
  auto at = [&](const VectorXd& d) {
    Spec t = base;
    t.setParams(base.params(P, D, S) + d, P, D, S);
    return make(t);
  };
  // scale each parameter so that one step size fits all
  VectorXd scale = VectorXd::Ones(n);
  int i = 0;
  if (P) { for (int j = 0; j < s.nExtra(); ++j) scale[i++] = 0.05; scale[i++] = s.fu; scale[i++] = s.fv; scale[i++] = s.fu; scale[i++] = s.fv; }
  if (D) for (int j = 0; j < s.nDist(); ++j) scale[i++] = 0.05;
  if (S) for (int j = 0; j < s.nShut(); ++j) scale[i++] = 1e-4;
  MatrixXd J = MatrixXd::Constant(1, 1, 7), Jh;
  m.cam->euclideanToKeypointIntrinsicsJacobian(p, J, P, D, S);
  c.eq((int)J.rows(), 2, "rows of the parameter Jacobian");
  c.eq((int)J.cols(), n, "columns of the parameter Jacobian");
  const double tol = 1e-6 * (1 + s.fu + s.fv) * 0.05;
  if (n)
    num::checkJacobian(c, J * scale.asDiagonal(), [&](const VectorXd& d) { return px(at(scale.cwiseProduct(d)), p); }, 0.1, 1e-6, tol, "Jacobian with respect to the camera's parameters");
  for (int sgn : {1, -1}) {
    const double w = sgn * c.logReal(0.2, 5);
    Vector4d ph; ph << p * w, w;
    m.cam->homogeneousToKeypointIntrinsicsJacobian(ph, Jh, P, D, S);
    c.nearMat(Jh, J, 1e-8, 1e-9, "parameter Jacobian of the homogeneous projection");
  }
  if (P) {
    MatrixXd JP = m.fixed->projectionJacobian(p);
    c.nearMat(JP, J.leftCols(s.nProj()), 1e-10, 1e-12, "projection parameter Jacobian");
    Vector4d ph; ph << p, 1;
    c.nearMat(m.fixed->projectionJacobianH(ph), JP, 1e-10, 1e-12, "homogeneous projection parameter Jacobian");
    ph = -ph;
    c.nearMat(m.fixed->projectionJacobianH(ph), JP, 1e-10, 1e-12, "homogeneous projection parameter Jacobian, negative scale");
  }
  if (D && s.nDist()) {
    MatrixXd JD = m.fixed->distortionJacobian(p);
    c.nearMat(JD, J.middleCols(P ? s.nProj() : 0, s.nDist()), 1e-10, 1e-12, "distortion parameter Jacobian");
    Vector4d ph; ph << p, 1;
    c.nearMat(m.fixed->distortionJacobianH(ph), JD, 1e-10, 1e-12, "homogeneous distortion parameter Jacobian");
    ph = -ph;
    c.nearMat(m.fixed->distortionJacobianH(ph), JD, 1e-10, 1e-12, "homogeneous distortion parameter Jacobian, negative scale");
  }
  // capture time
  VectorXd k = px(m, p);
  MatrixXd Jt;
  m.cam->temporalOffsetIntrinsicsJacobian(k, Jt, P, D, S);
  MatrixXd expect = MatrixXd::Zero(1, n);
  if (S && s.rs) expect(0, n - 1) = k[1];
  c.nearMat(Jt, expect, 1e-12, 1e-12, "Jacobian of the capture time offset");
}
PBT_MAIN("C02", "a camera of any model, distortion, shutter and mask, with a point in its field of view; non-trivial off the optical axis")

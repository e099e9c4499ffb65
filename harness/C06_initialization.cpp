// C06: noise-free views of known targets; the pose and the intrinsics they determine must come back.
#include <cameras.hpp>
#include <aslam_cameras/cameras.hpp>
#include <aslam_cameras/cameras/GridCalibrationTargetCheckerboard.hpp>
#include <aslam_cameras/cameras/GridCalibrationTargetCirclegrid.hpp>
#include <aslam_cameras/cameras/GridCalibrationTargetObservation.hpp>
#include <boost/make_shared.hpp>
using namespace cam;
using namespace aslam::cameras;
using num::str;
using Eigen::Matrix4d;
using Eigen::Matrix3d;
typedef GridCalibrationTargetObservation Obs;
typedef GridCalibrationTargetBase Target;

namespace {
Target::Ptr anyTarget(pbt::Case& c, int& rows, int& cols, double& size, int minRows = 3, int minCols = 3) {
  rows = c.integer(minRows, 9); cols = c.integer(minCols, 9);
  const double a = c.logReal(0.01, 0.5), b = a * c.real(0.6, 1.6);
  c << rows << "x" << cols << " points every " << a << ", " << b;
  if (c.oneIn(3)) {
    size = a * std::max(rows, cols);
    return boost::make_shared<GridCalibrationTargetCirclegrid>(rows, cols, a);
  }
  size = std::max(a * rows, b * cols);
  return boost::make_shared<GridCalibrationTargetCheckerboard>(rows, cols, a, b);
}
// the target somewhere along a visible ray, not seen too much from the side
bool anyPose(pbt::Case& c, const Spec& s, const Target& t, double size, Matrix4d& T_c_t, double nearest, double farthest) {
  Vector3d ray;
  if (!visiblePoint(c, s, ray)) return false;
  ray.normalize();
  Vector3d mid = Vector3d::Zero();
  for (size_t i = 0; i < t.size(); ++i) mid += t.point(i) / t.size();
  const double d = size * c.real(nearest, farthest);
  // start from the target facing the camera along the ray
  Vector3d x = std::fabs(ray[0]) < 0.9 ? Vector3d(1, 0, 0) : Vector3d(0, 1, 0);
  Matrix3d R;
  R.col(2) = c.boolean() ? ray : Vector3d(-ray);
  R.col(0) = (x - x.dot(ray) * ray).normalized();
  R.col(1) = R.col(2).cross(R.col(0));
  const double tilt = c.oneIn(8) ? 0 : c.real(0, 1.0), dir = c.real(-M_PI, M_PI), roll = c.real(-M_PI, M_PI);
  R = R * num::expSO3(tilt * Vector3d(std::cos(dir), std::sin(dir), 0)) * num::expSO3(roll * Vector3d(0, 0, 1));
  T_c_t.setIdentity();
  T_c_t.topLeftCorner<3, 3>() = R;
  T_c_t.topRightCorner<3, 1>() = d * ray - R * mid;
  c << "tilt " << tilt << " distance " << d << " ray " << str(ray);
  return true;
}
// what the camera sees of it, within the parts of the image where its model can be inverted
int look(pbt::Case&, const Spec& s, const Base& cam, const Matrix4d& T_c_t, const Target& t, Obs& o, double maxAngle = 1.35) {
  int n = 0;
  for (size_t i = 0; i < t.size(); ++i) {
    const Vector3d p = (T_c_t * (Vector4d() << t.point(i), 1).finished()).head<3>();
    double m;
    const Vector2d y = refNormalize(s, p, m);
    if (m < 0.03 * p.norm() || !invertible(s, y, 0.2)) continue;
    if (std::acos(p[2] / p.norm()) > maxAngle) continue;
    Vector3d ray;   // not in the part of the model that folds over
    if (!refLift(s, y, ray) || ray.normalized().dot(p.normalized()) < 1 - 1e-9) continue;
    VectorXd k;
    if (!cam.vsEuclideanToKeypoint(p, k) || k[0] < 1 || k[1] < 1 || k[0] > s.ru - 2 || k[1] > s.rv - 2) continue;
    o.updateImagePoint(i, k);
    ++n;
  }
  return n;
}
// the observed corners determine the pose well
bool wellSpread(const Obs& o, const Target& t, const Matrix4d& T) {
  std::vector<unsigned> id;
  o.getCornersIdx(id);
  if (id.size() < 6) return false;
  // the linear system of the homography between the target and the view has one clear solution
  const int n = id.size();
  MatrixXd X(n, 2), Y(n, 2);
  for (int i = 0; i < n; ++i) {
    const Vector3d p = (T * (Vector4d() << t.point(id[i]), 1).finished()).head<3>();
    X.row(i) = t.point(id[i]).head<2>().transpose();
    Y.row(i) = (p.head<2>() / p[2]).transpose();
  }
  X.rowwise() -= X.colwise().mean().eval();
  Y.rowwise() -= Y.colwise().mean().eval();
  if (std::sqrt(Y.squaredNorm() / n) < 0.05) return false;   // too small a part of the view
  X /= std::sqrt(X.squaredNorm() / n); Y /= std::sqrt(Y.squaredNorm() / n);
  MatrixXd A(2 * n, 9);
  for (int i = 0; i < n; ++i) {
    A.row(2 * i) << X(i, 0), X(i, 1), 1, 0, 0, 0, -Y(i, 0) * X(i, 0), -Y(i, 0) * X(i, 1), -Y(i, 0);
    A.row(2 * i + 1) << 0, 0, 0, X(i, 0), X(i, 1), 1, -Y(i, 1) * X(i, 0), -Y(i, 1) * X(i, 1), -Y(i, 1);
  }
  const VectorXd w = A.jacobiSvd().singularValues();
  return w[7] > 0.02 * w[0];
}
}  // namespace

PBT_CLAIM(target_pose, 1500) {
  Want w; w.masks = false; w.shutters = false;
  Spec s = anySpec(c, w);
  s.ru = std::max(s.ru, 200); s.rv = std::max(s.rv, 200);
  Made m = make(s);
  int rows, cols; double size;
  Target::Ptr t = anyTarget(c, rows, cols, size);
  Matrix4d T;
  if (!anyPose(c, s, *t, size, T, 0.6, 2.5)) c.discard();
  Obs o(t, cv::Mat(s.rv, s.ru, CV_8UC1, cv::Scalar(0)));
  int n = look(c, s, *m.cam, T, *t, o);
  // some corners are not found
  if (c.boolean()) for (size_t i = 0; i < t->size(); ++i) { Vector2d k; if (o.imagePoint(i, k) && c.oneIn(4)) { o.removeImagePoint(i); --n; } }
  sm::kinematics::Transformation out;
  if (n < 4) {
    c.check(!m.cam->estimateTransformation(o, out), "a pose was estimated from fewer than four corners");
    c.label("too few corners");
    return;
  }
  if (!wellSpread(o, *t, T)) c.discard();
  // the plane must not be seen nearly from the side
  std::vector<unsigned> id; o.getCornersIdx(id);
  for (unsigned i : id) {
    const Vector3d p = (T * (Vector4d() << t->point(i), 1).finished()).head<3>().normalized();
    if (std::fabs(p.dot(T.block<3, 1>(0, 2))) < 0.3) c.discard();
  }
  c.label(s.model == PINHOLE ? "pinhole" : s.model == OMNI ? "omni" : s.model == EUCM ? "eucm" : "ds");
  c.nontrivial(n < (int)t->size());
  c << s.str() << " sees " << n << " of " << t->size();
  c.check(m.cam->estimateTransformation(o, out), "no pose from noise-free corners");
  const Matrix4d E = out.T() * T;   // identity
  const double rot = Eigen::AngleAxisd(Matrix3d(E.topLeftCorner<3, 3>())).angle(), tr = E.topRightCorner<3, 1>().norm();
  std::ostringstream e;
  e << "pose is off by " << rot << " rad and " << tr << " for a target of size " << size << " at " << T.topRightCorner<3, 1>().transpose();
  c.check(rot < 1e-3 && tr < 1e-3 * T.topRightCorner<3, 1>().norm() + 1e-3 * size, e.str());
  // every corner reprojects
  std::vector<cv::Point2f> r, p;
  o.set_T_t_c(out);
  c.eq((int)o.getCornerReprojection(m.cam, r), n, "number of reprojections");
  o.getCornersImageFrame(p);
  double sum = 0;
  int cnt = 0;
  for (int i = 0; i < n; ++i) {
    const double d = std::hypot(r[i].x - p[i].x, r[i].y - p[i].y);
    c.check(d < 0.0002 * std::max(s.fu, s.fv) + 0.002, "a corner does not reproject");
  }
  // sum of the reprojection errors under a slightly different pose
  Matrix4d T2 = T * num::transform(c, 0.02, 0.02 * size);
  for (size_t i = 0; i < t->size(); ++i) {
    Vector2d y; VectorXd k;
    if (!o.imagePoint(i, y)) continue;
    if (!m.cam->vsEuclideanToKeypoint((T2 * (Vector4d() << t->point(i), 1).finished()).head<3>(), k)) continue;
    sum += (y - k).norm();
    ++cnt;
  }
  double got = -1;
  c.eq((int)m.fixed->reprojectionError(o, T2.inverse(), got), cnt, "number of reprojected corners");
  c.near(got, sum, 1e-4 * (1 + sum), 0, "sum of the reprojection errors");
}

// Corners behind the camera or far off its axis must not disturb the pose.
PBT_CLAIM(target_pose_wide, 300) {
  Want w; w.masks = false; w.shutters = false; w.dist = NONE;
  w.model = c.integer(OMNI, DS);
  Spec s = anySpec(c, w);
  s.ru = s.rv = 1000; s.cu = s.cv = 500; s.fu = s.fv = 160;
  if (s.model == OMNI) { s.a = c.real(0.8, 1.5); s.fu = s.fv = 300; }
  if (s.model == EUCM) { s.a = c.real(0.6, 0.8); s.b = c.real(0.8, 1.2); }
  if (s.model == DS) { s.a = c.real(-0.2, 0.2); s.b = c.real(0.55, 0.7); }
  Made m = make(s);
  int rows, cols; double size;
  Target::Ptr t = anyTarget(c, rows, cols, size, 5, 5);
  Matrix4d T;
  if (!anyPose(c, s, *t, size, T, 0.25, 0.6)) c.discard();
  Obs o(t, cv::Mat(s.rv, s.ru, CV_8UC1, cv::Scalar(0)));
  look(c, s, *m.cam, T, *t, o, 3);
  int used = 0, total = 0;
  Obs o2(t);
  std::vector<unsigned> id; o.getCornersIdx(id);
  for (unsigned i : id) {
    const Vector3d p = (T * (Vector4d() << t->point(i), 1).finished()).head<3>().normalized();
    const double a = std::acos(p[2]) * 180 / M_PI;
    if (std::fabs(a - 80) < 0.1) c.discard();
    ++total;
    if (a < 80) { ++used; Vector2d k; o.imagePoint(i, k); o2.updateImagePoint(i, k); }
    if (a < 80 && std::fabs(p.dot(T.block<3, 1>(0, 2))) < 0.2) c.discard();
  }
  sm::kinematics::Transformation out;
  if (used < 4) { c.check(!m.cam->estimateTransformation(o, out), "a pose was estimated from fewer than four usable corners"); c.label("too few corners"); return; }
  if (!wellSpread(o2, *t, T)) c.discard();
  c.nontrivial(used < total);
  c.check(m.cam->estimateTransformation(o, out), "no pose from noise-free corners");
  const Matrix4d E = out.T() * T;
  const double rot = Eigen::AngleAxisd(Matrix3d(E.topLeftCorner<3, 3>())).angle(), tr = E.topRightCorner<3, 1>().norm();
  std::ostringstream e;
  e << "pose is off by " << rot << " rad and " << tr << "; " << used << " of " << total << " corners are in front";
  c.check(rot < 3e-3 && tr < 3e-3 * size, e.str());
}

PBT_CLAIM(too_few_corners, 150) {
  Want w; w.masks = false;
  Spec s = anySpec(c, w);
  Made m = make(s);
  int rows, cols; double size;
  Target::Ptr t = anyTarget(c, rows, cols, size);
  Obs o(t, cv::Mat(s.rv, s.ru, CV_8UC1, cv::Scalar(0)));
  const int n = c.integer(0, 3);
  for (int i = 0; i < n; ++i) o.updateImagePoint(c.integer(0, rows * cols - 1), Vector2d(s.cu + c.real(-5, 5), s.cv + c.real(-5, 5)));
  c.nontrivial(n > 0);
  sm::kinematics::Transformation out(Eigen::Matrix4d::Identity());
  if (c.boolean()) {
    // a whole row or column leaves the pose open just as well
    Obs line(t, cv::Mat(s.rv, s.ru, CV_8UC1, cv::Scalar(0)));
    const bool row = c.boolean();
    const int k = c.integer(0, (row ? rows : cols) - 1), len = row ? cols : rows;
    for (int i = 0; i < len; ++i) line.updateImagePoint(row ? k * cols + i : i * cols + k, Vector2d(s.cu + s.fu * 0.01 * (i - k), s.cv + s.fv * 0.003 * i));
    c.check(!m.cam->estimateTransformation(line, out), "a pose was estimated from corners on one line");
  }
  c.check(!m.cam->estimateTransformation(o, out), "a pose was estimated from fewer than four corners");
  if (s.model != PINHOLE) {
    // no row has the five corners a focal length needs
    std::vector<Obs> all(c.integer(1, 3), o);
    c.check(!m.cam->initializeIntrinsics(all), "intrinsics were initialized without enough corners");
    if (s.model > OMNI) c.check(m.fixed->equal(*makeCamera(s)), "a failed initialization changed the camera");
  }
  bool refused = false;
  try { m.cam->initializeIntrinsics(std::vector<Obs>()); } catch (const std::exception&) { refused = true; }
  c.check(refused, "intrinsics were initialized from no observation");
}

// The unified models start from images of lines, which determine the focal
// length exactly when the camera is a parabolic one centred in its image.
PBT_CLAIM(unified_intrinsics, 400) {
  Want w; w.masks = false; w.shutters = false; w.dist = NONE;
  w.model = c.integer(OMNI, DS);
  if (w.model == OMNI) w.dist = c.integer(NONE, RADTAN);   // lenses that are ideal without distortion
  Spec s = anySpec(c, w);
  Spec truth = s;
  truth.dist = NONE; truth.d.clear();
  truth.ru = c.integer(300, 1400); truth.rv = c.integer(300, 1400);
  truth.cu = (truth.ru - 1) / 2.; truth.cv = (truth.rv - 1) / 2.;
  const double f = truth.ru * c.real(0.15, 0.6);
  if (s.model == OMNI) { truth.a = 1; truth.fu = truth.fv = 2 * f; }
  if (s.model == EUCM) { truth.a = 0.5; truth.b = 1; truth.fu = truth.fv = f; }
  if (s.model == DS) { truth.a = 0; truth.b = 0.5; truth.fu = truth.fv = f; }
  c << "true camera " << truth.str();
  Made ideal = make(truth);
  int rows, cols; double size;
  Target::Ptr t = anyTarget(c, rows, cols, size, 3, 5);
  std::vector<Obs> views;
  const int N = c.integer(1, 4);
  int useful = 0, complete = 0;
  for (int v = 0; v < N; ++v) {
    Matrix4d T;
    if (!anyPose(c, truth, *t, size, T, 0.6, 2)) c.discard();
    Obs o(t, cv::Mat(truth.rv, truth.ru, CV_8UC1, cv::Scalar(0)));
    const int n = look(c, truth, *ideal.cam, T, *t, o);
    complete += n == (int)t->size();
    if (wellSpread(o, *t, T)) {
      bool ok = true;
      std::vector<unsigned> id; o.getCornersIdx(id);
      for (unsigned i : id) {
        const Vector3d p = (T * (Vector4d() << t->point(i), 1).finished()).head<3>().normalized();
        ok &= std::fabs(p.dot(T.block<3, 1>(0, 2))) > 0.3;
      }
      // a row that is not radial, with at least 5 corners that span an angle
      for (int r = 0; ok && r < rows; ++r) {
        std::vector<Vector3d> rays;
        for (int q = 0; q < cols; ++q) { Vector2d k; if (o.imageGridPoint(r, q, k)) rays.push_back((T * (Vector4d() << t->gridPoint(r, q), 1).finished()).head<3>().normalized()); }
        if (rays.size() < 5) continue;
        const double span = std::acos(std::min(1., rays.front().dot(rays.back())));
        const Vector3d nrm = rays.front().cross(rays.back()).normalized();
        if (span > 0.35 && std::hypot(nrm[0], nrm[1]) < 0.9) ++useful;
      }
    }
    views.push_back(o);
  }
  if (!useful) c.discard();
  Made m = make(s);
  c.nontrivial(N > 1 || complete == 0);
  c.check(m.cam->initializeIntrinsics(views), "intrinsics were not initialized");
  VectorXd got;
  MatrixXd P;
  m.cam->getParameters(P, true, false, false);
  Spec want = truth;
  const VectorXd e = want.params(true, false, false);
  std::ostringstream o;
  o << "parameters " << str(P.transpose()) << " instead of " << str(e);
  c.eq((int)P.size(), (int)e.size(), "number of parameters");
  for (int i = 0; i < e.size(); ++i) c.check(std::fabs(P(i) - e[i]) < 1e-3 * std::fabs(e[i]) + 1e-6, o.str());
  c.eq((int)m.cam->width(), truth.ru, "image width");
  c.eq((int)m.cam->height(), truth.rv, "image height");
  // the lens starts without distortion
  if (s.model == OMNI && s.dist != FOV) {
    MatrixXd D;
    m.cam->getParameters(D, false, true, false);
    c.check(D.size() == 0 || D.cwiseAbs().maxCoeff() == 0, "distortion was not reset");
  }
}

// The pinhole model starts from the vanishing points of target rows, imaged as
// circles; rows drawn on exact circles through two points at distance pi*f give f.
PBT_CLAIM(pinhole_focal_length, 800) {
  Want w; w.masks = false; w.shutters = c.boolean(); w.model = PINHOLE;
  Spec s = anySpec(c, w);
  Made m = make(s);
  const int rows = c.integer(2, 8), cols = c.integer(3, 9);
  Target::Ptr t = boost::make_shared<GridCalibrationTargetCheckerboard>(rows, cols, 0.1, 0.1);
  const int W = c.integer(100, 2000), H = c.integer(100, 2000);
  std::vector<Obs> views;
  std::vector<double> guesses;
  const int N = c.integer(1, 5);
  for (int v = 0; v < N; ++v) {
    Obs o(t, cv::Mat(H, W, CV_8UC1, cv::Scalar(0)));
    const double f = c.real(50, 900);
    const double half = M_PI * f / 2, a = c.real(-M_PI, M_PI);
    const Vector2d mid(c.real(-100, 1000), c.real(-100, 1000)), ex(std::cos(a), std::sin(a)), ey(-ex[1], ex[0]);
    const bool gap = N > 1 && c.oneIn(3);   // an incomplete view is not used
    std::vector<double> used;
    for (int r = 0; r < rows; ++r) {
      double h = 0;   // centre of the circle, along ey
      for (int k = 0; k < 50; ++k) {
        h = c.real(-1.5, 1.5) * half;
        bool far = std::fabs(h) > 0.05 * half;
        for (double u : used) far &= std::fabs(u - h) > 0.05 * half;
        if (far) break;
        if (k == 49) c.discard();
      }
      used.push_back(h);
      const double R = std::hypot(h, half), t0 = c.real(-M_PI, M_PI), dt = c.real(0.15, 0.5);
      for (int q = 0; q < cols; ++q) {
        const Vector2d p = mid + ey * h + R * (ex * std::cos(t0 + q * dt) + ey * std::sin(t0 + q * dt));
        o.updateImagePoint(r * cols + q, p);
      }
    }
    if (gap) o.removeImagePoint(c.integer(0, rows * cols - 1));
    else for (int i = 0; i < rows * (rows - 1) / 2; ++i) guesses.push_back(f);
    c << (gap ? "gap " : "f ") << f;
    views.push_back(o);
  }
  if (guesses.empty()) c.discard();
  std::sort(guesses.begin(), guesses.end());
  const size_t n = guesses.size();
  const double want = n % 2 ? guesses[n / 2] : 0.5 * (guesses[n / 2 - 1] + guesses[n / 2]);
  c << rows << "x" << cols;
  c.nontrivial(rows != cols);
  c.check(m.cam->initializeIntrinsics(views), "focal length was not initialized");
  MatrixXd P;
  m.cam->getParameters(P, true, false, false);
  Eigen::Vector4d e(want, want, (W - 1) / 2., (H - 1) / 2.);
  std::ostringstream msg;
  msg << "parameters " << str(P.transpose()) << " instead of " << str(e);
  c.check(P.size() == 4, "number of parameters");
  for (int i = 0; i < 4; ++i) c.check(std::fabs(P(i) - e[i]) < 2e-3 * std::fabs(e[i]), msg.str());
  c.eq((int)m.cam->width(), W, "image width");
  c.eq((int)m.cam->height(), H, "image height");
  if (s.dist != FOV) {
    MatrixXd D;
    m.cam->getParameters(D, false, true, false);
    c.check(D.size() == 0 || D.cwiseAbs().maxCoeff() == 0, "distortion was not reset");
  }
}

PBT_MAIN("C06", "some corners of the target are not seen or not usable; several views or no complete one; grids that are not square")

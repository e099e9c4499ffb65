// C05: grid targets, target observations, the detector around them, masks and shutters.
#include <cameras.hpp>
#include <archive.hpp>
#include <aslam_cameras/cameras.hpp>
#include <aslam_cameras/cameras/GridCalibrationTargetCheckerboard.hpp>
#include <aslam_cameras/cameras/GridCalibrationTargetCirclegrid.hpp>
#include <aslam_cameras/cameras/GridCalibrationTargetObservation.hpp>
#include <aslam_cameras/cameras/GridDetector.hpp>
#include <aslam_cameras_april/GridCalibrationTargetAprilgrid.hpp>
#include <boost/make_shared.hpp>
#include <opencv2/imgproc/imgproc.hpp>
using namespace cam;
using namespace aslam::cameras;
using num::str;
typedef GridCalibrationTargetBase Target;
typedef GridCalibrationTargetCheckerboard Checker;
typedef GridCalibrationTargetCirclegrid Circles;
typedef GridCalibrationTargetAprilgrid April;
typedef GridCalibrationTargetObservation Obs;

namespace {
struct Grid {
  int kind, rows, cols;   // in points
  double a, b;            // spacings, or tag size and relative spacing
  Vector3d at(int r, int q) const {
    switch (kind) {
      case 0: return Vector3d(a * r, b * q, 0);
      case 1: return Vector3d(a * r, a * q, 0);
      case 2: return Vector3d((2 * q + r % 2) * a, r * a, 0);
      default: {
        const double step = a * (1 + b);
        return Vector3d((q / 2) * step + (q % 2) * a, (r / 2) * step + (r % 2) * a, 0);
      }
    }
  }
  Target::Ptr make() const {
    Circles::CirclegridOptions asym;
    asym.useAsymmetricCirclegrid = true;
    switch (kind) {
      case 0: return boost::make_shared<Checker>(rows, cols, a, b);
      case 1: return boost::make_shared<Circles>(rows, cols, a);
      case 2: return boost::make_shared<Circles>(rows, cols, a, asym);
      default: return boost::make_shared<April>(rows / 2, cols / 2, a, b);
    }
  }
};
Grid anyGrid(pbt::Case& c, int kinds = 4) {
  Grid g;
  g.kind = c.integer(0, kinds - 1);
  g.rows = c.integer(1, 12); g.cols = c.integer(1, 12);
  if (g.kind == 3) { g.rows *= 2; g.cols *= 2; }
  g.a = c.logReal(1e-3, 2); g.b = c.logReal(1e-3, 2);
  c << "kind " << g.kind << ", " << g.rows << "x" << g.cols << ", " << g.a << " " << g.b;
  c.label(g.kind == 0 ? "checkerboard" : g.kind == 1 ? "circles" : g.kind == 2 ? "asymmetric circles" : "tags");
  return g;
}
void sameTarget(pbt::Case& c, const Grid& g, Target& t, const std::string& w) {
  c.eq((int)t.rows(), g.rows, w + "rows");
  c.eq((int)t.cols(), g.cols, w + "columns");
  c.eq((int)t.size(), g.rows * g.cols, w + "number of points");
  MatrixXd all = t.points();
  c.eq((int)all.rows(), g.rows * g.cols, w + "rows of points()");
  c.eq((int)all.cols(), 3, w + "columns of points()");
  std::set<size_t> seen;
  const double tol = 1e-12 * (1 + g.a + g.b) * 50;
  for (int r = 0; r < g.rows; ++r)
    for (int q = 0; q < g.cols; ++q) {
      const size_t i = t.gridCoordinatesToPoint(r, q);
      c.eq((int)i, r * g.cols + q, w + "index of row, column");
      seen.insert(i);
      const Vector3d e = g.at(r, q);
      c.nearMat(t.point(i), e, tol, 0, w + "point()");
      c.nearMat(t.gridPoint(r, q), e, tol, 0, w + "gridPoint()");
      c.nearMat(all.row(i).transpose(), e, tol, 0, w + "points()");
      const double* p = t.getPointDataPointer(i);
      c.nearMat(Vector3d(p[0], p[1], p[2]), e, tol, 0, w + "getPointDataPointer()");
      const std::pair<size_t, size_t> back = t.pointToGridCoordinates(i);  // column, row
      c.eq((int)back.first, q, w + "column of a point");
      c.eq((int)back.second, r, w + "row of a point");
    }
  c.eq((int)seen.size(), g.rows * g.cols, w + "distinct indices");
}
}  // namespace

PBT_CLAIM(grid_geometry, 1500) {
  const Grid g = anyGrid(c);
  Target::Ptr t = g.make();
  c.nontrivial(g.rows != g.cols && g.rows * g.cols > 3);
  sameTarget(c, g, *t, "");
  // a moved point is seen by every way of reading it, and by no other point
  const int i = c.integer(0, g.rows * g.cols - 1), k = c.integer(0, 2);
  const MatrixXd before = t->points();
  double* p = t->getPointDataPointer(i);
  p[k] += 0.25;
  MatrixXd expect = before;
  expect(i, k) += 0.25;
  c.nearMat(t->points(), expect, 0, 0, "after moving a point");
  for (size_t j : {t->size(), t->size() + 1, t->size() + 1000}) {
    bool refused = false;
    try { t->getPointDataPointer(j); } catch (const std::exception&) { refused = true; }
    c.check(refused, "a point beyond the grid was handed out");
  }
}

PBT_CLAIM(refused_targets, 200) {
  const Grid g = anyGrid(c);
  Grid bad = g;
  const double v = c.boolean() ? 0 : -c.logReal(1e-3, 10);
  if (c.boolean()) bad.a = v;
  else { bad.b = v; if (g.kind == 1 || g.kind == 2) bad.a = v; }
  c << "then " << bad.a << " " << bad.b;
  bool refused = false;
  try { bad.make(); } catch (const std::exception&) { refused = true; }
  c.nontrivial();
  c.check(refused, "a target without a positive spacing was made");
  refused = false;
  try { Obs o((Target::Ptr())); } catch (const std::exception&) { refused = true; }
  c.check(refused, "an observation of no target was made");
}

template <class T> static void storedTarget(pbt::Case& c, const Grid& g, const boost::shared_ptr<Target>& t, int kind) {
  T out;
  arc::load(kind, arc::save(kind, *boost::dynamic_pointer_cast<T>(t)), out);
  sameTarget(c, g, out, std::string(arc::kNames[kind]) + " archive: ");
}
PBT_CLAIM(stored_targets, 200) {
  const Grid g = anyGrid(c);
  Target::Ptr t = g.make();
  const int kind = c.integer(0, 3);
  if (g.kind == 3 && kind == arc::PORTABLE && c.boolean()) c.label("tags, portable");
  c.nontrivial(g.rows != g.cols);
  if (g.kind == 0) storedTarget<Checker>(c, g, t, kind);
  else if (g.kind < 3) storedTarget<Circles>(c, g, t, kind);
  else storedTarget<April>(c, g, t, kind);
}

namespace {
struct Expected {  // what an observation should hold
  Grid g;
  std::map<int, Vector2d> in;
  bool haveT = false, haveImage = false;
  Eigen::Matrix4d T = Eigen::Matrix4d::Identity();
  int rows = 0, cols = 0;
  long ns = 0;
};
void sameObs(pbt::Case& c, const Expected& m, const Obs& o, const std::string& w) {
  const int n = m.g.rows * m.g.cols;
  c.eq(o.hasSuccessfulObservation(), !m.in.empty(), w + "hasSuccessfulObservation");
  std::vector<cv::Point3f> P;
  std::vector<cv::Point2f> p;
  std::vector<unsigned> idx;
  P.resize(3); p.resize(2); idx.resize(5);  // old contents are dropped
  c.eq((size_t)o.getCornersTargetFrame(P), m.in.size(), w + "number of target points");
  c.eq((size_t)o.getCornersImageFrame(p), m.in.size(), w + "number of image points");
  c.eq((size_t)o.getCornersIdx(idx), m.in.size(), w + "number of indices");
  c.eq(P.size(), m.in.size(), w + "target points returned");
  c.eq(p.size(), m.in.size(), w + "image points returned");
  c.eq(idx.size(), m.in.size(), w + "indices returned");
  size_t k = 0;
  for (auto& e : m.in) {
    c.eq((int)idx[k], e.first, w + "index of an observed corner");
    const Vector3d t = m.g.at(e.first / m.g.cols, e.first % m.g.cols);
    c.nearMat(Vector3d(P[k].x, P[k].y, P[k].z), t, 1e-6 * (1 + t.norm()), 0, w + "target point of an observed corner");
    c.nearMat(Vector2d(p[k].x, p[k].y), e.second, 1e-6 * (1 + e.second.norm()), 0, w + "image point of an observed corner");
    ++k;
  }
  for (int i = 0; i < n; ++i) {
    Vector2d q(-1, -1), q2(-2, -2);
    const bool a = o.imagePoint(i, q), b = o.imageGridPoint(i / m.g.cols, i % m.g.cols, q2);
    auto it = m.in.find(i);
    c.eq(a, it != m.in.end(), w + "corner observed?");
    c.eq(b, a, w + "corner at row, column observed?");
    if (a) {
      c.nearMat(q, it->second, 0, 0, w + "image point");
      c.nearMat(q2, it->second, 0, 0, w + "image point at row, column");
    }
  }
  for (size_t i : {(size_t)n, (size_t)n + 7}) {
    Vector2d q;
    bool refused = false;
    try { o.imagePoint(i, q); } catch (const std::exception&) { refused = true; }
    c.check(refused, w + "a corner beyond the grid was returned");
  }
  c.eq((int)o.imRows(), m.rows, w + "image rows");
  c.eq((int)o.imCols(), m.cols, w + "image columns");
  c.eq(o.image().data != NULL, m.haveImage, w + "has image");
  if (m.haveT) c.nearMat(o.T_t_c().T(), m.T, 1e-12, 1e-12, w + "pose");
  c.eq((long)o.time().toNSec(), m.ns, w + "time");
}
}  // namespace

PBT_CLAIM(observation_histories, 1200) {
  Expected m;
  m.g = anyGrid(c);
  Target::Ptr t = m.g.make();
  boost::shared_ptr<Obs> o;
  if (c.boolean()) o.reset(new Obs(t));
  else {
    m.rows = c.integer(1, 20); m.cols = c.integer(1, 20); m.haveImage = true;
    o.reset(new Obs(t, cv::Mat(m.rows, m.cols, CV_8UC1, cv::Scalar(3))));
  }
  int removed = 0;
  const int steps = c.integer(0, 25);
  for (int s = 0; s < steps; ++s) {
    const int n = m.g.rows * m.g.cols, i = c.integer(0, n - 1);
    switch (c.integer(0, 11)) {
      case 0: {
        removed += m.in.erase(i);
        o->removeImagePoint(i);
        c << "remove " << i;
        break;
      }
      case 1: {  // all of a row, as a detector does
        const int r = i / m.g.cols;
        for (int q = 0; q < m.g.cols; ++q) { const Vector2d v(r + 0.5, q + 0.25); o->updateImagePoint(r * m.g.cols + q, v); m.in[r * m.g.cols + q] = v; }
        c << "row " << r;
        break;
      }
      case 2: {
        bool refused = false;
        try { if (c.boolean()) o->updateImagePoint(n + i, Vector2d(1, 1)); else o->removeImagePoint(n + i); } catch (const std::exception&) { refused = true; }
        c.check(refused, "a corner beyond the grid was changed");
        break;
      }
      case 3: {
        m.rows = c.integer(1, 30); m.cols = c.integer(1, 30); m.haveImage = true;
        o->setImage(cv::Mat(m.rows, m.cols, CV_8UC1, cv::Scalar(9)));
        c << "image";
        break;
      }
      case 4: o->clearImage(); m.haveImage = false; c << "clear image"; break;
      case 5: {
        m.haveT = true; m.T = num::transform(c, 3, 3);
        o->set_T_t_c(sm::kinematics::Transformation(m.T));
        m.T = o->T_t_c().T();
        c << "pose";
        break;
      }
      case 6: { m.ns = c.integer64(0, 4000000000000000000LL); aslam::Time s; s.fromNSec(m.ns); o->setTime(s); break; }
      case 7: if (c.oneIn(3)) {
        m.g = anyGrid(c); t = m.g.make(); o->setTarget(t); m.in.clear();
        c << "new target";
        break;
      }
      default: {
        Vector2d v(c.anyReal(2000), c.anyReal(2000));
        o->updateImagePoint(i, v);
        m.in[i] = v;
        c << "update " << i;
      }
    }
    if (c.oneIn(6)) sameObs(c, m, *o, "midway: ");
  }
  c.nontrivial(removed > 0 && !m.in.empty());
  sameObs(c, m, *o, "");
  Obs copy(*o);
  if (!m.in.empty()) copy.removeImagePoint(m.in.begin()->first);
  copy.set_T_t_c(sm::kinematics::Transformation());
  sameObs(c, m, *o, "after changing a copy: ");
  if (c.oneIn(4)) {
    const int k = c.integer(0, 2);   // targets are exported for these archives
    Obs in(Checker::Ptr(new Checker(2, 2, 1, 1)));
    arc::load(k, arc::save(k, *o), in);
    sameObs(c, m, in, std::string(arc::kNames[k]) + " archive: ");
    c.eq((int)in.target()->rows(), m.g.rows, "rows of the stored target");
    sameTarget(c, m.g, *in.target(), "stored target: ");
  }
  if (m.in.size() && !m.haveT) {
    Spec s = anySpec(c);
    std::vector<cv::Point2f> r;
    bool refused = false;
    try { o->getCornerReprojection(makeCamera(s), r); } catch (const std::exception&) { refused = true; }
    c.check(refused, "corners were reprojected without a pose");
  }
}

namespace {
// A target whose detector sees what it is told to.
struct Scripted : Target {
  MatrixXd px; std::vector<bool> ok; bool found = true;
  Scripted(const Grid& g) : Target(g.rows, g.cols) {
    _points.resize(g.rows * g.cols, 3);
    for (int i = 0; i < g.rows * g.cols; ++i) _points.row(i) = g.at(i / g.cols, i % g.cols).transpose();
  }
  bool computeObservation(const cv::Mat&, MatrixXd& out, std::vector<bool>& o) const override { out = px; o = ok; return found; }
};
}  // namespace

// The detector stores what the target's detector saw, and its filter drops
// exactly the corners whose reprojection error is out of line.
PBT_CLAIM(grid_detector, 300) {
  Grid g;
  g.kind = 0; g.rows = c.integer(3, 7); g.cols = c.integer(3, 7); g.a = g.b = c.real(0.05, 0.15);
  auto t = boost::make_shared<Scripted>(g);
  Want w; w.dist = c.boolean() ? NONE : RADTAN; w.masks = false; w.shutters = false; w.model = PINHOLE;
  Spec s = anySpec(c, w);
  s.ru = 752; s.rv = 480; s.fu = c.real(300, 600); s.fv = s.fu * c.real(0.95, 1.05); s.cu = 376; s.cv = 240;
  for (auto& e : s.d) e *= 0.1;
  Ptr cam = makeCamera(s);
  // a pose from which the target is seen
  Eigen::Matrix4d T_c_t = Eigen::Matrix4d::Identity();
  T_c_t.topLeftCorner<3, 3>() = num::expSO3(c.real(0, 0.5) * num::unit3(c));
  const Vector3d mid(g.a * (g.rows - 1) / 2, g.a * (g.cols - 1) / 2, 0);
  const double dist = g.a * 8 * c.real(0.8, 2);
  T_c_t.topRightCorner<3, 1>() = Vector3d(c.real(-.2, .2) * dist * .3, c.real(-.2, .2) * dist * .3, dist) - T_c_t.topLeftCorner<3, 3>() * mid;
  const int n = g.rows * g.cols;
  t->px = MatrixXd::Zero(n, 2);
  t->ok.assign(n, true);
  int bad = 0, hidden = 0;
  for (int i = 0; i < n; ++i) {
    const Vector3d p = T_c_t.topLeftCorner<3, 3>() * t->point(i) + T_c_t.topRightCorner<3, 1>();
    VectorXd k;
    if (!cam->vsEuclideanToKeypoint(p, k)) c.discard();
    t->px.row(i) = k.transpose();
    if (c.oneIn(10)) { t->ok[i] = false; ++hidden; }
    else if (c.oneIn(10)) { t->px(i, 0) += c.real(-8, 8); t->px(i, 1) += c.real(-8, 8); ++bad; }
  }
  t->found = !c.oneIn(8);
  c << g.rows << "x" << g.cols << " " << s.str() << " bad " << bad << " hidden " << hidden << " found " << t->found;
  GridDetector::GridDetectorOptions plain, filter;
  filter.filterCornerOutliers = true;
  filter.filterCornerSigmaThreshold = c.real(0.5, 3);
  filter.filterCornerMinReprojError = c.real(0.01, 2);
  const aslam::Time stamp(c.integer(0, 1000000), c.integer(0, 999999999));
  cv::Mat image(48, 75, CV_8UC1, cv::Scalar(0));
  Obs o0(t), o1(t), o2(t);
  o1.updateImagePoint(0, Vector2d(5, 5));   // leftovers of an earlier image
  Expected m; m.g = g; m.rows = 48; m.cols = 75; m.haveImage = true; m.ns = stamp.toNSec();
  for (int i = 0; i < n; ++i) if (t->ok[i]) m.in[i] = t->px.row(i).transpose();
  GridDetector d0(cam, t, plain), d1(cam, t, filter);
  c.eq(d0.findTargetNoTransformation(image, stamp, o0), t->found, "found (no pose)");
  sameObs(c, m, o0, "without pose: ");
  const bool ok = d0.findTarget(image, stamp, o0);
  c.check(!ok || t->found, "found what was not seen");
  m.haveT = ok;
  if (ok) m.T = o0.T_t_c().T();
  sameObs(c, m, o0, "with pose: ");
  if (t->found && bad == 0 && n - hidden >= 8) {
    c.check(ok, "the pose of a clean observation was not found");
    c.nearMat(o0.T_t_c().T() * T_c_t, Eigen::Matrix4d::Identity(), 1e-3, 0, "pose of the camera");
  }
  const bool ok1 = d1.findTarget(image, stamp, o1);
  c.eq(ok1, ok, "success with the filter");
  if (ok) {
    std::vector<cv::Point2f> r;
    c.eq((size_t)o0.getCornerReprojection(cam, r), m.in.size(), "number of reprojections");
    std::vector<double> e;
    std::vector<int> id;
    size_t k = 0;
    for (auto& q : m.in) {
      const Vector3d p = (m.T.inverse() * (Vector4d() << t->point(q.first), 1).finished()).head<3>();
      VectorXd z;
      cam->vsEuclideanToKeypoint(p, z);
      c.nearMat(Vector2d(r[k].x, r[k].y), Vector2d(z), 1e-3, 1e-6, "reprojected corner");
      e.push_back((Vector2d(z) - q.second).norm());
      id.push_back(q.first);
      ++k;
    }
    double mean = 0, var = 0;
    for (double x : e) mean += x / e.size();
    for (double x : e) var += (x - mean) * (x - mean) / e.size();
    const double lim = mean + filter.filterCornerSigmaThreshold * std::sqrt(var);
    int drop = 0;
    Expected m1 = m;
    for (size_t i = 0; i < e.size(); ++i) {
      if (std::fabs(e[i] - lim) < 1e-3 || std::fabs(e[i] - filter.filterCornerMinReprojError) < 1e-3) c.discard();
      if (e[i] > lim && e[i] > filter.filterCornerMinReprojError) { m1.in.erase(id[i]); ++drop; }
    }
    c.nontrivial(drop > 0 && hidden > 0);
    sameObs(c, m1, o1, "filtered: ");
  } else sameObs(c, m, o1, "failed, with filter: ");
}

// Drawn checkerboards and circle grids: the corners come back at the drawn
// places, in grid order (possibly from the other end: both patterns allow it).
PBT_CLAIM(drawn_patterns, 24) {
  Grid g;
  g.kind = c.integer(0, 2);
  do { g.rows = c.integer(3, 7); g.cols = c.integer(3, 8); } while (g.rows == g.cols && g.rows < 0);
  if (g.rows == g.cols) ++g.cols;
  if (g.kind == 0 && g.rows % 2 == g.cols % 2) ++g.cols;   // a unique orientation needs one odd and one even side
  if (g.kind == 2) { g.rows = 2 * c.integer(3, 5) + 1; g.cols = c.integer(3, 5); }
  g.a = g.b = 1;
  c << "kind " << g.kind << " " << g.rows << "x" << g.cols;
  const double cell = g.kind == 2 ? 22 : 28;
  // pattern coordinates (x along columns, y along rows), a mild perspective, then pixels times S
  const int W = 480, H = 400, S = 4;
  Eigen::Matrix3d Hm;
  const double th = c.real(-0.25, 0.25), px = c.real(-2e-4, 2e-4), py = c.real(-2e-4, 2e-4);
  Hm << std::cos(th), -std::sin(th), W / 2., std::sin(th), std::cos(th), H / 2., px, py, 1;
  auto mid = [&]() { return g.kind == 2 ? Vector2d((2 * g.cols - 1) / 2., (g.rows - 1) / 2.) : Vector2d((g.cols - 1) / 2., (g.rows - 1) / 2.); }();
  auto at = [&](double x, double y) {
    Vector3d v = Hm * Vector3d((x - mid[0]) * cell, (y - mid[1]) * cell, 1);
    return Vector2d(v[0] / v[2], v[1] / v[2]);
  };
  cv::Mat big(H * S, W * S, CV_8UC1, cv::Scalar(255)), img;
  auto poly = [&](const std::vector<Vector2d>& q) {
    std::vector<cv::Point> pts;
    for (auto& v : q) pts.push_back(cv::Point((int)std::lround((v[0] + .5) * S - .5), (int)std::lround((v[1] + .5) * S - .5)));
    cv::fillConvexPoly(big, pts.data(), (int)pts.size(), cv::Scalar(0));
  };
  std::vector<Vector2d> want;
  if (g.kind == 0) {
    for (int r = -1; r < g.rows; ++r) for (int q = -1; q < g.cols; ++q) if ((r + q) & 1) poly({at(q, r), at(q + 1, r), at(q + 1, r + 1), at(q, r + 1)});
    for (int r = 0; r < g.rows; ++r) for (int q = 0; q < g.cols; ++q) want.push_back(at(q, r));
  } else {
    for (int r = 0; r < g.rows; ++r) for (int q = 0; q < g.cols; ++q) {
      const double x = g.kind == 1 ? q : 2 * q + r % 2, y = r;
      want.push_back(at(x, y));
      std::vector<Vector2d> ring;
      const double rad = g.kind == 1 ? 0.28 : 0.45;
      for (int k = 0; k < 40; ++k) ring.push_back(at(x + rad * std::cos(k * M_PI / 20), y + rad * std::sin(k * M_PI / 20)));
      poly(ring);
    }
  }
  cv::resize(big, img, cv::Size(W, H), 0, 0, cv::INTER_AREA);
  Target::Ptr t = g.make();
  MatrixXd out; std::vector<bool> ok;
  const bool found = t->computeObservation(img, out, ok);
  c.label(found ? "found" : "not found");
  c.nontrivial(found);
  if (!found) return;
  c.eq((size_t)out.rows(), t->size(), "number of corners");
  c.eq(ok.size(), t->size(), "number of flags");
  double fwd = 0, rev = 0;
  for (size_t i = 0; i < want.size(); ++i) {
    c.check(ok[i], "a corner of a pattern seen as a whole is missing");
    fwd = std::max(fwd, (Vector2d(out.row(i)) - want[i]).norm());
    rev = std::max(rev, (Vector2d(out.row(want.size() - 1 - i)) - want[i]).norm());
  }
  const double e = g.kind == 2 ? fwd : std::min(fwd, rev);
  c.label(fwd <= rev ? "forwards" : "backwards");
  if (!(std::min(fwd, rev) < 1.0)) { std::ostringstream m; m << "corners are off by " << e << " pixels"; c.fail(m.str()); }
  // an empty image shows nothing
  MatrixXd o2; std::vector<bool> k2;
  c.check(!t->computeObservation(cv::Mat(H, W, CV_8UC1, cv::Scalar(200)), o2, k2), "a pattern was found in an empty image");
}

PBT_CLAIM(masks, 800) {
  const int R = c.integer(1, 14), C = c.integer(1, 14);
  Eigen::MatrixXi M(R, C);
  for (int r = 0; r < R; ++r) for (int q = 0; q < C; ++q) M(r, q) = c.oneIn(3) ? 0 : c.integer(1, 255);
  const double scale = c.oneIn(3) ? 1 : c.logReal(0.1, 4);
  c << R << "x" << C << " scale " << scale;
  cv::Mat img(R, C, CV_8UC1);
  for (int r = 0; r < R; ++r) for (int q = 0; q < C; ++q) img.at<uchar>(r, q) = M(r, q);
  ImageMask byImage(img, scale), byMatrix, bySet;
  c.check(!byMatrix.isSet(), "a new mask is set");
  c.check(byMatrix.isValid(Vector2d(-5, 1e6)), "no mask forbids a pixel");
  byMatrix.setMaskFromMatrix(M); byMatrix.setScale(scale);
  bySet.setMask(img); bySet.setScale(scale);
  img.setTo(0);   // the masks hold their own copy
  c.nontrivial(scale != 1 && R != C);
  c.check(byImage.isBinaryEqual(byMatrix) && bySet.isBinaryEqual(byImage), "the same mask made in three ways differs");
  for (const ImageMask* m : {&byImage, &byMatrix, &bySet}) {
    c.check(m->isSet(), "mask not set");
    c.eq(m->getScale(), scale, "scale");
    Eigen::MatrixXi B = m->getMaskAsMatrix();
    c.check(B.rows() == R && B.cols() == C && B == M, "the mask read back differs");
    for (int k = 0; k < 12; ++k) {
      double u = c.real(-3, C + 3) / scale, v = c.real(-3, R + 3) / scale;
      if (c.oneIn(4)) u = c.integer(-1, C + 1) / scale;
      const double a = u * scale, b = v * scale;
      const bool allowed = a >= 0 && b >= 0 && a < C && b < R && M((int)b, (int)a) > 0;
      c.eq(m->isValid(Vector2d(u, v)), allowed, "allowed?");
    }
  }
  ImageMask other(byImage);
  Eigen::MatrixXi N = M;
  const int r = c.integer(0, R - 1), q = c.integer(0, C - 1);
  N(r, q) = (N(r, q) + 1) % 256;
  other.setMaskFromMatrix(N);
  c.check(!other.isBinaryEqual(byImage), "masks that differ in a pixel compare equal");
  c.check(byImage.getMaskAsMatrix() == M, "a copy's change changed the mask");
  other = ImageMask(byImage); other.setScale(scale * 1.5);
  c.check(!other.isBinaryEqual(byImage), "masks of different scale compare equal");
  const int k = c.integer(0, 3);
  ImageMask in;
  arc::load(k, arc::save(k, byImage), in);
  c.check(in.isBinaryEqual(byImage), std::string("mask differs after a ") + arc::kNames[k] + " archive");
  bool refused = false;
  try { ImageMask bad(cv::Mat(R, C, CV_32FC1, cv::Scalar(1)), 1); } catch (const std::exception&) { refused = true; }
  c.check(refused, "a mask of floats was accepted");
}

PBT_CLAIM(shutters, 600) {
  Spec s = anySpec(c);
  if (s.model > OMNI) c.discard();
  s.rs = c.boolean();
  s.masked = s.masked && !s.rs ? s.masked : s.masked;
  if (s.rs) s.lineDelay = c.oneIn(10) ? 0 : c.sign() * c.logReal(1e-7, 1e-3);
  Made m = make(s);
  Vector2d k(c.real(0, s.ru), c.real(0, s.rv));
  if (c.oneIn(4)) k[1] = c.integer(0, s.rv - 1);
  c << s.str() << " pixel " << str(k.transpose());
  c.nontrivial(s.rs && s.lineDelay != 0);
  const double want = s.rs ? s.lineDelay * k[1] : 0;
  c.near(m.cam->vsTemporalOffset(k).toSec(), want, 2e-9, 1e-12, "capture time of a pixel row");
  c.near(m.cam->temporalOffset(k).toSec(), want, 2e-9, 1e-12, "capture time of a pixel row");
  MatrixXd J;
  m.cam->temporalOffsetIntrinsicsJacobian(k, J, true, true, true);
  const int n = m.cam->minimalDimensions(true, true, true);
  c.eq((int)J.cols(), n, "parameters of the capture time");
  MatrixXd e = MatrixXd::Zero(1, n);
  if (s.rs) e(0, n - 1) = k[1];
  c.nearMat(J, e, 1e-12, 1e-12, "Jacobian of the capture time");
}

PBT_MAIN("C05", "grids that are not square, observation histories with a removal that leaves corners, detections in which the filter drops a corner while others are hidden, found patterns, scaled masks, rolling shutters with a line delay")

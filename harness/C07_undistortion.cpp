// C07: undistorters, their ideal geometry and the overlap of two fields of view.
#include <cameras.hpp>
#include <aslam_cameras/cameras.hpp>
#include <aslam_imgproc/PinholeUndistorter.hpp>
#include <aslam_imgproc/OmniUndistorter.hpp>
#include <aslam_imgproc/NullUndistorter.hpp>
#include <aslam_imgproc/calculateOverlappingFov.hpp>
#include <../src/calculateOverlappingFov.cpp>   // not part of the library's own list of sources
#include <sm_property_tree/BoostPropertyTree.hpp>
#include <boost/make_shared.hpp>
#include <opencv2/imgproc/imgproc.hpp>
using namespace cam;
using namespace aslam;
using namespace aslam::cameras;
using num::str;
using Eigen::Matrix4d;
typedef sm::kinematics::Transformation Transformation;

namespace {
// a lens one can undistort all over the image
Spec niceSpec(pbt::Case& c, int model, int dist, bool masked = false) {
  Spec s;
  s.model = model; s.dist = dist;
  s.ru = c.integer(16, 120); s.rv = c.integer(16, 120);
  const double m = std::max(s.ru, s.rv);
  s.fu = m * c.real(0.6, 2.5); s.fv = s.fu * c.real(0.8, 1.25);
  s.cu = s.ru * c.real(0.35, 0.65); s.cv = s.rv * c.real(0.35, 0.65);
  if (model == OMNI) s.a = c.real(0.1, 1);
  if (dist == RADTAN) s.d = {c.real(-0.25, 0.2), c.real(-0.04, 0.04), c.real(-0.01, 0.01), c.real(-0.01, 0.01)};
  if (dist == EQUI) s.d = {c.real(-0.05, 0.05), c.real(-0.02, 0.02), c.real(-0.01, 0.01), c.real(-0.003, 0.003)};
  if (dist == FOV) s.d = {c.real(0.5, 1)};
  s.masked = masked;
  if (masked) { s.mask = cv::Mat(400, 400, CV_8UC1, cv::Scalar(255)); s.maskScale = 1; }
  c << s.str();
  // the corners and edges, as far as the lens bends them, lie where it is one to one
  for (int i = 0; i <= 8; ++i)
    for (int j = 0; j <= 8; ++j) {
      Vector2d y((s.ru * i / 8.0 - s.cu) / s.fu, (s.rv * j / 8.0 - s.cv) / s.fv), z = y;
      for (int k = 0; k < 60; ++k) z += 0.7 * (y - refDistort(s, z));
      if (!((refDistort(s, z) - y).norm() < 1e-9) || !invertible(s, z * 1.15)) c.discard();
    }
  return s;
}
// image whose value is its column, or its row
cv::Mat ramp(int w, int h, bool column) {
  cv::Mat m(h, w, CV_32FC1);
  for (int y = 0; y < h; ++y)
    for (int x = 0; x < w; ++x) m.at<float>(y, x) = column ? x : y;
  return m;
}
struct Conf { double alpha, scale; };
Conf anyConf(pbt::Case& c) {
  Conf k;
  k.alpha = c.oneIn(3) ? c.boolean() : c.real(0, 1);
  k.scale = c.oneIn(2) ? 1 : c.real(0.4, 1.8);
  c << "alpha " << k.alpha << " scale " << k.scale;
  return k;
}

// undistorting shows every ideal pixel the distorted pixel of the same ray
void checkMap(pbt::Case& c, const UndistorterBase& u, const Base& ideal, const Spec& s, const std::string& w) {
  cv::Mat U, V;
  u.undistortImage(ramp(s.ru, s.rv, true), U);
  u.undistortImage(ramp(s.ru, s.rv, false), V);
  c.eq(U.cols, (int)ideal.width(), w + ": columns of the undistorted image and of the ideal geometry");
  c.eq(U.rows, (int)ideal.height(), w + ": rows of the undistorted image and of the ideal geometry");
  int seen = 0;
  for (int i = 0; i < U.rows; i += 1 + U.rows / 24)
    for (int j = 0; j < U.cols; j += 1 + U.cols / 24) {
      VectorXd k(2);
      k << j, i;
      Vector3d p;
      if (!ideal.vsKeypointToEuclidean(k, p)) c.fail(w + ": a pixel of the ideal camera has no ray: " + str(k.transpose()));
      double margin;
      const Vector2d y = refNormalize(s, p, margin);
      // beyond the source the lens may bend back: such a pixel says nothing
      if (!(margin > 0) || !invertible(s, y, 0.1)) continue;
      const Vector2d d = refPixel(s, y);
      if (d[0] >= 0.05 && d[1] >= 0.05 && d[0] <= s.ru - 1.05 && d[1] <= s.rv - 1.05) {
        ++seen;
        const double e = std::max(std::fabs(U.at<float>(i, j) - d[0]), std::fabs(V.at<float>(i, j) - d[1]));
        if (e > 1 / 32.0 + 2e-3) {
          std::ostringstream o;
          o << w << ": undistorted pixel " << k.transpose() << " shows source pixel " << U.at<float>(i, j) << ' ' << V.at<float>(i, j)
            << ", its ray comes from " << d.transpose();
          c.fail(o.str());
        }
      } else if ((d[0] < -1.05 || d[1] < -1.05 || d[0] > s.ru + 0.05 || d[1] > s.rv + 0.05)) {
        c.check(U.at<float>(i, j) == 0 && V.at<float>(i, j) == 0, w + ": a pixel from outside the source is not empty");
      }
    }
  ++c.checks;
  if (seen > 20) c.nontrivial();
}
// a fractional size may be rounded either way
template <typename U, typename G>
void checkFrame(pbt::Case& c, U& u, const Spec& s, boost::shared_ptr<G> ideal, double fracW = 0, double fracH = 0) {
  cv::Mat img(s.rv, s.ru, CV_8UC1), flat;
  for (int i = 0; i < img.rows * img.cols; ++i) img.data[i] = (i * 37 + i / 11) % 251;
  const cv::Mat before = img.clone();
  boost::shared_ptr<FrameBase> f = u.buildFrame(img);
  u.undistortImage(img, flat);
  c.check(f->geometryBase() && f->geometryBase().get() == ideal.get(), "the frame does not carry the ideal geometry");
  const cv::Mat& got = f->image();
  c.check(got.size() == flat.size() && got.type() == flat.type() && cv::countNonZero(got != flat) == 0,
          "the frame's image is not the undistorted image");
  c.check(cv::countNonZero(img != before) == 0, "undistorting changed the source image");
  c.check(std::abs(got.cols - (int)ideal->width()) <= (fracW ? 1 : 0), "columns of the frame's image and of its geometry");
  c.check(std::abs(got.rows - (int)ideal->height()) <= (fracH ? 1 : 0), "rows of the frame's image and of its geometry");
}

template <typename D, typename Mask, typename DS>
void pinhole(pbt::Case& c, const Spec& s, const Conf& k, DS fill) {
  typedef PinholeUndistorter<D, Mask> U;
  D d = fill();
  Made m = make(s);
  boost::shared_ptr<typename U::distorted_geometry_t> g = boost::dynamic_pointer_cast<typename U::distorted_geometry_t>(m.cam);
  if (!g) c.fail("harness: the camera has another type");
  U u(g, cv::INTER_LINEAR, k.alpha, k.scale);
  boost::shared_ptr<typename U::ideal_geometry_t> I = u.idealGeometry();
  c.check(u.idealGeometryBase().get() == I.get() && u.distortedGeometryBase().get() == g.get(), "geometries reported");
  c.eq((int)I->width(), (int)(s.ru * k.scale), "ideal width");
  c.eq((int)I->height(), (int)(s.rv * k.scale), "ideal height");
  checkMap(c, u, *I, s, "pinhole");
  checkFrame(c, u, s, I);
  c.check(I->shutter().isBinaryEqual(g->shutter()) && I->mask().isBinaryEqual(g->mask()), "shutter or mask of the ideal geometry");
  // alpha 0 shows valid pixels only, alpha 1 all of the source
  const double fx = I->projection().fu(), fy = I->projection().fv();
  U u0(g, cv::INTER_LINEAR, 0, k.scale), u1(g, cv::INTER_LINEAR, 1, k.scale);
  auto I0 = u0.idealGeometry(), I1 = u1.idealGeometry();
  const double f0 = I0->projection().fu(), f1 = I1->projection().fu(), g0 = I0->projection().fv(), g1 = I1->projection().fv();
  c.check(fx >= std::min(f0, f1) * (1 - 1e-9) && fx <= std::max(f0, f1) * (1 + 1e-9) && fy >= std::min(g0, g1) * (1 - 1e-9) &&
              fy <= std::max(g0, g1) * (1 + 1e-9), "the focal length is not between those of alpha 0 and 1");
  c.check(f0 >= f1 * (1 - 1e-9) && g0 >= g1 * (1 - 1e-9), "alpha 0 shows more of the scene than alpha 1");
  const double tol = 1.5 + 0.02 * std::max(s.ru, s.rv);
  for (int e = 0; e < 4; ++e)
    for (int t = 0; t <= 8; ++t) {
      const double a = t / 8.0;
      VectorXd q(2);
      const double W = I0->width() - 1, H = I0->height() - 1;
      q << (e < 2 ? a * W : (e == 2 ? 0 : W)), (e < 2 ? (e == 0 ? 0 : H) : a * H);
      Vector3d p;
      c.check(I0->vsKeypointToEuclidean(q, p), "a border pixel has no ray");
      double margin;
      const Vector2d z = refPixel(s, refNormalize(s, p, margin));
      if (!(z[0] > -tol && z[1] > -tol && z[0] < s.ru + tol && z[1] < s.rv + tol))
        c.fail("with alpha 0 border pixel " + str(q.transpose()) + " comes from outside the source: " + str(z.transpose()));
      // the source's border, undistorted with the reference model
      Vector2d b((e < 2 ? a * s.ru : (e == 2 ? 0 : s.ru)), (e < 2 ? (e == 0 ? 0 : s.rv) : a * s.rv));
      const Vector2d y((b[0] - s.cu) / s.fu, (b[1] - s.cv) / s.fv);
      Vector2d n = y;
      for (int i = 0; i < 60; ++i) n += 0.7 * (y - refDistort(s, n));
      const double X = I1->projection().fu() * n[0] + I1->projection().cu(), Y = I1->projection().fv() * n[1] + I1->projection().cv();
      const double o = tol * std::max(1.0, k.scale);
      if (!(X > -o && Y > -o && X < I1->width() + o && Y < I1->height() + o))
        c.fail("with alpha 1 source border pixel " + str(b.transpose()) + " falls outside the ideal image");
    }
  ++c.checks;
}
}  // namespace

PBT_CLAIM(pinhole_undistorter, 400) {
  const int dist = c.integer(RADTAN, EQUI);
  const bool masked = c.oneIn(4);
  Spec s = niceSpec(c, PINHOLE, dist, masked);
  Conf k = anyConf(c);
  c.label(dist == RADTAN ? "radtan" : "equidistant");
  auto no = [] { return 0; };
  if (dist == RADTAN) {
    if (masked) pinhole<RadialTangentialDistortion, ImageMask>(c, s, k, [&] { return RadialTangentialDistortion(); });
    else pinhole<RadialTangentialDistortion, NoMask>(c, s, k, [&] { return RadialTangentialDistortion(); });
  } else {
    if (masked) pinhole<EquidistantDistortion, ImageMask>(c, s, k, [&] { return EquidistantDistortion(); });
    else pinhole<EquidistantDistortion, NoMask>(c, s, k, [&] { return EquidistantDistortion(); });
  }
  (void)no;
}

PBT_CLAIM(omni_undistorter, 400) {
  Spec s = niceSpec(c, OMNI, RADTAN);
  Conf k = anyConf(c);
  Made m = make(s);
  typedef OmniUndistorter<NoMask> U;
  auto g = boost::dynamic_pointer_cast<U::distorted_geometry_t>(m.cam);
  if (!g) c.fail("harness: the camera has another type");
  U u(g, cv::INTER_LINEAR, k.alpha, k.scale);
  auto I = u.idealGeometry();
  c.check(u.idealGeometryBase().get() == I.get() && u.distortedGeometryBase().get() == g.get(), "geometries reported");
  c.eq((int)I->width(), (int)(s.ru * k.scale), "ideal width");
  c.eq((int)I->height(), (int)(s.rv * k.scale), "ideal height");
  // one to one up to the corners of the ideal image, and all of it in front
  VectorXd q(2);
  for (int e = 0; e < 4; ++e) {
    q << (e & 1 ? I->width() : 0), (e & 2 ? I->height() : 0);
    Vector3d p;
    c.check(I->vsKeypointToEuclidean(q, p), "a corner of the ideal omni image has no ray although xi <= 1");
    if (p[2] < 0.05 * p.norm()) c.discard();
  }
  checkMap(c, u, *I, s, "omni");
  checkFrame(c, u, s, I);
  // the pinhole view of it
  auto P = u.idealPinholeGeometry();
  cv::Mat A, B;
  u.undistortImageToPinhole(ramp(s.ru, s.rv, true), A);
  u.undistortImageToPinhole(ramp(s.ru, s.rv, false), B);
  c.eq(A.cols, (int)P->width(), "columns of the pinhole image");
  c.eq(A.rows, (int)P->height(), "rows of the pinhole image");
  for (int i = 0; i < A.rows; i += 1 + A.rows / 16)
    for (int j = 0; j < A.cols; j += 1 + A.cols / 16) {
      q << j, i;
      Vector3d p;
      c.check(P->vsKeypointToEuclidean(q, p), "a pinhole pixel has no ray");
      VectorXd mid(2);
      if (!I->vsEuclideanToKeypoint(p, mid)) continue;
      double margin;
      const Vector2d y = refNormalize(s, p, margin);
      if (!(margin > 0) || !invertible(s, y, 0.1)) continue;
      const Vector2d d = refPixel(s, y);
      const double b = 3;
      if (d[0] < b || d[1] < b || d[0] > s.ru - 1 - b || d[1] > s.rv - 1 - b) continue;
      if (mid[0] < 1 || mid[1] < 1 || mid[0] > I->width() - 2 || mid[1] > I->height() - 2) continue;
      // curvature of the map between ideal pixels is all that linear interpolation misses
      const double e = std::max(std::fabs(A.at<float>(i, j) - d[0]), std::fabs(B.at<float>(i, j) - d[1]));
      const double tol = 0.12 * std::max(1.0, s.fu / I->projection().fu());
      if (e > tol) {
        std::ostringstream o;
        o << "pinhole pixel " << q.transpose() << " shows source pixel " << A.at<float>(i, j) << ' ' << B.at<float>(i, j)
          << ", its ray comes from " << d.transpose();
        c.fail(o.str());
      }
    }
  ++c.checks;
}

namespace {
template <typename C>
void nullCheck(pbt::Case& c, const Spec& s, double scale, bool copy) {
  Made m = make(s);
  auto g = boost::dynamic_pointer_cast<C>(m.cam);
  if (!g) c.fail("harness: the camera has another type");
  NullUndistorter<C> u(g, cv::INTER_LINEAR, scale, copy);
  auto I = u.idealGeometry();
  VectorXd want = s.params(true, true, true);
  const int o = s.nExtra();
  want.segment(o, 4) *= scale;
  MatrixXd got;
  u.idealGeometryBase()->getParameters(got, true, true, true);
  c.nearMat(got, want, 1e-9 * want.cwiseAbs().maxCoeff(), 0, "parameters of the scaled geometry");
  cv::Mat img(s.rv, s.ru, CV_8UC1), out;
  for (int i = 0; i < img.rows * img.cols; ++i) img.data[i] = (i * 37 + i / 11) % 251;
  u.undistortImage(img, out);
  if (scale == 1) {
    c.check(out.size() == img.size() && cv::countNonZero(out != img) == 0, "the null undistorter changed the image");
    c.check(copy == (out.data != img.data), "the null undistorter copied, or did not");
    c.check(I->isBinaryEqual(*g), "the null undistorter changed the geometry");
  }
  auto frac = [](double v) { return v - std::floor(v + 1e-9) > 2e-9; };
  checkFrame(c, u, s, I, frac(s.ru * scale), frac(s.rv * scale));
  c.nontrivial();
}
}  // namespace
PBT_CLAIM(null_undistorter, 1000) {
  const int model = c.integer(PINHOLE, OMNI), dist = c.integer(NONE, EQUI);
  Spec s = niceSpec(c, model, dist);
  const double scale = c.oneIn(2) ? 1 : c.oneIn(2) ? 0.5 : c.real(0.3, 2.5);
  const bool copy = c.boolean();
  c << "scale " << scale << (copy ? " copying" : "");
  c.label(scale == 1 ? "unscaled" : "scaled");
  if (model == PINHOLE) {
    if (dist == NONE) nullCheck<CameraGeometry<PinholeProjection<NoDistortion>, GlobalShutter, NoMask>>(c, s, scale, copy);
    if (dist == RADTAN) nullCheck<CameraGeometry<PinholeProjection<RadialTangentialDistortion>, GlobalShutter, NoMask>>(c, s, scale, copy);
    if (dist == EQUI) nullCheck<CameraGeometry<PinholeProjection<EquidistantDistortion>, GlobalShutter, NoMask>>(c, s, scale, copy);
  } else {
    if (dist == NONE) nullCheck<CameraGeometry<OmniProjection<NoDistortion>, GlobalShutter, NoMask>>(c, s, scale, copy);
    if (dist == RADTAN) nullCheck<CameraGeometry<OmniProjection<RadialTangentialDistortion>, GlobalShutter, NoMask>>(c, s, scale, copy);
    if (dist == EQUI) nullCheck<CameraGeometry<OmniProjection<EquidistantDistortion>, GlobalShutter, NoMask>>(c, s, scale, copy);
  }
}

namespace {
void putSpec(sm::PropertyTree t, const Spec& s) {
  sm::PropertyTree p(t, "projection");
  p.setDouble("fu", s.fu); p.setDouble("fv", s.fv); p.setDouble("cu", s.cu); p.setDouble("cv", s.cv);
  p.setInt("ru", s.ru); p.setInt("rv", s.rv);
  if (s.model == OMNI) p.setDouble("xi", s.a);
  sm::PropertyTree d(p, "distortion");
  static const char* R[] = {"k1", "k2", "p1", "p2"};
  static const char* E[] = {"k1", "k2", "k3", "k4"};
  for (size_t i = 0; i < s.d.size(); ++i) d.setDouble(s.dist == RADTAN ? R[i] : E[i], s.d[i]);
  if (s.rs) { sm::PropertyTree h(t, "shutter"); h.setDouble("line-delay", s.lineDelay); }
}
}  // namespace
PBT_CLAIM(undistorters_by_name, 300) {
  const bool null = c.boolean();
  const int model = c.integer(PINHOLE, OMNI);
  const int dist = null ? c.integer(NONE, EQUI) : model == OMNI ? RADTAN : c.integer(RADTAN, EQUI);
  Spec s = niceSpec(c, model, dist);
  s.rs = null && c.boolean();
  if (s.rs) s.lineDelay = c.real(1e-6, 1e-4);
  Conf k = anyConf(c);
  std::string name;
  if (null) name = std::string("Null") + (dist == NONE ? "" : dist == RADTAN ? "Distorted" : "EquidistantDistorted") +
                   (model == OMNI ? "Omni" : "Pinhole") + (s.rs ? "Rs" : "") + "CameraGeometry";
  else name = std::string(dist == EQUI ? "Equidistant" : "") + (model == OMNI ? "OmniUndistorter" : "PinholeUndistorter");
  c << name;
  c.label(null ? "null" : "undistorter");
  sm::BoostPropertyTree u, g;
  u.setString("type", name);
  u.setInt("interpolationType", cv::INTER_LINEAR);
  u.setDouble("scale", k.scale);
  u.setDouble("alpha", k.alpha);
  u.setBool("makeCopy", true);
  putSpec(g, s);
  boost::shared_ptr<UndistorterBase> made = UndistorterBase::createUndistorter(u, g);
  c.check(bool(made), "no undistorter was made");
  c.nontrivial();
  Made m = make(s);
  boost::shared_ptr<Base> distorted = made->distortedGeometryBase(), ideal = made->idealGeometryBase();
  if (!null) {
    c.check(m.fixed->equal(*distorted), "the distorted geometry is not the configured one");
    checkMap(c, *made, *ideal, s, name);
  } else if (k.scale == 1) {
    c.check(m.fixed->equal(*ideal), "the geometry is not the configured one");
  } else {
    m.fixed->resize(k.scale);
    MatrixXd a, b;
    m.cam->getParameters(a, true, true, true);
    ideal->getParameters(b, true, true, true);
    c.nearMat(a, b, 1e-9 * a.cwiseAbs().maxCoeff(), 0, "scaled geometry");
  }
  sm::BoostPropertyTree bad;
  bad.setString("type", name + (c.boolean() ? "X" : " "));
  bad.setInt("interpolationType", 1); bad.setDouble("scale", 1); bad.setDouble("alpha", 0); bad.setBool("makeCopy", true);
  bool threw = false;
  try { UndistorterBase::createUndistorter(bad, g); } catch (const std::exception&) { threw = true; }
  c.check(threw, "an unknown undistorter type was accepted");
}

// ------------------------------------------------------- overlapping fields of view
namespace {
// 1 visible under both readings of "distance", 0 under neither, -1 they differ
int overlaps(pbt::Case& c, const Spec& a, const Spec& b, Base& ca, Base& cb, const Matrix4d& T_b_a, const VectorXd& k, const Eigen::VectorXi& dist) {
  Vector3d p;
  if (!ca.vsKeypointToEuclidean(k, p)) return 0;
  const Vector3d n = p.normalized();
  bool any = false, all = true;
  for (int reading = 0; reading < 2; ++reading) {
    bool seen = false;
    for (int i = 0; i < dist.size(); ++i) {
      const double r = reading ? p.norm() + dist[i] : dist[i];
      for (int wiggle = 0; wiggle < 1; ++wiggle) {
        const Vector3d q = T_b_a.topLeftCorner<3, 3>() * (n * r) + T_b_a.topRightCorner<3, 1>();
        VectorXd out(2);
        if (cb.vsEuclideanToKeypoint(q, out)) {
          // on the very edge rounding decides
          if (out[0] < 1e-6 || out[1] < 1e-6 || out[0] > b.ru - 1e-6 || out[1] > b.rv - 1e-6) return -1;
          seen = true;
        } else if (out.size() == 2 && out.allFinite() && (std::fabs(out[0]) < 1e-6 || std::fabs(out[1]) < 1e-6 ||
                   std::fabs(out[0] - b.ru) < 1e-6 || std::fabs(out[1] - b.rv) < 1e-6)) return -1;
      }
    }
    any |= seen;
    all &= seen;
  }
  return any == all ? (any ? 1 : 0) : -1;
}
void checkOverlap(pbt::Case& c, const ImageMask& mask, double ratio, const Spec& a, const Spec& b, Base& ca, Base& cb, const Matrix4d& T_b_a,
                  const Eigen::VectorXi& dist, double scale, const std::string& w) {
  const cv::Mat& M = mask.getMask();
  c.near(mask.getScale(), scale, 1e-12, 0, w + "scale of the mask");
  c.eq(M.cols, (int)(a.ru * scale), w + "columns of the mask");
  c.eq(M.rows, (int)(a.rv * scale), w + "rows of the mask");
  const int on = cv::countNonZero(M);
  c.near(ratio, (double)on / (M.rows * M.cols), 1e-9, 0, w + "ratio and mask");
  int yes = 0, no = 0;
  for (int y = 0; y < M.rows; ++y)
    for (int x = 0; x < M.cols; ++x) {
      VectorXd k(2);
      k << x / scale, y / scale;
      const int o = overlaps(c, a, b, ca, cb, T_b_a, k, dist);
      if (o < 0) continue;
      ++(o ? yes : no);
      const int v = M.at<uchar>(y, x);
      if ((v != 0) != (o == 1)) {
        std::ostringstream s;
        s << w << "mask says " << v << " for pixel " << k.transpose() << ", whose ray is " << (o ? "" : "not ") << "seen by the other camera";
        c.fail(s.str());
      }
      if (v != 0 && v != 255) c.fail(w + "mask value is neither 0 nor 255");
    }
  ++c.checks;
  if (yes && no) { c.nontrivial(); c.label(w + "partial overlap"); }
}
}  // namespace
PBT_CLAIM(overlapping_fields_of_view, 250) {
  const bool typed = c.oneIn(3);
  Spec a = niceSpec(c, PINHOLE, RADTAN), b = niceSpec(c, typed ? PINHOLE : c.integer(PINHOLE, OMNI), RADTAN);
  a.ru = std::min(a.ru, 48); a.rv = std::min(a.rv, 48); b.ru = std::min(b.ru, 48); b.rv = std::min(b.rv, 48);
  Matrix4d T = Matrix4d::Identity();   // a from b
  T.topLeftCorner<3, 3>() = num::expSO3(num::unit3(c) * c.real(0, 0.9));
  T.topRightCorner<3, 1>() = num::unit3(c) * c.real(0, 2);
  Eigen::VectorXi dist(c.integer(1, 3));
  for (int i = 0; i < dist.size(); ++i) dist[i] = c.integer(1, 20);
  const double scale = c.oneIn(2) ? 1 : c.oneIn(2) ? 0.5 : c.real(0.3, 1.2);
  c << "distances " << str(dist.transpose().cast<double>()) << " scale " << scale << " T " << str(T);
  Made A = make(a), B = make(b);
  ImageMask m1, m2;
  if (c.boolean()) m1.setMask(cv::Mat(c.integer(1, 60), c.integer(1, 60), CV_8UC1, cv::Scalar(255)));   // whatever was there before
  double r1 = -1, r2 = -1;
  const Transformation t(T);
  if (typed) {
    typedef CameraGeometry<PinholeProjection<RadialTangentialDistortion>, GlobalShutter, NoMask> G;
    calculateOverlappingFOV<G, G>(boost::dynamic_pointer_cast<G>(A.cam), boost::dynamic_pointer_cast<G>(B.cam), t, m1, m2, r1, r2, dist, scale);
  } else calculateOverlappingFOV(*A.cam, *B.cam, t, m1, m2, r1, r2, dist, scale);
  checkOverlap(c, m1, r1, a, b, *A.cam, *B.cam, T.inverse(), dist, scale, "first ");
  checkOverlap(c, m2, r2, b, a, *B.cam, *A.cam, T, dist, scale, "second ");
}

PBT_MAIN("C07", "at least twenty undistorted pixels come from inside the source image, or the fields of view overlap in part, or the undistorter was made")

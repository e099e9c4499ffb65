// C08: frames, keypoints, landmarks, back projections and triangulation.
#include <cameras.hpp>
#include <archive.hpp>
#include <aslam_cameras/cameras.hpp>
#include <aslam_cameras/Frame.hpp>
#include <aslam_cameras/Landmark.hpp>
#include <aslam_cameras/KeypointIdentifier.hpp>
#include <aslam_cameras/cameras/Triangulation.hpp>
#include <boost/make_shared.hpp>
using namespace cam;
using namespace aslam;
using namespace aslam::cameras;
using namespace sm::kinematics;
using num::str;
using Eigen::Matrix3d; using Eigen::Matrix4d;

namespace {
struct Desc : DescriptorBase {
  int v;
  explicit Desc(int v = 0) : v(v) {}
  float distance(const DescriptorBase& o) const override { return std::abs(v - o.as<Desc>().v); }
  void initFromArray(const unsigned char* p) override { v = *p; }
  DescriptorBase* clone() const override { return new Desc(*this); }
  bool isBinaryEqual(const DescriptorBase& o) const override { return v == o.as<Desc>().v; }
  void setRandom() override {}
};
struct Kp {
  Vector2d y = Vector2d::Zero();
  Matrix2d R = Matrix2d::Identity();   // inverse covariance
  boost::uint64_t id = -1;
  bool hasL = false, hasB = false, enabled = true, noEnabled = false;
  Vector4d l; Matrix4d U;
  Vector3d b; Matrix3d V;
  int octave = 0;
  size_t trace = 0;
  bool noTrace = false;   // not known: it is not stored
  int desc = -1;
};
typedef Keypoint<2> K;
UncertainHomogeneousPoint anyLandmark(pbt::Case& c) {
  const Vector4d p = num::vec(c, 4, 5) + Vector4d(0, 0, 0, c.boolean() ? 6 : 0);
  const Matrix4d U = num::spd(c, 4, 1e-4, 1);
  return UncertainHomogeneousPoint(p, Matrix4d(0.5 * (U + U.transpose())));
}
void compare(pbt::Case& c, const KeypointBase& kb, const Kp& m, const std::string& w) {
  const K* k = dynamic_cast<const K*>(&kb);
  if (!k) c.fail(w + "has another type");
  c.check(k->y() == m.y && k->measurement() == m.y && kb.vsY() == m.y && kb.vsMeasurement() == m.y, w + "measurement");
  c.check(k->invR() == m.R && k->inverseMeasurementCovariance() == m.R && kb.vsInvR() == m.R, w + "inverse covariance");
  c.eq(k->landmarkId().getId(), m.id, w + "landmark id");
  c.eq(k->landmarkId().isSet(), m.id != boost::uint64_t(-1), w + "landmark id is set");
  c.eq(k->isLandmarkInitialized(), m.hasL, w + "has a landmark");
  c.eq(k->landmarkPtr() != NULL, m.hasL, w + "landmark pointer");
  if (m.hasL) c.check(k->landmark().toHomogeneous() == m.l && k->landmarkPtr()->U4() == m.U, w + "landmark");
  c.eq(k->isBackProjectionSet(), m.hasB, w + "has a back projection");
  if (m.hasB) c.check(k->backProjection()->mean() == m.b && k->backProjection()->covariance() == m.V, w + "back projection");
  c.eq(k->octave(), m.octave, w + "octave");
  if (!m.noTrace) c.eq(const_cast<K*>(k)->getTraceId(), m.trace, w + "trace id");
  if (!m.noEnabled) c.eq(kb.isLandmarkEnabled(), m.enabled, w + "landmark is enabled");
  c.eq(kb.descriptor() ? kb.descriptor()->as<Desc>().v : -1, m.desc, w + "descriptor");
  const Vector2d q = m.y + Vector2d(1.5, -2);
  const double e = (q - m.y).dot(m.R * (q - m.y));
  c.near(k->mahalonibisDistance(q), e, 1e-12, 1e-12, w + "Mahalanobis distance");
  c.near(kb.vsMahalonibisDistance(q), e, 1e-12, 1e-12, w + "Mahalanobis distance");
  c.eq((int)kb.dimension(), 2, w + "dimension");
}
void edit(pbt::Case& c, KeypointBase& kb, Kp& m, const Vector2d& pixel) {
  K& k = dynamic_cast<K&>(kb);
  switch (c.integer(0, 11)) {
    case 0: m.y = pixel; if (c.boolean()) k.setMeasurement(m.y); else kb.vsSetMeasurement(m.y); break;
    case 1: {
      const MatrixXd A = num::spd(c, 2, 0.1, 10);
      m.R = 0.5 * (A + A.transpose());
      if (c.boolean()) k.setInverseMeasurementCovariance(m.R); else if (c.boolean()) k.setInverseCovariance(m.R); else kb.vsSetInverseMeasurementCovariance(m.R);
      break;
    }
    case 2: m.id = c.oneIn(4) ? -1 : c.integer(0, 1000); kb.setLandmarkId(LandmarkId(m.id)); break;
    case 3: case 4: {
      const UncertainHomogeneousPoint p = anyLandmark(c);
      m.hasL = true; m.l = p.toHomogeneous(); m.U = p.U4();
      kb.setLandmark(p);
      break;
    }
    case 5: m.hasL = false; m.id = -1; kb.clearLandmark(); break;
    case 6: {
      m.hasB = true; m.b = num::unit3(c); m.V = num::spd(c, 3, 1e-4, 1);
      kb.setBackProjection(UncertainVector3(m.b, m.V));
      break;
    }
    case 7: m.hasB = true; m.b = num::unit3(c); m.V.setZero(); kb.setBackProjectionVector(m.b); break;
    case 8: if (c.boolean()) { m.hasB = false; kb.clearBackProjection(); } break;
    case 9: m.octave = c.integer(0, 6); k.setOctave(m.octave); break;
    case 10: m.trace = c.integer(0, 100000); m.noTrace = false; kb.setTraceId(m.trace); break;
    case 11:
      if (c.boolean()) { m.enabled = c.boolean(); m.noEnabled = false; if (m.enabled) kb.enableLandmark(); else kb.disableLandmark(); break; }
      m.desc = c.oneIn(3) ? -1 : c.integer(0, 99);
      if (m.desc < 0) kb.setDescriptorPtr(boost::shared_ptr<DescriptorBase>());
      else if (c.boolean()) kb.setDescriptor(Desc(m.desc));
      else if (c.boolean()) kb.setDescriptorRawPtr(new Desc(m.desc));
      else kb.setDescriptorPtr(boost::make_shared<Desc>(m.desc));
      break;
  }
}
template <class C> boost::shared_ptr<C> geometryOf(pbt::Case& c, const Spec& s) {
  auto g = boost::dynamic_pointer_cast<C>(make(s).cam);
  if (!g) c.fail("harness: the camera has another type");
  return g;
}
Vector2d anyPixel(pbt::Case& c, const Spec& s) { return Vector2d(c.real(0.1, 0.9) * s.ru, c.real(0.1, 0.9) * s.rv); }

// the unit ray of a pixel and its derivative, both by the reference model's camera
bool rayOf(pbt::Case&, const Base& cam, const Vector2d& y, Vector3d& r) {
  Vector3d p;
  if (!cam.vsKeypointToEuclidean(VectorXd(y), p)) return false;
  r = p.normalized();
  return r.allFinite();
}

template <class C>
void history(pbt::Case& c, const Spec& s) {
  typedef Frame<C> F;
  boost::shared_ptr<C> g = geometryOf<C>(c, s);
  boost::shared_ptr<F> f = boost::make_shared<F>();
  f->setGeometry(g);
  std::vector<Kp> m;
  boost::uint64_t id = f->id().getId();
  aslam::Time t = f->time();
  std::vector<cv::Mat> img(1);
  const int steps = c.integer(1, 30);
  int edits = 0, stores = 0;
  std::string log;
  for (int step = 0; step < steps; ++step) {
    const int op = c.integer(0, 15);
    log += " " + std::to_string(op);
    const int n = m.size(), i = n ? c.integer(0, n - 1) : 0;
    switch (op) {
      case 0: { Kp k; K& r = f->addKeypoint(); m.push_back(k); edit(c, r, m.back(), anyPixel(c, s)); break; }
      case 1: { Kp k; KeypointBase& r = static_cast<FrameBase&>(*f).addBaseKeypoint(); m.push_back(k); edit(c, r, m.back(), anyPixel(c, s)); break; }
      case 2: case 3: {
        Kp k; K x;
        for (int e = c.integer(1, 5); e > 0; --e) edit(c, x, k, anyPixel(c, s));
        if (op == 2) f->addKeypoint(x); else static_cast<FrameBase&>(*f).addBaseKeypoint(&x);
        m.push_back(k);
        break;
      }
      case 4: {
        const int q = c.integer(0, 4);
        typename F::keypoint_list_t xs(q);
        for (int j = 0; j < q; ++j) { Kp k; for (int e = c.integer(0, 3); e > 0; --e) edit(c, xs[j], k, anyPixel(c, s)); m.push_back(k); }
        if (c.boolean()) f->addKeypoints(xs);
        else if (q) static_cast<FrameBase&>(*f).addBaseKeypoints(&xs[0], q);
        break;
      }
      case 5: case 6: case 7: if (n) { edit(c, op == 5 ? static_cast<KeypointBase&>((*f)[i]) : op == 6 ? f->keypointBase(i) : f->keypointChecked(i), m[i], anyPixel(c, s)); ++edits; } break;
      case 8: if (n) { const int j = c.integer(0, n - 1); (*f)[i] = f->keypoint(j); m[i] = Kp(m[j]); } break;
      case 9: if (n) { const int j = c.integer(0, n - 1); f->keypoint(i).swap(f->keypoint(j)); std::swap(m[i], m[j]); } break;
      case 10: if (c.oneIn(4)) { static_cast<FrameBase&>(*f).clearKeypoints(); m.clear(); } break;
      case 11: { // a copy is independent of the original
        boost::shared_ptr<F> o = f;
        f = boost::make_shared<F>(*o);
        o->clearKeypoints();
        break;
      }
      case 12: case 13: { // storing
        for (size_t j = 0; j < m.size(); ++j)
          if (m[j].desc >= 0) { m[j].desc = -1; (*f)[j].setDescriptorPtr(boost::shared_ptr<DescriptorBase>()); }
        const int kind = c.integer(0, 3);
        boost::shared_ptr<F> o = boost::make_shared<F>();
        if (c.boolean()) { o->addKeypoint(); o->addKeypoint().setLandmark(anyLandmark(c)); }
        arc::load(kind, arc::save(kind, *f), *o);
        // an archive of decimal digits may move the last one of a time
        for (auto& k : m) { k.noTrace = true; k.noEnabled = true; }
        c.check(o->isBinaryEqual(*f) && f->isBinaryEqual(*o), "a frame loaded from " + std::string(arc::kNames[kind]) + " differs from the one stored");
        c.check(g->isBinaryEqual(o->geometry()), "the geometry of a loaded frame");
        f = o;
        ++stores;
        break;
      }
      case 14: id = c.integer(0, 100000); f->setId(FrameId(id)); t = aslam::Time(c.integer(0, 1000000), c.integer(0, 999999999)); f->setTime(t); break;
      case 15: {
        const int oct = c.integer(0, (int)img.size() - 1);
        if (c.oneIn(3)) { img.resize(c.integer(1, 4)); f->getOctavesMutable()->setNumOctaves(img.size()); }
        else {
          cv::Mat a(c.integer(1, 12), c.integer(1, 12), c.boolean() ? CV_8UC1 : CV_8UC3);
          for (size_t b = 0; b < a.total() * a.elemSize(); ++b) a.data[b] = c.integer(0, 255);
          img[oct] = a;
          f->setImage(a.clone(), oct);
        }
        break;
      }
    }
    c.eq(f->numKeypoints(), m.size(), "number of keypoints after" + log);
    c.eq(f->size(), m.size(), "size after" + log);
    size_t withId = 0;
    for (size_t j = 0; j < m.size(); ++j) {
      const std::string w = "keypoint " + std::to_string(j) + " after" + log + ": ";
      compare(c, static_cast<const F&>(*f).keypointBase(j), m[j], w);
      withId += m[j].id != boost::uint64_t(-1);
      Vector4d l;
      KeypointIdentifier kid(MultiFrameId(3), 0, j);
      c.eq(f->getLandmark(j, l), m[j].hasL, w + "getLandmark");
      if (m[j].hasL) c.check(l == m[j].l, w + "landmark of the frame");
      if (m[j].hasL) { c.check(f->getLandmark(kid, l) && l == m[j].l, w + "landmark by identifier"); }
      const double late = s.rs ? s.lineDelay * m[j].y[1] : 0;
      c.near((f->keypointTime(j) - t).toSec(), late, 2e-9, 0, w + "time");
      c.check(f->keypointTime(kid) == f->keypointTime(j), w + "time by identifier");
    }
    c.eq(f->numKeypointsWithALandmarkId(), withId, "keypoints with a landmark id after" + log);
    c.eq(f->getKeypoints().size(), m.size(), "keypoint list after" + log);
    c.eq(f->id().getId(), id, "frame id after" + log);
    c.check(f->time() == t, "frame time after" + log);
    for (size_t o = 0; o < img.size(); ++o) {
      const cv::Mat& a = f->image(o);
      c.check(a.size() == img[o].size() && (a.empty() || (a.type() == img[o].type() && std::equal(a.data, a.data + a.total() * a.elemSize(), img[o].data))),
              "image of an octave after" + log);
    }
  }
  bool threw = false;
  try { f->keypointChecked(m.size() + c.integer(0, 2)); } catch (const std::exception&) { threw = true; }
  c.check(threw, "keypointChecked accepted an index past the end");
  if (edits > 1 && m.size() > 1) c.nontrivial();
  if (stores) c.label("stored");
}

template <class C>
void measure(pbt::Case& c, const Spec& s) {
  typedef Frame<C> F;
  boost::shared_ptr<C> g = geometryOf<C>(c, s);
  Spec plain = s;
  F f;
  static_cast<FrameBase&>(f).setGeometryBase(g);
  c.check(f.geometryPtr() == g && f.geometryBase() == g, "geometry of the frame");
  const int n = c.integer(1, 5);
  std::vector<Vector2d> ys;
  std::vector<Matrix2d> Rs;
  for (int i = 0; i < n; ++i) {
    Vector3d p;
    Vector2d y;
    if (!visiblePoint(c, s, p, &y, 5)) c.discard();
    const Vector2d k = refPixel(s, y);
    const MatrixXd A = num::spd(c, 2, 0.05, 20);
    K& q = f.addKeypoint();
    q.setMeasurement(k);
    q.setInverseMeasurementCovariance(0.5 * (A + A.transpose()));
    ys.push_back(k);
    Rs.push_back(q.invR());
  }
  const bool stored = c.boolean(), uncertain = c.boolean();
  if (stored) f.computeAllBackProjections(uncertain);
  c << (stored ? (uncertain ? "stored with uncertainty" : "stored") : "on demand");
  for (int i = 0; i < n; ++i) {
    Vector3d r;
    if (!rayOf(c, *g, ys[i], r)) continue;
    const KeypointIdentifier kid(MultiFrameId(1), 0, i);
    BackProjection b, b2;
    b.viewOrigin.setConstant(9);
    f.getBackProjection(i, b);
    f.getBackProjection(kid, b2);
    const double tol = s.dist == NONE ? 1e-9 : 1e-6;
    c.nearMat(b.ray, r, tol, 0, "back projection of a keypoint");
    c.check(b2.ray == b.ray && b.viewOrigin.isZero(0) && b2.viewOrigin.isZero(0), "back projection by identifier, or its origin");
    UncertainBackProjection u, u2;
    f.getUncertainBackProjection(i, u);
    f.getUncertainBackProjection(kid, u2);
    c.nearMat(u.ray.mean(), r, tol, 0, "ray of the uncertain back projection");
    c.check(u.viewOrigin.mean().isZero(0) && u.viewOrigin.covariance().isZero(0), "origin of the uncertain back projection");
    c.check(u2.ray.mean() == u.ray.mean() && u2.ray.covariance() == u.ray.covariance(), "uncertain back projection by identifier");
    Matrix3d P = Matrix3d::Zero();
    if (!stored || uncertain) {
      MatrixXd E;
      const MatrixXd J = num::jacobian([&](const VectorXd& d) { Vector3d q = Vector3d::Constant(NAN); rayOf(c, *g, ys[i] + Vector2d(d), q); return VectorXd(q); }, 2, 0.5, &E);
      if (!J.allFinite() || E.maxCoeff() > 1e-4 * J.cwiseAbs().maxCoeff()) { c.label("numerical derivative undecided"); continue; }
      P = J * Rs[i].inverse() * J.transpose();
    }
    c.nearMat(u.ray.covariance(), P, 1e-3 * P.cwiseAbs().maxCoeff() + 1e-15, 0, "covariance of the back projection");
    c.nontrivial();

    // reprojection
    Vector3d p;
    if (!visiblePoint(c, s, p)) continue;
    const double w = c.boolean() ? 1 : c.logReal(0.1, 10);
    Vector4d ph;
    ph << p * w, w;
    VectorXd k3(2), k4(2), ku(2);
    const bool ok3 = f.computeProjection3(p, k3), ok4 = f.computeProjection4(ph, k4);
    VectorXd want(2);
    const bool see = g->vsEuclideanToKeypoint(p, want);
    c.eq(ok3, see, "projection of a Euclidean point");
    if (!see) continue;
    c.check(ok4, "a visible homogeneous point is not projected");
    c.nearMat(k3, want, 1e-9, 1e-12, "projection of a Euclidean point");
    c.nearMat(k4, want, 1e-7, 1e-9, "projection of a homogeneous point");
    Matrix4d U = num::spd(c, 4, 1e-6, 1e-2);
    const UncertainHomogeneousPoint up(ph, Matrix4d(0.5 * (U + U.transpose())));
    c.check(f.computeProjectionUhp(up, ku), "a visible uncertain point is not projected");
    c.nearMat(ku, want, 1e-7, 1e-9, "projection of an uncertain point");
    const Vector2d e = want - ys[i];
    const double e2 = e.dot(Rs[i] * e);
    double r3 = -1, r4 = -1, ru = -1, q;
    c.check(f.computeReprojectionError3(i, p, r3) && f.computeReprojectionError4(i, ph, r4) && f.computeReprojectionErrorUhp(i, up, ru), "a reprojection error was not computed");
    c.near(r3, e2, 1e-6, 1e-7, "reprojection error of a Euclidean point");
    c.near(r4, e2, 1e-5, 1e-6, "reprojection error of a homogeneous point");
    MatrixXd E;
    const Vector4d x = up.toHomogeneous();
    const MatrixXd J = num::jacobian([&](const VectorXd& d) { VectorXd o(2); o.setConstant(NAN); if (!g->vsHomogeneousToKeypoint(x + Vector4d(d), o)) o.setConstant(NAN); return o; }, 4, 1e-3 * x.norm(), &E);
    if (J.allFinite() && E.maxCoeff() < 1e-5 * J.cwiseAbs().maxCoeff()) {
      const Matrix2d S = Rs[i].inverse() + J * up.U4() * J.transpose();
      c.near(ru, e.dot(S.inverse() * e), 1e-6, 1e-4, "reprojection error of an uncertain point");
    }
    c.check(f.computeReprojectionError3(kid, p, q) && q == r3 && f.computeReprojectionError4(kid, ph, q) && q == r4 && f.computeReprojectionErrorUhp(kid, up, q) && q == ru,
            "reprojection errors by identifier");
    // a point the camera cannot see has no error
    r3 = -7;
    const Vector3d behind(-0.2 * p[0], 0.1, -std::fabs(p[2]) - 1);
    if (s.model == PINHOLE) c.check(!f.computeReprojectionError3(i, behind, r3), "a point behind the camera has a reprojection error");
  }
  // a frame for another camera refuses this geometry
  typedef Frame<ExtendedUnifiedCameraGeometry> G;
  G other;
  bool threw = false;
  try { static_cast<FrameBase&>(other).setGeometryBase(g); } catch (const std::exception&) { threw = true; }
  c.check(threw, "a frame accepted the geometry of another camera");
}
template <class Fn> void forCamera(pbt::Case& c, Fn fn) {
  Want w;
  w.masks = false;
  const int kind = c.integer(0, 3);
  w.model = kind == 3 ? OMNI : PINHOLE;
  w.dist = kind == 1 ? EQUI : kind == 2 ? RADTAN : RADTAN;
  w.shutters = false;
  Spec s = anySpec(c, w);
  s.rs = kind == 2;
  if (s.rs) s.lineDelay = c.real(0, 1e-4);
  c << s.str();
  fn(kind, s);
}
}  // namespace

PBT_CLAIM(frame_history, 1500) {
  forCamera(c, [&](int kind, const Spec& s) {
    switch (kind) {
      case 0: history<DistortedPinholeCameraGeometry>(c, s); break;
      case 1: history<EquidistantDistortedPinholeCameraGeometry>(c, s); break;
      case 2: history<DistortedPinholeRsCameraGeometry>(c, s); break;
      default: history<DistortedOmniCameraGeometry>(c, s); break;
    }
  });
}
PBT_CLAIM(rays_and_reprojection, 1500) {
  forCamera(c, [&](int kind, const Spec& s) {
    switch (kind) {
      case 0: measure<DistortedPinholeCameraGeometry>(c, s); break;
      case 1: measure<EquidistantDistortedPinholeCameraGeometry>(c, s); break;
      case 2: measure<DistortedPinholeRsCameraGeometry>(c, s); break;
      default: measure<DistortedOmniCameraGeometry>(c, s); break;
    }
  });
}
PBT_CLAIM(back_projection_values, 500) {
  // whatever was in that memory before
  const Vector3d r = num::vec(c, 3, 5), o = num::vec(c, 3, 5);
  alignas(32) unsigned char mem[sizeof(BackProjection) + sizeof(UncertainBackProjection)];
  std::memset(mem, c.integer(1, 255), sizeof mem);
  c.nontrivial();
  BackProjection* b = ::new ((void*)mem) BackProjection();
  c.check(b->getRay().isZero(0) && b->getViewOrigin().isZero(0), "a default back projection is not zero");
  b->~BackProjection();
  std::memset(mem, c.integer(1, 255), sizeof mem);
  b = ::new ((void*)mem) BackProjection(r);
  c.check(b->getRay() == r && b->getViewOrigin().isZero(0), "a back projection of a ray does not start at zero");
  b->~BackProjection();
  BackProjection two(r, o);
  c.check(two.getRay() == r && two.getViewOrigin() == o, "a back projection of a ray and an origin");
  two.setRay(o);
  two.setViewOrigin(r);
  c.check(two.ray == o && two.viewOrigin == r, "setters of a back projection");
  const Matrix3d P = num::spd(c, 3, 0.1, 2), Q = num::spd(c, 3, 0.1, 2);
  UncertainBackProjection d, e(r), f(UncertainVector3(r, P)), g(r, o), h(UncertainVector3(r, P), o), k(UncertainVector3(r, P), UncertainVector3(o, Q));
  c.check(d.ray.mean().isZero(0) && d.ray.covariance().isZero(0) && d.viewOrigin.mean().isZero(0) && d.viewOrigin.covariance().isZero(0), "a default uncertain back projection");
  c.check(e.ray.mean() == r && e.viewOrigin.mean().isZero(0) && e.ray.covariance().isZero(0), "an uncertain back projection of a ray");
  c.check(f.ray.mean() == r && f.ray.covariance() == P && f.viewOrigin.mean().isZero(0), "an uncertain back projection of an uncertain ray");
  c.check(g.ray.mean() == r && g.viewOrigin.mean() == o && g.viewOrigin.covariance().isZero(0), "an uncertain back projection of a ray and an origin");
  c.check(h.ray.covariance() == P && h.viewOrigin.mean() == o && h.viewOrigin.covariance().isZero(0), "an uncertain back projection of an uncertain ray and an origin");
  c.check(k.ray.covariance() == P && k.viewOrigin.mean() == o && k.viewOrigin.covariance() == Q, "a full uncertain back projection");
}

PBT_CLAIM(landmarks, 1500) {
  const int steps = c.integer(1, 12);
  struct M { Vector4d p; Matrix4d U; boost::uint64_t id, frame; int desc; };
  std::vector<Landmark> ls(2);
  std::vector<M> ms(2);
  for (auto& m : ms) {
    m.p = ls[0].toHomogeneous(); m.U = ls[0].point().U4(); m.id = -1; m.frame = -1; m.desc = -1;
  }
  std::string log;
  for (int i = 0; i < steps; ++i) {
    const int op = c.integer(0, 8), a = c.integer(0, 1);
    log += " " + std::to_string(op) + (a ? "b" : "a");
    Landmark& l = ls[a];
    M& m = ms[a];
    switch (op) {
      case 0: { UncertainHomogeneousPoint p = anyLandmark(c); l.setPoint(p); m.p = p.toHomogeneous(); m.U = p.U4(); break; }
      case 1: m.id = c.integer(0, 99); l.setLandmarkId(LandmarkId(m.id)); break;
      case 2: m.frame = c.integer(0, 99); l.setFrameId(m.frame); break;
      case 3: m.desc = c.integer(0, 99); if (c.boolean()) l.setDescriptor(Desc(m.desc)); else if (c.boolean()) l.setDescriptorRawPtr(new Desc(m.desc)); else l.setDescriptorPtr(boost::make_shared<Desc>(m.desc)); break;
      case 4: l.swap(ls[1 - a]); std::swap(ms[0], ms[1]); break;
      case 5: ls[1 - a] = l; ms[1 - a] = m; break;
      case 6: {
        l.setDescriptorPtr(boost::shared_ptr<DescriptorBase>());
        m.desc = -1;
        const int kind = c.integer(0, 3);
        Landmark o;
        if (c.boolean()) o = ls[1 - a];
        arc::load(kind, arc::save(kind, l), o);
        c.check(o.isBinaryEqual(l) && l.isBinaryEqual(o), "a loaded landmark differs from the one stored");
        l = o;
        break;
      }
      default: {
        K k; Kp x;
        for (int e = 0; e < 4; ++e) edit(c, k, x, Vector2d(3, 4));
        UncertainHomogeneousPoint p = anyLandmark(c);
        k.setLandmark(p);
        m.frame = c.integer(0, 99); m.id = k.landmarkId().getId(); m.desc = x.desc;
        if (op == 7) { l.fromKeypoint(m.frame, k); m.p = p.toHomogeneous(); m.U = p.U4(); }
        else {
          const Matrix4d T = num::transform(c, M_PI, 5);
          const Transformation t(T);
          l.fromTransformedKeypoint(m.frame, k, t);
          m.p = l.toHomogeneous(); m.U = l.point().U4();
          Vector4d want = T * p.toHomogeneous(), got = m.p;
          // homogeneous points are the same up to their scale
          c.nearMat(Vector4d(got.normalized() * (got.dot(want) < 0 ? -1 : 1)), Vector4d(want.normalized()), 1e-9, 0, "transformed landmark");
          Matrix4d V = T * p.U4() * T.transpose();
          if (std::fabs(got.norm() / want.norm() - 1) < 1e-9) c.nearMat(m.U, V, 1e-9 * V.norm(), 0, "covariance of the transformed landmark");
        }
      }
    }
    for (int b = 0; b < 2; ++b) {
      const std::string w = "landmark after" + log + ": ";
      const Landmark& k = ls[b];
      const M& x = ms[b];
      c.check(k.toHomogeneous() == x.p && k.point().U4() == x.U, w + "point");
      c.eq(k.landmarkId().getId(), x.id, w + "id");
      c.eq(k.frameId(), x.frame, w + "frame id");
      c.eq(k.descriptor() ? k.descriptor()->as<Desc>().v : -1, x.desc, w + "descriptor");
      if (std::fabs(x.p[3]) > 1e-3) c.nearMat(k.toEuclidean(), Vector3d(x.p.head<3>() / x.p[3]), 1e-9, 1e-12, w + "Euclidean point");
    }
  }
  if (steps > 3) c.nontrivial();
  K none;
  Landmark l;
  bool threw = false;
  try { l.fromTransformedKeypoint(1, none, Transformation()); } catch (const std::exception&) { threw = true; }
  c.check(threw, "a landmark was made of a keypoint that has none");
}

PBT_CLAIM(identifiers_are_ordered, 1500) {
  std::vector<KeypointIdentifier> v;
  std::vector<std::array<size_t, 3>> r;
  for (int i = 0; i < 3; ++i) {
    const std::array<size_t, 3> t = {{(size_t)c.integer(0, 2), (size_t)c.integer(0, 2), (size_t)c.integer(0, 2)}};
    v.push_back(KeypointIdentifier(MultiFrameId(t[0]), t[1], t[2]));
    r.push_back(t);
  }
  c.nontrivial();
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) {
      c.eq(v[i] < v[j], r[i] < r[j], "order of keypoint identifiers");
      c.eq(v[i] == v[j], r[i] == r[j], "equality of keypoint identifiers");
      c.eq(v[i].isBinaryEqual(v[j]), r[i] == r[j], "equality of keypoint identifiers");
    }
  KeypointIdentifier o;
  const int kind = c.integer(0, 3);
  arc::load(kind, arc::save(kind, v[0]), o);
  c.check(o == v[0], "a loaded keypoint identifier");
}

PBT_CLAIM(triangulation, 4000) {
  const Vector3d p = num::vec(c, 3, 20), a = num::vec(c, 3, 5), b = num::vec(c, 3, 5);
  const double s1 = c.logReal(0.1, 50) * c.sign(), s2 = c.logReal(0.1, 50) * c.sign();
  const Vector3d u = (p - a) / s1, v = (p - b) / s2;
  if ((p - a).norm() < 1e-2 || (p - b).norm() < 1e-2) c.discard();
  const Vector3d n = u.cross(v);
  const double sine = n.norm() / (u.norm() * v.norm());
  if (sine < 1e-3) c.discard();
  c << "points " << str(a.transpose()) << " and " << str(b.transpose()) << " rays " << str(u.transpose()) << " and " << str(v.transpose());
  c.nontrivial();
  const double tol = 1e-12 * 50 / (sine * sine) * (1 + p.norm() + a.norm() + b.norm());
  Vector3d q;
  double gap, t1, t2;
  cameras::triangulate(a, u, b, v, q, gap, t1, t2);
  c.nearMat(q, p, tol, 0, "point where the rays meet");
  c.near(gap, 0, tol, 0, "gap between rays that meet");
  c.near(t1 * u.norm(), s1 * u.norm(), tol, 0, "distance along the first ray");
  c.near(t2 * v.norm(), s2 * v.norm(), tol, 0, "distance along the second ray");
  // rays that pass each other at a known distance
  const double g = c.real(0, 3);
  const Vector3d w = n.normalized() * g;
  cameras::triangulate(a, u, b + w, v, q, gap, t1, t2);
  c.near(gap, g, tol, 0, "gap between skew rays");
  c.nearMat(q, Vector3d(p + 0.5 * w), tol, 0, "point between skew rays");
  c.near(t1 * u.norm(), s1 * u.norm(), tol, 0, "distance along the first skew ray");
  c.near(t2 * v.norm(), s2 * v.norm(), tol, 0, "distance along the second skew ray");
}

PBT_MAIN("C08", "two or more edits of a frame with two or more keypoints, a back projection with a judged covariance, more than three steps on landmarks, or rays with a parallax over 1e-3")

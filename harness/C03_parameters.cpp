// C03: histories of set / update / resize / copy / store / configure against a model of the parameters.
#include <cameras.hpp>
#include <sm_property_tree/BoostPropertyTree.hpp>
#include <opencv2/highgui/highgui.hpp>
#include <opencv2/imgcodecs.hpp>
using namespace cam;
using num::str;

static const char* kArchive[] = {"text", "xml", "binary", "portable binary"};

// A probe that exercises every derived value the camera may have cached.
static void sameBehaviour(pbt::Case& c, const Made& m, const Spec& s, const char* after) {
  Made f = make(s);
  const std::string w = std::string("after ") + after + ": ";
  c.check(m.fixed->equal(*f.cam), w + "the camera differs from a new one built with the expected parameters");
  c.check(f.fixed->equal(*m.cam), w + "equality is not symmetric");
  for (int i = 0; i < 2; ++i) {
    Vector3d p;
    if (!visiblePoint(c, s, p, 0, 2)) p = Vector3d(0.1, -0.05, 1);
    VectorXd k1, k2; MatrixXd J1, J2;
    bool a = m.cam->vsEuclideanToKeypoint(p, k1, J1), b = f.cam->vsEuclideanToKeypoint(p, k2, J2);
    c.eq(a, b, w + "validity");
    if (k2.allFinite()) { c.nearMat(k1, k2, 1e-12, 1e-12, w + "pixel"); if (J2.allFinite()) c.nearMat(J1, J2, 1e-12, 1e-12, w + "Jacobian"); }
    VectorXd k(2); k << c.real(0, s.ru), c.real(0, s.rv);
    Vector3d r1, r2; r1.setZero(); r2.setZero();
    a = m.cam->vsKeypointToEuclidean(k, r1); b = f.cam->vsKeypointToEuclidean(k, r2);
    c.eq(a, b, w + "back-projection validity");
    if (r2.allFinite()) c.nearMat(r1, r2, 1e-12, 1e-12, w + "ray");
    c.eq(m.cam->vsTemporalOffset(k).toNSec(), f.cam->vsTemporalOffset(k).toNSec(), w + "temporal offset");
  }
  c.eq(m.cam->width(), s.ru, w + "width");
  c.eq(m.cam->height(), s.rv, w + "height");
  c.eq(m.cam->hasMask(), s.masked && !s.mask.empty(), w + "hasMask");
  c.eq((int)m.cam->keypointDimension(), 2, w + "keypoint dimension");
  c.eq(m.cam->minimalDimensionsProjection(), s.nProj(), w + "projection dimensions");
  c.eq(m.cam->minimalDimensionsDistortion(), s.nDist(), w + "distortion dimensions");
  c.eq(m.cam->minimalDimensionsShutter(), s.nShut(), w + "shutter dimensions");
  for (int g = 0; g < 8; ++g) {
    const bool p = g & 1, d = g & 2, sh = g & 4;
    MatrixXd P;
    m.cam->getParameters(P, p, d, sh);
    VectorXd e = s.params(p, d, sh);
    c.eq(m.cam->minimalDimensions(p, d, sh), (int)e.size(), w + "number of parameters");
    c.eq((int)P.rows(), (int)e.size(), w + "rows of the parameters read");
    if (e.size()) { c.eq((int)P.cols(), 1, w + "columns of the parameters read"); c.check(P.col(0) == e, w + "parameters read " + str(P) + " expected " + str(e)); }
    MatrixXd J;
    m.cam->euclideanToKeypointIntrinsicsJacobian(Vector3d(0.1, 0.2, 1.5), J, p, d, sh);
    c.eq((int)J.cols(), (int)e.size(), w + "columns of the parameter Jacobian");
  }
}

struct Tmp {
  std::string f;
  Tmp() { char n[] = "/tmp/pbt_c03_XXXXXX"; int fd = mkstemp(n); close(fd); unlink(n); f = std::string(n) + ".png"; }
  ~Tmp() { unlink(f.c_str()); }
};

static Ptr fromTree(const Made& m, Spec& s) {
  sm::BoostPropertyTree t;
  const std::string p = "projection/", d = p + "distortion/";
  t.setDouble(p + "fu", s.fu); t.setDouble(p + "fv", s.fv); t.setDouble(p + "cu", s.cu); t.setDouble(p + "cv", s.cv);
  t.setInt(p + "ru", s.ru); t.setInt(p + "rv", s.rv);
  if (s.model == OMNI) t.setDouble(p + "xi", s.a);
  if (s.model == EUCM) { t.setDouble(p + "alpha", s.a); t.setDouble(p + "beta", s.b); }
  if (s.model == DS) { t.setDouble(p + "xi", s.a); t.setDouble(p + "alpha", s.b); }
  if (s.dist == RADTAN) { t.setDouble(d + "k1", s.d[0]); t.setDouble(d + "k2", s.d[1]); t.setDouble(d + "p1", s.d[2]); t.setDouble(d + "p2", s.d[3]); }
  if (s.dist == EQUI) for (int i = 0; i < 4; ++i) t.setDouble(d + "k" + std::to_string(i + 1), s.d[i]);
  if (s.dist == FOV) t.setDouble(d + "w", s.d[0]);
  if (s.rs) t.setDouble("shutter/line-delay", s.lineDelay);
  Tmp f;
  if (s.masked && s.mask.empty()) t.setString("mask/mask-file", f.f);
  else if (s.masked) { cv::imwrite(f.f, s.mask); t.setString("mask/mask-file", f.f); }
  if (s.masked) s.maskScale = 1;
  return m.fixed->fromTree(t);
}

PBT_CLAIM(histories_of_parameter_changes, 1500) {
  Spec s = anySpec(c);
  Made m = make(s);
  const int n = c.integer(1, 7);
  std::set<int> kinds;
  for (int i = 0; i < n; ++i) {
    const int op = c.integer(0, 7);
    kinds.insert(op);
    const bool p = c.boolean(), d = c.boolean(), sh = c.boolean();
    Spec t;
    if (op <= 2) { Want w; w.model = s.model; w.dist = s.dist; t = anySpec(c, w); t.rs = s.rs; if (!s.rs) t.lineDelay = 0; }
    switch (op) {
      case 0: {
        VectorXd x = t.params(p, d, sh && s.rs);
        c << " set(" << p << d << sh << ")" << str(x);
        s.setParams(x, p, d, sh);
        MatrixXd X = x;
        m.cam->setParameters(X, p, d, sh);
        sameBehaviour(c, m, s, "setting parameters");
        break;
      }
      case 1: case 2: {
        VectorXd old = s.params(p, d, sh), to = t.params(p, d, sh);
        if (op == 2) for (int j = 0; j < to.size(); ++j) to[j] = old[j] * (1 + 1e-3 * c.real(-1, 1));
        VectorXd step = to - old;
        if (s.dist == FOV && d) {  // the lens parameter has to stay in its valid range
          const int j = p ? s.nProj() : 0;
          const double w = old[j] + step[j];
          if (!(w == 0 || (w >= 0.5 && w <= 1.5))) step[j] = 0;
        }
        c << " update(" << p << d << sh << ")" << str(step);
        VectorXd x = old + step;
        s.setParams(x, p, d, sh);
        VectorXd pad(step.size() + 2);  // what lies behind the step must not matter
        pad << step, 1e3, 1e3;
        m.cam->update(pad.data(), p, d, sh);
        sameBehaviour(c, m, s, "an update");
        break;
      }
      case 3: {
        const double f = c.pick({0.5, 2.0, 1.0, 0.75, 1.3333, 0.1});
        c << " resize(" << f << ")";
        // scaling about the image origin scales every projection
        Vector3d q;
        const bool seen = visiblePoint(c, s, q, 0, 2);
        Vector2d before, after;
        before.setZero(); after.setZero();
        bool v = m.fixed->e2k(q, before);
        s.fu *= f; s.fv *= f; s.cu *= f; s.cv *= f; s.ru = (int)(s.ru * f); s.rv = (int)(s.rv * f);
        m.fixed->resize(f);
        if (seen && v) { m.fixed->e2k(q, after); c.nearMat(after, f * before, 1e-9, 1e-12, "a projection after resizing the image"); }
        sameBehaviour(c, m, s, "resizing");
        break;
      }
      case 4: case 5: {
        const int k = c.integer(0, 3);
        c << " " << kArchive[k];
        const std::string bytes = m.fixed->save(k);
        m.cam = m.fixed->load(k, bytes);
        m.fixed = m.fixed->of(m.cam);
        sameBehaviour(c, m, s, (std::string("storing in a ") + kArchive[k] + " archive").c_str());
        break;
      }
      case 6: {
        c << " copy";
        Made o = m;
        m.cam = m.fixed->copy();
        m.fixed = m.fixed->of(m.cam);
        VectorXd z = VectorXd::Constant(16, 0.01);
        if (s.dist != FOV) o.cam->update(z.data(), true, true, true); else o.cam->update(z.data(), true, false, true);
        c.check(!o.fixed->equal(*m.cam), "changing a copy's original left them equal");
        sameBehaviour(c, m, s, "copying and changing the original");
        break;
      }
      default: {
        c << " configure";
        m.cam = fromTree(m, s);
        m.fixed = m.fixed->of(m.cam);
        sameBehaviour(c, m, s, "building from a property tree");
      }
    }
  }
  c.nontrivial(n >= 2);
  for (int k : kinds) c.label(std::vector<std::string>{"set", "update", "update", "resize", "archive", "archive", "copy", "configure"}[k]);
}

// Equality notices a change of any single parameter.
PBT_CLAIM(equality_sees_every_parameter, 2000) {
  Spec s = anySpec(c);
  Made m = make(s);
  Made same = make(s);
  c.check(m.fixed->equal(*same.cam), "two cameras built alike are reported different");
  Spec t = s;
  const int what = c.integer(0, 5);
  if (what == 0) t.ru += 1;
  else if (what == 1) t.rv += 1;
  else if (what == 2 && s.masked && !s.mask.empty()) { t.mask = s.mask.clone(); uchar& v = t.mask.at<uchar>(c.integer(0, s.mask.rows - 1), c.integer(0, s.mask.cols - 1)); v = v ? 0 : 255; }
  else if (what == 3 && s.masked) t.maskScale *= 0.5;
  else {
    VectorXd x = s.params(true, true, true);
    const int i = c.integer(0, x.size() - 1);
    c << " parameter " << i;
    double step = c.sign() * c.pick({1e-3, 1e-6, 1e-2});
    if (s.dist == FOV && i == s.nProj()) step = s.d[0] == 0 ? 0.7 : s.d[0] > 1 ? -std::fabs(step) : std::fabs(step);
    x[i] += step;
    t.setParams(x, true, true, true);
  }
  Made o = make(t);
  c.check(!m.fixed->equal(*o.cam), "two cameras that differ in one value are reported equal");
  c.nontrivial();
}

// Every parameter group's Jacobian has its own columns, in the order of the parameters.
PBT_CLAIM(parameter_order_is_shared_by_all_calls, 2000) {
  Spec s = anySpec(c);
  Made m = make(s);
  Vector3d q;
  if (!visiblePoint(c, s, q, 0, 2)) c.discard();
  MatrixXd all;
  m.cam->euclideanToKeypointIntrinsicsJacobian(q, all, true, true, true);
  const int n[3] = {s.nProj(), s.nDist(), s.nShut()}, at[3] = {0, n[0], n[0] + n[1]};
  for (int g = 1; g < 8; ++g) {
    MatrixXd J, e(2, 0);
    m.cam->euclideanToKeypointIntrinsicsJacobian(q, J, g & 1, g & 2, g & 4);
    for (int b = 0; b < 3; ++b) if (g >> b & 1) { MatrixXd x(2, e.cols() + n[b]); x << e, all.middleCols(at[b], n[b]); e = x; }
    if (all.allFinite()) c.nearMat(J, e, 0, 0, "Jacobian of a subset of the groups");
  }
  // the shutter's part: rows later in the image are captured later
  VectorXd k(2); k << c.real(0, s.ru), c.real(0, s.rv);
  MatrixXd T;
  m.cam->temporalOffsetIntrinsicsJacobian(k, T, true, true, true);
  c.eq((int)T.cols(), n[0] + n[1] + n[2], "columns of the capture time Jacobian");
  c.check(T.leftCols(n[0] + n[1]).isZero(), "the capture time depends on the projection");
  c.near(m.cam->vsTemporalOffset(k).toSec(), s.rs ? s.lineDelay * k[1] : 0, 2e-9, 0, "capture time of a row");
  if (s.rs) c.near(T(0, n[0] + n[1]), k[1], 0, 1e-14, "derivative of the capture time");
  c.nontrivial();
}

PBT_MAIN("C03", "a history of at least two operations, or a camera compared with one that differs in a single value")

#include "cameras.hpp"
#include <sstream>
namespace cam {
Made make(const Spec& s) {
  switch (s.model) {
    case PINHOLE: return s.masked ? makePinholeMasked(s) : makePinhole(s);
    case OMNI: return s.masked ? makeOmniMasked(s) : makeOmni(s);
    default: return makeSphere(s);
  }
}
std::string Spec::str() const {
  static const char* M[] = {"pinhole", "omni", "eucm", "ds"};
  static const char* D[] = {"none", "radtan", "equidistant", "fov"};
  std::ostringstream o;
  o.precision(17);
  o << M[model] << '-' << D[dist] << (rs ? "-rs" : "") << (masked ? "-masked" : "") << " params "
    << params(true, true, true).transpose() << " size " << ru << 'x' << rv;
  if (masked) o << " mask " << mask.cols << 'x' << mask.rows << " scale " << maskScale;
  return o.str();
}

Vector2d refDistort(const Spec& s, const Vector2d& y) {
  const double r = y.norm(), r2 = r * r;
  switch (s.dist) {
    case RADTAN: {
      const double k1 = s.d[0], k2 = s.d[1], p1 = s.d[2], p2 = s.d[3], g = 1 + k1 * r2 + k2 * r2 * r2;
      return Vector2d(y[0] * g + 2 * p1 * y[0] * y[1] + p2 * (r2 + 2 * y[0] * y[0]),
                      y[1] * g + 2 * p2 * y[0] * y[1] + p1 * (r2 + 2 * y[1] * y[1]));
    }
    case EQUI: {
      if (r < 1e-12) return y;
      const double t = std::atan2(r, 1.0), t2 = t * t;
      const double td = t * (1 + t2 * (s.d[0] + t2 * (s.d[1] + t2 * (s.d[2] + t2 * s.d[3]))));
      return y * (td / r);
    }
    case FOV: {
      const double w = s.d[0];
      if (r < 1e-12) return w == 0 ? y : Vector2d(y * (2 * std::tan(w / 2) / w));
      if (w == 0) return y;
      return y * (std::atan(2 * r * std::tan(w / 2)) / (w * r));
    }
    default: return y;
  }
}
Matrix2d refDistortJacobian(const Spec& s, const Vector2d& y) {
  Matrix2d J;
  const double h = 1e-6 * std::max(1.0, y.norm());
  for (int i = 0; i < 2; ++i) {
    Vector2d e = Vector2d::Zero();
    e[i] = h;
    J.col(i) = (refDistort(s, y + e) - refDistort(s, y - e)) / (2 * h);
  }
  return J;
}
bool invertible(const Spec& s, const Vector2d& y, double margin) {
  const double r = y.norm();
  switch (s.dist) {
    case RADTAN: {
      // Gauss-Newton starts at the distorted point: it must lie in the region too
      const double end = std::max(1.0, refDistort(s, y).norm() / std::max(r, 1e-12)) * 1.1;
      if (r > 1.3) return false;
      for (int i = 0; i <= 12; ++i) {
        const Matrix2d J = refDistortJacobian(s, y * (i * end / 12));
        Eigen::SelfAdjointEigenSolver<Matrix2d> es(0.5 * (J + J.transpose()));
        if (!(es.eigenvalues()[0] > margin + 0.15) || !(es.eigenvalues()[1] < 2.2)) return false;
      }
      return true;
    }
    case EQUI: {
      const double t = std::atan(r);
      if (t > 1.45) return false;
      const Vector2d z = refDistort(s, y);
      const double end = std::max(t, z.norm()) * 1.1;
      for (int i = 0; i <= 16; ++i) {
        const double u = end * i / 16, t2 = u * u;
        const double f = 1 + t2 * (s.d[0] + t2 * (s.d[1] + t2 * (s.d[2] + t2 * s.d[3])));
        const double uf = t2 * (2 * s.d[0] + t2 * (4 * s.d[1] + t2 * (6 * s.d[2] + t2 * 8 * s.d[3])));
        if (!(f > 0.5) || !(std::fabs(uf / f) < margin)) return false;
      }
      return true;
    }
    case FOV: return std::atan(2 * r * std::tan(s.d[0] / 2)) < 88.5 * M_PI / 180;
    default: return true;
  }
}
Vector2d refNormalize(const Spec& s, const Vector3d& p, double& margin) {
  const double x = p[0], y = p[1], z = p[2], n = p.norm();
  double den = z;
  switch (s.model) {
    case PINHOLE: margin = z; break;
    case OMNI:
      den = z + s.a * n;
      margin = z + (s.a <= 1 ? s.a : 1 / s.a) * n;
      break;
    case EUCM: {
      const double d = std::sqrt(s.b * (x * x + y * y) + z * z);
      den = s.a * d + (1 - s.a) * z;
      margin = z + (s.a <= 0.5 ? s.a / (1 - s.a) : (1 - s.a) / s.a) * d;
      break;
    }
    case DS: {
      const double zz = s.a * n + z, d2 = std::sqrt(x * x + y * y + zz * zz);
      den = s.b * d2 + (1 - s.b) * zz;
      const double w1 = s.b <= 0.5 ? s.b / (1 - s.b) : (1 - s.b) / s.b;
      margin = z + (w1 + s.a) / std::sqrt(2 * w1 * s.a + s.a * s.a + 1) * n;
      break;
    }
  }
  return Vector2d(x / den, y / den);
}
bool inImage(const Spec& s, const Vector2d& k) { return k[0] >= 0 && k[1] >= 0 && k[0] < s.ru && k[1] < s.rv; }
bool maskAllows(const Spec& s, const Vector2d& k) {
  if (!s.masked || s.mask.data == NULL) return true;
  return s.mask.at<unsigned char>((int)(k[1] * s.maskScale), (int)(k[0] * s.maskScale)) > 0;
}

Spec anySpec(pbt::Case& c, Want w) {
  Spec s;
  s.model = w.model >= 0 ? w.model : c.integer(0, 3);
  s.dist = w.dist >= 0 ? w.dist : s.model <= OMNI ? c.integer(0, 3) : 0;
  if (s.model > OMNI) s.dist = NONE;
  s.rs = w.shutters && s.model <= OMNI && c.oneIn(3);
  s.masked = w.masks && s.model <= OMNI && c.oneIn(3);
  s.ru = c.integer(40, 1400);
  s.rv = c.integer(40, 1400);
  s.fu = s.ru * c.real(0.25, 1.5);
  s.fv = c.oneIn(4) ? s.fu : s.fu * c.real(0.6, 1.7);
  s.cu = s.ru * c.real(0.3, 0.7);
  s.cv = s.rv * c.real(0.3, 0.7);
  switch (s.model) {
    case OMNI: s.a = c.oneIn(8) ? 1.0 : c.oneIn(8) ? 0.0 : c.real(0.05, 2.5); break;
    case EUCM: s.a = c.oneIn(8) ? 0.5 : c.real(0.05, 0.95); s.b = c.oneIn(8) ? 1.0 : c.real(0.3, 2.5); break;
    case DS: s.a = c.oneIn(8) ? 0.0 : c.real(-0.6, 0.9); s.b = c.oneIn(8) ? 0.5 : c.real(0.05, 0.95); break;
    default: break;
  }
  switch (s.dist) {
    case RADTAN: s.d = {c.real(-0.35, 0.25), c.real(-0.12, 0.15), c.real(-0.02, 0.02), c.real(-0.02, 0.02)}; break;
    case EQUI: s.d = {c.real(-0.2, 0.15), c.real(-0.1, 0.13), c.real(-0.03, 0.03), c.real(-0.01, 0.01)}; break;
    case FOV: s.d = {c.oneIn(8) ? 0.0 : c.real(0.51, 1.49)}; break;
    default: break;
  }
  if (s.dist == RADTAN || s.dist == EQUI)
    for (auto& x : s.d) if (c.oneIn(8)) x = 0;
  s.lineDelay = c.real(1e-6, 1e-4);
  if (s.masked && !c.oneIn(6)) {
    s.maskScale = c.pick({1.0, 0.5, 0.25, 2.0});
    const int w0 = (int)std::ceil(s.ru * s.maskScale) + 1, h0 = (int)std::ceil(s.rv * s.maskScale) + 1;
    s.mask = cv::Mat(h0, w0, CV_8UC1, cv::Scalar(255));
    const int n = c.integer(0, 3);
    for (int i = 0; i < n; ++i) {
      const int x0 = c.integer(0, w0 - 1), y0 = c.integer(0, h0 - 1), x1 = c.integer(x0, w0 - 1), y1 = c.integer(y0, h0 - 1);
      const unsigned char v = (unsigned char)c.pick({0, 0, 1, 255});
      for (int y = y0; y <= y1; ++y) for (int x = x0; x <= x1; ++x) s.mask.at<unsigned char>(y, x) = v;
    }
  }
  c << s.str() << "\n";
  return s;
}
Vector3d anyPoint(pbt::Case& c, const Spec&) {
  Vector3d p;
  switch (c.integer(0, 5)) {
    case 0: p = Vector3d(0, 0, c.logReal(0.05, 100)); break;
    case 1: p = num::unit3(c) * c.logReal(0.05, 100); break;
    case 2: p = Vector3d(c.real(-1, 1) * 1e-6, c.real(-1, 1) * 1e-6, 1) * c.logReal(0.05, 100); break;
    default: p = Vector3d(c.real(-1, 1), c.real(-1, 1), c.real(0.1, 1)) * c.logReal(0.05, 100);
  }
  return p;
}
bool refLift(const Spec& s, const Vector2d& y, Vector3d& p) {
  const double r2 = y.squaredNorm();
  switch (s.model) {
    case PINHOLE: p << y, 1; break;
    case OMNI: {
      const double q = 1 + (1 - s.a * s.a) * r2;
      if (q < 0.01) return false;
      p << y, 1;
      p *= (s.a + std::sqrt(q)) / (r2 + 1);
      p[2] -= s.a;
      break;
    }
    case EUCM: {
      const double q = 1 - (2 * s.a - 1) * s.b * r2;
      if (q < 0.01) return false;
      p << y, (1 - s.b * s.a * s.a * r2) / (s.a * std::sqrt(q) + 1 - s.a);
      break;
    }
    case DS: {
      const double q = 1 - (2 * s.b - 1) * r2;
      if (q < 0.01) return false;
      const double mz = (1 - s.b * s.b * r2) / (s.b * std::sqrt(q) + 1 - s.b);
      const double q2 = mz * mz + (1 - s.a * s.a) * r2;
      if (q2 < 0.01) return false;
      p << y, mz;
      p *= (mz * s.a + std::sqrt(q2)) / (mz * mz + r2);
      p[2] -= s.a;
      break;
    }
  }
  return p.norm() > 1e-3;
}
bool visiblePoint(pbt::Case& c, const Spec& s, Vector3d& p, Vector2d* normalized, double border) {
  Vector2d y((c.real(0, 1) * (s.ru + 2 * border) - border - s.cu) / s.fu, (c.real(0, 1) * (s.rv + 2 * border) - border - s.cv) / s.fv);
  if (c.oneIn(12)) y.setZero();
  else if (c.oneIn(12)) y *= 1e-5;
  for (int i = 0; i < 12; ++i, y *= 0.6) {
    if (!invertible(s, y, 0.25) || !refLift(s, y, p)) continue;
    double m;
    p /= p.norm();
    const Vector2d back = refNormalize(s, p, m);
    if (m < 0.02 || (back - y).norm() > 1e-6 * (1 + y.norm())) continue;
    p *= c.logReal(0.1, 50);
    if (normalized) *normalized = y;
    return true;
  }
  return false;
}
}  // namespace cam

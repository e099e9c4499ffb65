// B-splines by the Cox-de Boor definition, in extended precision.
#pragma once
#include <num.hpp>
namespace spl {
typedef long double ld;
typedef Eigen::Matrix<ld, Eigen::Dynamic, 1> VectorLd;
using Eigen::MatrixXd;
using Eigen::VectorXd;

struct Ref {
  int k = 4;                  // order
  std::vector<double> knots;
  MatrixXd c;                 // one column per coefficient
  int segments() const { return (int)knots.size() - 2 * k + 1; }
  double tmin() const { return knots[k - 1]; }
  double tmax() const { return knots[knots.size() - k]; }
  // the non-empty knot interval [knots[i], knots[i+1]) of t; the end belongs to the last one
  int interval(ld t) const {
    int i = k - 1;
    const int last = (int)knots.size() - k - 1;
    for (int j = k - 1; j <= last; ++j)
      if (knots[j] < knots[j + 1] && knots[j] <= t) i = j;
    return i;
  }
  // d-th derivative of the basis function i of order o, on the knot interval `iv`
  ld basis(int i, int o, int iv, ld t, int d) const {
    if (d == 0) {
      if (o == 1) return i == iv ? 1 : 0;
      const ld a = knots[i + o - 1] - (ld)knots[i], b = knots[i + o] - (ld)knots[i + 1];
      ld v = 0;
      if (a > 0) v += (t - knots[i]) / a * basis(i, o - 1, iv, t, 0);
      if (b > 0) v += (knots[i + o] - t) / b * basis(i + 1, o - 1, iv, t, 0);
      return v;
    }
    if (o == 1) return 0;
    const ld a = knots[i + o - 1] - (ld)knots[i], b = knots[i + o] - (ld)knots[i + 1];
    ld v = 0;
    if (a > 0) v += (o - 1) / a * basis(i, o - 1, iv, t, d - 1);
    if (b > 0) v -= (o - 1) / b * basis(i + 1, o - 1, iv, t, d - 1);
    return v;
  }
  // the values of all basis functions
  VectorXd basisAt(ld t, int d, int iv = -1) const {
    if (iv < 0) iv = interval(t);
    VectorXd b = VectorXd::Zero(c.cols());
    for (int i = std::max(0, iv - k + 1); i <= iv && i < c.cols(); ++i) b(i) = (double)basis(i, k, iv, t, d);
    return b;
  }
  VectorXd eval(ld t, int d = 0, int iv = -1) const {
    if (iv < 0) iv = interval(t);
    VectorLd v = VectorLd::Zero(c.rows());
    for (int i = std::max(0, iv - k + 1); i <= iv && i < c.cols(); ++i) v += c.col(i).cast<ld>() * basis(i, k, iv, t, d);
    return v.cast<double>();
  }
  // how large numbers in the computation of a derivative get
  double scale(int d) const {
    double gap = 1e300;
    for (int j = k - 1; j < (int)knots.size() - k; ++j)
      if (knots[j + 1] > knots[j]) gap = std::min(gap, knots[j + 1] - knots[j]);
    double s = 0;
    for (int i = 0; i < c.size(); ++i) s = std::max(s, std::fabs(c(i)));
    double f = 1;
    for (int i = 0; i < d; ++i) f *= 2. * (k - 1) / gap;
    return s * f;
  }
};
// Gauss-Legendre nodes on [0,1], exact for polynomials up to degree 19
static const int kNodes = 10;
inline const double* nodes() {
  static const double x[kNodes] = {0.013046735741414139961, 0.067468316655507744634, 0.160295215850487796882, 0.283302302935376404600, 0.425562830509184394557,
                                   0.574437169490815605443, 0.716697697064623595400, 0.839704784149512203118, 0.932531683344492255366, 0.986953264258585860039};
  return x;
}
inline const double* weights() {
  static const double w[kNodes] = {0.033335672154344068797, 0.074725674575290296573, 0.109543181257991021998, 0.134633359654998177546, 0.147762112357376435087,
                                   0.147762112357376435087, 0.134633359654998177546, 0.109543181257991021998, 0.074725674575290296573, 0.033335672154344068797};
  return w;
}
// integral over [a, b] of f(t, interval), which is polynomial between the knots
template <class F> auto integrate(const Ref& r, double a, double b, F f) -> decltype(f(a, 0)) {
  decltype(f(a, 0)) s = f(r.tmin(), r.interval(r.tmin())) * 0;
  for (int iv = r.k - 1; iv < (int)r.knots.size() - r.k; ++iv) {
    const double lo = std::max(a, r.knots[iv]), hi = std::min(b, r.knots[iv + 1]);
    if (!(hi > lo)) continue;
    for (int n = 0; n < kNodes; ++n) s += f(lo + (ld)(hi - lo) * nodes()[n], iv) * ((hi - lo) * weights()[n]);
  }
  return s;
}

// a non-decreasing knot sequence for n segments of a spline of order k
inline std::vector<double> anyKnots(pbt::Case& c, int k, int n, bool repeats, std::string* kind = 0) {
  const int m = n + 2 * k - 1;
  const int how = c.integer(0, 5);
  double t = c.oneIn(4) ? std::floor(c.real(1e6, 1.5e9)) : c.oneIn(2) ? c.real(-50, 50) : 0.;
  const double step = c.oneIn(3) ? 1. : c.logReal(1e-2, 20);
  std::vector<double> v(m);
  for (int i = 0; i < m; ++i) {
    v[i] = t;
    if (how <= 1) t += step;
    else if (how <= 3) t += step * c.real(0.2, 2);
    else {
      double d = step * (c.oneIn(8) ? c.logReal(0.01, 0.2) : c.real(0.2, 2));
      if (repeats && c.oneIn(4)) d = 0;
      if (t + d <= t && d > 0) d = 0;
      t += d;
    }
  }
  if (how == 5 && repeats) {   // clamped ends
    for (int i = 0; i < k - 1; ++i) v[i] = v[k - 1];
    for (int i = 0; i < k - 1; ++i) v[m - 1 - i] = v[m - k];
  }
  if (kind) *kind = how <= 1 ? "uniform" : how <= 3 || !repeats ? "uneven" : how == 5 ? "clamped" : "repeated";
  return v;
}
// how often t occurs among the knots
inline int multiplicity(const Ref& r, double t) { return (int)std::count(r.knots.begin(), r.knots.end(), t); }
// a time in the valid interval, often at or next to a knot
inline double anyTime(pbt::Case& c, const Ref& r) {
  const double a = r.tmin(), b = r.tmax();
  switch (c.integer(0, 6)) {
    case 0: return a;
    case 1: return b;
    case 2: return r.knots[r.k - 1 + c.integer(0, r.segments())];
    case 3: { double t = std::nextafter(r.knots[r.k - 1 + c.integer(0, r.segments())], c.boolean() ? 1e300 : -1e300); return std::min(b, std::max(a, t)); }
    default: return c.real(0, 1) * (b - a) + a <= b ? std::min(b, a + c.real(0, 1) * (b - a)) : b;
  }
}
}  // namespace spl

// Generators and numerical oracles shared by the harnesses.
#pragma once
#include "pbt.hpp"
#include <Eigen/Dense>

namespace num {
using Eigen::MatrixXd;
using Eigen::VectorXd;
using Eigen::Matrix3d;
using Eigen::Matrix4d;
using Eigen::Vector3d;
using Eigen::Vector4d;

// ---------------- generators ----------------
inline VectorXd vec(pbt::Case& c, int n, double maxAbs) {
  VectorXd v(n);
  for (int i = 0; i < n; ++i) v[i] = c.real(-maxAbs, maxAbs);
  return v;
}
inline VectorXd vecAny(pbt::Case& c, int n, double maxAbs) {
  VectorXd v(n);
  for (int i = 0; i < n; ++i) v[i] = c.anyReal(maxAbs);
  return v;
}
inline MatrixXd mat(pbt::Case& c, int r, int k, double maxAbs) {
  MatrixXd m(r, k);
  for (int i = 0; i < r; ++i) for (int j = 0; j < k; ++j) m(i, j) = c.real(-maxAbs, maxAbs);
  return m;
}
inline Vector3d unit3(pbt::Case& c) {
  if (c.oneIn(5)) {
    Vector3d e = Vector3d::Zero();
    e[c.integer(0, 2)] = c.sign();
    return e;
  }
  double z = c.real(-1, 1), p = c.real(-M_PI, M_PI), s = std::sqrt(std::max(0., 1 - z * z));
  return Vector3d(s * std::cos(p), s * std::sin(p), z).normalized();
}
// angle in [0, max], with zero, tiny and near-maximal values
inline double angle(pbt::Case& c, double max) {
  switch (c.bits(10)) {
    case 0: return 0;
    case 1: return c.logReal(1e-16, 1e-6);
    case 2: return c.logReal(1e-6, 1e-2);
    case 3: return max - c.logReal(1e-9, 1e-2);
    default: return c.real(0, max);
  }
}
inline Matrix3d skew(const Vector3d& v) {
  Matrix3d m;
  m << 0, -v[2], v[1], v[2], 0, -v[0], -v[1], v[0], 0;
  return m;
}
// exp([w]x), from scratch
inline Matrix3d expSO3(const Vector3d& w) {
  double t = w.norm();
  Matrix3d W = skew(w);
  double a, b;
  if (t < 1e-4) {
    a = 1 - t * t / 6 + t * t * t * t / 120;
    b = 0.5 - t * t / 24 + t * t * t * t / 720;
  } else {
    a = std::sin(t) / t;
    b = 2 * std::pow(std::sin(t / 2) / t, 2);
  }
  return Matrix3d::Identity() + a * W + b * W * W;
}
inline Matrix3d rotation(pbt::Case& c, double maxAngle = M_PI) { return expSO3(angle(c, maxAngle) * unit3(c)); }
inline Matrix4d transform(pbt::Case& c, double maxAngle, double maxT) {
  Matrix4d T = Matrix4d::Identity();
  T.topLeftCorner<3, 3>() = rotation(c, maxAngle);
  for (int i = 0; i < 3; ++i) T(i, 3) = c.real(-maxT, maxT);
  return T;
}
// symmetric positive definite with eigenvalues in [lo, hi]
inline MatrixXd spd(pbt::Case& c, int n, double lo, double hi) {
  MatrixXd A = mat(c, n, n, 1) + 1e-3 * MatrixXd::Identity(n, n);
  Eigen::HouseholderQR<MatrixXd> qr(A);
  MatrixXd Q = qr.householderQ();
  VectorXd d(n);
  for (int i = 0; i < n; ++i) d[i] = c.logReal(lo, hi);
  MatrixXd S = Q * d.asDiagonal() * Q.transpose();
  return 0.5 * (S + S.transpose());
}
inline std::string str(const MatrixXd& m) {
  std::ostringstream o;
  o.precision(9);
  Eigen::IOFormat f(9, Eigen::DontAlignCols, " ", "; ", "", "", "[", "]");
  if (m.cols() == 1) o << m.transpose().format(f); else o << m.format(f);
  return o.str();
}

// ---------------- numerical derivatives ----------------
// Ridders' method: central differences at shrinking steps, extrapolated to
// zero; err is its own estimate of the error, per entry.
template <typename F>
MatrixXd jacobian(F f, int n, double h0, MatrixXd* errOut = 0) {
  const int T = 7;
  const double con = 1.7, con2 = con * con;
  VectorXd f0 = f(VectorXd(VectorXd::Zero(n)));
  const int m = f0.size();
  MatrixXd J(m, n), E(m, n);
  for (int j = 0; j < n; ++j) {
    std::vector<VectorXd> D;
    double h = h0;
    for (int t = 0; t < T; ++t, h /= con) {
      VectorXd d = VectorXd::Zero(n);
      d[j] = h;
      VectorXd fp = f(d);
      d[j] = -h;
      VectorXd fm = f(d);
      D.push_back((fp - fm) / (2 * h));
    }
    for (int i = 0; i < m; ++i) {
      double best = D[0][i], err = 1e300;
      std::vector<double> prev(1, D[0][i]);
      for (int t = 1; t < T; ++t) {
        std::vector<double> cur(1, D[t][i]);
        double fac = con2;
        for (int k = 1; k <= t; ++k) {
          cur.push_back((cur[k - 1] * fac - prev[k - 1]) / (fac - 1));
          fac *= con2;
          double e = std::max(std::fabs(cur[k] - cur[k - 1]), std::fabs(cur[k] - prev[k - 1]));
          if (e <= err) { err = e; best = cur[k]; }
        }
        if (std::fabs(cur[t] - prev[t - 1]) >= 2 * err && t > 3) break;
        prev = cur;
      }
      if (!(err < 1e299)) { err = std::numeric_limits<double>::infinity(); }
      J(i, j) = best;
      E(i, j) = err;
    }
  }
  if (errOut) *errOut = E;
  return J;
}

// Compares an analytic Jacobian with f's numerical one. Entries whose numerical
// derivative is itself uncertain beyond `maxErr` relative to the scale make the
// case undecided (returns false) and are not judged.
template <typename D, typename F>
bool checkJacobian(pbt::Case& c, const Eigen::MatrixBase<D>& Ja, F f, double h0, double rtol, double atol,
                   const std::string& what) {
  MatrixXd A = Ja;
  MatrixXd E, N = jacobian(f, A.cols(), h0, &E);
  if (N.rows() != A.rows()) {
    std::ostringstream o;
    o << what << ": Jacobian has " << A.rows() << " rows, the function " << N.rows();
    c.fail(o.str());
  }
  if (!N.allFinite() || !E.allFinite()) { c.label("numerical derivative undecided"); return false; }
  double scale = N.size() ? N.cwiseAbs().maxCoeff() : 0;
  if (N.size() && E.maxCoeff() > 1e-3 * scale + atol) { c.label("numerical derivative undecided"); return false; }
  c.check(A.allFinite(), what + ": Jacobian is not finite: " + str(A) + " expected " + str(N));
  for (int i = 0; i < A.rows(); ++i)
    for (int j = 0; j < A.cols(); ++j) {
      double tol = atol + rtol * scale + 20 * E(i, j);
      if (!(std::fabs(A(i, j) - N(i, j)) <= tol)) {
        std::ostringstream o;
        o.precision(12);
        o << what << ": entry (" << i << "," << j << ") is " << A(i, j) << ", numerically " << N(i, j) << " (tolerance " << tol
          << ")\n analytic\n" << A << "\n numerical\n" << N;
        c.fail(o.str());
      }
    }
  ++c.checks;
  return true;
}
}  // namespace num

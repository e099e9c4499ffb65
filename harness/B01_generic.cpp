// B01: generic matrix, quaternion and scalar expressions.
#include <dv.hpp>
#include <aslam_backend_expressions/Scalar.hpp>
#include <aslam_backend_expressions/ScalarExpression.hpp>
#include <aslam_backend_expressions/ScalarExpressionNode.hpp>
#include <aslam_backend_expressions/GenericMatrixExpression.hpp>
#include <aslam_backend_expressions/DesignVariableGenericVector.hpp>
#include <aslam_backend_expressions/QuaternionExpression.hpp>
#include <aslam_backend_expressions/DesignVariableUnitQuaternion.hpp>
#include <aslam_backend_expressions/GenericScalar.hpp>
#include <aslam_backend_expressions/GenericScalarExpression.hpp>
#include <aslam_backend_expressions/FixedPointNumber.hpp>
using namespace dvs;
using namespace aslam::backend;
using namespace aslam::backend::quaternion;

namespace {
typedef std::set<DesignVariable*> Set;
MatrixXd params(DesignVariable* d) {
  MatrixXd v;
  d->getParameters(v);
  return v;
}
Set join(Set a, const Set& b) {
  a.insert(b.begin(), b.end());
  return a;
}
template <int R, int C> struct GM {
  typedef GenericMatrixExpression<R, C> Ex;
  Ex e;
  std::function<MatrixXd()> f;
  Set s;
  std::string t;
};
typedef GM<3, 1> V3;
typedef GM<1, 3> R3;
typedef GM<3, 3> M3;

struct MatGen {
  pbt::Case& c;
  List all;
  std::vector<std::shared_ptr<DesignVariable> > keep;
  std::vector<V3> v;
  std::vector<M3> m;
  explicit MatGen(pbt::Case& c) : c(c) {}
  template <class T> T* add(T* d) {
    keep.push_back(std::shared_ptr<DesignVariable>(d));
    all.push_back(d);
    return d;
  }
  V3 vector(int depth) {
    if (!v.empty() && c.oneIn(3)) return c.pick(v);
    const int op = depth <= 0 ? c.integer(0, 3) : c.integer(2, 10);
    V3 r = leaf(op);
    if (op == 4 || op == 5) {
      V3 a = vector(depth - 1), b = vector(depth - 1);
      auto f = a.f, g = b.f;
      if (op == 4) r = V3{a.e + b.e, [f, g] { return MatrixXd(f() + g()); }, join(a.s, b.s), "(" + a.t + "+" + b.t + ")"};
      else r = V3{a.e - b.e, [f, g] { return MatrixXd(f() - g()); }, join(a.s, b.s), "(" + a.t + "-" + b.t + ")"};
    } else if (op == 6) {
      V3 a = vector(depth - 1);
      auto f = a.f;
      const double k = c.real(-2, 2);
      if (c.boolean()) r = V3{-a.e, [f] { return MatrixXd(-f()); }, a.s, "-" + a.t};
      else r = V3{a.e * k, [f, k] { return MatrixXd(f() * k); }, a.s, a.t + "k"};
    } else if (op == 7 || op == 8) {
      V3 a = vector(depth - 1), b = vector(depth - 1);
      auto f = a.f, g = b.f;
      r = V3{a.e.cross(b.e), [f, g] { return MatrixXd(skew(Vector3d(f())) * g()); }, join(a.s, b.s), "(" + a.t + "x" + b.t + ")"};
    } else if (op >= 9) {
      M3 a = matrix(depth - 1);
      V3 b = vector(depth - 1);
      auto f = a.f, g = b.f;
      r = V3{a.e * b.e, [f, g] { return MatrixXd(f() * g()); }, join(a.s, b.s), a.t + "*" + b.t};
    }
    if (r.f().norm() > 100) c.discard();
    v.push_back(r);
    return r;
  }
  V3 leaf(int op) {
    if (op == 0) {
      const Vector3d k = vec(c, 3, 2);
      return V3{V3::Ex(k), [k] { return MatrixXd(k); }, Set(), "k"};
    }
    auto d = add(new DesignVariableGenericVector<3>(vec(c, 3, 2)));
    return V3{V3::Ex(d), [d] { return params(d); }, Set{d}, "v"};
  }
  M3 matrix(int depth) {
    if (!m.empty() && c.oneIn(3)) return c.pick(m);
    const int op = depth <= 0 ? c.integer(0, 1) : c.integer(1, 9);
    const Matrix3d K = mat(c, 3, 3, 2);
    M3 r{M3::Ex(K), [K] { return MatrixXd(K); }, Set(), "K"};
    if (op == 1) {
      V3 a = vector(depth - 1), b = vector(depth - 1);
      auto f = a.f, g = b.f;
      r = M3{a.e * b.e.transpose(), [f, g] { return MatrixXd(f() * g().transpose()); }, join(a.s, b.s), "(" + a.t + b.t + "')"};
    } else if (op == 2) {
      M3 a = matrix(depth - 1);
      auto f = a.f;
      r = M3{a.e.transpose(), [f] { return MatrixXd(f().transpose()); }, a.s, a.t + "'"};
    } else if (op == 3 || op == 4) {
      M3 a = matrix(depth - 1), b = matrix(depth - 1);
      auto f = a.f, g = b.f;
      if (op == 3) r = M3{a.e + b.e, [f, g] { return MatrixXd(f() + g()); }, join(a.s, b.s), "(" + a.t + "+" + b.t + ")"};
      else r = M3{a.e - b.e, [f, g] { return MatrixXd(f() - g()); }, join(a.s, b.s), "(" + a.t + "-" + b.t + ")"};
    } else if (op == 5) {
      M3 a = matrix(depth - 1), b = matrix(depth - 1);
      auto f = a.f, g = b.f;
      r = M3{a.e * b.e, [f, g] { return MatrixXd(f() * g()); }, join(a.s, b.s), "(" + a.t + "*" + b.t + ")"};
    } else if (op == 6) {
      M3 a = matrix(depth - 1);
      auto f = a.f;
      Eigen::JacobiSVD<MatrixXd> svd(f());
      if (svd.singularValues()(2) < 0.3) {
        // far enough from a singular matrix
        const Matrix3d B = 8 * Matrix3d::Identity();
        auto g = f;
        M3 b{a.e + M3::Ex(B), [g, B] { return MatrixXd(g() + B); }, a.s, "(" + a.t + "+8I)"};
        if (Eigen::JacobiSVD<MatrixXd>(b.f()).singularValues()(2) < 0.3) c.discard();
        a = b;
        f = b.f;
      }
      r = M3{a.e.inverse(), [f] { return MatrixXd(f().inverse()); }, a.s, a.t + "^-1"};
    } else if (op == 7) {
      M3 a = matrix(depth - 1);
      V3 b = vector(depth - 1);
      auto f = a.f, g = b.f;
      r = M3{b.e.cross(a.e), [f, g] { return MatrixXd(skew(Vector3d(g())) * f()); }, join(a.s, b.s), "(" + b.t + "x" + a.t + ")"};
    } else if (op >= 8) {
      M3 a = matrix(depth - 1);
      auto f = a.f;
      r = M3{-a.e, [f] { return MatrixXd(-f()); }, a.s, "-" + a.t};
    }
    if (r.f().norm() > 100) c.discard();
    m.push_back(r);
    return r;
  }
};

template <class T> void finish(pbt::Case& c, const List& all, const T& t, int rows, double rtol = 2e-6) {
  wantVariables(c, t.e, t.s, "getDesignVariables of " + t.t);
  const double size = 1 + t.f().norm();
  c.nearMat(t.e.evaluate(), t.f(), 1e-10 * size, 0, "value of " + t.t);
  activate(c, all);
  const bool chain = c.boolean();
  const MatrixXd M = chain ? mat(c, c.integer(1, rows + 2), rows, 2) : MatrixXd(MatrixXd::Identity(rows, rows));
  JacobianContainer j(M.rows());
  t.e.evaluate();
  if (chain) t.e.evaluateJacobians(j, M);
  else t.e.evaluateJacobians(j);
  checkJacobians(c, j, all, [&]() -> VectorXd { return M * t.f(); }, 0.02, rtol, 1e-7 * size * (1 + M.norm()), "Jacobian of " + t.t + (chain ? " with chain rule" : ""));
  c.nearMat(t.e.evaluate(), t.f(), 1e-10 * size, 0, "value after stepping");
  size_t active = 0;
  for (DesignVariable* d : t.s) active += d->isActive();
  if (active >= 2 && t.t.size() > 8) c.nontrivial();
  c << t.t << "\n";
}
}  // namespace

PBT_CLAIM(generic_matrices, 2500) {
  MatGen g(c);
  V3 t = g.vector(c.integer(0, 4));
  finish(c, g.all, t, 3);
}
PBT_CLAIM(generic_matrix_values, 400) {
  MatGen g(c);
  M3 t = g.matrix(c.integer(0, 4));
  wantVariables(c, t.e, t.s, "getDesignVariables of " + t.t);
  c.nearMat(t.e.toFullMatrix(), t.f(), 1e-10 * (1 + t.f().norm()), 0, "value of " + t.t);
  for (DesignVariable* d : g.all) {
    VectorXd s = vec(c, d->minimalDimensions(), 0.01);
    d->update(s.data(), s.size());
  }
  const double n = t.f().norm();
  if (n < 1e4) c.nearMat(t.e.toFullMatrix(), t.f(), 1e-8 * (1 + n), 0, "value after a step of " + t.t);
  if (t.s.size() >= 2) c.nontrivial();
}

namespace {
// Quaternions as (real, imaginary): the Hamilton product, or the opposite one
struct Q {
  double w;
  Vector3d v;
};
template <QuaternionMode M> struct Quat {
  static bool realFirst() { return M == QuaternionMode::FIRST_IS_REAL_AND_TRADITIONAL_MULT_ORDER || M == QuaternionMode::FIRST_IS_REAL_AND_OPPOSITE_MULT_ORDER; }
  static bool traditional() {
    return M == QuaternionMode::FIRST_IS_REAL_AND_TRADITIONAL_MULT_ORDER || M == QuaternionMode::LAST_IS_REAL_AND_TRADITIONAL_MULT_ORDER;
  }
  static Q in(const MatrixXd& x) { return realFirst() ? Q{x(0), Vector3d(x(1), x(2), x(3))} : Q{x(3), Vector3d(x(0), x(1), x(2))}; }
  static MatrixXd out(const Q& q) {
    Vector4d x;
    if (realFirst()) x << q.w, q.v;
    else x << q.v, q.w;
    return x;
  }
  static Q mul(Q a, Q b) {
    if (!traditional()) std::swap(a, b);
    return Q{a.w * b.w - a.v.dot(b.v), Vector3d(a.w * b.v + b.w * a.v + a.v.cross(b.v))};
  }
  static Q conj(const Q& a) { return Q{a.w, Vector3d(-a.v)}; }
  static Q inv(const Q& a) {
    const double n = a.w * a.w + a.v.squaredNorm();
    return Q{a.w / n, Vector3d(-a.v / n)};
  }
  static Q exp(const Vector3d& v) {
    const double n = v.norm();
    return Q{std::cos(n), Vector3d(v * (n < 1e-8 ? 1.0 : std::sin(n) / n))};
  }
  static Vector3d log(Q q) {
    const double n = q.v.norm();
    return q.v * (n < 1e-8 ? 1.0 : std::atan2(n, q.w) / n);
  }
  typedef QuaternionExpression<double, M> QE;
  typedef UnitQuaternionExpression<double, M> UE;
  template <class E> struct T {
    E e;
    std::function<MatrixXd()> f;
    Set s;
    std::string t;
  };
  typedef T<QE> TQ;
  typedef T<UE> TU;
  struct Gen {
    pbt::Case& c;
    List all;
    std::vector<std::shared_ptr<DesignVariable> > keep;
    std::vector<TQ> q;
    std::vector<TU> u;
    std::vector<V3> v;
    explicit Gen(pbt::Case& c) : c(c) {}
    template <class D> D* add(D* d) {
      keep.push_back(std::shared_ptr<DesignVariable>(d));
      all.push_back(d);
      return d;
    }
    Vector4d unitQ() {
      Vector4d x = vec(c, 4, 1);
      if (x.norm() < 1e-3) x = out(Q{1, Vector3d::Zero()});
      return x / x.norm();
    }
    TQ quat(int depth) {
      if (!q.empty() && c.oneIn(3)) return c.pick(q);
      const int op = depth <= 0 ? c.integer(0, 1) : c.integer(1, 8);
      const Vector4d k = vec(c, 4, 2);
      TQ r{QE(typename QE::base_t(k)), [k] { return MatrixXd(k); }, Set(), "K"};
      if (op == 1) {
        auto d = add(new DesignVariableGenericVector<4>(k));
        r = TQ{QE(typename QE::base_t(d)), [d] { return params(d); }, Set{d}, "q"};
      } else if (op == 2) {
        TU a = unit(depth - 1);
        r = TQ{a.e, a.f, a.s, a.t};
      } else if (op >= 3 && op <= 5) {
        TQ a = quat(depth - 1), b = quat(depth - 1);
        auto f = a.f, g = b.f;
        if (op == 3) r = TQ{a.e * b.e, [f, g] { return out(mul(in(f()), in(g()))); }, join(a.s, b.s), "(" + a.t + "*" + b.t + ")"};
        if (op == 4) r = TQ{a.e + b.e, [f, g] { return MatrixXd(f() + g()); }, join(a.s, b.s), "(" + a.t + "+" + b.t + ")"};
        if (op == 5) r = TQ{a.e - b.e, [f, g] { return MatrixXd(f() - g()); }, join(a.s, b.s), "(" + a.t + "-" + b.t + ")"};
      } else if (op > 5) {
        TQ a = quat(depth - 1);
        auto f = a.f;
        if (op == 6) r = TQ{-a.e, [f] { return MatrixXd(-f()); }, a.s, "-" + a.t};
        if (op == 7) r = TQ{a.e.conjugate(), [f] { return out(conj(in(f()))); }, a.s, a.t + "~"};
        if (op == 8) {
          if (f().norm() < 0.3) c.discard();
          r = TQ{a.e.inverse(), [f] { return out(inv(in(f()))); }, a.s, a.t + "^-1"};
        }
      }
      if (r.f().norm() > 50) c.discard();
      q.push_back(r);
      return r;
    }
    TU unit(int depth) {
      if (!u.empty() && c.oneIn(3)) return c.pick(u);
      const int op = depth <= 0 ? c.integer(0, 2) : c.integer(1, 8);
      const Vector4d k = unitQ();
      TU r{UE(typename QE::base_t(k)), [k] { return MatrixXd(k); }, Set(), "U"};
      if (op == 1) {
        auto d = add(new DesignVariableUnitQuaternion<double, M, UnitQuaternionGeometry::RIGHT_TRANSLATED>(k));
        r = TU{UE(typename QE::base_t(d)), [d] { return params(d); }, Set{d}, "ur"};
      } else if (op == 2) {
        auto d = add(new DesignVariableUnitQuaternion<double, M, UnitQuaternionGeometry::LEFT_TRANSLATED>(k));
        r = TU{UE(typename QE::base_t(d)), [d] { return params(d); }, Set{d}, "ul"};
      } else if (op == 3) {
        TU a = unit(depth - 1), b = unit(depth - 1);
        auto f = a.f, g = b.f;
        r = TU{a.e * b.e, [f, g] { return out(mul(in(f()), in(g()))); }, join(a.s, b.s), "(" + a.t + "*" + b.t + ")"};
      } else if (op >= 4 && op <= 6) {
        TU a = unit(depth - 1);
        auto f = a.f;
        if (op == 4) r = TU{-a.e, [f] { return MatrixXd(-f()); }, a.s, "-" + a.t};
        if (op == 5) r = TU{a.e.conjugate(), [f] { return out(conj(in(f()))); }, a.s, a.t + "~"};
        if (op == 6) r = TU{a.e.inverse(), [f] { return out(conj(in(f()))); }, a.s, a.t + "^-1"};
      } else if (op == 7) {
        V3 a = vector(depth - 1);
        auto f = a.f;
        if (f().norm() > 3) c.discard();
        r = TU{UE::exp(a.e), [f] { return out(exp(Vector3d(f()))); }, a.s, "exp(" + a.t + ")"};
      } else if (op == 8) {
        TU a = unit(depth - 1);
        V3 b = vector(depth - 1);
        auto f = a.f, g = b.f;
        if (g().norm() > 3) c.discard();
        if (c.boolean())
          r = TU{a.e.template geoExp<UnitQuaternionGeometry::LEFT_TRANSLATED>(b.e), [f, g] { return out(mul(in(f()), exp(Vector3d(g())))); },
                 join(a.s, b.s), "lexp(" + a.t + "," + b.t + ")"};
        else
          r = TU{a.e.template geoExp<UnitQuaternionGeometry::RIGHT_TRANSLATED>(b.e), [f, g] { return out(mul(exp(Vector3d(g())), in(f()))); },
                 join(a.s, b.s), "rexp(" + a.t + "," + b.t + ")"};
      }
      u.push_back(r);
      return r;
    }
    V3 vector(int depth) {
      if (!v.empty() && c.oneIn(3)) return c.pick(v);
      const int op = depth <= 0 ? c.integer(0, 1) : c.integer(1, 6);
      const Vector3d k = vec(c, 3, 1);
      V3 r{V3::Ex(k), [k] { return MatrixXd(k); }, Set(), "k"};
      if (op == 1) {
        auto d = add(new DesignVariableGenericVector<3>(k));
        r = V3{V3::Ex(d), [d] { return params(d); }, Set{d}, "v"};
      } else if (op == 2) {
        TQ a = quat(depth - 1);
        auto f = a.f;
        r = V3{a.e.imaginaryPart(), [f] { return MatrixXd(in(f()).v); }, a.s, "im" + a.t};
      } else if (op == 3) {
        TU a = unit(depth - 1);
        V3 b = vector(depth - 1);
        auto f = a.f, g = b.f;
        r = V3{a.e.rotate3Vector(b.e),
               [f, g] {
                 const Q q = in(f());
                 return MatrixXd(mul(mul(q, Q{0, Vector3d(g())}), conj(q)).v);
               },
               join(a.s, b.s), "rot(" + a.t + "," + b.t + ")"};
      } else if (op == 4) {
        TU a = unit(depth - 1);
        auto f = a.f;
        if (in(f()).w < -0.9) c.discard();
        r = V3{UE::log(a.e), [f] { return MatrixXd(log(in(f()))); }, a.s, "log(" + a.t + ")"};
      } else if (op >= 5) {
        TU a = unit(depth - 1), b = unit(depth - 1);
        auto f = a.f, g = b.f;
        auto left = [f, g] { return mul(conj(in(f())), in(g())); };
        auto right = [f, g] { return mul(in(g()), conj(in(f()))); };
        if (left().w < -0.9) c.discard();
        if (op == 5)
          r = V3{a.e.template geoLog<UnitQuaternionGeometry::LEFT_TRANSLATED>(b.e), [left] { return MatrixXd(log(left())); }, join(a.s, b.s),
                 "llog(" + a.t + "," + b.t + ")"};
        else
          r = V3{a.e.template geoLog<UnitQuaternionGeometry::RIGHT_TRANSLATED>(b.e), [right] { return MatrixXd(log(right())); }, join(a.s, b.s),
                 "rlog(" + a.t + "," + b.t + ")"};
      }
      if (r.f().norm() > 50) c.discard();
      v.push_back(r);
      return r;
    }
  };
  static void run(pbt::Case& c) {
    Gen g(c);
    switch (c.integer(0, 2)) {
      case 0: finish(c, g.all, g.quat(c.integer(0, 4)), 4); break;
      case 1: finish(c, g.all, g.unit(c.integer(0, 4)), 4); break;
      default: finish(c, g.all, g.vector(c.integer(0, 4)), 3);
    }
    // A unit quaternion variable stays one
    for (DesignVariable* d : g.all)
      if (d->minimalDimensions() == 3 && params(d).rows() == 4) c.near(params(d).norm(), 1, 1e-9, 0, "norm of a unit quaternion variable");
  }
};
}  // namespace
PBT_CLAIM(quaternions_real_first, 1500) { Quat<QuaternionMode::FIRST_IS_REAL_AND_TRADITIONAL_MULT_ORDER>::run(c); }
PBT_CLAIM(quaternions_real_first_opposite, 1500) { Quat<QuaternionMode::FIRST_IS_REAL_AND_OPPOSITE_MULT_ORDER>::run(c); }
PBT_CLAIM(quaternions_real_last, 1500) { Quat<QuaternionMode::LAST_IS_REAL_AND_TRADITIONAL_MULT_ORDER>::run(c); }
PBT_CLAIM(quaternions_real_last_opposite, 1500) { Quat<QuaternionMode::LAST_IS_REAL_AND_OPPOSITE_MULT_ORDER>::run(c); }

namespace {
template <class S> struct GS {
  GenericScalarExpression<S> e;
  std::function<S()> f;
  Set s;
  std::string t;
};
template <class S> struct ScalarGen {
  pbt::Case& c;
  std::vector<std::shared_ptr<GenericScalar<S> > > keep;
  List all;
  std::vector<GS<S> > pool;
  explicit ScalarGen(pbt::Case& c) : c(c) {}
  GS<S> term(int depth) {
    if (!pool.empty() && c.oneIn(3)) return c.pick(pool);
    const int op = depth <= 0 ? c.integer(0, 2) : c.integer(1, 7);
    const S k(c.real(-3, 3));
    GS<S> r{GenericScalarExpression<S>(k), [k] { return k; }, Set(), "k"};
    if (op == 1 || op == 2) {
      auto d = std::make_shared<GenericScalar<S> >(k);
      keep.push_back(d);
      all.push_back(d.get());
      GenericScalar<S>* p = d.get();
      r = GS<S>{d->toExpression(), [p] { return p->toScalar(); }, Set{p}, "s"};
    } else if (op == 7) {
      GS<S> a = term(depth - 1);
      auto f = a.f;
      r = GS<S>{-a.e, [f] { return S(-f()); }, a.s, "-" + a.t};
    } else if (op > 2) {
      GS<S> a = term(depth - 1), b = term(depth - 1);
      auto f = a.f, g = b.f;
      Set s = join(a.s, b.s);
      const bool div = op == 6 && std::fabs(double(g())) > 0.5;
      const std::string t = "(" + a.t + (op == 3 ? "+" : op == 4 ? "-" : div ? "/" : "*") + b.t + ")";
      if (op == 3) r = GS<S>{a.e + b.e, [f, g] { return S(f() + g()); }, s, t};
      else if (op == 4) r = GS<S>{a.e - b.e, [f, g] { return S(f() - g()); }, s, t};
      else if (div) r = GS<S>{a.e / b.e, [f, g] { return S(f() / g()); }, s, t};
      else r = GS<S>{a.e * b.e, [f, g] { return S(f() * g()); }, s, t};
    }
    if (std::fabs(double(r.f())) > 100) c.discard();
    pool.push_back(r);
    return r;
  }
  void run(double h0, double rtol, double atol) {
    GS<S> t = term(c.integer(0, 5));
    wantVariables(c, t.e, t.s, "getDesignVariables of " + t.t);
    c.eq(double(t.e.toScalar()), double(t.f()), "value of " + t.t);
    c.eq(double(t.e.evaluate()), double(t.f()), "value of " + t.t);
    activate(c, all);
    const bool chain = c.boolean();
    const MatrixXd M = chain ? mat(c, c.integer(1, 3), 1, 2) : MatrixXd(MatrixXd::Identity(1, 1));
    JacobianContainer j(M.rows());
    if (chain) t.e.evaluateJacobians(j, M);
    else t.e.evaluateJacobians(j);
    if (h0 > 0) checkJacobians(c, j, all, [&]() -> VectorXd { return M * double(t.f()); }, h0, rtol, atol * (1 + M.norm()) * (1 + std::fabs(double(t.f()))), "Jacobian of " + t.t);
    if (t.s.size() >= 2 && t.t.size() > 6) c.nontrivial();
    c << t.t << "\n";
  }
};
typedef FixedPointNumber<long long, 1000000000ll> Nano;
typedef FixedPointNumber<int, 1000000> Micro;
}  // namespace
PBT_CLAIM(generic_scalars, 1500) { ScalarGen<double>(c).run(0.02, 2e-6, 1e-7); }
PBT_CLAIM(generic_scalars_fixed_point, 600) {
  ScalarGen<Nano> g(c);
  g.run(0, 0, 0);
}
// Fixed point numbers against exact integer arithmetic
template <class F, class I> static void fixedPoint(pbt::Case& c, I range) {
  typedef __int128 W;
  const W D = F::getDivider();
  I a, b;
  if (range > 1000000000) a = c.integer64(-range, range), b = c.integer64(-range, range);
  else a = c.integer(-(int)range, (int)range), b = c.integer(-(int)range, (int)range);
  if (c.oneIn(3)) b = c.integer(-1000, 1000);
  F x(a), y(b);
  c.eq((long long)x.getNumerator(), (long long)a, "numerator");
  c.eq((long long)x.getDenominator(), (long long)D, "denominator");
  c.near(double(x), double(a) / double(D), 0, 1e-15, "as a double");
  c.eq((long long)(x + y).getNumerator(), (long long)(a + b), "sum");
  c.eq((long long)(x - y).getNumerator(), (long long)(a - b), "difference");
  c.eq((long long)(-x).getNumerator(), (long long)-a, "negative");
  const W p = (W)a * b / D;
  const W lim = std::numeric_limits<I>::max();
  if (p < lim && -p < lim) {
    c.check(std::llabs((long long)(x * y).getNumerator() - (long long)p) <= 1, "product");
    F z = x;
    z *= y;
    c.check(z == x * y, "*=");
  }
  if (b != 0) {
    const W q = (W)a * D / b;
    if (q < lim && -q < lim) {
      c.check(std::llabs((long long)(x / y).getNumerator() - (long long)q) <= 1, "quotient");
      F z = x;
      z /= y;
      c.check(z == x / y, "/=");
    }
  }
  F z = x;
  z += y;
  c.check(z == x + y, "+=");
  z -= y;
  c.check(z == x, "-= takes back +=");
  c.check((x != y) == (a != b) && (x == y) == (a == b), "comparison");
  c.nontrivial();
}
PBT_CLAIM(fixed_point_numbers, 1000) {
  if (c.boolean()) fixedPoint<Nano, long long>(c, 4000000000000000000ll);
  else fixedPoint<Micro, int>(c, 1000000000);
}

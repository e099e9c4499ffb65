// B01: random compositions of the expression classes over shared design
// variables, against direct matrix arithmetic and numerical derivatives.
#include <dv.hpp>
#include <sm_kinematics/rotations.hpp>
#include <sm_kinematics/Transformation.hpp>
#include <sm_kinematics/RotationVector.hpp>
#include <sm_kinematics/EulerAnglesYawPitchRoll.hpp>
#include <sm_kinematics/EulerRodriguez.hpp>
#include <aslam_backend_expressions/Scalar.hpp>
#include <aslam_backend_expressions/ScalarExpression.hpp>
#include <aslam_backend_expressions/ScalarExpressionNode.hpp>
#include <aslam_backend_expressions/EuclideanPoint.hpp>
#include <aslam_backend_expressions/MappedEuclideanPoint.hpp>
#include <aslam_backend_expressions/EuclideanDirection.hpp>
#include <aslam_backend_expressions/EuclideanExpression.hpp>
#include <aslam_backend_expressions/RotationQuaternion.hpp>
#include <aslam_backend_expressions/MappedRotationQuaternion.hpp>
#include <aslam_backend_expressions/RotationExpression.hpp>
#include <aslam_backend_expressions/HomogeneousPoint.hpp>
#include <aslam_backend_expressions/MappedHomogeneousPoint.hpp>
#include <aslam_backend_expressions/HomogeneousExpression.hpp>
#include <aslam_backend_expressions/MatrixBasic.hpp>
#include <aslam_backend_expressions/MatrixExpression.hpp>
#include <aslam_backend_expressions/TransformationBasic.hpp>
#include <aslam_backend_expressions/TransformationExpression.hpp>
#include <aslam_backend_expressions/MapTransformation.hpp>
#include <aslam_backend_expressions/DesignVariableVector.hpp>
#include <aslam_backend_expressions/DesignVariableMappedVector.hpp>
#include <aslam_backend_expressions/VectorExpression.hpp>
#include <aslam_backend_expressions/VectorExpressionNode.hpp>
#include <aslam_backend_expressions/Vector2RotationQuaternionExpressionAdapter.hpp>
#include <aslam_backend_expressions/test/RotationQuaternionAsVectorExpressionNode.hpp>
using namespace dvs;
using namespace aslam::backend;

namespace {
typedef std::set<DesignVariable*> Set;
template <class T> boost::shared_ptr<T> borrowed(T* p) { return boost::shared_ptr<T>(p, [](T*) {}); }
MatrixXd params(DesignVariable* d) {
  MatrixXd v;
  d->getParameters(v);
  return v;
}
// The rotation of a quaternion (vector part first) in the sign of quat2r
Matrix3d rotationOf(const MatrixXd& q) {
  const Vector3d e(q(0), q(1), q(2));
  const double w = q(3);
  Matrix3d X = skew(e);
  return (w * w - e.dot(e)) * Matrix3d::Identity() + 2 * e * e.transpose() - 2 * w * X;
}
template <class E, class V> struct Term {
  E e;
  std::function<V()> f;
  Set s;
  std::string text;
};
typedef Term<ScalarExpression, double> Sc;
typedef Term<EuclideanExpression, Vector3d> Eu;
typedef Term<RotationExpression, Matrix3d> Ro;
typedef Term<TransformationExpression, Matrix4d> Tr;
typedef Term<HomogeneousExpression, Vector4d> Ho;
Set join(Set a, const Set& b) {
  a.insert(b.begin(), b.end());
  return a;
}
Matrix4d assemble(const Matrix3d& C, const Vector3d& t) {
  Matrix4d T = Matrix4d::Identity();
  T.topLeftCorner<3, 3>() = C;
  T.topRightCorner<3, 1>() = t;
  return T;
}

// Generator: a pool of design variables, and terms over it.
struct Gen {
  pbt::Case& c;
  std::vector<boost::shared_ptr<DesignVariable> > keep;
  std::vector<std::shared_ptr<std::vector<double> > > memory;
  std::vector<boost::shared_ptr<sm::kinematics::Transformation> > poses;
  List all;
  double scale = 1;  // rough bound of the magnitudes met
  std::vector<Sc> scalars;
  std::vector<Eu> points;
  std::vector<Ro> rotations;
  std::vector<Tr> transforms;
  std::vector<Ho> homogeneous;
  std::vector<std::pair<MatrixExpression, Term<int, Matrix3d> > > matrices;
  explicit Gen(pbt::Case& c) : c(c) {}

  template <class T> boost::shared_ptr<T> add(T* p) {
    boost::shared_ptr<T> s(p);
    keep.push_back(s);
    all.push_back(p);
    return s;
  }
  double* mapped(const VectorXd& v) {
    memory.push_back(std::make_shared<std::vector<double> >(v.data(), v.data() + v.size()));
    return memory.back()->data();
  }
  Vector3d small() { return vec(c, 3, 2); }
  Sc scalarLeaf() {
    switch (c.integer(0, 2)) {
      case 0: {
        auto d = add(new Scalar(c.real(-2, 2)));
        DesignVariable* p = d.get();
        return Sc{d->toExpression(), [p] { return params(p)(0, 0); }, Set{p}, "s"};
      }
      case 1: {
        auto d = add(new DesignVariableVector<1>(Eigen::Matrix<double, 1, 1>::Constant(c.real(-2, 2))));
        DesignVariable* p = d.get();
        return Sc{d->toExpression().toScalarExpression(), [p] { return params(p)(0, 0); }, Set{p}, "s(v1)"};
      }
      default: {
        const double x = c.real(-2, 2);
        return Sc{ScalarExpression(x), [x] { return x; }, Set(), "const"};
      }
    }
  }
  Eu pointLeaf() {
    switch (c.integer(0, 5)) {
      case 0: {
        auto d = add(new EuclideanPoint(small()));
        DesignVariable* p = d.get();
        return Eu{d->toExpression(), [p] { return Vector3d(params(p)); }, Set{p}, "p"};
      }
      case 1: {
        auto d = add(new MappedEuclideanPoint(mapped(small())));
        DesignVariable* p = d.get();
        return Eu{d->toExpression(), [p] { return Vector3d(params(p)); }, Set{p}, "mp"};
      }
      case 2: {
        Vector3d v = c.real(0.3, 3) * unit3(c);
        auto d = add(new EuclideanDirection(v));
        DesignVariable* p = d.get();
        const double n = v.norm();
        c.nearMat(d->toExpression().toEuclidean(), v, 1e-10, 0, "direction of an EuclideanDirection");
        return Eu{d->toExpression(), [p, n] { return Vector3d(n * params(p).col(2)); }, Set{p}, "dir"};
      }
      case 3: {
        auto d = add(new DesignVariableVector<3>(small()));
        DesignVariable* p = d.get();
        return Eu{EuclideanExpression(d->toExpression()), [p] { return Vector3d(params(p)); }, Set{p}, "v3"};
      }
      case 4: {
        auto d = add(new DesignVariableMappedVector<3>(mapped(small())));
        DesignVariable* p = d.get();
        return Eu{EuclideanExpression(d->toExpression()), [p] { return Vector3d(params(p)); }, Set{p}, "mv3"};
      }
      default: {
        const Vector3d v = small();
        return Eu{EuclideanExpression(v), [v] { return v; }, Set(), "const"};
      }
    }
  }
  Vector4d unitQuaternion() {
    Vector4d q;
    do q = vec(c, 4, 1);
    while (q.norm() < 1e-3 && (q = Vector4d(0, 0, 0, 1), false));
    return q.norm() < 1e-3 ? Vector4d(0, 0, 0, 1) : Vector4d(q / q.norm());
  }
  Ro rotationLeaf() {
    switch (c.integer(0, 3)) {
      case 0: {
        auto d = add(new RotationQuaternion(unitQuaternion()));
        DesignVariable* p = d.get();
        return Ro{d->toExpression(), [p] { return rotationOf(params(p)); }, Set{p}, "q"};
      }
      case 1: {
        auto d = add(new MappedRotationQuaternion(mapped(unitQuaternion())));
        DesignVariable* p = d.get();
        return Ro{d->toExpression(), [p] { return rotationOf(params(p)); }, Set{p}, "mq"};
      }
      case 2: {
        Matrix3d C = rotation(c, M_PI - 1e-3);
        auto d = add(new RotationQuaternion(C));
        DesignVariable* p = d.get();
        c.nearMat(rotationOf(params(p)), C, 1e-10, 0, "RotationQuaternion from a matrix");
        return Ro{d->toExpression(), [p] { return rotationOf(params(p)); }, Set{p}, "qC"};
      }
      default: {
        auto d = add(new RotationQuaternion(unitQuaternion()));
        RotationQuaternion* p = d.get();
        boost::shared_ptr<VectorExpressionNode<4> > n(new RotationQuaternionAsVectorExpressionNode<true>(*p));
        return Ro{Vector2RotationQuaternionExpressionAdapter::adapt(VectorExpression<4>(n)), [p] { return rotationOf(params(p)); },
                  Set{p}, "adapt(q)"};
      }
    }
  }
  Ho homogeneousLeaf() {
    const int k = c.integer(0, 3);
    Vector4d h = unitQuaternion();
    if (std::fabs(h(3)) < 0.3) h(3) = h(3) < 0 ? -0.5 : 0.5;
    if (k == 2) {
      return Ho{HomogeneousExpression(h), [h] { return h; }, Set(), "const4"};
    } else if (k == 3) {
      const Vector3d v = small();
      return Ho{HomogeneousExpression(v), [v] { return Vector4d(v(0), v(1), v(2), 1); }, Set(), "const3"};
    }
    h /= h.norm();
    if (k == 0) {
      auto d = add(new HomogeneousPoint(h * c.logReal(0.5, 2)));
      DesignVariable* p = d.get();
      return Ho{d->toExpression(), [p] { return Vector4d(params(p)); }, Set{p}, "h"};
    }
    auto d = add(new MappedHomogeneousPoint(mapped(h)));
    DesignVariable* p = d.get();
    return Ho{d->toExpression(), [p] { return Vector4d(params(p)); }, Set{p}, "mh"};
  }
  template <class T> const T& shared(std::vector<T>& pool, const T& fresh) {
    pool.push_back(fresh);
    return pool.back();
  }
  Sc scalar(int depth) {
    if (!scalars.empty() && c.oneIn(3)) return c.pick(scalars);
    const int op = depth <= 0 ? 0 : c.integer(0, 8);
    Sc r = op == 0 ? scalarLeaf() : Sc{ScalarExpression(0.0), {}, Set(), ""};
    if (op >= 1 && op <= 4) {
      Sc a = scalar(depth - 1), b = scalar(depth - 1);
      auto f = a.f, g = b.f;
      Set s = join(a.s, b.s);
      const std::string t = "(" + a.text + "+-*/"[op - 1] + b.text + ")";
      if (op == 1) r = Sc{a.e + b.e, [f, g] { return f() + g(); }, s, t};
      if (op == 2) r = Sc{a.e - b.e, [f, g] { return f() - g(); }, s, t};
      if (op == 3) r = Sc{a.e * b.e, [f, g] { return f() * g(); }, s, t};
      if (op == 4) {
        if (std::fabs(g()) < 0.3) r = Sc{a.e * b.e, [f, g] { return f() * g(); }, s, t};
        else r = Sc{a.e / b.e, [f, g] { return f() / g(); }, s, t};
      }
    } else if (op > 4) {
      Sc a = scalar(depth - 1);
      const double k = c.sign() * c.real(0.3, 2);
      auto f = a.f;
      const std::string t = "(" + a.text + "+-*/"[op - 5] + "k)";
      if (op == 5) r = Sc{a.e + k, [f, k] { return f() + k; }, a.s, t};
      if (op == 6) r = Sc{a.e - k, [f, k] { return f() - k; }, a.s, t};
      if (op == 7) r = Sc{a.e * k, [f, k] { return f() * k; }, a.s, t};
      if (op == 8) r = Sc{a.e / k, [f, k] { return f() / k; }, a.s, t};
    }
    if (std::fabs(r.f()) > 50) c.discard();
    return shared(scalars, r);
  }
  Eu point(int depth) {
    if (!points.empty() && c.oneIn(3)) return c.pick(points);
    const int op = depth <= 0 ? 0 : c.integer(0, 13);
    Eu r = op == 0 ? pointLeaf() : Eu{EuclideanExpression(Vector3d(0, 0, 0)), {}, Set(), ""};
    if (op == 1 || op == 2 || op == 3 || op == 4) {
      Eu a = point(depth - 1), b = point(depth - 1);
      auto f = a.f, g = b.f;
      Set s = join(a.s, b.s);
      const std::string t = "(" + a.text + "+-x."[op - 1] + b.text + ")";
      if (op == 1) r = Eu{a.e + b.e, [f, g] { return Vector3d(f() + g()); }, s, t};
      if (op == 2) r = Eu{a.e - b.e, [f, g] { return Vector3d(f() - g()); }, s, t};
      if (op == 3) r = Eu{a.e.cross(b.e), [f, g] { return Vector3d(skew(f()) * g()); }, s, t};
      if (op == 4) r = Eu{a.e.elementwiseMultiply(b.e), [f, g] { return Vector3d(f().cwiseProduct(g())); }, s, t};
    } else if (op == 5) {
      Eu a = point(depth - 1);
      auto f = a.f;
      r = Eu{-a.e, [f] { return Vector3d(-f()); }, a.s, "-" + a.text};
    } else if (op == 6) {
      Eu a = point(depth - 1);
      auto f = a.f;
      const Vector3d k = small();
      r = Eu{a.e - k, [f, k] { return Vector3d(f() - k); }, a.s, "(" + a.text + "-k)"};
    } else if (op == 7) {
      Eu a = point(depth - 1);
      Sc b = scalar(depth - 1);
      auto f = a.f;
      auto g = b.f;
      r = Eu{a.e * b.e, [f, g] { return Vector3d(f() * g()); }, join(a.s, b.s), "(" + a.text + "*" + b.text + ")"};
    } else if (op == 8 || op == 9) {
      Ro a = rotated(depth - 1);
      Eu b = point(depth - 1);
      auto f = a.f;
      auto g = b.f;
      r = Eu{a.e * b.e, [f, g] { return Vector3d(f() * g()); }, join(a.s, b.s), a.text + "*" + b.text};
    } else if (op == 10) {
      Tr a = transform(depth - 1);
      auto f = a.f;
      r = Eu{a.e.toEuclideanExpression(), [f] { return Vector3d(f().topRightCorner<3, 1>()); }, a.s, a.text + ".t"};
    } else if (op == 11) {
      Ho a = homog(depth - 1);
      auto f = a.f;
      if (std::fabs(f()(3)) < 0.2) c.discard();
      r = Eu{a.e.toEuclideanExpression(), [f] { return Vector3d(f().head<3>() / f()(3)); }, a.s, "eu(" + a.text + ")"};
    } else if (op == 12) {
      auto m = matrix();
      Eu b = point(depth - 1);
      auto f = m.second.f;
      auto g = b.f;
      r = Eu{m.first * b.e, [f, g] { return Vector3d(f() * g()); }, join(m.second.s, b.s), m.second.text + "*" + b.text};
    } else if (op == 13) {
      // Parameters of the rotation; away from the singularities of the vector
      Ro a = rotated(depth - 1);
      auto f = a.f;
      sm::kinematics::RotationalKinematics::Ptr rk;
      const int which = c.integer(0, 2);
      if (which == 0) rk.reset(new sm::kinematics::RotationVector());
      if (which == 1) rk.reset(new sm::kinematics::EulerAnglesYawPitchRoll());
      if (which == 2) rk.reset(new sm::kinematics::EulerRodriguez());
      const Matrix3d C = f();
      const double ang = std::acos(std::max(-1.0, std::min(1.0, (C.trace() - 1) / 2)));
      // the conversion of a matrix has no precision left near the identity
      if (which != 1 && (ang > 2.5 || ang < 1e-2)) c.discard();
      const Vector3d v = rk->rotationMatrixToParameters(C);
      if (which == 1 && (std::fabs(v(1)) > 1.2 || std::fabs(v(0)) > 2.9 || std::fabs(v(2)) > 2.9)) c.discard();
      r = Eu{a.e.toParameters(rk), [f, rk] { return rk->rotationMatrixToParameters(f()); }, a.s, "params" + std::to_string(which) + "(" + a.text + ")"};
    }
    if (r.f().norm() > 100) c.discard();
    return shared(points, r);
  }
  std::pair<MatrixExpression, Term<int, Matrix3d> > matrix() {
    if (!matrices.empty() && c.oneIn(3)) return c.pick(matrices);
    Matrix3d A = mat(c, 3, 3, 2);
    Eigen::Matrix3i P;
    for (int i = 0; i < 9; ++i) P(i / 3, i % 3) = c.boolean();
    if (P.isZero()) P(c.integer(0, 2), c.integer(0, 2)) = 1;
    switch (c.integer(0, 1)) {
      case 0: {
        auto d = add(new MatrixBasic(A));
        DesignVariable* p = d.get();
        matrices.push_back({d->toExpression(), {0, [p] { return Matrix3d(params(p)); }, Set{p}, "M"}});
        break;
      }
      case 1: {
        auto d = add(new MatrixBasic(A, P));
        DesignVariable* p = d.get();
        matrices.push_back({d->toExpression(), {0, [p] { return Matrix3d(params(p)); }, Set{p}, "MP"}});
        break;
      }
    }
    return matrices.back();
  }
  Ro rotated(int depth) {
    if (!rotations.empty() && c.oneIn(3)) return c.pick(rotations);
    const int op = depth <= 0 ? 0 : c.integer(0, 4);
    Ro r = rotations.empty() || op == 0 ? rotationLeaf() : rotations[0];
    if (op == 1 || op == 2) {
      Ro a = rotated(depth - 1), b = rotated(depth - 1);
      auto f = a.f, g = b.f;
      r = Ro{a.e * b.e, [f, g] { return Matrix3d(f() * g()); }, join(a.s, b.s), "(" + a.text + "*" + b.text + ")"};
    } else if (op == 3) {
      Ro a = rotated(depth - 1);
      auto f = a.f;
      r = Ro{a.e.inverse(), [f] { return Matrix3d(f().transpose()); }, a.s, a.text + "^-1"};
    } else if (op == 4) {
      Tr a = transform(depth - 1);
      auto f = a.f;
      r = Ro{a.e.toRotationExpression(), [f] { return Matrix3d(f().topLeftCorner<3, 3>()); }, a.s, a.text + ".C"};
    }
    return shared(rotations, r);
  }
  Tr transform(int depth) {
    if (!transforms.empty() && c.oneIn(3)) return c.pick(transforms);
    const int op = depth <= 0 ? c.integer(0, 1) : c.integer(0, 6);
    if (op == 0) {
      const Matrix4d T = num::transform(c, M_PI, 2);
      return shared(transforms, Tr{TransformationExpression(T), [T] { return T; }, Set(), "T0"});
    }
    if (op == 1) {
      Matrix4d T = num::transform(c, M_PI - 1e-3, 2);
      boost::shared_ptr<sm::kinematics::Transformation> s(new sm::kinematics::Transformation(T));
      poses.push_back(s);
      boost::shared_ptr<MappedRotationQuaternion> q;
      boost::shared_ptr<MappedEuclideanPoint> t;
      TransformationExpression e = transformationToExpression(*s, q, t);
      keep.push_back(q);
      keep.push_back(t);
      all.push_back(q.get());
      all.push_back(t.get());
      return shared(transforms, Tr{e, [s] { return s->T(); }, Set{q.get(), t.get()}, "Tm"});
    }
    if (op == 2 || op == 3) {
      Ro a = rotated(depth - 1);
      Eu b = point(depth - 1);
      auto f = a.f;
      auto g = b.f;
      auto h = [f, g] { return assemble(f(), g()); };
      if (c.boolean()) return shared(transforms, Tr{TransformationExpression(a.e, b.e), h, join(a.s, b.s), "T(" + a.text + "," + b.text + ")"});
      boost::shared_ptr<TransformationExpressionNode> n(new TransformationBasic(a.e, b.e));
      return shared(transforms, Tr{TransformationExpression(n), h, join(a.s, b.s), "TB(" + a.text + "," + b.text + ")"});
    }
    if (op == 4 || op == 5) {
      Tr a = transform(depth - 1), b = transform(depth - 1);
      auto f = a.f, g = b.f;
      return shared(transforms, Tr{a.e * b.e, [f, g] { return Matrix4d(f() * g()); }, join(a.s, b.s), "(" + a.text + "*" + b.text + ")"});
    }
    Tr a = transform(depth - 1);
    auto f = a.f;
    return shared(transforms, Tr{a.e.inverse(), [f] { return Matrix4d(f().inverse()); }, a.s, a.text + "^-1"});
  }
  Ho homog(int depth) {
    if (!homogeneous.empty() && c.oneIn(3)) return c.pick(homogeneous);
    const int op = depth <= 0 ? 0 : c.integer(0, 4);
    if (op == 0) return shared(homogeneous, homogeneousLeaf());
    if (op == 1 || op == 2) {
      Tr a = transform(depth - 1);
      Ho b = homog(depth - 1);
      auto f = a.f;
      auto g = b.f;
      return shared(homogeneous, Ho{a.e * b.e, [f, g] { return Vector4d(f() * g()); }, join(a.s, b.s), a.text + "*" + b.text});
    }
    if (op == 3) {
      Eu a = point(depth - 1);
      auto f = a.f;
      return shared(homogeneous, Ho{a.e.toHomogeneousExpression(),
                                    [f] {
                                      Vector4d v;
                                      v << f(), 1;
                                      return v;
                                    },
                                    a.s, "ho(" + a.text + ")"});
    }
    return shared(homogeneous, homogeneousLeaf());
  }
  // Random steps and reverted steps before the expressions are looked at
  void wander() {
    for (DesignVariable* d : all)
      for (int n = c.integer(0, 2); n > 0; --n) {
        VectorXd v = vec(c, d->minimalDimensions(), 0.3);
        d->update(v.data(), v.size());
        if (c.oneIn(3)) d->revertUpdate();
      }
  }
};

const double H = 0.03, RT = 2e-6;

// Values, reported variables and Jacobians (with and without a chain rule)
template <class T, class E, class F> void finish(pbt::Case& c, Gen& g, const T& t, E eval, F delta, int rows, bool chainable) {
  wantVariables(c, t.e, t.s, "getDesignVariables of " + t.text);
  auto value = [&] { return MatrixXd(eval()); };
  auto direct = [&] {
    MatrixXd m(1, 1);
    auto v = t.f();
    return MatrixXd(MatrixXd::Identity(1, 1).size() ? delta.mat(v) : m);
  };
  const double size = 1 + direct().norm();
  c.nearMat(value(), direct(), 1e-9 * size, 0, "value of " + t.text);
  activate(c, g.all);
  const bool chain = chainable && c.boolean();
  const MatrixXd M = chain ? mat(c, c.integer(1, rows + 2), rows, 2) : MatrixXd(MatrixXd::Identity(rows, rows));
  JacobianContainer j(M.rows());
  eval();
  delta.jacobians(t.e, j, chain ? &M : 0);
  auto base = t.f();
  auto f = [&]() -> VectorXd { return M * delta(t.f(), base); };
  checkJacobians(c, j, g.all, f, H, RT, 1e-7 * size * (1 + M.norm()), "Jacobian of " + t.text + (chain ? " with chain rule" : ""));
  // The same values again after the steps
  c.nearMat(value(), direct(), 1e-9 * size, 0, "value after stepping");
  size_t active = 0;
  for (DesignVariable* d : t.s) active += d->isActive();
  if (active >= 2 && t.text.size() > 12) c.nontrivial();
  c << t.text << "\n";
}
struct VecDelta {
  MatrixXd mat(double v) const { return MatrixXd::Constant(1, 1, v); }
  MatrixXd mat(const MatrixXd& v) const { return v; }
  VectorXd operator()(double a, double) const { return VectorXd::Constant(1, a); }
  VectorXd operator()(const MatrixXd& a, const MatrixXd&) const { return a; }
  template <class E> void jacobians(const E& e, JacobianContainer& j, const MatrixXd* M) const {
    if (M) e.evaluateJacobians(j, *M);
    else e.evaluateJacobians(j);
  }
};
struct RotDelta {
  MatrixXd mat(const Matrix3d& v) const { return v; }
  VectorXd operator()(const Matrix3d& a, const Matrix3d& b) const { return rotationStep(a, b); }
  void jacobians(const RotationExpression& e, JacobianContainer& j, const MatrixXd*) const { e.evaluateJacobians(j); }
};
struct PoseDelta : VecDelta {
  VectorXd operator()(const Matrix4d& a, const Matrix4d& b) const { return poseStep(a, b); }
};
}  // namespace

PBT_CLAIM(scalar_expressions, 1500) {
  Gen g(c);
  Sc t = g.scalar(c.integer(0, 5));
  g.wander();
  if (!(std::fabs(t.f()) < 1e3)) c.discard();
  finish(c, g, t, [&] { return MatrixXd::Constant(1, 1, t.e.toScalar()); }, VecDelta(), 1, true);
}
PBT_CLAIM(euclidean_expressions, 4000) {
  Gen g(c);
  Eu t = g.point(c.integer(0, 4));
  finish(c, g, t, [&] { return t.e.toEuclidean(); }, VecDelta(), 3, true);
}
PBT_CLAIM(rotation_expressions, 1500) {
  Gen g(c);
  Ro t = g.rotated(c.integer(0, 4));
  g.wander();
  finish(c, g, t, [&] { return t.e.toRotationMatrix(); }, RotDelta(), 3, false);
}
PBT_CLAIM(transformation_expressions, 2000) {
  Gen g(c);
  Tr t = g.transform(c.integer(0, 4));
  finish(c, g, t, [&] { return t.e.toTransformationMatrix(); }, PoseDelta(), 6, true);
}
PBT_CLAIM(homogeneous_expressions, 1500) {
  Gen g(c);
  Ho t = g.homog(c.integer(0, 4));
  finish(c, g, t, [&] { return t.e.toHomogeneous(); }, VecDelta(), 4, true);
}
PBT_CLAIM(vector_expressions, 400) {
  Gen g(c);
  VectorXd v5 = vec(c, 5, 2);
  auto d = g.add(new DesignVariableVector<5>(v5));
  double* m = g.mapped(vec(c, 2, 2));
  auto e = g.add(new DesignVariableMappedVector<2>(m));
  g.wander();
  activate(c, g.all);
  const MatrixXd M = mat(c, c.integer(1, 4), 5, 2), N = mat(c, M.rows(), 2, 2);
  JacobianContainer j(M.rows()), k(5);
  d->toExpression().evaluateJacobians(j, M);
  e->toExpression().evaluateJacobians(j, N);
  List l(g.all);
  checkJacobians(c, j, l, [&]() -> VectorXd { return M * d->value() + N * Eigen::Vector2d(m[0], m[1]); }, 0.1, 1e-8, 1e-9, "vectors");
  d->toExpression().evaluateJacobians(k);
  if (d->isActive()) c.nearMat(*dvs::find(k, d.get()), MatrixXd::Identity(5, 5), 0, 0, "identity");
  c.nearMat(d->toExpression().evaluate(), d->value(), 0, 0, "value");
  c.nearMat(e->toExpression().evaluate(), Eigen::Vector2d(m[0], m[1]), 0, 0, "mapped value");
  wantVariables(c, d->toExpression(), Set{d.get()}, "vector");
  wantVariables(c, e->toExpression(), Set{e.get()}, "mapped vector");
  c.nontrivial();
}
// A matrix as such: its Jacobian is that of its nine entries, column by column
PBT_CLAIM(matrix_expressions, 400) {
  Gen g(c);
  auto m = g.matrix();
  g.wander();
  activate(c, g.all);
  wantVariables(c, m.first, m.second.s, "matrix");
  c.nearMat(m.first.toMatrix3x3(), m.second.f(), 0, 0, "value");
  JacobianContainer j(9);
  m.first.evaluateJacobians(j);
  checkJacobians(c, j, g.all, [&]() -> VectorXd { Matrix3d A = m.first.toMatrix3x3(); return Eigen::Map<VectorXd>(A.data(), 9); }, 0.1, 1e-8,
                 1e-9, "matrix " + m.second.text);
  c.nontrivial();
}
PBT_MAIN("B01", "at least two active variables and a composed expression")

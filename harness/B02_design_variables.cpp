// B02: histories of updates, reverts, settings and flags over all kinds of
// design variables, against a model of each.
#include <dv.hpp>
#include <aslam_cameras/cameras.hpp>
#include <sm_kinematics/rotations.hpp>
#include <sm_kinematics/quaternion_algebra.hpp>
#include <aslam_backend_expressions/Scalar.hpp>
#include <aslam_backend_expressions/ScalarExpression.hpp>
#include <aslam_backend_expressions/EuclideanPoint.hpp>
#include <aslam_backend_expressions/MappedEuclideanPoint.hpp>
#include <aslam_backend_expressions/EuclideanDirection.hpp>
#include <aslam_backend_expressions/EuclideanExpression.hpp>
#include <aslam_backend_expressions/RotationQuaternion.hpp>
#include <aslam_backend_expressions/MappedRotationQuaternion.hpp>
#include <aslam_backend_expressions/RotationExpression.hpp>
#include <aslam_backend_expressions/HomogeneousPoint.hpp>
#include <aslam_backend_expressions/MappedHomogeneousPoint.hpp>
#include <aslam_backend_expressions/HomogeneousExpression.hpp>
#include <aslam_backend_expressions/MatrixBasic.hpp>
#include <aslam_backend_expressions/MatrixExpression.hpp>
#include <aslam_backend_expressions/DesignVariableVector.hpp>
#include <aslam_backend_expressions/DesignVariableMappedVector.hpp>
#include <aslam_backend_expressions/DesignVariableGenericVector.hpp>
#include <aslam_backend_expressions/DesignVariableUnitQuaternion.hpp>
#include <aslam_backend_expressions/DesignVariableMinimalDifferenceExpression.hpp>
#include <aslam_backend_expressions/GenericScalar.hpp>
#include <aslam_backend/backend/DesignVariableAdapter.hpp>
#include <aslam_incremental_calibration/data-structures/VectorDesignVariable.h>
using namespace dvs;
using namespace aslam::backend;

namespace {
enum Kind { ADDITIVE, QUATERNION, DIRECTION, MATRIX, LEFT_UNIT, RIGHT_UNIT };
const char* kindName[] = {"additive", "quaternion", "direction", "matrix", "left unit quaternion", "right unit quaternion"};
MatrixXd params(const DesignVariable* d) {
  MatrixXd v;
  d->getParameters(v);
  return v;
}
struct Var {
  std::shared_ptr<DesignVariable> d;
  std::shared_ptr<std::vector<double> > memory;
  Kind kind;
  std::string name;
  int dim;
  std::function<MatrixXd()> view;                                      // the value by another way, as parameters
  std::function<std::shared_ptr<DesignVariable>(const MatrixXd&)> at;  // a variable of the same type elsewhere
  Eigen::MatrixXi pattern;
  bool difference = true;
  // model
  MatrixXd cur, prev;
  bool updated = false, active = false, marginalized = false;
  double scaling = 1;
  int block = -1, column = -1;
  // What a step is to make of the parameters
  MatrixXd step(const MatrixXd& p, const VectorXd& s) const {
    if (kind == ADDITIVE) return p + s;
    if (kind == MATRIX) {
      MatrixXd r = p;
      int k = 0;
      for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j)
          if (dim == 9) r(i, j) += s(j * 3 + i);
          else if (pattern(i, j)) r(i, j) += s(k++);
      return r;
    }
    if (kind == DIRECTION) {
      const double b = s(0), a = s(1);
      Matrix3d Y, X;
      Y << std::cos(b), 0, -std::sin(b), 0, 1, 0, std::sin(b), 0, std::cos(b);
      X << 1, 0, 0, 0, std::cos(a), std::sin(a), 0, -std::sin(a), std::cos(a);
      return p * (X * Y);
    }
    const Vector3d phi = (kind == QUATERNION ? 0.5 : 1.0) * Vector3d(s);
    const double n = phi.norm();
    const Vector3d e = phi * (n < 1e-9 ? 1.0 : std::sin(n) / n);
    const double w = std::cos(n);
    const Vector3d pv(p(0), p(1), p(2));
    const double pw = p(3);
    Vector4d r;
    // the passive (sm_kinematics) or the Hamilton product
    const double sgn = kind == QUATERNION ? -1 : kind == LEFT_UNIT ? -1 : 1;
    r.head<3>() = w * pv + pw * e + sgn * e.cross(pv);
    r(3) = w * pw - e.dot(pv);
    return r;
  }
  MatrixXd randomParameters(pbt::Case& c) const {
    if (kind == ADDITIVE) return vec(c, cur.rows(), 3);
    if (kind == MATRIX) return mat(c, 3, 3, 3);
    if (kind == DIRECTION) return rotation(c, M_PI);
    VectorXd q = vec(c, 4, 1);
    if (q.norm() < 1e-3) q << 0, 0, 0, 1;
    return q / q.norm();
  }
  bool unit() const { return kind == QUATERNION || kind == LEFT_UNIT || kind == RIGHT_UNIT; }
};

Vector4d unitQ(pbt::Case& c) {
  Vector4d q = vec(c, 4, 1);
  if (q.norm() < 1e-3) q << 0, 0, 0, 1;
  return q / q.norm();
}
template <class T> std::shared_ptr<DesignVariable> own(T* p) { return std::shared_ptr<T>(p); }

template <int D> Var vectorVar(pbt::Case& c) {
  Var v;
  v.kind = ADDITIVE;
  v.dim = D;
  const Eigen::Matrix<double, D, 1> x = vec(c, D, 3);
  switch (c.integer(0, 3)) {
    case 0: {
      auto d = std::make_shared<DesignVariableVector<D> >(x);
      v.d = d;
      v.name = "DesignVariableVector";
      v.view = [d] { return MatrixXd(d->value()); };
      v.at = [](const MatrixXd& p) { return own(new DesignVariableVector<D>(p)); };
      break;
    }
    case 1: {
      v.memory = std::make_shared<std::vector<double> >(x.data(), x.data() + D);
      auto m = v.memory;
      auto d = std::make_shared<DesignVariableMappedVector<D> >(m->data());
      v.d = d;
      v.name = "DesignVariableMappedVector";
      v.view = [m] { return MatrixXd(Eigen::Map<VectorXd>(m->data(), D)); };
      v.at = [](const MatrixXd& p) {
        auto mem = std::make_shared<std::vector<double> >(p.data(), p.data() + D);
        auto q = std::shared_ptr<DesignVariable>(new DesignVariableMappedVector<D>(mem->data()), [mem](DesignVariable* z) { delete z; });
        return q;
      };
      break;
    }
    case 2: {
      auto d = std::make_shared<DesignVariableGenericVector<D> >(x);
      v.d = d;
      v.name = "DesignVariableGenericVector";
      v.view = [d] { return MatrixXd(d->value()); };
      v.difference = false;
      break;
    }
    default: {
      auto d = std::make_shared<aslam::calibration::VectorDesignVariable<D> >(x);
      v.d = d;
      v.name = "VectorDesignVariable";
      v.view = [d] { return MatrixXd(d->getValue()); };
      v.difference = false;
    }
  }
  return v;
}
template <class P> Var adapterVar(const boost::shared_ptr<P>& p, const char* name) {
  Var v;
  auto d = std::make_shared<DesignVariableAdapter<P> >(p);
  v.d = d;
  v.kind = ADDITIVE;
  v.name = name;
  v.dim = p->minimalDimensions();
  v.view = [p] {
    MatrixXd m;
    p->getParameters(m);
    return m;
  };
  v.difference = false;
  return v;
}
Var anyVar(pbt::Case& c) {
  Var v;
  switch (c.integer(0, 13)) {
    case 0: {
      auto d = std::make_shared<Scalar>(c.real(-3, 3));
      v.d = d, v.kind = ADDITIVE, v.name = "Scalar", v.dim = 1;
      v.view = [d] { return MatrixXd::Constant(1, 1, d->toExpression().toScalar()); };
      v.at = [](const MatrixXd& p) { return own(new Scalar(p(0, 0))); };
      break;
    }
    case 1: {
      auto d = std::make_shared<EuclideanPoint>(Vector3d(vec(c, 3, 3)));
      v.d = d, v.kind = ADDITIVE, v.name = "EuclideanPoint", v.dim = 3;
      v.view = [d] { return MatrixXd(d->toExpression().toEuclidean()); };
      v.at = [](const MatrixXd& p) { return own(new EuclideanPoint(Vector3d(p))); };
      break;
    }
    case 2: {
      const Vector3d x = vec(c, 3, 3);
      v.memory = std::make_shared<std::vector<double> >(x.data(), x.data() + 3);
      auto d = std::make_shared<MappedEuclideanPoint>(v.memory->data());
      v.d = d, v.kind = ADDITIVE, v.name = "MappedEuclideanPoint", v.dim = 3;
      v.view = [d] { return MatrixXd(d->toExpression().toEuclidean()); };
      v.at = [](const MatrixXd& p) {
        auto mem = std::make_shared<std::vector<double> >(p.data(), p.data() + 3);
        return std::shared_ptr<DesignVariable>(new MappedEuclideanPoint(mem->data()), [mem](DesignVariable* z) { delete z; });
      };
      break;
    }
    case 3: {
      auto d = std::make_shared<RotationQuaternion>(unitQ(c));
      v.d = d, v.kind = QUATERNION, v.name = "RotationQuaternion", v.dim = 3;
      v.view = [d] { return MatrixXd(d->getQuaternion()); };
      v.at = [](const MatrixXd& p) { return own(new RotationQuaternion(Vector4d(p))); };
      break;
    }
    case 4: {
      const Vector4d x = unitQ(c);
      v.memory = std::make_shared<std::vector<double> >(x.data(), x.data() + 4);
      auto m = v.memory;
      auto d = std::make_shared<MappedRotationQuaternion>(m->data());
      v.d = d, v.kind = QUATERNION, v.name = "MappedRotationQuaternion", v.dim = 3;
      v.view = [m] { return MatrixXd(Eigen::Map<VectorXd>(m->data(), 4)); };
      v.at = [](const MatrixXd& p) {
        auto mem = std::make_shared<std::vector<double> >(p.data(), p.data() + 4);
        return std::shared_ptr<DesignVariable>(new MappedRotationQuaternion(mem->data()), [mem](DesignVariable* z) { delete z; });
      };
      break;
    }
    case 5: {
      auto d = std::make_shared<HomogeneousPoint>(Vector4d(unitQ(c) * c.logReal(0.3, 3)));
      v.d = d, v.kind = QUATERNION, v.name = "HomogeneousPoint", v.dim = 3;
      v.view = [d] { return MatrixXd(d->toExpression().toHomogeneous()); };
      v.at = [](const MatrixXd& p) { return own(new HomogeneousPoint(Vector4d(p))); };
      break;
    }
    case 6: {
      const Vector4d x = unitQ(c);
      v.memory = std::make_shared<std::vector<double> >(x.data(), x.data() + 4);
      auto d = std::make_shared<MappedHomogeneousPoint>(v.memory->data());
      v.d = d, v.kind = QUATERNION, v.name = "MappedHomogeneousPoint", v.dim = 3;
      v.view = [d] { return MatrixXd(d->toExpression().toHomogeneous()); };
      v.at = [](const MatrixXd& p) {
        auto mem = std::make_shared<std::vector<double> >(p.data(), p.data() + 4);
        return std::shared_ptr<DesignVariable>(new MappedHomogeneousPoint(mem->data()), [mem](DesignVariable* z) { delete z; });
      };
      break;
    }
    case 7: {
      auto d = std::make_shared<EuclideanDirection>(Vector3d(c.logReal(0.1, 10) * unit3(c)));
      v.d = d, v.kind = DIRECTION, v.name = "EuclideanDirection", v.dim = 2;
      v.difference = false;
      break;
    }
    case 8: {
      v.kind = MATRIX, v.name = "MatrixBasic";
      v.difference = false;
      const Matrix3d A = mat(c, 3, 3, 3);
      v.pattern = Eigen::MatrixXi::Ones(3, 3);
      std::shared_ptr<MatrixBasic> d;
      if (c.boolean()) {
        for (int i = 0; i < 9; ++i) v.pattern(i / 3, i % 3) = c.boolean();
        if (v.pattern.sum() == 0 || v.pattern.sum() == 9) v.pattern.setZero(), v.pattern(c.integer(0, 2), c.integer(0, 2)) = 1;
        d = std::make_shared<MatrixBasic>(A, Eigen::Matrix3i(v.pattern));
      } else
        d = std::make_shared<MatrixBasic>(A);
      v.d = d, v.dim = v.pattern.sum();
      v.view = [d] { return MatrixXd(d->toExpression().toMatrix3x3()); };
      break;
    }
    case 9: {
      typedef quaternion::DesignVariableUnitQuaternion<double, quaternion::DefaultQuaternionMode, quaternion::UnitQuaternionGeometry::LEFT_TRANSLATED> L;
      typedef quaternion::DesignVariableUnitQuaternion<double, quaternion::DefaultQuaternionMode, quaternion::UnitQuaternionGeometry::RIGHT_TRANSLATED> R;
      if (c.boolean()) v.d = std::make_shared<L>(unitQ(c)), v.kind = LEFT_UNIT;
      else v.d = std::make_shared<R>(unitQ(c)), v.kind = RIGHT_UNIT;
      v.name = "DesignVariableUnitQuaternion", v.dim = 3;
      v.difference = false;
      break;
    }
    case 10: {
      auto d = std::make_shared<GenericScalar<double> >(c.real(-3, 3));
      v.d = d, v.kind = ADDITIVE, v.name = "GenericScalar", v.dim = 1;
      v.view = [d] { return MatrixXd::Constant(1, 1, d->toScalar()); };
      v.at = [](const MatrixXd& p) { return own(new GenericScalar<double>(p(0, 0))); };
      break;
    }
    case 11: v = vectorVar<2>(c); break;
    case 12: v = vectorVar<6>(c); break;
    default: {
      switch (c.integer(0, 5)) {
        case 0: v = adapterVar(boost::make_shared<aslam::cameras::RadialTangentialDistortion>(0.1, 0.01, -0.001, 0.002), "RadialTangentialDistortion"); break;
        case 1: v = adapterVar(boost::make_shared<aslam::cameras::EquidistantDistortion>(0.1, 0.01, -0.001, 0.002), "EquidistantDistortion"); break;
        case 2: v = adapterVar(boost::make_shared<aslam::cameras::RollingShutter>(1e-4), "RollingShutter"); break;
        case 3:
          v = adapterVar(boost::make_shared<aslam::cameras::PinholeProjection<aslam::cameras::RadialTangentialDistortion> >(400, 410, 320, 240, 640, 480), "PinholeProjection");
          break;
        case 4:
          v = adapterVar(boost::make_shared<aslam::cameras::OmniProjection<aslam::cameras::EquidistantDistortion> >(0.8, 400, 410, 320, 240, 640, 480), "OmniProjection");
          break;
        default:
          v = adapterVar(boost::make_shared<aslam::cameras::ExtendedUnifiedProjection<aslam::cameras::NoDistortion> >(0.5, 1.1, 400, 410, 320, 240, 640, 480), "ExtendedUnifiedProjection");
      }
    }
  }
  v.cur = v.prev = params(v.d.get());
  return v;
}
void same(pbt::Case& c, const MatrixXd& got, const MatrixXd& want, const std::string& what) {
  if (got.rows() != want.rows() || got.cols() != want.cols()) c.fail(what + ": wrong size");
  c.check(got == want, what + ": not the exact value");
}
void observe(pbt::Case& c, const Var& v) {
  DesignVariable* d = v.d.get();
  same(c, params(d), v.cur, v.name + ": getParameters");
  if (v.view) same(c, v.view(), v.cur, v.name + ": value");
  c.eq(d->minimalDimensions(), v.dim, v.name + ": minimalDimensions");
  c.eq(d->isActive(), v.active, v.name + ": isActive");
  c.eq(d->isMarginalized(), v.marginalized, v.name + ": isMarginalized");
  c.eq(d->scaling(), v.scaling, v.name + ": scaling");
  c.eq(d->blockIndex(), v.block, v.name + ": blockIndex");
  c.eq(d->columnBase(), v.column, v.name + ": columnBase");
  if (auto* q = dynamic_cast<RotationQuaternion*>(d))
    c.nearMat(q->toExpression().toRotationMatrix(), sm::kinematics::quat2r(Vector4d(v.cur)), 0, 0, "RotationQuaternion's matrix");
  if (auto* q = dynamic_cast<MappedRotationQuaternion*>(d))
    c.nearMat(q->toExpression().toRotationMatrix(), sm::kinematics::quat2r(Vector4d(v.cur)), 0, 0, "MappedRotationQuaternion's matrix");
  if (auto* q = dynamic_cast<EuclideanDirection*>(d)) {
    const Vector3d x = q->toExpression().toEuclidean();
    c.nearMat(x / x.norm(), v.cur.col(2), 1e-10, 0, "EuclideanDirection's direction");
  }
}
}  // namespace

PBT_CLAIM(histories, 2500) {
  std::vector<Var> vars;
  for (int n = c.integer(1, 4); n > 0; --n) vars.push_back(anyVar(c));
  int updates = 0, reverts = 0;
  for (Var& v : vars) observe(c, v);
  for (int n = c.integer(0, 20); n > 0; --n) {
    Var& v = vars[c.integer(0, (int)vars.size() - 1)];
    DesignVariable* d = v.d.get();
    const int op = c.integer(0, 9);
    if (op <= 3) {
      const VectorXd s = vec(c, v.dim, c.oneIn(4) ? 3 : 0.3);
      const MatrixXd want = v.step(v.cur, s);
      std::vector<double> z(s.data(), s.data() + s.size());
      d->update(z.data(), v.dim);
      const MatrixXd got = params(d);
      if (v.kind == ADDITIVE || v.kind == MATRIX) same(c, got, want, v.name + ": value after an update");
      else c.nearMat(got, want, 1e-11, 0, v.name + ": value after an update");
      for (int i = 0; i < v.dim; ++i) c.check(z[i] == s(i), v.name + ": the step was written to");
      v.prev = v.cur;
      v.cur = got;
      v.updated = true;
      ++updates;
      if (v.unit()) c.near(v.cur.norm(), 1, 1e-12, 0, v.name + ": norm");
      if (v.kind == DIRECTION) c.nearMat(v.cur * v.cur.transpose(), MatrixXd::Identity(3, 3), 1e-11, 0, v.name + ": orthonormal");
    } else if (op <= 5) {
      if (!v.updated) continue;
      d->revertUpdate();
      v.cur = v.prev;
      ++reverts;
    } else if (op == 6) {
      const MatrixXd p = v.randomParameters(c);
      d->setParameters(p);
      v.cur = p;
      v.updated = false;
    } else if (op == 7) {
      d->setActive(v.active = c.boolean());
    } else if (op == 8) {
      if (c.boolean()) d->setMarginalized(v.marginalized = c.boolean());
      else d->setScaling(v.scaling = c.real(-2, 2));
    } else {
      if (c.boolean()) d->setBlockIndex(v.block = c.integer(-1, 100));
      else d->setColumnBase(v.column = c.integer(-1, 1000));
    }
    c << v.name << " op " << op << "\n";
    for (Var& w : vars) observe(c, w);
  }
  for (const Var& v : vars) c.label(kindName[v.kind]);
  if (updates >= 2 && reverts >= 1) c.nontrivial();
}

// The minimal difference to a reference is the step from it, and its Jacobian
// is the derivative under the variable's update.
PBT_CLAIM(minimal_difference, 2500) {
  Var v = anyVar(c);
  if (!v.difference) c.discard();
  DesignVariable* d = v.d.get();
  for (int n = c.integer(0, 3); n > 0; --n) {
    const VectorXd s = vec(c, v.dim, 1);
    d->update(s.data(), v.dim);
    if (c.oneIn(4)) d->revertUpdate();
  }
  v.cur = params(d);
  MatrixXd ref;
  const int how = c.integer(0, 3);
  if (how == 0) ref = v.cur;
  else if (how == 1) ref = v.randomParameters(c);
  else {
    ref = v.step(v.cur, vec(c, v.dim, how == 2 ? 1e-3 : 1.0));
    if (v.unit()) ref /= ref.norm();
  }
  VectorXd diff;
  d->minimalDifference(ref, diff);
  c.eq((int)diff.size(), v.dim, v.name + ": size of the minimal difference");
  same(c, params(d), v.cur, v.name + ": value after minimalDifference");
  auto other = v.at(ref);
  other->update(diff.data(), v.dim);
  MatrixXd back = params(other.get());
  if (v.unit() && (back + v.cur).norm() < (back - v.cur).norm()) back = -back;
  c.nearMat(back, v.cur, v.unit() ? 1e-7 : 1e-12, 0, v.name + ": the reference moved by the minimal difference");
  if (how == 0) c.near(diff.norm(), 0, v.unit() ? 1e-7 : 0, 0, v.name + ": difference to itself");
  VectorXd diff2;
  MatrixXd J;
  d->minimalDifferenceAndJacobian(ref, diff2, J);
  c.nearMat(diff2, diff, 0, 0, v.name + ": both minimal differences");
  // Away from the half turn, where the difference jumps, and from identity for the step sizes used
  if (!v.unit() || diff.norm() < 2.8) {
    checkJacobian(c, J, stepped(d, [&]() -> VectorXd { VectorXd e; d->minimalDifference(ref, e); return e; }), 0.02, 1e-5, 1e-6, v.name + ": Jacobian of the minimal difference");
    if (v.dim == 3) {
      DesignVariableMinimalDifferenceExpression<3> e(*d, ref);
      c.nearMat(e.evaluate(), diff, 0, 0, "minimal difference expression");
      d->setActive(true);
      d->setBlockIndex(0);
      const MatrixXd M = mat(c, 2, 3, 2);
      JacobianContainer j(3), k(2);
      e.evaluateJacobians(j);
      e.evaluateJacobians(k, M);
      c.nearMat(*dvs::find(j, d), J, 0, 0, "Jacobian of the minimal difference expression");
      c.nearMat(*dvs::find(k, d), M * J, 1e-12, 0, "Jacobian of the minimal difference expression with chain rule");
    }
  }
  c.label(v.name);
  if (how >= 1) c.nontrivial();
}
// set() starts anew: the value, its matrix and the value a revert would restore
PBT_CLAIM(set_values, 400) {
  const int k = c.integer(0, 3);
  if (k <= 1) {
    const Vector4d q = unitQ(c), p = unitQ(c);
    std::vector<double> mem(q.data(), q.data() + 4);
    RotationQuaternion r(q);
    MappedRotationQuaternion m(mem.data());
    DesignVariable* d = k ? (DesignVariable*)&m : &r;
    const VectorXd s = vec(c, 3, 1);
    d->update(s.data(), 3);
    if (k) m.set(p);
    else r.set(p);
    same(c, params(d), p, "value set");
    c.nearMat(k ? m.toExpression().toRotationMatrix() : r.toExpression().toRotationMatrix(), sm::kinematics::quat2r(p), 1e-14, 0, "matrix of the value set");
  } else {
    const Vector3d q = vec(c, 3, 2), p = vec(c, 3, 2);
    std::vector<double> mem(q.data(), q.data() + 3);
    EuclideanPoint r(q);
    MappedEuclideanPoint m(mem.data());
    DesignVariable* d = k == 3 ? (DesignVariable*)&m : &r;
    const VectorXd s = vec(c, 3, 1);
    d->update(s.data(), 3);
    if (k == 3) m.set(p);
    else r.set(p);
    same(c, params(d), p, "value set");
  }
  c.nontrivial();
}
// A mapped vector pointed at other memory
PBT_CLAIM(remapping, 300) {
  const VectorXd a = vec(c, 4, 2), b = vec(c, 4, 2), s = vec(c, 4, 1);
  std::vector<double> x(a.data(), a.data() + 4), y(b.data(), b.data() + 4);
  DesignVariableMappedVector<4> d(x.data());
  if (c.boolean()) d.update(s.data(), 4);
  const std::vector<double> x0 = x;
  d.updateMap(y.data());
  same(c, params(&d), b, "value at the new place");
  c.check(d.data() == y.data(), "data()");
  d.update(s.data(), 4);
  c.check(x == x0, "the old place was written to");
  same(c, Eigen::Map<VectorXd>(y.data(), 4), b + s, "the new place");
  d.revertUpdate();
  same(c, Eigen::Map<VectorXd>(y.data(), 4), b, "the new place after a revert");
  c.nontrivial();
}
PBT_MAIN("B02", "at least two updates and a revert in a history, or a reference other than the value itself")

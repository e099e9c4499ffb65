// Random least squares problems: error terms M x + bend sin(N x) - b over
// vector-valued design variables, of the static and dynamic base classes.
#pragma once
#include <dv.hpp>
#include <cmath>
#include <memory>
#include <boost/make_shared.hpp>
#include <aslam_backend/backend/ErrorTerm.hpp>
#include <aslam_backend/backend/ErrorTermDs.hpp>
#include <aslam_backend/backend/MEstimatorPolicies.hpp>
#include <aslam_backend_expressions/DesignVariableVector.hpp>
namespace terms {
using namespace dvs;
using aslam::backend::ErrorTerm;
using aslam::backend::MEstimator;

inline std::shared_ptr<DesignVariable> variable(const VectorXd& x) {
  using aslam::backend::DesignVariableVector;
  switch (x.size()) {
    case 1: return std::make_shared<DesignVariableVector<1> >(Eigen::Matrix<double, 1, 1>(x));
    case 2: return std::make_shared<DesignVariableVector<2> >(Eigen::Vector2d(x));
    case 3: return std::make_shared<DesignVariableVector<3> >(Vector3d(x));
    default: return std::make_shared<DesignVariableVector<4> >(Vector4d(x));
  }
}
inline VectorXd value(const DesignVariable* d) {
  MatrixXd m;
  d->getParameters(m);
  return m;
}
// What a term computes, for the reference
struct Model {
  List vars;
  MatrixXd M, N;
  VectorXd b;
  double bend = 0;
  double limit = std::numeric_limits<double>::infinity();  // not a number beyond
  bool split = false;  // hands a variable's Jacobian over in two parts
  MatrixXd info;
  int robust = 0;  // 0 none, 1 Huber, 2 Cauchy, 3 Geman-McClure, 4 Blake-Zisserman
  double k = 1;
  ErrorTerm* term = 0;
  virtual ~Model() {}
  VectorXd x() const {
    VectorXd r(M.cols());
    int o = 0;
    for (DesignVariable* d : vars) {
      const VectorXd v = value(d);
      r.segment(o, v.size()) = v;
      o += v.size();
    }
    return r;
  }
  VectorXd residual() const {
    const VectorXd z = x();
    if (!(z.cwiseAbs().maxCoeff() <= limit)) return VectorXd::Constant(b.size(), std::numeric_limits<double>::quiet_NaN());
    return M * z + bend * (N * z).array().sin().matrix() - b;
  }
  MatrixXd derivative() const { return M + bend * (N * x()).array().cos().matrix().asDiagonal() * N; }
  double squared() const {
    const VectorXd e = residual();
    return e.dot(info * e);
  }
  double weight(double s) const {
    switch (robust) {
      case 1: return s < k * k ? 1 : k / std::sqrt(s);
      case 2: return 1 / (1 + s / k);
      case 3: return k / ((k + s) * (k + s));
      case 4: return 1 / (1 + k * std::exp(s));
      default: return 1;
    }
  }
};
template <class Base> class Term : public Base, public Model {
 public:
  template <class... A> Term(A... a) : Base(a...) { term = this; }
  using Base::setInvR;
  using Base::setSqrtInvR;
  using ErrorTerm::setDesignVariables;
  double evaluateErrorImplementation() override {
    this->setError(residual());
    return this->evaluateChiSquaredError();
  }
  void evaluateJacobiansImplementation(JacobianContainer& J) const override {
    const MatrixXd D = derivative();
    int o = 0;
    for (DesignVariable* d : vars) {
      const int n = d->minimalDimensions();
      const MatrixXd A = D.middleCols(o, n);
      if (split) {
        J.add(d, 0.25 * A);
        J.add(d, 0.75 * A);
      } else
        J.add(d, A);
      o += n;
    }
  }
};
// A robust kernel and its constant
inline boost::shared_ptr<MEstimator> kernel(pbt::Case& c, Model& m, int dimension) {
  using namespace aslam::backend;
  m.robust = c.integer(1, 4);
  m.k = c.logReal(0.1, 10);
  switch (m.robust) {
    case 1: return boost::make_shared<HuberMEstimator>(m.k);
    case 2: return boost::make_shared<CauchyMEstimator>(m.k);
    case 3: return boost::make_shared<GemanMcClureMEstimator>(m.k);
    default: {
      auto e = boost::make_shared<BlakeZissermanMEstimator>(dimension, c.real(0.5, 0.999), c.real(0.05, 0.95));
      m.k = e->_epsilon;
      return e;
    }
  }
}
template <class T> void fill(pbt::Case& c, T& t, const List& vars, int dimension, double bend, bool robust, bool regular = true) {
  t.vars = vars;
  int n = 0;
  for (auto* d : vars) n += d->minimalDimensions();
  t.M = mat(c, dimension, n, 1);
  t.N = mat(c, dimension, n, 1);
  t.b = vec(c, dimension, 2);
  t.bend = bend;
  t.split = c.oneIn(4);
  t.setDesignVariables(vars);
  t.info = MatrixXd::Identity(dimension, dimension);
  const int how = c.integer(0, 3);
  if (how == 1) {
    t.info = spd(c, dimension, 0.1, 10);
    t.setInvR(t.info);
  } else if (how == 2) {
    const MatrixXd S = spd(c, dimension, 0.3, 3) * expSO3(Vector3d(0.3, -0.4, 0.5)).topLeftCorner(1, 1)(0, 0);
    MatrixXd L = S.triangularView<Eigen::Lower>();
    if (c.boolean()) L += mat(c, dimension, dimension, 0.1);
    t.info = L * L.transpose();
    t.setSqrtInvR(L);
  } else if (how == 3) {
    t.info = VectorXd::Constant(dimension, c.logReal(0.1, 10)).asDiagonal();
    t.vsSetInvR(t.info);
  }
  if (robust) t.setMEstimatorPolicy(kernel(c, t, dimension));
}
inline std::shared_ptr<Model> term(pbt::Case& c, const List& vars, double bend, bool robust) {
  using namespace aslam::backend;
  const int n = c.integer(1, 4);
#define MAKE_TERM(D) { auto t = std::make_shared<Term<ErrorTermFs<D> > >(); fill(c, *t, vars, D, bend, robust); return t; }
  if (c.boolean()) switch (n) {
      case 1: MAKE_TERM(1)
      case 2: MAKE_TERM(2)
      case 3: MAKE_TERM(3)
      default: MAKE_TERM(4)
    }
#undef MAKE_TERM
  auto t = std::make_shared<Term<ErrorTermDs> >(n);
  fill(c, *t, vars, n, bend, robust);
  return t;
}
struct Problem {
  std::vector<std::shared_ptr<DesignVariable> > vars;
  std::vector<std::shared_ptr<Model> > models;
  List list() const {
    List l;
    for (auto& v : vars) l.push_back(v.get());
    return l;
  }
  // block boundaries of the active variables by block index
  std::vector<int> layout;
  int columns = 0;
  double cost(bool robust) const {
    double s = 0;
    for (auto& m : models) {
      const double q = m->squared();
      s += (robust ? m->weight(q) : 1.0) * q;
    }
    return s;
  }
  // Stacked weighted, scaled Jacobian and error of the active variables, at columnBase
  void dense(bool robust, MatrixXd& J, VectorXd& e) const {
    int rows = 0;
    for (auto& m : models) rows += m->b.size();
    J.setZero(rows, columns);
    e.setZero(rows);
    int r = 0;
    for (auto& m : models) {
      const int n = m->b.size();
      const MatrixXd S = Eigen::SelfAdjointEigenSolver<MatrixXd>(m->info).operatorSqrt() * std::sqrt(robust ? m->weight(m->squared()) : 1.0);
      const MatrixXd D = m->derivative();
      e.segment(r, n) = S * m->residual();
      int o = 0;
      for (auto* d : m->vars) {
        const int k = d->minimalDimensions();
        if (d->isActive()) J.block(r, d->columnBase(), n, k) += d->scaling() * S * D.middleCols(o, k);
        o += k;
      }
      r += n;
    }
  }
};
// maxVars variables (some inactive) and up to maxTerms terms over them
inline Problem problem(pbt::Case& c, int maxVars, int maxTerms, double bend, bool robust, bool scaled) {
  Problem p;
  for (int n = c.integer(1, maxVars); n > 0; --n) p.vars.push_back(variable(vec(c, c.integer(1, 4), 2)));
  const List all = p.list();
  for (int n = c.integer(1, maxTerms); n > 0; --n) {
    List l;
    for (auto* d : all)
      if (c.boolean()) l.push_back(d);
    if (l.empty()) l.push_back(all[c.integer(0, (int)all.size() - 1)]);
    p.models.push_back(term(c, l, bend, robust && c.boolean()));
  }
  const bool someInactive = c.oneIn(3);
  for (auto* d : all) {
    d->setActive(!(someInactive && c.boolean()));
    if (scaled && c.boolean()) d->setScaling(c.logReal(0.2, 5) * (c.oneIn(4) ? -1 : 1));
  }
  return p;
}
// Block indices (in random order when asked) and column bases of the active variables
inline void index(pbt::Case& c, Problem& p, bool shuffle) {
  List act;
  for (auto& v : p.vars) {
    v->setBlockIndex(-1);
    v->setColumnBase(-1);
    if (v->isActive()) act.push_back(v.get());
  }
  if (shuffle)
    for (size_t i = act.size(); i > 1; --i) std::swap(act[i - 1], act[c.integer(0, (int)i - 1)]);
  p.layout.clear();
  p.columns = 0;
  for (size_t i = 0; i < act.size(); ++i) {
    act[i]->setBlockIndex((int)i);
    act[i]->setColumnBase(p.columns);
    p.columns += act[i]->minimalDimensions();
    p.layout.push_back(p.columns);
  }
}
}  // namespace terms

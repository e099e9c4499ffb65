// Design variables and expressions: activity, block indices and numerical
// Jacobians under a variable's own update rule.
#pragma once
#include <pbt.hpp>
#include <num.hpp>
#include <aslam_backend/backend/DesignVariable.hpp>
#include <aslam_backend/backend/JacobianContainer.hpp>
namespace dvs {
using namespace num;
using aslam::backend::DesignVariable;
using aslam::backend::JacobianContainer;
typedef std::vector<DesignVariable*> List;

// Random activity and a random order of block indices.
inline void activate(pbt::Case& c, const List& l, double inactive = 0.25) {
  std::vector<int> order(l.size());
  for (size_t i = 0; i < l.size(); ++i) order[i] = (int)i;
  if (c.boolean())
    for (size_t i = l.size(); i > 1; --i) std::swap(order[i - 1], order[c.integer(0, (int)i - 1)]);
  const bool all = c.boolean();
  int col = 0;
  for (size_t i = 0; i < l.size(); ++i) {
    const bool on = all || c.real(0, 1) >= inactive;
    l[i]->setActive(on);
    l[i]->setBlockIndex(order[i]);
    l[i]->setColumnBase(col);
    col += l[i]->minimalDimensions();
  }
}
template <class F> auto stepped(DesignVariable* d, F f) {
  return [d, f](const VectorXd& s) -> VectorXd {
    VectorXd z = s;
    d->update(z.data(), (int)z.size());
    VectorXd v = f();
    d->revertUpdate();
    return v;
  };
}
inline const MatrixXd* find(const JacobianContainer& j, const DesignVariable* d) {
  for (auto it = j.begin(); it != j.end(); ++it)
    if (it->first == d) return &it->second;
  return 0;
}
// The container against the numerical derivatives of f() for every variable
// of the list; M is the chain-rule matrix.
template <class F>
void checkJacobians(pbt::Case& c, const JacobianContainer& j, const List& all, F f, double h0, double rtol, double atol,
                    const std::string& what) {
  size_t found = 0;
  for (DesignVariable* d : all) {
    const MatrixXd* J = find(j, d);
    std::ostringstream w;
    w << what << ", variable " << (std::find(all.begin(), all.end(), d) - all.begin());
    found += J != 0;
    if (!d->isActive()) {
      c.check(!J, w.str() + ": a Jacobian is given for an inactive variable");
      continue;
    }
    MatrixXd A;
    if (J) A = *J;
    else A = MatrixXd::Zero(j.rows(), d->minimalDimensions());
    if (A.cols() != d->minimalDimensions()) c.fail(w.str() + ": wrong number of columns");
    checkJacobian(c, A, stepped(d, f), h0, rtol, atol, w.str() + (J ? "" : " (no Jacobian given)"));
  }
  c.eq(found, j.numDesignVariables(), what + ": number of variables with a Jacobian");
}
template <class E>
void wantVariables(pbt::Case& c, const E& e, const std::set<DesignVariable*>& want, const std::string& what) {
  DesignVariable::set_t s;
  e.getDesignVariables(s);
  std::set<DesignVariable*> got(s.begin(), s.end());
  c.check(got == want, what + ": the reported design variables are not those the expression depends on");
}
// Small rotation taking C0 to C, in the sign of the expressions (C = (I - phi^x) C0)
inline VectorXd rotationStep(const Matrix3d& C, const Matrix3d& C0) {
  Matrix3d D = C * C0.transpose();
  VectorXd v(3);
  v << (D(2, 1) - D(1, 2)), (D(0, 2) - D(2, 0)), (D(1, 0) - D(0, 1));
  return -0.5 * v;
}
inline VectorXd poseStep(const Matrix4d& T, const Matrix4d& T0) {
  Matrix4d D = T * T0.inverse();
  VectorXd v(6);
  v.head(3) = D.topRightCorner<3, 1>();
  v.tail(3) = rotationStep(T.topLeftCorner<3, 3>(), T0.topLeftCorner<3, 3>());
  return v;
}
}  // namespace dvs

// B03: costs, weights, gradients and Hessian blocks of error terms against a
// dense reference; containers of terms and variables against a model.
#include <terms.hpp>
#include <boost/math/distributions/chi_squared.hpp>
#include <aslam_backend/backend/OptimizationProblem.hpp>
#include <aslam_backend/backend/SimpleOptimizationProblem.hpp>
#include <aslam_backend_expressions/ExpressionErrorTerm.hpp>
#include <aslam_backend_expressions/EuclideanPoint.hpp>
#include <aslam_backend_expressions/RotationQuaternion.hpp>
#include <aslam_backend_expressions/RotationExpression.hpp>
#include <aslam_backend_expressions/EuclideanExpression.hpp>
#include <aslam_backend_expressions/VectorExpression.hpp>
#include <aslam_backend_expressions/GenericScalar.hpp>
using namespace terms;
using namespace aslam::backend;

PBT_CLAIM(m_estimators, 3000) {
  const double s = c.oneIn(8) ? 0 : c.logReal(1e-6, 1e4), k = c.logReal(0.01, 100);
  const double t = s * c.real(1, 3);
  struct Named { std::shared_ptr<MEstimator> m; double w; const char* name; };
  std::vector<Named> all = {
      {std::make_shared<NoMEstimator>(), 1, "none"},
      {std::make_shared<HuberMEstimator>(k), std::sqrt(s) <= k ? 1 : k / std::sqrt(s), "Huber"},
      {std::make_shared<CauchyMEstimator>(k), k / (k + s), "Cauchy"},
      {std::make_shared<GemanMcClureMEstimator>(k), k / ((k + s) * (k + s)), "Geman McClure"},
  };
  for (auto& n : all) {
    c.near(n.m->getWeight(s), n.w, 0, 1e-10, std::string(n.name) + ": weight");
    c.check(n.m->getWeight(t) <= n.m->getWeight(s) * (1 + 1e-12), std::string(n.name) + ": the weight grows with the error");
    c.check(n.m->name().find(n.name) == 0, "name " + n.m->name());
  }
  // Blake-Zisserman: the weight asked for at the quantile asked for
  const int df = c.integer(1, 12);
  const double p = c.real(0.01, 0.9999), w = c.real(0.01, 0.99);
  BlakeZissermanMEstimator b(df, p, w);
  const double q = b.chi2InvCDF(p, df);
  c.near(boost::math::cdf(boost::math::chi_squared(df), q), p, 1e-9, 0, "chi squared quantile");
  c.near(b.getWeight(q), w, 1e-9, 1e-9, "Blake-Zisserman: weight at the cut");
  c.near(b.getWeight(s), 1 / (1 + b._epsilon * std::exp(s)), 1e-12, 1e-10, "Blake-Zisserman: weight");
  BlakeZissermanMEstimator copy(b), other(3);
  other = b;
  c.check(copy.getWeight(s) == b.getWeight(s) && other.getWeight(s) == b.getWeight(s), "copies weigh alike");
  c.check(copy._df == (size_t)df && other._pCut == p && other._wCut == w, "copies have the same parameters");
  c.check(b.name().find("Blake-Zisserman") == 0, "name");
  if (s > 0) c.nontrivial();
}

PBT_CLAIM(error_terms, 2500) {
  Problem p = problem(c, 4, 4, c.boolean() ? 0 : c.real(-1, 1), true, true);
  index(c, p, true);
  const bool robust = c.boolean();
  SparseBlockMatrix H = p.columns ? SparseBlockMatrix(p.layout, p.layout) : SparseBlockMatrix();
  VectorXd rhs = VectorXd::Zero(p.columns);
  const bool again = c.boolean();
  if (again) {  // evaluated elsewhere before
    for (auto& v : p.vars) {
      const VectorXd s = vec(c, v->minimalDimensions(), 1);
      for (auto& m : p.models) m->term->evaluateError();
      v->update(s.data(), s.size());
    }
  }
  for (auto& m : p.models) {
    ErrorTerm& t = *m->term;
    const VectorXd e = m->residual();
    const double s = m->squared(), w = m->weight(s), tol = 1e-9 * (1 + s);
    c.eq((int)t.dimension(), (int)e.size(), "dimension");
    c.near(t.evaluateError(), w * s, tol, 1e-9, "robust squared error");
    c.near(t.getRawSquaredError(), s, tol, 1e-9, "raw squared error");
    c.near(t.getWeightedSquaredError(), w * s, tol, 1e-9, "weighted squared error");
    c.near(t.getSquaredError(true), w * s, tol, 1e-9, "getSquaredError(true)");
    c.near(t.getSquaredError(false), s, tol, 1e-9, "getSquaredError(false)");
    c.near(t.getCurrentMEstimatorWeight(), w, 1e-12, 1e-7, "current weight");
    c.near(t.getMEstimatorWeight(s), w, 1e-12, 1e-9, "weight");
    c.nearMat(t.vsError(), e, 1e-12, 1e-12, "error");
    MatrixXd R;
    t.getInvR(R);
    c.nearMat(R, m->info, 1e-9, 1e-9, "getInvR");
    c.nearMat(t.vsInvR(), m->info, 1e-9, 1e-9, "vsInvR");
    VectorXd we;
    t.getWeightedError(we, robust);
    c.near(we.squaredNorm(), robust ? w * s : s, tol, 1e-9, "norm of the weighted error");
    // J^T J, J^T e of the weighted Jacobians and error
    JacobianContainer J((int)t.dimension());
    t.getWeightedJacobians(J, robust);
    const MatrixXd D = m->derivative(), W = (robust ? w : 1.0) * m->info;
    size_t active = 0;
    int o = 0;
    for (size_t i = 0; i < m->vars.size(); ++i) {
      DesignVariable* a = m->vars[i];
      const int n = a->minimalDimensions();
      c.check(t.designVariable(i) == a, "designVariable");
      active += a->isActive();
      const MatrixXd* Ja = dvs::find(J, a);
      c.check((Ja != 0) == a->isActive(), "a weighted Jacobian for the active variables only");
      if (Ja) {
        c.nearMat(Ja->transpose() * we, a->scaling() * D.middleCols(o, n).transpose() * W * e, 1e-9, 1e-9, "weighted Jacobian times weighted error");
        int q = 0;
        for (auto* b : m->vars) {
          if (const MatrixXd* Jb = dvs::find(J, b))
            c.nearMat(Ja->transpose() * *Jb, a->scaling() * b->scaling() * D.middleCols(o, n).transpose() * W * D.middleCols(q, b->minimalDimensions()), 1e-9, 1e-9,
                      "product of weighted Jacobians");
          q += b->minimalDimensions();
        }
      }
      o += n;
    }
    c.eq(J.numDesignVariables(), active, "number of Jacobians");
    c.eq(t.numDesignVariables(), m->vars.size(), "numDesignVariables");
    DesignVariable::set_t set;
    t.getDesignVariables(set);
    if (active == m->vars.size()) c.eq(set.size(), m->vars.size(), "getDesignVariables");
    if (p.columns) t.buildHessian(H, rhs, robust);
  }
  if (p.columns) {
    MatrixXd J;
    VectorXd e;
    p.dense(robust, J, e);
    const MatrixXd want = J.transpose() * J, got = H.toDense();
    c.nearMat(rhs, -J.transpose() * e, 1e-8, 1e-8, "right-hand side of all terms");
    int r0 = 0;
    for (size_t i = 0; i < p.layout.size(); ++i) {
      int q0 = 0;
      for (size_t j = 0; j < p.layout.size(); ++j) {
        const int n = p.layout[i] - r0, k = p.layout[j] - q0;
        const MatrixXd block = got.block(r0, q0, n, k);
        if (j >= i) c.nearMat(block, want.block(r0, q0, n, k), 1e-8, 1e-8, "Hessian block");
        else c.check(!H.isBlockSet(i, j), "a block below the diagonal is set");
        q0 = p.layout[j];
      }
      r0 = p.layout[i];
    }
  }
  if (robust) c.label("robust");
  if (p.models.size() > 1 && p.columns > 1) c.nontrivial();
}

// Weights given as positive semidefinite information matrices
PBT_CLAIM(semidefinite, 600) {
  const int n = 4, rank = c.integer(0, 4);
  const MatrixXd B = mat(c, n, rank, 1);
  MatrixXd R = rank ? MatrixXd(B * B.transpose()) : MatrixXd::Zero(n, n);
  if (c.boolean()) {
    VectorXd d(n);
    for (int i = 0; i < n; ++i) d[i] = c.boolean() ? c.logReal(1e-3, 1e3) : 0;
    R = d.asDiagonal();
  }
  auto v = variable(vec(c, 3, 2));
  Term<ErrorTermFs<4> > t;
  fill(c, t, List(1, v.get()), 4, 0, false);
  c << "R\n" << R << "\n";
  t.setInvR(R);
  t.info = R;
  c.near(t.evaluateError(), t.squared(), 1e-7, 1e-7, "cost with a semidefinite weight");
  c.nearMat(t.vsInvR(), R, 1e-7, 0, "invR");
  if (rank < 4) c.nontrivial();
}

// Finite differences built into the terms agree with right Jacobians and refuse wrong ones
PBT_CLAIM(finite_differences, 400) {
  Problem p = problem(c, 3, 1, c.real(-0.5, 0.5), false, false);
  for (auto& v : p.vars) v->setActive(true);
  index(c, p, true);
  Model& m = *p.models[0];
  m.term->evaluateError();
  JacobianContainer J((int)m.term->dimension()), A((int)m.term->dimension());
  m.term->evaluateJacobiansFiniteDifference(J);
  m.term->evaluateJacobians(A);
  for (auto* d : m.vars) {
    c.check(dvs::find(J, d) && dvs::find(A, d), "a Jacobian is missing");
    c.nearMat(*dvs::find(J, d), *dvs::find(A, d), 1e-6, 1e-6, "finite difference Jacobian");
  }
  if (auto* f = dynamic_cast<Term<ErrorTermFs<2> >*>(m.term)) {
    f->checkJacobiansNumerical(1e-5);
    f->checkJacobiansFinite();
    // a wrong Jacobian is noticed
    f->split = true;
    struct Wrong : Term<ErrorTermFs<2> > {
      void evaluateJacobiansImplementation(JacobianContainer& j) const override {
        Term<ErrorTermFs<2> >::evaluateJacobiansImplementation(j);
        j.begin()->second(0, 0) += 1e-2;
      }
    } w;
    fill(c, w, m.vars, 2, 0.3, false);
    bool threw = false;
    try { w.checkJacobiansNumerical(1e-5); } catch (const std::exception&) { threw = true; }
    c.check(threw, "a wrong Jacobian passes the check");
  }
  c.nontrivial();
}

PBT_CLAIM(term_setup, 300) {
  auto a = variable(vec(c, 2, 1)), b = variable(vec(c, 3, 1));
  Term<ErrorTermFs<2> > t;
  auto throws = [&](std::function<void()> f, const char* what) {
    bool threw = false;
    try { f(); } catch (const std::exception&) { threw = true; }
    c.check(threw, what);
  };
  throws([&] { t.setDesignVariables(List{a.get(), 0}); }, "a null variable is accepted");
  c.eq(t.numDesignVariables(), (size_t)0, "variables after a refusal");
  t.setDesignVariables(List{a.get(), b.get()});
  throws([&] { t.setDesignVariables(List{a.get()}); }, "variables are set twice");
  c.eq(t.numDesignVariables(), (size_t)2, "variables after a refusal");
  throws([&] { t.setInvR(MatrixXd(MatrixXd::Identity(3, 3))); }, "a weight of the wrong size is accepted");
  const int row = c.integer(0, 1000);
  t.setRowBase(row);
  c.eq(t.rowBase(), (size_t)row, "row base");
  const long long ns = c.integer64(-4000000000000000000LL, 4000000000000000000LL);
  t.setTime(ns);
  c.eq((long long)t.getTime(), ns, "time");
  c.eq(t.getMEstimatorName(), std::string("none"), "default kernel");
  t.setMEstimatorPolicy(boost::make_shared<CauchyMEstimator>(2.0));
  c.near(t.getMEstimatorWeight(2.0), 0.5, 1e-12, 0, "kernel");
  t.clearMEstimatorPolicy();
  c.near(t.getMEstimatorWeight(2.0), 1, 0, 0, "kernel cleared");
  c.eq(t.getMEstimatorName(), std::string("none"), "kernel cleared");
  c.nontrivial();
}

PBT_CLAIM(jacobian_containers, 2500) {
  const int nv = c.integer(1, 5);
  std::vector<std::shared_ptr<DesignVariable> > vars;
  List all;
  for (int i = 0; i < nv; ++i) vars.push_back(variable(vec(c, c.integer(1, 4), 1))), all.push_back(vars.back().get());
  activate(c, all);
  int rows = c.integer(1, 4);
  typedef std::map<int, MatrixXd> Ref;  // by variable
  JacobianContainer J(rows);
  Ref ref;
  auto add = [&](JacobianContainer& to, Ref& r, int rowsOf) {
    const int i = c.integer(0, nv - 1);
    const MatrixXd m = mat(c, rowsOf, all[i]->minimalDimensions(), 2);
    to.add(all[i], m);
    if (!all[i]->isActive()) return;
    if (r.count(i)) r[i] += m;
    else r[i] = m;
  };
  int merged = 0;
  for (int n = c.integer(1, 12); n > 0; --n) {
    switch (c.integer(0, 6)) {
      case 0: case 1: case 2: add(J, ref, rows); break;
      case 3: {
        JacobianContainer K(rows);
        Ref other;
        for (int k = c.integer(0, 5); k > 0; --k) add(K, other, rows);
        J.add(K);
        for (auto& o : other) {
          if (ref.count(o.first)) ref[o.first] += o.second, ++merged;
          else ref[o.first] = o.second;
        }
        break;
      }
      case 4: {
        const int r = c.integer(1, 4);
        const MatrixXd m = mat(c, r, rows, 1);
        J.applyChainRule(m);
        for (auto& o : ref) o.second = m * o.second;
        rows = r;
        break;
      }
      case 5:
        if (c.oneIn(3)) {
          ref.clear();
          if (c.boolean()) J.clear();
          else J.reset(rows = c.integer(1, 4));
        }
        break;
      default: {
        // refused: wrong rows or columns
        bool threw = false;
        try { J.add(all[0], MatrixXd::Zero(rows + 1, all[0]->minimalDimensions())); } catch (const std::exception&) { threw = true; }
        c.check(threw, "a Jacobian of the wrong height is accepted");
        threw = false;
        try { J.add(all[0], MatrixXd::Zero(rows, all[0]->minimalDimensions() + 1)); } catch (const std::exception&) { threw = true; }
        c.check(threw, "a Jacobian of the wrong width is accepted");
        JacobianContainer K(rows + 1);
        threw = false;
        try { J.add(K); } catch (const std::exception&) { threw = true; }
        c.check(threw, "a container of the wrong height is accepted");
      }
    }
    c.eq(J.rows(), rows, "rows");
    c.eq(J.numDesignVariables(), ref.size(), "numDesignVariables");
    // in the order of block indices
    std::map<int, int> byBlock;
    int cols = 0;
    for (auto& o : ref) byBlock[all[o.first]->blockIndex()] = o.first, cols += o.second.cols();
    c.eq(J.cols(), cols, "cols");
    MatrixXd dense(rows, cols);
    int at = 0;
    size_t k = 0;
    for (auto& b : byBlock) {
      const MatrixXd& m = ref[b.second];
      dense.middleCols(at, m.cols()) = m;
      at += m.cols();
      c.check(J.designVariable(k++) == all[b.second], "designVariable");
      c.nearMat(J.Jacobian(all[b.second]), m, 1e-12, 1e-12, "Jacobian");
    }
    if (cols) {
      c.nearMat(J.asDenseMatrix(), dense, 1e-12, 1e-12, "asDenseMatrix");
      c.nearMat(J.asSparseMatrix().toDense(), dense, 1e-12, 1e-12, "asSparseMatrix");
    }
    // placed among all blocks
    std::vector<int> layout(nv), base(nv);
    std::vector<DesignVariable*> order(nv);
    for (auto* d : all) order[d->blockIndex()] = d;
    int sum = 0;
    for (int i = 0; i < nv; ++i) base[i] = sum, sum += order[i]->minimalDimensions(), layout[i] = sum;
    MatrixXd wide = MatrixXd::Zero(rows, sum);
    for (auto& o : ref) wide.middleCols(base[all[o.first]->blockIndex()], o.second.cols()) = o.second;
    c.nearMat(J.asDenseMatrix(layout), wide, 1e-12, 1e-12, "asDenseMatrix with a layout");
    for (int i = 0; i < nv; ++i)
      if (!ref.count(i)) {
        bool threw = false;
        try { J.Jacobian(all[i]); } catch (const std::exception&) { threw = true; }
        c.check(threw, "a Jacobian that is not there is returned");
      }
  }
  if (merged) c.nontrivial();
}

// Terms made from expressions
PBT_CLAIM(expression_terms, 1500) {
  EuclideanPoint a(Vector3d(vec(c, 3, 3))), b(Vector3d(vec(c, 3, 3)));
  RotationQuaternion q(sm::kinematics::r2quat(rotation(c)));
  DesignVariableVector<2> v(Eigen::Vector2d(vec(c, 2, 3)));
  GenericScalar<double> s(c.real(-3, 3));
  List all = {&a, &b, &q, &v, &s};
  boost::shared_ptr<ErrorTerm> t;
  std::function<VectorXd()> f;
  std::set<DesignVariable*> want;
  const int kind = c.integer(0, 2);
  int dim = kind == 0 ? 3 : kind == 1 ? 2 : 1;
  MatrixXd invR = MatrixXd::Identity(dim, dim);
  const int weight = c.integer(0, 2);
  MatrixXd L;
  if (weight == 1) invR = spd(c, dim, 0.1, 10);
  if (weight == 2) {
    L = spd(c, dim, 0.3, 3);
    L += mat(c, dim, dim, 0.5);
    invR = L * L.transpose();
  }
  auto make = [&](auto e) {
    typedef decltype(e) E;
    constexpr int D = internal::ExpressionDimensionTraits<E>::Dimension;
    typedef Eigen::Matrix<double, D, D> M;
    t = weight == 0 ? boost::shared_ptr<ErrorTerm>(toErrorTerm(e)) : weight == 1 ? toErrorTerm(e, M(invR)) : toErrorTermSqrt(e, M(L));
  };
  if (kind == 0) {
    make(q.toExpression() * a.toExpression() - b.toExpression());
    want = {&a, &b, &q};
    f = [&]() -> VectorXd { return q.toExpression().toRotationMatrix() * a.toExpression().toEuclidean() - b.toExpression().toEuclidean(); };
  } else if (kind == 1) {
    make(v.toExpression());
    want = {&v};
    f = [&]() -> VectorXd { return v.value(); };
  } else {
    GenericScalarExpression<double> e(&s);
    make(e * e + e);
    want = {&s};
    f = [&]() -> VectorXd { const double x = s.toScalar(); return VectorXd::Constant(1, x * x + x); };
  }
  activate(c, all);
  const VectorXd e = f();
  const double sq = e.dot(invR * e);
  c.near(t->evaluateError(), sq, 1e-9, 1e-9, "cost of an expression's term");
  c.nearMat(t->vsError(), e, 1e-12, 1e-12, "error of an expression's term");
  c.check(std::set<DesignVariable*>(t->designVariables().begin(), t->designVariables().end()) == want, "design variables of an expression's term");
  JacobianContainer J(dim);
  t->evaluateJacobians(J);
  List used(want.begin(), want.end());
  dvs::checkJacobians(c, J, used, f, 0.02, 1e-6, 1e-7, "expression term");
  c.label(kind == 0 ? "Euclidean" : kind == 1 ? "vector" : "scalar");
  if (weight) c.nontrivial();
}

namespace {
int alive = 0;
struct CountedVar : DesignVariableVector<1> {
  CountedVar() : DesignVariableVector<1>(Eigen::Matrix<double, 1, 1>::Zero()) { ++alive; }
  ~CountedVar() { --alive; }
};
struct CountedTerm : Term<ErrorTermFs<1> > {
  CountedTerm(const List& l) {
    ++alive;
    setDesignVariables(l);
  }
  ~CountedTerm() { --alive; }
};
}  // namespace
PBT_CLAIM(problems, 2000) {
  alive = 0;
  std::vector<DesignVariable*> outsideVars;
  std::vector<ErrorTerm*> outsideTerms;
  const bool simple = c.oneIn(3);
  int removed = 0;
  {
    OptimizationProblem full;
    SimpleOptimizationProblem small;
    OptimizationProblemBase& base = simple ? (OptimizationProblemBase&)small : full;
    // the model: in order of addition
    std::vector<DesignVariable*> vars;
    struct T { ErrorTerm* t; List l; };
    std::vector<T> ts;
    int owned = 0;
    std::set<void*> own;
    for (int n = c.integer(1, 30); n > 0; --n) {
      const int op = c.integer(0, 9);
      if (op <= 2) {
        auto* d = new CountedVar;
        d->setActive(c.boolean());
        const int how = c.integer(0, 2);
        if (how == 2) {
          boost::shared_ptr<DesignVariable> p(d);
          if (simple) small.addDesignVariable(p);
          else full.addDesignVariable(p);
        } else if (simple) small.addDesignVariable(d, how == 1);
        else full.addDesignVariable(d, how == 1);
        if (how == 0) outsideVars.push_back(d);
        else own.insert(static_cast<DesignVariable*>(d));
        vars.push_back(d);
      } else if (op <= 5) {
        if (vars.empty()) continue;
        List l;
        for (auto* d : vars)
          if (c.oneIn(3)) l.push_back(d);
        if (l.empty()) l.push_back(vars[c.integer(0, (int)vars.size() - 1)]);
        auto* t = new CountedTerm(l);
        const int how = c.integer(0, 2);
        if (how == 2) base.addErrorTerm(boost::shared_ptr<ErrorTerm>(t));
        else if (simple) small.addErrorTerm(t, how == 1);
        else full.addErrorTerm(t, how == 1);
        if (how == 0) outsideTerms.push_back(t);
        else own.insert(static_cast<ErrorTerm*>(t));
        ts.push_back(T{t, l});
      } else if (op == 6 && !simple) {
        if (ts.empty()) continue;
        const int i = c.integer(0, (int)ts.size() - 1);
        own.erase(ts[i].t);
        full.removeErrorTerm(ts[i].t);
        ts.erase(ts.begin() + i);
        ++removed;
      } else if (op == 7 && !simple) {
        if (vars.empty()) continue;
        const int i = c.integer(0, (int)vars.size() - 1);
        DesignVariable* d = vars[i];
        for (size_t k = ts.size(); k-- > 0;)
          if (std::find(ts[k].l.begin(), ts[k].l.end(), d) != ts[k].l.end()) own.erase(ts[k].t), ts.erase(ts.begin() + k);
        own.erase(d);
        full.removeDesignVariable(d);
        vars.erase(vars.begin() + i);
        ++removed;
      } else if (op == 8) {
        // refused: a variable twice, a term over a variable that is not there
        bool threw = false;
        if (!vars.empty()) {
          DesignVariable* d = vars[c.integer(0, (int)vars.size() - 1)];
          try {
            if (simple) small.addDesignVariable(d, false);
            else full.addDesignVariable(d, false);
          } catch (const std::exception&) { threw = true; }
          c.check(threw, "a variable is added twice");
        }
        if (!simple) {
          CountedVar d;
          List l;
          if (!vars.empty() && c.boolean()) l.push_back(vars[c.integer(0, (int)vars.size() - 1)]);
          l.push_back(&d);
          CountedTerm t(l);
          threw = false;
          try { full.addErrorTerm(&t, false); } catch (const std::exception&) { threw = true; }
          c.check(threw, "a term over a missing variable is added");
          // looked at below, while it is alive
          c.eq(full.numErrorTerms(), ts.size(), "terms after a refusal");
          std::set<ErrorTerm*> s;
          full.getErrors(l[0], s);
          c.check(!s.count(&t), "the refused term is listed");
        }
      } else if (op == 9 && c.oneIn(4)) {
        if (simple) small.clear();
        else full.clear();
        vars.clear();
        ts.clear();
        own.clear();
      }
      c.eq(base.numDesignVariables(), vars.size(), "numDesignVariables");
      c.eq(base.numErrorTerms(), ts.size(), "numErrorTerms");
      const OptimizationProblemBase& cbase = base;
      for (size_t i = 0; i < vars.size(); ++i) c.check(base.designVariable(i) == vars[i] && cbase.designVariable(i) == vars[i], "designVariable");
      for (size_t i = 0; i < ts.size(); ++i) c.check(base.errorTerm(i) == ts[i].t && cbase.errorTerm(i) == ts[i].t, "errorTerm");
      size_t act = 0;
      for (auto* d : vars) {
        act += d->isActive();
        c.check(simple ? small.isDesignVariableInProblem(d) : full.isDesignVariableInProblem(d), "isDesignVariableInProblem");
        if (simple) continue;
        std::set<ErrorTerm*> got, want;
        full.getErrors(d, got);
        for (auto& t : ts)
          if (std::find(t.l.begin(), t.l.end(), d) != t.l.end()) want.insert(t.t);
        c.check(got == want, "getErrors");
      }
      if (!simple) c.eq(full.countActiveDesignVariables(), act, "countActiveDesignVariables");
      for (auto* d : outsideVars)
        if (std::find(vars.begin(), vars.end(), d) == vars.end())
          c.check(!(simple ? small.isDesignVariableInProblem(d) : full.isDesignVariableInProblem(d)), "a removed variable is still there");
      c.eq(alive, (int)(own.size() + outsideVars.size() + outsideTerms.size()), "objects alive (owned ones are deleted when removed, others are not)");
    }
    if (ts.size() > 1 || removed) c.nontrivial();
    (void)owned;
  }
  c.eq(alive, (int)(outsideVars.size() + outsideTerms.size()), "objects alive after the problem is gone");
  for (auto* t : outsideTerms) delete t;
  for (auto* d : outsideVars) delete d;
}
PBT_MAIN("B03", "several terms over several active variables, an error above zero, or a history with removals or merges")

// B06: marginalization against the dense Schur complement.
#include <terms.hpp>
#include <aslam_backend/backend/EuclideanPoint.hpp>
#include <aslam_backend/backend/RotationQuaternion.hpp>
#include <aslam_backend/backend/Scalar.hpp>
#include <aslam_backend/backend/GaussNewtonTrustRegionPolicy.hpp>
#include <aslam_backend/backend/MarginalizationPriorErrorTerm.hpp>
#include <aslam_backend/backend/Marginalizer.hpp>
#include <aslam_backend/backend/OptimizationProblem.hpp>
#include <aslam_backend/backend/Optimizer2.hpp>
using namespace terms;
using namespace aslam::backend;

namespace {
struct Quiet {
  std::streambuf *o, *e;
  Quiet() : o(std::cout.rdbuf(0)), e(std::cerr.rdbuf(0)) {}
  ~Quiet() {
    std::cout.rdbuf(o);
    std::cerr.rdbuf(e);
    std::cout.clear();
    std::cerr.clear();
  }
};
MatrixXd schur(const MatrixXd& H, int k) {
  const int n = H.rows();
  if (k == 0) return H;
  return H.bottomRightCorner(n - k, n - k) - H.bottomLeftCorner(n - k, k) * H.topLeftCorner(k, k).ldlt().solve(H.topRightCorner(k, n - k));
}
double ratio(const MatrixXd& H) {
  const VectorXd w = Eigen::SelfAdjointEigenSolver<MatrixXd>(H).eigenvalues();
  return w.minCoeff() / w.maxCoeff();
}
// The prior's Jacobian over the variables of l, stacked in the order of l
MatrixXd stack(const JacobianContainer& j, const List& l) {
  int n = 0;
  for (auto* d : l) n += d->minimalDimensions();
  MatrixXd J = MatrixXd::Zero(j.rows(), n);
  int o = 0;
  for (auto* d : l) {
    if (const MatrixXd* b = find(j, d)) J.middleCols(o, d->minimalDimensions()) = *b;
    o += d->minimalDimensions();
  }
  return J;
}
void wrap(const Problem& p, OptimizationProblem& o, size_t from) {
  for (size_t i = from; i < p.vars.size(); ++i) o.addDesignVariable(p.vars[i].get(), false);
}
}  // namespace

// Terms over vectors: the prior's cost is the partial minimum of the full cost
PBT_CLAIM(schur_complement, 500) {
  const bool robust = c.oneIn(3);
  Problem p = problem(c, c.oneIn(4) ? 9 : 5, c.oneIn(4) ? 25 : 14, c.boolean() ? 0 : c.real(-1, 1), robust, c.boolean());
  int n = 0, rows = 0;
  for (auto& v : p.vars) {
    v->setActive(true);
    v->setColumnBase(n);
    n += v->minimalDimensions();
  }
  p.columns = n;
  for (auto& m : p.models) rows += m->b.size();
  const int remove = c.integer(0, (int)p.vars.size() - 1);
  int k = 0;
  for (int i = 0; i < remove; ++i) k += p.vars[i]->minimalDimensions();
  MatrixXd J;
  VectorXd e;
  p.dense(robust, J, e);
  const MatrixXd H = J.transpose() * J;
  if (rows < n) return c.discard();
  const bool wellPosed = ratio(H) > 1e-6;
  if (k && !(ratio(H.topLeftCorner(k, k)) > 1e-6)) return c.discard();
  c << "remove " << remove << " of " << p.vars.size() << " variables, " << k << " of " << n << " dimensions, " << rows << " rows\n";
  if (remove && rows > n) c.nontrivial();

  List vars = p.list();
  std::vector<ErrorTerm*> errors;
  for (auto& m : p.models) errors.push_back(m->term);
  std::vector<int> block, base;
  std::vector<size_t> row;
  for (auto* d : vars) {
    d->setBlockIndex(c.integer(-1, 30));
    d->setColumnBase(c.integer(-1, 50));
    block.push_back(d->blockIndex());
    base.push_back(d->columnBase());
  }
  for (auto* t : errors) {
    t->setRowBase(c.integer(0, 60));
    row.push_back(t->rowBase());
  }
  const int top = wellPosed ? c.integer(0, n) : 0;
  const List before = vars;
  const std::vector<ErrorTerm*> errorsBefore = errors;
  std::vector<VectorXd> values;
  for (auto* d : vars) values.push_back(value(d));
  boost::shared_ptr<MarginalizationPriorErrorTerm> prior;
  MatrixXd cov;
  List inTop;
  {
    Quiet q;
    marginalize(vars, errors, remove, robust, prior, cov, inTop, top, c.integer(1, 4));
  }
  c.check(vars == before && errors == errorsBefore, "the lists handed in changed");
  for (size_t i = 0; i < vars.size(); ++i) {
    c.eq(vars[i]->blockIndex(), block[i], "block index restored");
    c.eq(vars[i]->columnBase(), base[i], "column base restored");
    c.nearMat(value(vars[i]), values[i], 0, 0, "value untouched");
  }
  for (size_t i = 0; i < errors.size(); ++i) c.eq(errors[i]->rowBase(), row[i], "row base restored");
  List wantTop;
  int at = 0;
  for (auto* d : vars) {
    if (at < top) wantTop.push_back(d);
    at += d->minimalDimensions();
  }
  c.check(inTop == wantTop, "variables of the top rows");
  if (top > 0) {
    const MatrixXd inv = H.inverse();
    c.nearMat(cov, inv.topLeftCorner(top, top), 1e-6 * inv.norm(), 0, "covariance of the top rows");
    c.label("covariance");
  }

  // The prior
  if (!prior) return c.fail("no prior");
  const List rest(vars.begin() + remove, vars.end());
  c.eq(prior->numDesignVariables(), (int)rest.size(), "variables of the prior");
  for (size_t i = 0; i < rest.size(); ++i) c.check(prior->getDesignVariable((int)i) == rest[i], "variables of the prior in order");
  c.check(prior->designVariables() == rest, "design variables of the term");
  VectorXd s(n - k);  // scaling, folded in the Jacobian of the marginalized problem
  {
    int o = 0;
    for (auto* d : rest) {
      s.segment(o, d->minimalDimensions()).setConstant(d->scaling());
      o += d->minimalDimensions();
    }
  }
  const MatrixXd S = schur(H, k);
  VectorXd g = J.transpose() * e, gr = g.tail(n - k);
  if (k) gr -= H.bottomLeftCorner(n - k, k) * H.topLeftCorner(k, k).ldlt().solve(g.head(k));
  const double tolerance = 1e-7 * (1 + H.norm()) * (1 + e.norm());
  int col = 0;
  for (size_t i = 0; i < rest.size(); ++i) {
    rest[i]->setBlockIndex((int)i);
    rest[i]->setColumnBase(col);
    col += rest[i]->minimalDimensions();
  }
  const double cost0 = prior->evaluateError();
  if (s == VectorXd::Ones(n - k)) {
    for (int moves = c.integer(1, 3); moves > 0; --moves) {
      VectorXd total(n - k);
      int o = 0;
      for (auto* d : rest) {
        VectorXd step = vec(c, d->minimalDimensions(), 3);
        d->update(step.data(), step.size());
        total.segment(o, step.size()) = value(d) - values[std::find(vars.begin(), vars.end(), d) - vars.begin()];
        o += step.size();
      }
      // minimum over the removed variables of |J (dx_removed, total) + e|^2
      const double got = prior->evaluateError() - cost0;
      const double want = total.dot(S * total) + 2 * gr.dot(total);
      c.near(got, want, tolerance * (1 + total.squaredNorm()), 1e-8, "prior's cost after a move, over its cost before");
      JacobianContainer jc(prior->dimension());
      prior->getWeightedJacobians(jc, true);
      const MatrixXd P = stack(jc, rest);
      VectorXd we;
      prior->getWeightedError(we, true);
      c.nearMat(P.transpose() * P, S, tolerance, 0, "Hessian of the prior");
      c.nearMat(P.transpose() * we, S * total + gr, tolerance * (1 + total.norm()), 0, "gradient of the prior");
    }
    c.label("quadratic");
  }
}

// Marginalizing and solving the rest gives the solution of the whole
PBT_CLAIM(solution, 250) {
  Problem p = problem(c, 6, 16, 0, false, false);
  int n = 0;
  for (auto& v : p.vars) {
    v->setActive(true);
    v->setColumnBase(n);
    n += v->minimalDimensions();
  }
  p.columns = n;
  MatrixXd J;
  VectorXd e, x(n);
  p.dense(false, J, e);
  const MatrixXd H = J.transpose() * J;
  if (!(ratio(H) > 1e-5)) return c.discard();
  int o = 0;
  for (auto& v : p.vars) {
    x.segment(o, v->minimalDimensions()) = value(v.get());
    o += v->minimalDimensions();
  }
  x -= H.ldlt().solve(J.transpose() * e);
  const int remove = c.integer(0, (int)p.vars.size() - 1);
  // Terms that touch the removed variables go into the prior, and some of the others
  std::vector<ErrorTerm*> in, out;
  std::set<DesignVariable*> removed;
  for (int i = 0; i < remove; ++i) removed.insert(p.vars[i].get());
  int rows = 0;
  List used;
  for (auto& m : p.models) {
    bool touches = false;
    for (auto* d : m->vars) touches |= removed.count(d) > 0;
    if (touches || c.oneIn(3)) {
      in.push_back(m->term);
      rows += m->term->dimension();
    } else
      out.push_back(m->term);
  }
  List vars = p.list();
  if (rows < n || in.empty()) return c.discard();
  {
    MatrixXd Jin = MatrixXd::Zero(rows, n);
    int r = 0, k = 0;
    for (int i = 0; i < remove; ++i) k += p.vars[i]->minimalDimensions();
    for (auto& m : p.models)
      if (std::find(in.begin(), in.end(), m->term) != in.end()) {
        int off = 0;
        const MatrixXd D = m->derivative();
        for (auto* d : m->vars) {
          Jin.block(r, d->columnBase(), D.rows(), d->minimalDimensions()) = D.middleCols(off, d->minimalDimensions());
          off += d->minimalDimensions();
        }
        r += D.rows();
      }
    const MatrixXd Hin = Jin.transpose() * Jin;
    if (k && !(ratio(Hin.topLeftCorner(k, k)) > 1e-5)) return c.discard();
  }
  c << "remove " << remove << " of " << p.vars.size() << " variables, " << in.size() << " terms to the prior, " << out.size() << " kept\n";
  boost::shared_ptr<MarginalizationPriorErrorTerm> prior;
  MatrixXd cov;
  List top;
  VectorXd want = x.tail(n);
  {
    Quiet q;
    marginalize(vars, in, remove, false, prior, cov, top, 0, 1);
    auto rest = boost::make_shared<OptimizationProblem>();
    wrap(p, *rest, remove);
    rest->addErrorTerm(prior.get(), false);
    for (auto* t : out) rest->addErrorTerm(t, false);
    Optimizer2Options options;
    options.linearSystemSolver.reset();
    options.maxIterations = 3;
    options.convergenceDeltaX = 1e-12;
    options.convergenceDeltaJ = 0;
    options.trustRegionPolicy.reset(new GaussNewtonTrustRegionPolicy());
    Optimizer2 opt(options);
    opt.setProblem(rest);
    opt.optimize();
  }
  o = 0;
  for (size_t i = 0; i < p.vars.size(); ++i) {
    const int d = p.vars[i]->minimalDimensions();
    if ((int)i >= remove) c.nearMat(value(p.vars[i].get()), x.segment(o, d), 1e-5 * (1 + x.norm()), 0, "solution of the rest");
    o += d;
  }
  if (remove && !out.empty()) c.nontrivial();
}

// A prior over variables of every kind that has a minimal difference
PBT_CLAIM(prior, 500) {
  std::vector<std::shared_ptr<DesignVariable> > own;
  List vars;
  int n = 0;
  for (int m = c.integer(1, 5); m > 0; --m) {
    switch (c.integer(0, 3)) {
      case 0: own.push_back(std::make_shared<EuclideanPoint>(Vector3d(vec(c, 3, 3)))); break;
      case 1: own.push_back(std::make_shared<RotationQuaternion>(Matrix3d(rotation(c)))); break;
      case 2: own.push_back(std::make_shared<Scalar>(c.real(-3, 3))); break;
      default: own.push_back(variable(vec(c, c.integer(1, 4), 2)));
    }
    vars.push_back(own.back().get());
    n += vars.back()->minimalDimensions();
  }
  activate(c, vars);
  const int rows = c.integer(1, 8);
  const MatrixXd R = mat(c, rows, n, 2);
  const VectorXd d = vec(c, rows, 2);
  MarginalizationPriorErrorTerm prior(vars, d, R);
  c.eq((int)prior.dimension(), rows, "dimension");
  std::vector<MatrixXd> anchors(vars.size());
  for (size_t i = 0; i < vars.size(); ++i) vars[i]->getParameters(anchors[i]);
  VectorXd want = VectorXd::Zero(n);
  c.near(prior.evaluateError(), d.squaredNorm(), 1e-9, 1e-12, "cost where it was linearized");
  c.nearMat(prior.vsError(), -d, 1e-12, 0, "error where it was linearized");
  for (int moves = c.integer(1, 3); moves > 0; --moves) {
    int o = 0;
    for (auto* v : vars) {
      VectorXd s = vec(c, v->minimalDimensions(), 0.5);
      if (c.boolean()) v->update(s.data(), s.size());
      o += s.size();
    }
    o = 0;
    for (size_t i = 0; i < vars.size(); ++i) {
      const int k = vars[i]->minimalDimensions();
      if (dynamic_cast<RotationQuaternion*>(vars[i])) {
        // C = exp(-a^x) C0
        Vector4d q0 = anchors[i], q;
        MatrixXd now;
        vars[i]->getParameters(now);
        q = now;
        auto C = [](const Vector4d& p) { return Matrix3d(Matrix3d::Identity() - 2 * p(3) * skew(p.head<3>()) + 2 * skew(p.head<3>()) * skew(p.head<3>())); };
        const Eigen::AngleAxisd a(Matrix3d(C(q) * C(q0).transpose()));
        want.segment(o, 3) = -a.angle() * a.axis();
      } else {
        MatrixXd now;
        vars[i]->getParameters(now);
        want.segment(o, k) = now - anchors[i];
      }
      o += k;
    }
    const VectorXd e = R * want - d;
    c.near(prior.evaluateError(), e.squaredNorm(), 1e-7, 1e-7, "cost after a move");
    c.nearMat(prior.vsError(), e, 1e-6, 0, "error after a move");
    JacobianContainer j(rows);
    prior.evaluateJacobians(j);
    checkJacobians(c, j, vars, [&]() -> VectorXd { prior.evaluateError(); return prior.vsError(); }, 1e-3, 1e-5, 1e-5, "prior");
    c.nontrivial();
  }
}

PBT_MAIN("B06", "variables were removed from an overdetermined problem, or the remaining variables moved after the marginalization")

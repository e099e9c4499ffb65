// B05: what the optimizers do to the problem, step by step, against the cost
// and the state observed from outside; well-posed problems end at the minimum.
#include <terms.hpp>
#include <sm_property_tree/BoostPropertyTree.hpp>
#include <aslam_backend/backend/BlockCholeskyLinearSystemSolver.hpp>
#include <aslam_backend/backend/DenseQrLinearSystemSolver.hpp>
#include <aslam_backend/backend/SparseCholeskyLinearSystemSolver.hpp>
#include <aslam_backend/backend/SparseQrLinearSystemSolver.hpp>
#include <aslam_backend/backend/DogLegTrustRegionPolicy.hpp>
#include <aslam_backend/backend/GaussNewtonTrustRegionPolicy.hpp>
#include <aslam_backend/backend/LevenbergMarquardtTrustRegionPolicy.hpp>
#include <aslam_backend/backend/OptimizationProblem.hpp>
#include <aslam_backend/backend/Optimizer.hpp>
#include <aslam_backend/backend/Optimizer2.hpp>
using namespace terms;
using namespace aslam::backend;

namespace {
struct Quiet {  // optimizers report on the console
  std::streambuf *o, *e;
  Quiet() : o(std::cout.rdbuf(0)), e(std::cerr.rdbuf(0)) {}
  ~Quiet() {
    std::cout.rdbuf(o);
    std::cerr.rdbuf(e);
    std::cout.clear();
    std::cerr.clear();
  }
};
typedef std::vector<VectorXd> State;
State state(const Problem& p) {
  State s;
  for (auto& v : p.vars) s.push_back(value(v.get()));
  return s;
}
std::string describe(const State& s) {
  std::string r;
  for (auto& v : s) r += num::str(v) + " ";
  return r;
}
boost::shared_ptr<OptimizationProblem> wrap(const Problem& p) {
  boost::shared_ptr<OptimizationProblem> o(new OptimizationProblem);
  for (auto& v : p.vars) o->addDesignVariable(v.get(), false);
  for (auto& m : p.models) o->addErrorTerm(m->term, false);
  return o;
}
// Terms of inactive variables only do not belong to an optimization
bool prune(Problem& p) {
  p.models.erase(std::remove_if(p.models.begin(), p.models.end(), [](std::shared_ptr<Model>& m) {
    return std::none_of(m->vars.begin(), m->vars.end(), [](DesignVariable* v) { return v->isActive(); }); }), p.models.end());
  int n = 0;
  for (auto& v : p.vars) n += v->isActive();
  return !p.models.empty() && n > 0;
}
// Smallest to largest eigenvalue of the Hessian at the current state, and the gradient
struct Local {
  double ratio = 0, top = 0;
  VectorXd gradient;
  MatrixXd H;
  bool unobserved = false;
};
Local local(pbt::Case& c, Problem& p) {
  Local l;
  int base = 0;
  for (auto& v : p.vars)
    if (v->isActive()) {
      v->setColumnBase(base);
      base += v->minimalDimensions();
    }
  p.columns = base;
  MatrixXd J;
  VectorXd e;
  p.dense(true, J, e);
  l.gradient = J.transpose() * e;
  l.H = J.transpose() * J;
  for (int i = 0; i < base; ++i) l.unobserved = l.unobserved || (l.H.col(i).array() == 0).all();
  Eigen::SelfAdjointEigenSolver<MatrixXd> es(l.H);
  l.top = es.eigenvalues()(base - 1);
  l.ratio = l.top > 0 ? es.eigenvalues()(0) / l.top : 0;
  return l;
}
enum { SparseCholesky, BlockCholesky, BlockQr, SparseQr, DenseQr };
boost::shared_ptr<LinearSystemSolver> solver(int k) {
  switch (k) {
    case SparseCholesky: return boost::shared_ptr<LinearSystemSolver>(new SparseCholeskyLinearSystemSolver());
    case BlockCholesky: return boost::shared_ptr<LinearSystemSolver>(new BlockCholeskyLinearSystemSolver());
    case BlockQr: return boost::shared_ptr<LinearSystemSolver>(new BlockCholeskyLinearSystemSolver("spqr"));
    case SparseQr: return boost::shared_ptr<LinearSystemSolver>(new SparseQrLinearSystemSolver());
    default: return boost::shared_ptr<LinearSystemSolver>(new DenseQrLinearSystemSolver());
  }
}
// Watches a policy: what the optimizer tells it and the state it finds
struct Observed {
  double J;
  bool failed, success;
  State x;
  double cost;
  VectorXd dx;
};
struct Log {
  const Problem* p = 0;
  std::vector<Observed> calls;
};
template <class Base> struct Watched : Base {
  Log* log;
  template <class... A> Watched(Log* l, A... a) : Base(a...), log(l) {}
  bool solveSystem(double J, bool failed, int nThreads, VectorXd& dx) override {
    Observed o;
    o.J = J;
    o.failed = failed;
    o.x = state(*log->p);
    o.cost = log->p->cost(true);
    o.success = Base::solveSystem(J, failed, nThreads, dx);
    if (o.success) o.dx = dx;
    log->calls.push_back(o);
    return o.success;
  }
};
// A policy that steps anywhere and fails at random
struct Wild : TrustRegionPolicy {
  struct Step { bool ok; double size; int kind; };
  std::vector<Step> steps;
  size_t next = 0;
  bool revert = true;
  uint64_t seed = 1;
  int columns = 0;
  double real() {
    seed = seed * 6364136223846793005ull + 1442695040888963407ull;
    return (double)(seed >> 11) / 4503599627370496.0 - 1;
  }
  bool revertOnFailure() override { return revert; }
  std::ostream& printState(std::ostream& o) const override { return o; }
  std::string name() const override { return "wild"; }
  bool requiresAugmentedDiagonal() const override { return false; }
  void optimizationStartingImplementation(double) override { next = 0; }
  bool solveSystemImplementation(double, bool, int nThreads, VectorXd& dx) override {
    const Step s = steps[next++ % steps.size()];
    _solver->buildSystem(nThreads, true);
    if (!s.ok) return false;
    dx = VectorXd::Zero(columns);
    for (int i = 0; i < columns; ++i) dx(i) = s.size * real();
    if (s.kind == 1) dx = s.size * _solver->rhs();
    if (s.kind == 2) dx = VectorXd::Constant(columns, std::numeric_limits<double>::quiet_NaN());
    return true;
  }
};
Optimizer2Options options(pbt::Case& c) {
  Optimizer2Options o;
  o.verbose = false;
  o.doSchurComplement = false;
  o.nThreads = c.integer(1, 4);
  o.maxIterations = c.oneIn(4) ? c.integer(1, 4) : c.integer(5, 60);
  o.convergenceDeltaX = c.oneIn(3) ? 0 : c.logReal(1e-10, 1e-1);
  o.convergenceDeltaJ = c.oneIn(3) ? 0 : c.logReal(1e-10, 1e-1);
  return o;
}
boost::shared_ptr<Optimizer2> make(pbt::Case& c, const Optimizer2Options& o) {
  if (c.boolean()) return boost::shared_ptr<Optimizer2>(new Optimizer2(o));
  sm::BoostPropertyTree t;
  t.setDouble("convergenceDeltaJ", o.convergenceDeltaJ);
  t.setDouble("convergenceDeltaX", o.convergenceDeltaX);
  t.setInt("maxIterations", o.maxIterations);
  t.setBool("verbose", false);
  t.setInt("nThreads", o.nThreads);
  return boost::shared_ptr<Optimizer2>(new Optimizer2(t, o.linearSystemSolver, o.trustRegionPolicy));
}
bool better(double a, double b) { return a <= b + 1e-9 * (1 + std::abs(b)); }
void summary(pbt::Case& c, const Problem& p, const State& before, double costBefore, const SolutionReturnValue& r, const Optimizer2Options& o, bool revert) {
  c << "J " << r.JStart << " -> " << r.JFinal << " in " << r.iterations << " + " << r.failedIterations << " dX " << r.dXFinal << " dJ " << r.dJFinal << (r.linearSolverFailure ? " solver failed" : "") << "\n";
  const double cost = p.cost(true);
  c.near(r.JStart, costBefore, 1e-9, 1e-9, "initial cost");
  c.check(r.iterations <= o.maxIterations && r.failedIterations <= o.maxIterations, "iteration limits");
  if (revert) c.check(better(cost, costBefore), "the cost rose from " + std::to_string(costBefore) + " to " + std::to_string(cost));
  if (revert || std::isfinite(cost)) c.near(r.JFinal, cost, 1e-9, 1e-8, "final cost");
  const State after = state(p);
  for (size_t i = 0; i < p.vars.size(); ++i)
    if (!p.vars[i]->isActive()) c.check(before[i] == after[i], "an inactive variable moved");
  if (r.iterations < o.maxIterations && r.failedIterations < o.maxIterations)
    c.check(!r.linearSolverFailure && (r.dXFinal <= o.convergenceDeltaX || std::abs(r.dJFinal) <= o.convergenceDeltaJ), "stopped before converging");
}
// The loop around the policy: what was tried, kept and taken back
void loop(pbt::Case& c, const Problem& p, const Log& log, const SolutionReturnValue& r, bool revert, const State& before) {
  double best = r.JStart;
  State kept = before;
  int steps = 0, failures = 0;
  for (size_t i = 0; i < log.calls.size(); ++i) {
    const Observed& o = log.calls[i];
    c.check(o.x == kept || (i > 0 && log.calls[i - 1].success), "variables moved without a step");
    if (revert && i > 0) {
      const Observed& q = log.calls[i - 1];
      if (o.failed) {
        c.check(o.x == q.x, "a rejected step was not taken back: " + describe(q.x) + " became " + describe(o.x));
        if (q.success) c.check(!(o.J <= best), "a step that did not raise the cost was rejected");
        else c.check(o.J == q.J || (std::isnan(o.J) && std::isnan(q.J)), "the cost changed when the solver failed");
      } else {
        c.check(q.success, "a failed solve was called a success");
        c.check(better(o.cost, best), "a step that raised the cost was kept");
        c.near(o.J, o.cost, 1e-9, 1e-8, "cost told to the policy");
        best = o.J;
      }
    }
    kept = o.x;
    if (o.success) ++steps; else ++failures;
  }
  c.eq(r.iterations, steps, "iterations");
  if (!revert) c.eq(r.failedIterations, failures, "failed iterations");
  else c.check(r.failedIterations >= failures && r.failedIterations <= failures + steps, "failed iterations");
  c.check(r.linearSolverFailure == (!log.calls.empty() && !log.calls.back().success), "linear solver failure is the last solve's");
}
enum { GaussNewton, LevenbergMarquardt, DogLeg };
void optimize2(pbt::Case& c, int kind) {
  const double bend = c.boolean() ? 0 : c.logReal(0.01, 4);
  const bool robust = c.oneIn(3);
  Problem p = problem(c, 5, c.boolean() ? 12 : 5, bend, robust, true);
  if (!prune(p)) return c.discard();
  const bool limited = kind != GaussNewton && c.oneIn(4);
  if (limited)
    for (auto& m : p.models)
      if (c.boolean()) m->limit = 2 + c.logReal(1e-3, 3);
  const Local start = local(c, p);
  const State before = state(p);
  const double cost = p.cost(true);
  Optimizer2Options o = options(c);
  const bool tight = c.boolean();
  if (tight) {
    o.convergenceDeltaX = 1e-11;
    o.convergenceDeltaJ = 0;
    o.maxIterations = 150;
  }
  const int s = c.integer(0, 4);
  Log log;
  log.p = &p;
  o.linearSystemSolver = solver(s);
  if (kind == GaussNewton) o.trustRegionPolicy.reset(new Watched<GaussNewtonTrustRegionPolicy>(&log));
  if (kind == DogLeg) o.trustRegionPolicy.reset(new Watched<DogLegTrustRegionPolicy>(&log));
  if (kind == LevenbergMarquardt) {
    if (c.boolean()) {
      sm::BoostPropertyTree t;
      t.setDouble("lambdaInit", c.logReal(1e-6, 10));
      o.trustRegionPolicy.reset(new Watched<LevenbergMarquardtTrustRegionPolicy>(&log, t));
    } else
      o.trustRegionPolicy.reset(new Watched<LevenbergMarquardtTrustRegionPolicy>(&log));
  }
  boost::shared_ptr<Optimizer2> opt = make(c, o);
  opt->setProblem(wrap(p));
  c << "solver " << s << " bend " << bend << (robust ? " robust" : "") << (limited ? " limited" : "") << " ratio " << start.ratio << (start.unobserved ? " unobserved" : "") << " from " << describe(before) << "\n";
  SolutionReturnValue r;
  {
    Quiet q;
    r = opt->optimize();
  }
  const bool revert = kind != GaussNewton;
  summary(c, p, before, cost, r, o, revert);
  if (revert || std::isfinite(r.JFinal)) c.near(opt->J(), r.JFinal, 0, 1e-12, "objective value after the optimization");
  if (!log.calls.empty()) loop(c, p, log, r, revert, before);
  else c.check(kind == LevenbergMarquardt && s == SparseQr, "the policy was not used");
  const bool cholesky = s == SparseCholesky || s == BlockCholesky;
  if (start.unobserved && cholesky && kind != LevenbergMarquardt) {
    c.check(r.linearSolverFailure && r.iterations == 0 && state(p) == before, "a singular problem is reported and left alone");
    c.label("singular");
  }
  const Local end = local(c, p);
  if (tight && !limited && r.iterations < o.maxIterations && start.ratio > 1e-3 && end.ratio > 1e-3 && start.top > 0.1 && end.top > 0.1 && (bend == 0 || (kind != GaussNewton && bend < 0.3)) && !robust) {
    // Where the gradient vanishes; reweighted least squares minimizes another function than the cost
    const VectorXd step = end.H.ldlt().solve(end.gradient);
    const double tol = bend ? 1e-3 : 1e-5;
    c.check(step.norm() < tol, "did not end at a minimum: a Gauss-Newton step is still " + num::str(step) + ", gradient " + num::str(end.gradient));
    if (bend == 0) {
      c.label("linear solved");
      if (start.gradient.norm() > 1e-3) c.nontrivial();
    }
  }
  if (log.calls.size() > 2 && cost > 1e-6) c.nontrivial();
  if (revert && std::any_of(log.calls.begin(), log.calls.end(), [](const Observed& o) { return o.failed; })) c.label("rejected steps");
}
}  // namespace

PBT_CLAIM(gauss_newton, 400) { optimize2(c, GaussNewton); }
PBT_CLAIM(levenberg_marquardt, 500) { optimize2(c, LevenbergMarquardt); }
PBT_CLAIM(dog_leg, 500) { optimize2(c, DogLeg); }

// A policy that steps anywhere: what the optimizer keeps and takes back
PBT_CLAIM(any_policy, 800) {
  Problem p = problem(c, 4, 6, c.boolean() ? 0 : c.logReal(0.01, 4), c.oneIn(3), true);
  if (!prune(p)) return c.discard();
  const Local start = local(c, p);
  const State before = state(p);
  const double cost = p.cost(true);
  Optimizer2Options o = options(c);
  Log log;
  log.p = &p;
  auto* w = new Watched<Wild>(&log);
  o.trustRegionPolicy.reset(w);
  o.linearSystemSolver = solver(c.integer(0, 4));
  w->columns = p.columns;
  w->revert = !c.oneIn(4);
  w->seed = c.integer(1, 1000000);
  const bool nan = c.oneIn(3);
  for (int n = c.integer(1, 20); n > 0; --n) {
    Wild::Step s;
    s.ok = !c.oneIn(4);
    s.size = c.logReal(1e-4, 3);
    s.kind = nan && c.oneIn(4) && w->revert ? 2 : c.integer(0, 1);
    c << "step " << s.ok << " " << s.size << " " << s.kind << "\n";
    w->steps.push_back(s);
  }
  boost::shared_ptr<Optimizer2> opt = make(c, o);
  opt->setProblem(wrap(p));
  SolutionReturnValue r;
  {
    Quiet q;
    r = opt->optimize();
  }
  summary(c, p, before, cost, r, o, w->revert);
  loop(c, p, log, r, w->revert, before);
  if (log.calls.size() > 3) c.nontrivial();
}

// The first optimizer, with the Schur complement over marginalized variables
namespace {
OptimizerOptions options1(pbt::Case& c, bool lm) {
  OptimizerOptions o;
  o.verbose = false;
  o.doLevenbergMarquardt = lm;
  o.maxIterations = c.oneIn(4) ? c.integer(1, 4) : c.integer(5, 60);
  o.convergenceDeltaX = c.oneIn(3) ? 0 : c.logReal(1e-10, 1e-1);
  o.convergenceDeltaJ = c.oneIn(3) ? 0 : c.logReal(1e-10, 1e-1);
  if (c.boolean()) o.levenbergMarquardtLambdaInit = c.logReal(1e-6, 10);
  if (c.oneIn(4)) o.levenbergMarquardtEstimateLambdaScale = c.logReal(1e-6, 1e-1);
  o.resetSolverEveryIteration = c.boolean();
  switch (c.integer(0, 3)) {
    case 0: o.linearSolver = "dense"; break;
    case 1: o.linearSolver = "spqr"; break;
    case 2: o.linearSolver = "cholmod"; break;
    default: o.linearSolver = "unknown";
  }
  return o;
}
// Marginalizes variables no two of which meet in a term
int marginalize(pbt::Case& c, Problem& p) {
  int n = 0, active = 0;
  for (auto& v : p.vars) active += v->isActive();
  for (auto& v : p.vars) {
    v->setMarginalized(false);
    if (!v->isActive() || c.boolean() || n + 1 >= active) continue;
    bool alone = true;
    for (auto& m : p.models)
      if (std::find(m->vars.begin(), m->vars.end(), v.get()) != m->vars.end())
        for (auto* w : m->vars) alone = alone && !(w->isActive() && w->isMarginalized());
    if (alone) v->setMarginalized(true), ++n;
  }
  return n;
}
void optimize1(pbt::Case& c, bool lm, bool dogLeg) {
  const double bend = c.boolean() ? 0 : c.logReal(0.01, 4);
  const bool robust = c.oneIn(3);
  Problem p = problem(c, 5, c.boolean() ? 12 : 5, bend, robust, true);
  if (!prune(p)) return c.discard();
  OptimizerOptions o = options1(c, lm);
  const bool limited = lm && c.oneIn(4);
  if (limited)
    for (auto& m : p.models)
      if (c.boolean()) m->limit = 2 + c.logReal(1e-3, 3);
  o.doSchurComplement = !dogLeg && c.boolean();
  const int marginalized = o.doSchurComplement ? marginalize(c, p) : 0;
  const Local start = local(c, p);
  if ((dogLeg || !lm || marginalized) && start.ratio < 1e-9) return c.discard();  // reports no failure
  const bool tight = c.boolean();
  if (tight) {
    o.convergenceDeltaX = 1e-11;
    o.convergenceDeltaJ = 0;
    o.maxIterations = 150;
  }
  const State before = state(p);
  const double cost = p.cost(true);
  Optimizer opt(o);
  opt.setProblem(wrap(p));
  c << "solver " << o.linearSolver << " bend " << bend << (robust ? " robust" : "") << (limited ? " limited" : "") << " marginalized " << marginalized << " ratio " << start.ratio << " from " << describe(before) << "\n";
  SolutionReturnValue r;
  {
    Quiet q;
    r = dogLeg ? opt.optimizeDogLeg() : opt.optimize();
  }
  c << "J " << r.JStart << " -> " << r.JFinal << " in " << r.iterations << " + " << r.failedIterations << " dX " << r.dXFinal << " dJ " << r.dJFinal << "\n";
  const double end = p.cost(true);
  c.near(r.JStart, cost, 1e-9, 1e-9, "initial cost");
  c.check(r.iterations <= o.maxIterations && r.failedIterations <= r.iterations, "iteration limits");
  if (lm || dogLeg) c.check(better(end, cost), "the cost rose from " + std::to_string(cost) + " to " + std::to_string(end));
  if (lm || dogLeg || std::isfinite(end)) {
    c.near(r.JFinal, end, 1e-9, 1e-8, "final cost");
    c.near(opt.J(), end, 1e-9, 1e-8, "objective value after the optimization");
  }
  const State after = state(p);
  for (size_t i = 0; i < p.vars.size(); ++i)
    if (!p.vars[i]->isActive()) c.check(before[i] == after[i], "an inactive variable moved");
  if (r.iterations < o.maxIterations) c.check(r.dXFinal <= o.convergenceDeltaX || std::abs(r.dJFinal) <= o.convergenceDeltaJ, "stopped before converging");
  c.eq((int)(opt.numDenseDesignVariables() + opt.numSparseDesignVariables()), (int)std::count_if(p.vars.begin(), p.vars.end(), [](const std::shared_ptr<DesignVariable>& v) { return v->isActive(); }), "design variables");
  const Local stop = local(c, p);
  if (tight && !dogLeg && !limited && !robust && r.iterations < o.maxIterations && start.ratio > 1e-3 && stop.ratio > 1e-3 && start.top > 0.1 && stop.top > 0.1 && (bend == 0 || (lm && bend < 0.3))) {
    const VectorXd step = stop.H.ldlt().solve(stop.gradient);
    c.check(step.norm() < (bend ? 1e-3 : 1e-5), "did not end at a minimum: a Gauss-Newton step is still " + num::str(step) + ", gradient " + num::str(stop.gradient));
    if (bend == 0) c.label("linear solved");
    if (marginalized) c.label("marginalized");
  }
  if (r.iterations > 2 && cost > 1e-6) c.nontrivial();
  for (auto& v : p.vars) v->setMarginalized(false);
}
}  // namespace
PBT_CLAIM(first_gauss_newton, 400) { optimize1(c, false, false); }
PBT_CLAIM(first_levenberg_marquardt, 500) { optimize1(c, true, false); }
PBT_CLAIM(first_dog_leg, 400) { optimize1(c, false, true); }

// Covariances and Hessians computed after an optimization
PBT_CLAIM(covariances, 400) {
  Problem p = problem(c, 5, 12, 0, false, true);
  if (!prune(p)) return c.discard();
  const Local start = local(c, p);
  if (start.ratio < 1e-5) return c.discard();
  OptimizerOptions o = options1(c, c.boolean());
  o.maxIterations = c.integer(1, 10);
  Optimizer opt(o);
  opt.setProblem(wrap(p));
  Optimizer2Options o2 = options(c);
  Optimizer2 second(o2);
  const bool early = c.boolean();
  SparseBlockMatrix H2;
  const double lambda = c.logReal(1e-3, 1);
  {
    Quiet q;
    opt.optimize();
    second.setProblem(wrap(p));
    if (early) second.initialize(); else second.optimize();
    second.computeHessian(H2, lambda);
  }
  std::vector<DesignVariable*> act;
  for (auto& v : p.vars)
    if (v->isActive()) act.push_back(v.get());
  const Local now = local(c, p);
  MatrixXd H = opt.H().toDense(), D = H2.toDense();
  H.triangularView<Eigen::StrictlyLower>() = H.transpose();
  D.triangularView<Eigen::StrictlyLower>() = D.transpose();
  c.nearMat(H, now.H, 1e-7 * now.H.norm(), 0, "Hessian");
  c.nearMat(D, now.H, 1e-7 * now.H.norm(), 0, "Hessian of the second optimizer");
  const MatrixXd inv = now.H.inverse();
  const bool diagonal = c.boolean();
  if (diagonal) opt.computeDiagonalCovariances(); else opt.computeCovariances();
  for (size_t i = 0; i < act.size(); ++i)
    for (size_t j = i; j < act.size(); ++j) {
      if (diagonal && i != j) continue;
      const MatrixXd* b = opt.getCovarianceBlock(i, j);
      if (!b) return c.fail("covariance block missing");
      c.nearMat(*b, inv.block(act[i]->columnBase(), act[j]->columnBase(), act[i]->minimalDimensions(), act[j]->minimalDimensions()), 1e-6 * inv.norm(), 0, "covariance block");
    }
  if (act.size() > 1) c.nontrivial();
}

PBT_MAIN("B05", "the optimizer asked its policy for several steps, or solved a linear problem that was not solved at the start")

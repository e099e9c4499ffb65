// I01: batches of measurements against a model over histories, and the
// probability distributions, special functions, estimators, grids and matrix
// routines of the incremental calibration against their definitions.
#include <terms.hpp>
#include <boost/math/distributions/chi_squared.hpp>
#include <boost/math/distributions/exponential.hpp>
#include <boost/math/distributions/gamma.hpp>
#include <boost/math/distributions/normal.hpp>
#include <boost/math/special_functions/digamma.hpp>
#include <boost/math/special_functions/gamma.hpp>
#include <sstream>
#include <aslam_backend/backend/GaussNewtonTrustRegionPolicy.hpp>
#include <aslam_backend/backend/Optimizer2.hpp>
#include <aslam_incremental_calibration/algorithms/matrixOperations.h>
#include <aslam_incremental_calibration/algorithms/permute.h>
#include <aslam_incremental_calibration/base/Timestamp.h>
#include <aslam_incremental_calibration/core/IncrementalOptimizationProblem.h>
#include <aslam_incremental_calibration/core/OptimizationProblem.h>
#include <aslam_incremental_calibration/data-structures/Grid.h>
#include <aslam_incremental_calibration/data-structures/VectorDesignVariable.h>
#include <aslam_incremental_calibration/exceptions/OutOfBoundException.h>
#include <aslam_incremental_calibration/functions/DigammaFunction.h>
#include <aslam_incremental_calibration/functions/IncompleteGammaPFunction.h>
#include <aslam_incremental_calibration/functions/IncompleteGammaQFunction.h>
#include <aslam_incremental_calibration/functions/LogFactorialFunction.h>
#include <aslam_incremental_calibration/functions/LogGammaFunction.h>
#include <aslam_incremental_calibration/geometry/Transformation.h>
#include <aslam_incremental_calibration/statistics/ChiSquareDistribution.h>
#include <aslam_incremental_calibration/statistics/EstimatorML.h>
#include <aslam_incremental_calibration/statistics/GammaDistribution.h>
#include <aslam_incremental_calibration/statistics/Histogram.h>
#include <aslam_incremental_calibration/statistics/NormalDistribution.h>
#include <aslam_incremental_calibration/statistics/Randomizer.h>
#include <aslam_incremental_calibration/statistics/UniformDistribution.h>
using namespace terms;
namespace ac = aslam::calibration;

namespace {
template <class F> bool throws(F f) {
  try { f(); } catch (const std::exception&) { return true; }
  return false;
}
typedef boost::shared_ptr<DesignVariable> Var;
typedef boost::shared_ptr<ErrorTerm> TermP;
typedef std::vector<DesignVariable*> Dvs;

Var calibrationVariable(pbt::Case& c) {
  switch (c.integer(0, 2)) {
    case 0: return boost::make_shared<ac::VectorDesignVariable<1> >(Eigen::Matrix<double, 1, 1>(vec(c, 1, 2)));
    case 1: return boost::make_shared<ac::VectorDesignVariable<2> >(Eigen::Vector2d(vec(c, 2, 2)));
    default: return boost::make_shared<ac::VectorDesignVariable<3> >(Vector3d(vec(c, 3, 2)));
  }
}
std::vector<size_t> permutation(pbt::Case& c, size_t n) {
  std::vector<size_t> p;
  for (size_t i = 0; i < n; ++i) p.push_back(i);
  for (size_t i = n; i > 1; --i) std::swap(p[i - 1], p[c.integer(0, (int)i - 1)]);
  return p;
}
// Breaks a permutation in one way
std::vector<size_t> notPermutation(pbt::Case& c, size_t n) {
  std::vector<size_t> p = permutation(c, n);
  switch (n < 2 ? c.integer(0, 1) : c.integer(0, 2)) {
    case 0: p.push_back(n); break;
    case 1:
      if (p.empty()) p.push_back(0);
      else p[c.integer(0, (int)n - 1)] = n + c.integer(0, 3);
      break;
    default: {
      const int i = c.integer(0, (int)n - 1);
      p[i] = p[(i + c.integer(1, (int)n - 1)) % n];
    }
  }
  return p;
}
template <class T> std::vector<T> permuted(const std::vector<T>& v, const std::vector<size_t>& p) {
  std::vector<T> r;
  for (size_t i : p) r.push_back(v[i]);
  return r;
}

// A group structure: order of the groups and of the variables in each
struct Groups {
  std::vector<size_t> order;
  std::map<size_t, Dvs> in;
  Dvs all() const {
    Dvs a;
    for (size_t g : order) a.insert(a.end(), in.at(g).begin(), in.at(g).end());
    return a;
  }
};
struct BatchModel {
  boost::shared_ptr<ac::OptimizationProblem> p;
  Groups g;
  std::map<DesignVariable*, size_t> group;
  std::vector<ErrorTerm*> terms;
  std::map<DesignVariable*, MatrixXd> saved;
};
template <class P> void sameGroups(pbt::Case& c, P& p, const Groups& g, const std::vector<Var>& pool, const std::string& what) {
  const P& k = p;
  c.eq(k.getNumGroups(), g.order.size(), what + ": groups");
  c.check(k.getGroupsOrdering() == g.order, what + ": order of the groups");
  c.eq(k.getDesignVariablesGroups().size(), g.order.size(), what + ": group map");
  std::map<DesignVariable*, size_t> group;
  for (auto& e : g.in) {
    c.check(k.isGroupInProblem(e.first), what + ": group is known");
    const auto& l = k.getDesignVariablesGroup(e.first);
    c.eq(l.size(), e.second.size(), what + ": size of a group");
    size_t dim = 0;
    for (size_t i = 0; i < l.size(); ++i) {
      c.check(&*l[i] == e.second[i], what + ": variables of a group");
      if (e.second[i]->isActive()) dim += e.second[i]->minimalDimensions();
      group[e.second[i]] = e.first;
    }
    c.eq(k.getGroupDim(e.first), dim, what + ": dimension of a group");
  }
  for (size_t id = 0; id < 6; ++id)
    if (!g.in.count(id)) {
      c.check(!k.isGroupInProblem(id), what + ": unknown group");
      c.check(throws([&] { k.getDesignVariablesGroup(id); }), what + ": unknown group is refused");
      c.check(throws([&] { k.getGroupDim(id); }), what + ": dimension of an unknown group is refused");
    }
  const Dvs all = g.all();
  c.eq(p.numDesignVariables(), all.size(), what + ": design variables");
  for (size_t i = 0; i < all.size(); ++i) {
    c.check(p.designVariable(i) == all[i], what + ": design variable by index");
    c.check(k.designVariable(i) == all[i], what + ": design variable by index (const)");
  }
  for (auto& v : pool) {
    c.eq(k.isDesignVariableInProblem(v.get()), group.count(v.get()) > 0, what + ": membership of a variable");
    if (group.count(v.get())) c.eq(k.getGroupId(v.get()), group[v.get()], what + ": group of a variable");
    else c.check(throws([&] { k.getGroupId(v.get()); }), what + ": group of an unknown variable is refused");
  }
}
template <class P> void sameTerms(pbt::Case& c, P& p, const std::vector<ErrorTerm*>& t, const std::vector<TermP>& pool, const std::string& what) {
  const P& k = p;
  c.eq(p.numErrorTerms(), t.size(), what + ": error terms");
  for (size_t i = 0; i < t.size(); ++i) {
    c.check(p.errorTerm(i) == t[i], what + ": error term by index");
    c.check(k.errorTerm(i) == t[i], what + ": error term by index (const)");
  }
  for (auto& e : pool)
    c.eq(k.isErrorTermInProblem(e.get()), std::count(t.begin(), t.end(), e.get()) > 0, what + ": membership of a term");
}
template <class P> void ordering(pbt::Case& c, P& p, Groups& g, const std::string& what) {
  std::vector<size_t> o = permuted(g.order, permutation(c, g.order.size()));
  if (c.oneIn(3)) {
    std::vector<size_t> bad = o;
    switch (o.empty() ? 0 : c.integer(0, o.size() > 1 ? 2 : 1)) {
      case 0: bad.push_back(c.integer(0, 7)); break;
      case 1: bad[c.integer(0, (int)o.size() - 1)] = 6 + c.integer(0, 2); break;
      default: bad[0] = bad[1];
    }
    c.check(throws([&] { p.setGroupsOrdering(bad); }), what + ": an ordering that is none is refused");
  } else {
    p.setGroupsOrdering(o);
    g.order = o;
  }
}
template <class P> void permuteGroup(pbt::Case& c, P& p, Groups& g, const std::string& what) {
  const size_t id = c.integer(0, 6);
  if (!g.in.count(id)) {
    c.check(throws([&] { p.permuteDesignVariables(std::vector<size_t>(), id); }), what + ": permuting an unknown group is refused");
    return;
  }
  auto& l = g.in[id];
  if (c.oneIn(3)) {
    const auto bad = notPermutation(c, l.size());
    c.check(throws([&] { p.permuteDesignVariables(bad, id); }), what + ": a permutation that is none is refused");
  } else {
    const auto q = permutation(c, l.size());
    p.permuteDesignVariables(q, id);
    l = permuted(l, q);
  }
}
MatrixXd parameters(const DesignVariable* d) {
  MatrixXd m;
  d->getParameters(m);
  return m;
}
}  // namespace

// Histories of adding, removing, regrouping and restoring batches
PBT_CLAIM(batches, 3000) {
  std::vector<Var> vars;
  for (int n = c.integer(1, 8); n > 0; --n) {
    vars.push_back(calibrationVariable(c));
    vars.back()->setActive(c.boolean());
  }
  std::vector<TermP> pool;
  std::vector<BatchModel> batches(c.integer(1, 5));
  int steps = 0, refused = 0;
  // group of a variable: mostly the same everywhere
  std::vector<size_t> usual;
  for (size_t i = 0; i < vars.size(); ++i) usual.push_back(c.integer(0, 5));
  for (auto& b : batches) {
    b.p = boost::make_shared<ac::OptimizationProblem>();
    const bool odd = c.oneIn(5);
    for (int n = c.integer(0, 14); n > 0; --n) switch (c.integer(0, 9)) {
      case 0: case 1: case 2: case 3: {
        const int i = c.integer(0, (int)vars.size() - 1);
        const size_t g = odd && c.boolean() ? c.integer(0, 5) : usual[i];
        if (b.group.count(vars[i].get())) {
          c.check(throws([&] { b.p->addDesignVariable(vars[i], g); }), "a repeated design variable is refused");
          ++refused;
          break;
        }
        b.p->addDesignVariable(vars[i], g);
        if (!b.g.in.count(g)) b.g.order.push_back(g);
        b.g.in[g].push_back(vars[i].get());
        b.group[vars[i].get()] = g;
        break;
      }
      case 4: case 5: case 6: {
        List l;
        bool known = true;
        for (auto& v : vars)
          if (b.group.count(v.get()) ? c.boolean() : c.oneIn(12)) {
            l.push_back(v.get());
            known = known && b.group.count(v.get());
          }
        TermP t;
        if (!pool.empty() && c.oneIn(4)) t = c.pick(pool);
        else {
          auto m = boost::make_shared<Term<aslam::backend::ErrorTermFs<2> > >();
          m->setDesignVariables(l);
          t = m;
          pool.push_back(t);
        }
        bool ok = !std::count(b.terms.begin(), b.terms.end(), t.get());
        for (size_t k = 0; k < t->numDesignVariables(); ++k) ok = ok && b.group.count(t->designVariable(k));
        if (ok) {
          b.p->addErrorTerm(t);
          b.terms.push_back(t.get());
        } else {
          c.check(throws([&] { b.p->addErrorTerm(t); }), "a repeated term or one of unknown variables is refused");
          ++refused;
        }
        break;
      }
      case 7: permuteGroup(c, *b.p, b.g, "batch"); break;
      case 8: {
        ordering(c, *b.p, b.g, "batch");
        if (c.oneIn(3)) {
          const auto bad = notPermutation(c, b.terms.size());
          c.check(throws([&] { b.p->permuteErrorTerms(bad); }), "batch: permutation of the terms that is none is refused");
        } else {
          const auto q = permutation(c, b.terms.size());
          b.p->permuteErrorTerms(q);
          b.terms = permuted(b.terms, q);
        }
        break;
      }
      default:
        if (c.oneIn(3)) {
          b.p->clear();
          b.g = Groups();
          b.group.clear();
          b.terms.clear();
          b.saved.clear();
        } else if (c.boolean()) {
          b.p->saveDesignVariables();
          for (auto* d : b.g.all()) b.saved[d] = parameters(d);
        } else {
          for (auto& v : vars) {
            const VectorXd dx = vec(c, v->minimalDimensions(), 1);
            v->update(dx.data(), dx.size());
          }
          std::map<DesignVariable*, MatrixXd> want;
          for (auto& v : vars) want[v.get()] = parameters(v.get());
          for (auto& e : b.saved) want[e.first] = e.second;
          b.p->restoreDesignVariables();
          for (auto& v : vars) c.nearMat(parameters(v.get()), want[v.get()], 0, 0, "batch: restored variables");
        }
    }
    c.check(throws([&] { b.p->addDesignVariable(Var()); }) && throws([&] { b.p->addErrorTerm(TermP()); }), "null is refused");
    sameGroups(c, *b.p, b.g, vars, "batch");
    sameTerms(c, *b.p, b.terms, pool, "batch");
    c.check(throws([&] { b.p->errorTerm(b.terms.size() + c.integer(0, 2)); }), "batch: term index out of range is refused");
    c.eq(b.p->getErrorTerms().size(), b.terms.size(), "batch: list of terms");
  }
  ac::IncrementalOptimizationProblem inc;
  Groups g;
  std::map<DesignVariable*, std::pair<int, size_t> > count;
  std::vector<int> in;  // batches in order
  std::map<DesignVariable*, MatrixXd> saved;
  std::ostringstream log;
  auto compare = [&](const std::string& what) {
    sameGroups(c, inc, g, vars, what);
    std::vector<ErrorTerm*> t;
    for (int b : in) t.insert(t.end(), batches[b].terms.begin(), batches[b].terms.end());
    sameTerms(c, inc, t, pool, what);
    c.eq(inc.getNumOptimizationProblems(), in.size(), what + ": number of batches");
    c.eq(inc.getOptimizationProblems().size(), in.size(), what + ": list of batches");
    for (size_t i = 0; i < in.size(); ++i) {
      c.check(inc.getOptimizationProblem(i) == batches[in[i]].p.get(), what + ": batch by index");
      c.check(static_cast<const ac::IncrementalOptimizationProblem&>(inc).getOptimizationProblem(i) == batches[in[i]].p.get(), what + ": batch by index (const)");
      c.check(inc.getErrorTerms(i).size() == batches[in[i]].terms.size(), what + ": terms of a batch");
      c.check(inc.getOptimizationProblemBegin() + i != inc.getOptimizationProblemEnd(), what + ": iterators");
    }
    c.check(throws([&] { inc.getOptimizationProblem(in.size()); }) && throws([&] { inc.getErrorTerms(in.size()); }), what + ": batch index out of range is refused");
    c.check(throws([&] { inc.errorTerm(t.size() + c.integer(0, 2)); }), what + ": term index out of range is refused");
    for (size_t b = 0; b < batches.size(); ++b) {
      const auto it = inc.getOptimizationProblem(batches[b].p);
      c.eq(it - inc.getOptimizationProblemBegin(), std::find(in.begin(), in.end(), (int)b) - in.begin(), what + ": batch by pointer");
    }
  };
  for (int n = c.integer(1, 16); n > 0; --n) {
    ++steps;
    switch (c.integer(0, 11)) {
      case 0: case 1: case 2: case 3: {
        const int b = c.integer(0, (int)batches.size() - 1);
        log << " add" << b;
        bool ok = true;
        for (auto& e : batches[b].group) ok = ok && (!count.count(e.first) || count[e.first].second == e.second);
        for (auto* t : batches[b].terms)
          for (int k : in) ok = ok && !std::count(batches[k].terms.begin(), batches[k].terms.end(), t);
        if (!ok) {
          ++refused;
          c.check(throws([&] { inc.add(batches[b].p); }), "a batch that repeats a term or regroups a variable is refused:" + log.str());
          break;
        }
        inc.add(batches[b].p);
        in.push_back(b);
        for (auto* d : batches[b].g.all()) {
          const size_t id = batches[b].group[d];
          if (!g.in.count(id)) g.order.push_back(id);
          if (!count.count(d)) g.in[id].push_back(d);
          count[d].first++;
          count[d].second = id;
        }
        break;
      }
      case 4: case 5: case 6: {
        if (in.empty()) {
          c.check(throws([&] { inc.remove((size_t)c.integer(0, 2)); }), "removing from nothing is refused");
          break;
        }
        const int i = c.integer(0, (int)in.size() - 1);
        const int b = in[i];
        log << " remove" << i;
        int at = i;
        switch (c.integer(0, 2)) {
          case 0: inc.remove((size_t)i); break;
          case 1: inc.remove(inc.getOptimizationProblemBegin() + i); break;
          default:
            at = std::find(in.begin(), in.end(), b) - in.begin();
            inc.remove(batches[b].p);
        }
        in.erase(in.begin() + at);
        for (auto* d : batches[b].g.all())
          if (--count[d].first == 0) {
            const size_t id = count[d].second;
            count.erase(d);
            auto& l = g.in[id];
            l.erase(std::find(l.begin(), l.end(), d));
            if (l.empty()) {
              g.in.erase(id);
              g.order.erase(std::find(g.order.begin(), g.order.end(), id));
            }
            saved.erase(d);
          }
        break;
      }
      case 7: log << " order"; ordering(c, inc, g, "problem"); break;
      case 8: log << " permute"; permuteGroup(c, inc, g, "problem"); break;
      case 9:
        log << " permuteBatches";
        if (c.oneIn(3)) {
          const auto bad = notPermutation(c, in.size());
          c.check(throws([&] { inc.permuteOptimizationProblems(bad); }), "a permutation of the batches that is none is refused");
        } else {
          const auto q = permutation(c, in.size());
          inc.permuteOptimizationProblems(q);
          in = permuted(in, q);
        }
        break;
      case 10:
        if (c.oneIn(4)) {
          log << " clear";
          inc.clear();
          g = Groups();
          count.clear();
          in.clear();
          saved.clear();
        } else if (c.boolean()) {
          log << " save";
          inc.saveDesignVariables();
          for (auto* d : g.all()) saved[d] = parameters(d);
        } else {
          log << " restore";
          for (auto& v : vars)
            if (c.boolean()) {
              const VectorXd dx = vec(c, v->minimalDimensions(), 1);
              v->update(dx.data(), dx.size());
            }
          std::map<DesignVariable*, MatrixXd> want;
          for (auto& v : vars) want[v.get()] = parameters(v.get());
          for (auto& e : saved) want[e.first] = e.second;
          inc.restoreDesignVariables();
          for (auto& v : vars) c.nearMat(parameters(v.get()), want[v.get()], 0, 0, "restored variables:" + log.str());
        }
        break;
      default: {
        boost::shared_ptr<ac::OptimizationProblem> other = boost::make_shared<ac::OptimizationProblem>();
        c.check(throws([&] { inc.remove(other); }) && throws([&] { inc.remove(in.size() + c.integer(0, 2)); }) &&
                throws([&] { inc.add(boost::shared_ptr<ac::OptimizationProblem>()); }), "removing what is not in and adding null are refused");
        const Var v = c.pick(vars);
        v->setActive(!v->isActive());
      }
    }
    compare("problem after" + log.str());
  }
  c << batches.size() << " batches," << log.str();
  c.nontrivial(steps > 2 && in.size() > 0 && g.order.size() > 1);
}

// An incremental problem has the optimum of the union of its batches
PBT_CLAIM(optimum, 300) {
  std::vector<Var> vars;
  Dvs raw;
  int n = 0;
  for (int k = c.integer(1, 5); k > 0; --k) {
    vars.push_back(calibrationVariable(c));
    raw.push_back(vars.back().get());
    vars.back()->setActive(true);
    n += vars.back()->minimalDimensions();
  }
  auto inc = boost::make_shared<ac::IncrementalOptimizationProblem>();
  std::vector<boost::shared_ptr<Term<aslam::backend::ErrorTermDs> > > terms;
  std::vector<boost::shared_ptr<ac::OptimizationProblem> > batches;
  const int nb = c.integer(1, 4);
  for (int b = 0; b < nb; ++b) {
    auto p = boost::make_shared<ac::OptimizationProblem>();
    List in;
    for (size_t i = 0; i < vars.size(); ++i)
      if (b == 0 || c.boolean()) {
        p->addDesignVariable(vars[i], i % 3);
        in.push_back(vars[i].get());
      }
    for (int k = b == 0 ? 1 : c.integer(0, 3); k > 0; --k) {
      List l;
      int m = 0;
      for (auto* d : in)
        if (k == 1 || c.boolean()) l.push_back(d), m += d->minimalDimensions();
      if (l.empty()) continue;
      const int rows = b == 0 ? m : c.integer(1, 3);
      auto t = boost::make_shared<Term<aslam::backend::ErrorTermDs> >(rows);
      fill(c, *t, l, rows, 0, false);
      if (b == 0) t->M = spd(c, m, 0.3, 3);  // determines every variable
      p->addErrorTerm(t);
      terms.push_back(t);
    }
    if (b && c.oneIn(4)) {
      inc->add(p);
      inc->remove(c.boolean() ? inc->getNumOptimizationProblems() - 1 : inc->getNumOptimizationProblems() - 1);
      while (!terms.empty() && p->isErrorTermInProblem(terms.back().get())) terms.pop_back();
    } else
      inc->add(p);
    batches.push_back(p);
  }
  if (c.boolean()) inc->setGroupsOrdering(permuted(inc->getGroupsOrdering(), permutation(c, inc->getNumGroups())));
  // normal equations of the terms that are in
  std::map<DesignVariable*, int> at;
  int o = 0;
  for (auto* d : raw) at[d] = o, o += d->minimalDimensions();
  MatrixXd H = MatrixXd::Zero(n, n);
  VectorXd r = VectorXd::Zero(n);
  for (auto& t : terms) {
    MatrixXd J = MatrixXd::Zero(t->b.size(), n);
    int k = 0;
    for (auto* d : t->vars) {
      J.middleCols(at[d], d->minimalDimensions()) += t->M.middleCols(k, d->minimalDimensions());
      k += d->minimalDimensions();
    }
    H += J.transpose() * t->info * J;
    r += J.transpose() * t->info * t->b;
  }
  const VectorXd want = H.ldlt().solve(r);
  aslam::backend::Optimizer2Options options;
  options.verbose = false;
  options.maxIterations = 5;
  options.nThreads = 1;
  options.trustRegionPolicy.reset(new aslam::backend::GaussNewtonTrustRegionPolicy());
  aslam::backend::Optimizer2 optimizer(options);
  optimizer.setProblem(inc);
  optimizer.optimize();
  VectorXd got(n);
  for (auto* d : raw) got.segment(at[d], d->minimalDimensions()) = value(d);
  const double cond = 1 / std::max(1e-12, H.ldlt().rcond());
  c.nearMat(got, want, 1e-12 * cond * (1 + want.norm()), 0, "optimum of the batches");
  c << n << " unknowns in " << nb << " batches, " << terms.size() << " terms";
  c.nontrivial(nb > 1 && terms.size() > 1);
}

PBT_CLAIM(permuting, 3000) {
  const size_t n = c.integer(0, 30);
  std::vector<double> v;
  for (size_t i = 0; i < n; ++i) v.push_back(c.real(-1, 1));
  const auto old = v;
  if (c.oneIn(3)) {
    const auto bad = notPermutation(c, n);
    c.check(throws([&] { ac::permute(v, bad); }), "a permutation that is none is refused");
    c.check(v == old, "a refused permutation leaves the container as it was");
  } else {
    const auto q = permutation(c, n);
    ac::permute(v, q);
    c.check(v == permuted(old, q), "permuted container");
    std::vector<int> w(n), qi(q.begin(), q.end());
    for (size_t i = 0; i < n; ++i) w[i] = i;
    ac::permute(w, qi);
    c.check(w == qi, "permuted identity");
  }
  c.nontrivial(n > 3);
  c << n << " elements";
}

namespace {
// Integral of f from a to b with composite Gauss-Legendre points
template <class F> double integral(F f, double a, double b, int n = 400) {
  static const double x[] = {-0.9061798459386640, -0.5384693101056831, 0, 0.5384693101056831, 0.9061798459386640};
  static const double w[] = {0.2369268850561891, 0.4786286704993665, 0.5688888888888889, 0.4786286704993665, 0.2369268850561891};
  double s = 0;
  const double h = (b - a) / n;
  for (int i = 0; i < n; ++i)
    for (int k = 0; k < 5; ++k) s += 0.5 * h * w[k] * f(a + h * (i + 0.5 + 0.5 * x[k]));
  return s;
}
template <int M> void normalMv(pbt::Case& c, int n) {
  typedef ac::NormalDistribution<M> D;
  typedef typename D::Covariance Cov;
  typedef typename D::RandomVariable V;
  const V mean = vec(c, n, 3);
  const Cov S = spd(c, n, 0.2, 5);
  D d = c.boolean() ? D(mean, S) : D(std::make_tuple(typename D::Mean(mean), S));
  if (c.oneIn(3)) {
    D other(V(vec(c, n, 1)), Cov(spd(c, n, 0.5, 2)));
    other.setMean(mean);
    other.setCovariance(S);
    if (c.boolean()) d = other;
  }
  const Eigen::PartialPivLU<MatrixXd> lu{MatrixXd(S)};
  auto verify = [&](const std::string& what) {
    const V x = V(mean + vec(c, n, 3));
    const VectorXd e = x - mean;
    const double m = e.dot(lu.solve(e));
    c.near(d.mahalanobisDistance(x), m, 1e-10, 1e-9, what + "squared Mahalanobis distance");
    const double lp = -0.5 * (m + n * std::log(2 * M_PI) + std::log(lu.determinant()));
    c.near(d.logpdf(x), lp, 1e-9, 1e-9, what + "log density");
    c.near(d.pdf(x), std::exp(lp), 0, 1e-8, what + "density");
    c.near(d(x), std::exp(lp), 0, 1e-8, what + "value");
    c.nearMat(d.getPrecision() * S, MatrixXd::Identity(n, n), 1e-9, 0, what + "precision");
    c.near(d.getDeterminant(), lu.determinant(), 0, 1e-9, what + "determinant");
    c.nearMat(d.getCovariance(), S, 0, 0, what + "covariance");
    c.nearMat(d.getMean(), mean, 0, 0, what + "mean");
    c.nearMat(d.getMode(), mean, 0, 0, what + "mode");
    const MatrixXd L = d.getTransformation().matrixL();
    c.nearMat(L * L.transpose(), S, 1e-9, 1e-9, what + "sampling transformation");
  };
  verify("");
  // Kullback-Leibler divergence by its definition through traces
  const V m2 = vec(c, n, 2);
  const Cov S2 = spd(c, n, 0.3, 4);
  const Eigen::PartialPivLU<MatrixXd> lu2{MatrixXd(S2)};
  const VectorXd dm = m2 - mean;
  const double kl = 0.5 * (lu2.solve(MatrixXd(S)).trace() + dm.dot(lu2.solve(dm)) - n + std::log(lu2.determinant() / lu.determinant()));
  c.near(d.KLDivergence(D(m2, S2)), kl, 1e-9, 1e-9, "Kullback-Leibler divergence");
  // refusals leave the distribution as it was
  Cov bad = S;
  switch (c.integer(0, n > 1 ? 3 : 1)) {
    case 0: bad = -S; break;
    case 1: bad.row(n - 1).setZero(), bad.col(n - 1).setZero(); break;
    case 2: bad(0, 1) += 0.1; break;
    default: bad(n - 1, n - 1) = -bad(n - 1, n - 1);
  }
  c.check(throws([&] { d.setCovariance(bad); }), "a covariance that is not symmetric positive definite is refused");
  verify("after a refused covariance: ");
  c.check(throws([&] { D(mean, bad); }), "construction with a bad covariance is refused");
}
}  // namespace

PBT_CLAIM(normal, 2000) {
  if (c.boolean()) {
    const int n = c.integer(1, 4);
    c << n << " dimensions";
    switch (n) {
      case 1: normalMv<2>(c, 2); break;
      case 2: normalMv<2>(c, 2); break;
      case 3: normalMv<3>(c, 3); break;
      default: normalMv<4>(c, 4);
    }
    c.nontrivial();
    return;
  }
  const double m = c.real(-5, 5), v = c.logReal(0.01, 100);
  ac::NormalDistribution<1> d(m, v);
  if (c.oneIn(3)) {
    ac::NormalDistribution<1> e(std::make_tuple(0., 1.));
    e.setMean(m);
    e.setVariance(v);
    d = e;
  }
  auto verify = [&] {
    const boost::math::normal ref(m, std::sqrt(v));
    const double x = m + std::sqrt(v) * c.real(-5, 5);
    c.near(d.pdf(x), boost::math::pdf(ref, x), 0, 1e-9, "density");
    c.near(d(x), boost::math::pdf(ref, x), 0, 1e-9, "value");
    c.near(d.logpdf(x), std::log(boost::math::pdf(ref, x)), 1e-9, 1e-9, "log density");
    c.near(d.cdf(x), boost::math::cdf(ref, x), 1e-12, 1e-9, "cumulative");
    c.near(d.mahalanobisDistance(x), (x - m) * (x - m) / v, 1e-12, 1e-9, "squared Mahalanobis distance");
    c.near(d.getStandardDeviation(), std::sqrt(v), 0, 1e-12, "standard deviation");
    c.near(d.getPrecision(), 1 / v, 0, 1e-12, "precision");
    c.check(d.getVariance() == v && d.getMean() == m && d.getMedian() == m && d.getMode() == m, "parameters");
  };
  verify();
  const double m2 = c.real(-5, 5), v2 = c.logReal(0.01, 100);
  c.near(d.KLDivergence(ac::NormalDistribution<1>(m2, v2)), 0.5 * (std::log(v2 / v) + (v + (m - m2) * (m - m2)) / v2 - 1), 1e-9, 1e-9,
         "Kullback-Leibler divergence");
  c.check(throws([&] { d.setVariance(c.boolean() ? 0 : -v); }), "a variance that is not positive is refused");
  verify();
  c << "N(" << m << ", " << v << ")";
  c.nontrivial();
}

PBT_CLAIM(gamma, 2000) {
  const double k = c.logReal(0.05, 50), rate = c.logReal(0.05, 20);
  ac::GammaDistribution<> d(k, rate);
  if (c.oneIn(3)) {
    ac::GammaDistribution<> e;
    if (c.boolean()) e.setShape(k), e.setInvScale(rate);
    else e.setInvScale(rate), e.setShape(k);
    d = e;
  }
  auto verify = [&](ac::GammaDistribution<>& d, double k, double rate) {
    const boost::math::gamma_distribution<> ref(k, 1 / rate);
    const double p = c.real(0.001, 0.999), x = boost::math::quantile(ref, p);
    c.near(d.invcdf(p), x, 0, 1e-9, "quantile");
    if (x > 1e-200) {
      c.near(d.cdf(x), p, 1e-9, 1e-9, "cumulative");
      c.near(d.pdf(x), boost::math::pdf(ref, x), 0, 1e-8, "density");
      c.near(d(x), boost::math::pdf(ref, x), 0, 1e-8, "value");
      c.near(d.logpdf(x), std::log(boost::math::pdf(ref, x)), 1e-8, 1e-8, "log density");
    }
    c.near(d.pdf(-x), 0, 0, 0, "density of a negative value");
    c.near(d.cdf(-x), 0, 0, 0, "cumulative of a negative value");
    c.near(d.getMean(), k / rate, 0, 1e-12, "mean");
    c.near(d.getVariance(), k / rate / rate, 0, 1e-12, "variance");
    if (k >= 1) c.near(d.getMode(), (k - 1) / rate, 1e-15, 1e-12, "mode");
    else c.check(throws([&] { d.getMode(); }), "mode of a shape below one is refused");
    c.near(d.getShape(), k, 0, 1e-15, "shape");
    c.near(d.getInvScale(), rate, 0, 0, "inverse scale");
    c.check(throws([&] { d.invcdf(c.boolean() ? -1e-3 : 1.001); }), "a probability outside [0, 1] is refused");
  };
  verify(d, k, rate);
  c.check(throws([&] { d.setShape(c.boolean() ? 0 : -1); }) && throws([&] { d.setInvScale(c.boolean() ? 0 : -1); }), "parameters that are not positive are refused");
  verify(d, k, rate);
  // divergence against the integral of p log(p/q)
  const double k1 = c.real(1, 20), k2 = c.real(1, 20), r2 = rate * c.logReal(0.5, 2);
  const ac::GammaDistribution<> p(k1, rate), q(k2, r2);
  const boost::math::gamma_distribution<> a(k1, 1 / rate), b(k2, 1 / r2);
  const double end = boost::math::quantile(boost::math::complement(a, 1e-16));
  const double kl = integral([&](double t) {
    const double x = end * t * t * t;
    return 3 * end * t * t * boost::math::pdf(a, x) * ((k1 - k2) * std::log(x) - x * (rate - r2) + k1 * std::log(rate) - k2 * std::log(r2) + boost::math::lgamma(k2) - boost::math::lgamma(k1));
  }, 0, 1);
  c.near(p.KLDivergence(q), kl, 1e-4, 1e-4, "Kullback-Leibler divergence");
  c.near(p.KLDivergence(p), 0, 1e-9, 0, "divergence from itself");
  // chi square
  const double deg = c.logReal(0.2, 40);
  ac::ChiSquareDistribution chi(deg);
  if (c.oneIn(3)) chi = ac::ChiSquareDistribution(3), chi.setDegrees(deg);
  c.near(chi.getDegrees(), deg, 0, 1e-12, "degrees of freedom");
  verify(chi, 0.5 * deg, 0.5);
  const boost::math::chi_squared ref(deg);
  const double x = c.logReal(0.01, 100);
  c.near(chi.pdf(x), boost::math::pdf(ref, x), 1e-300, 1e-8, "chi square density");
  c.near(chi.cdf(x), boost::math::cdf(ref, x), 1e-12, 1e-8, "chi square cumulative");
  if (deg >= 2) c.near(chi.getMedian(), boost::math::quantile(ref, 0.5), 0.02, 0.02, "chi square median");
  c << "shape " << k << " rate " << rate << ", " << deg << " degrees";
  c.nontrivial();
}

namespace {
template <int M, class X> void uniformMv(pbt::Case& c) {
  typedef ac::UniformDistribution<X, M> D;
  typedef Eigen::Matrix<X, M, 1> V;
  const bool whole = std::numeric_limits<X>::is_integer;
  V lo, hi;
  double area = 1;
  VectorXd var(M), mid(M);
  for (int i = 0; i < M; ++i) {
    lo(i) = whole ? (X)c.integer(-20, 20) : (X)c.real(-20, 20);
    hi(i) = lo(i) + (whole ? (X)c.integer(1, 20) : (X)c.logReal(0.01, 20));
    const double w = (double)hi(i) - (double)lo(i) + whole;
    area *= w;
    var(i) = whole ? (w * w - 1) / 12 : w * w / 12;
    mid(i) = 0.5 * ((double)lo(i) + (double)hi(i));
  }
  D d(lo, hi);
  if (c.oneIn(3)) {
    D e;
    e.setSupport(lo, hi);
    d = e;
  }
  auto verify = [&] {
    c.near((double)d.getSupportArea(), area, 0, 1e-6, "area of the support");
    c.nearMat(d.getMean(), mid, 1e-6, 1e-6, "mean");
    c.nearMat(d.getMedian(), mid, 1e-6, 1e-6, "median");
    c.nearMat(d.getCovariance(), MatrixXd(var.asDiagonal()), 1e-9, 1e-5, "covariance");
    V x;
    bool in = true;
    for (int i = 0; i < M; ++i) {
      switch (c.integer(0, 6)) {
        case 0: x(i) = lo(i); break;
        case 1: x(i) = hi(i); break;
        case 2: x(i) = lo(i) - (whole ? 1 : (X)c.logReal(1e-3, 1)); break;
        case 3: x(i) = hi(i) + (whole ? 1 : (X)c.logReal(1e-3, 1)); break;
        default: x(i) = whole ? (X)c.integer((int)lo(i), (int)hi(i)) : std::min(hi(i), (X)(lo(i) + (X)(c.real(0, 1) * (hi(i) - lo(i)))));
      }
      in = in && x(i) >= lo(i) && x(i) <= hi(i);
    }
    c.near(d(x), in ? 1 / area : 0, 0, 1e-5, "density");
    for (int i = 0; i < 5; ++i) {
      const V s = d.getSample();
      c.check((s.array() >= lo.array()).all() && (s.array() <= hi.array()).all(), "samples lie in the support");
    }
  };
  verify();
  V bad = hi;
  bad(c.integer(0, M - 1)) = lo(c.integer(0, M - 1));
  if ((bad.array() <= lo.array()).any()) {
    c.check(throws([&] { d.setMaxSupport(bad); }), "an empty support is refused");
    verify();
  }
  c.check(throws([&] { d.getMode(); }), "no mode");
}
template <class X> void uniform1(pbt::Case& c) {
  const bool whole = std::numeric_limits<X>::is_integer;
  const X lo = whole ? (X)c.integer(0, 20) : (X)c.real(-20, 20);
  const X hi = lo + (whole ? (X)c.integer(1, 20) : (X)c.logReal(0.01, 20));
  ac::UniformDistribution<X> d(lo, hi);
  if (c.oneIn(3)) {
    ac::UniformDistribution<X> e(lo, hi + 1);
    e.setMaxSupport(hi);
    d = e;
  }
  const double w = (double)hi - (double)lo + whole;
  auto verify = [&] {
    c.near((double)d.getSupportArea(), w, 0, 1e-5, "width of the support");
    c.near(d.getMean(), 0.5 * ((double)lo + (double)hi), 1e-5, 1e-5, "mean");
    c.near(d.getMedian(), 0.5 * ((double)lo + (double)hi), 1e-5, 1e-5, "median");
    c.near(d.getVariance(), whole ? (w * w - 1) / 12 : w * w / 12, 0, 1e-5, "variance");
    c.check(d.getMinSupport() == lo && d.getMaxSupport() == hi, "support");
    c.near(d(lo), 1 / w, 0, 1e-5, "density at the lower end");
    c.near(d(hi), 1 / w, 0, 1e-5, "density at the upper end");
    c.near(d((X)(hi + 1)), 0, 0, 0, "density above");
    if (lo >= 1 || !whole) c.near(d((X)(lo - 1)), 0, 0, 0, "density below");
    std::vector<X> s;
    d.getSamples(s, 5);
    c.eq(s.size(), (size_t)5, "number of samples");
    for (X x : s) c.check(x >= lo && x <= hi, "samples lie in the support");
  };
  verify();
  c.check(throws([&] { d.setMinSupport(c.boolean() ? hi : (X)(hi + 1)); }) && throws([&] { d.setMaxSupport(lo); }) && throws([&] { d.getMode(); }), "an empty support is refused");
  verify();
}
}  // namespace

PBT_CLAIM(uniform, 2000) {
  const int how = c.integer(0, 7);
  switch (how) {
    case 0: uniform1<double>(c); break;
    case 1: uniform1<int>(c); break;
    case 2: uniform1<size_t>(c); break;
    case 3: uniform1<float>(c); break;
    case 4: uniformMv<2, double>(c); break;
    case 5: uniformMv<3, int>(c); break;
    case 6: uniformMv<1 + 3, double>(c); break;
    default: uniformMv<2, int>(c);
  }
  c << "kind " << how;
  c.nontrivial();
}

namespace {
// Largest distance of the empirical from the true cumulative distribution.
// By the Dvoretzky-Kiefer-Wolfowitz inequality it exceeds the bound for a
// correct sampler with a probability below 1e-12.
template <class F> void follows(pbt::Case& c, std::vector<double> s, bool discrete, F cdf, const std::string& what) {
  std::sort(s.begin(), s.end());
  const double bound = std::sqrt(std::log(2e12) / (2 * s.size())) + 1e-6;
  double worst = 0, at = 0;
  for (size_t i = 0; i < s.size();) {
    size_t j = i;
    while (j < s.size() && s[j] == s[i]) ++j;
    const double f = cdf(s[i]), before = discrete ? cdf(s[i] - 1) : f;
    const double e = std::max(std::fabs(j / (double)s.size() - f), std::fabs(i / (double)s.size() - before));
    if (e > worst) worst = e, at = s[i];
    i = j;
  }
  if (!(worst <= bound)) {
    std::ostringstream o;
    o << what << ": the distribution of " << s.size() << " samples is off by " << worst << " (bound " << bound << ") at " << at;
    c.fail(o.str());
  }
}
template <class T> void integers(pbt::Case& c, int n) {
  ac::Randomizer<T> r(1);
  std::vector<double> s;
  if (c.boolean()) {
    const int lo = c.integer(0, 5), hi = lo + c.integer(1, 6);
    for (int i = 0; i < n; ++i) s.push_back((double)r.sampleUniform(lo, hi));
    c << " uniform integers " << lo << " to " << hi;
    follows(c, s, true, [&](double x) { return x < lo ? 0 : x >= hi ? 1 : (x - lo + 1) / (hi - lo + 1); }, "uniform integers");
  } else {
    const int m = c.integer(20, 40), v = c.integer(1, 9);
    for (int i = 0; i < n; ++i) s.push_back((double)r.sampleNormal(m, v));
    c << " rounded normal " << m << " " << v;
    const boost::math::normal ref(m, std::sqrt((double)v));
    follows(c, s, true, [&](double x) { return boost::math::cdf(ref, x + 0.5); }, "rounded normal");
  }
}
}  // namespace

PBT_CLAIM(sampling, 120) {
  ac::Randomizer<> r(1);
  r.setSeed(c.integer(0, 1 << 30));
  srandom(c.integer(0, 1 << 30));
  const int n = 4000;
  std::vector<double> s;
  const int how = c.integer(0, 11);
  switch (how) {
    case 0: {
      const double lo = c.real(-5, 5), hi = lo + c.logReal(0.1, 10);
      for (int i = 0; i < n; ++i) s.push_back(r.sampleUniform(lo, hi));
      follows(c, s, false, [&](double x) { return (x - lo) / (hi - lo); }, "uniform");
      break;
    }
    case 1: {
      const double m = c.real(-5, 5), v = c.logReal(0.01, 100);
      const boost::math::normal ref(m, std::sqrt(v));
      const ac::NormalDistribution<1> d(m, v);
      if (c.boolean()) d.getSamples(s, n);
      else for (int i = 0; i < n; ++i) s.push_back(r.sampleNormal(m, v));
      follows(c, s, false, [&](double x) { return boost::math::cdf(ref, x); }, "normal");
      break;
    }
    case 2: {
      VectorXd p(c.integer(2, 5));
      for (int i = 0; i < p.size(); ++i) p(i) = c.oneIn(4) ? 0 : c.real(0.01, 1);
      p(c.integer(0, (int)p.size() - 1)) += 0.1;
      p /= p.sum();
      ac::Randomizer<double, Eigen::Dynamic> rm(1);
      srandom(c.integer(0, 1 << 30));
      for (int i = 0; i < n; ++i) s.push_back(rm.sampleCategorical(p));
      follows(c, s, true, [&](double x) { return x < 0 ? 0. : p.head((int)std::min((double)p.size(), x + 1)).sum(); }, "categorical");
      c.check(throws([&] { rm.sampleCategorical(VectorXd(0.9 * p)); }), "probabilities that do not sum to one are refused");
      break;
    }
    case 3: {
      const double m = c.logReal(0.1, 30);
      for (int i = 0; i < n; ++i) s.push_back(r.samplePoisson(m));
      follows(c, s, true, [&](double x) { return x < 0 ? 0. : boost::math::gamma_q(x + 1, m); }, "Poisson");
      break;
    }
    case 4: {
      const double rate = c.logReal(0.05, 20);
      for (int i = 0; i < n; ++i) s.push_back(r.sampleExponential(rate));
      follows(c, s, false, [&](double x) { return 1 - std::exp(-rate * x); }, "exponential");
      break;
    }
    case 5: {
      const double p = c.real(0.02, 1);
      for (int i = 0; i < n; ++i) s.push_back(r.sampleGeometric(p));
      follows(c, s, true, [&](double x) { return x < 0 ? 0. : 1 - std::pow(1 - p, x + 1); }, "geometric");
      break;
    }
    case 6: case 7: {
      const double k = c.oneIn(3) ? c.integer(1, 8) : c.logReal(0.1, 10), rate = c.logReal(0.05, 20);
      const boost::math::gamma_distribution<> ref(k, 1 / rate);
      if (c.boolean()) ac::GammaDistribution<>(k, rate).getSamples(s, n);
      else for (int i = 0; i < n; ++i) s.push_back(r.sampleGamma(k, rate));
      follows(c, s, false, [&](double x) { return x <= 0 ? 0. : boost::math::cdf(ref, x); }, "gamma");
      break;
    }
    case 8: {
      const Vector3d m = vec(c, 3, 3);
      const Matrix3d S = spd(c, 3, 0.1, 10);
      const ac::NormalDistribution<3> d(m, S);
      const Vector3d w = unit3(c);
      for (int i = 0; i < n; ++i) s.push_back(w.dot(d.getSample()));
      const boost::math::normal ref(w.dot(m), std::sqrt(w.dot(S * w)));
      follows(c, s, false, [&](double x) { return boost::math::cdf(ref, x); }, "multivariate normal along a direction");
      break;
    }
    case 9: integers<int>(c, n); break;
    case 10: integers<size_t>(c, n); break;
    default: {
      const Eigen::Vector2i lo(c.integer(-5, 5), c.integer(-5, 5)), hi = lo + Eigen::Vector2i(c.integer(1, 5), c.integer(1, 5));
      const ac::UniformDistribution<int, 2> d(lo, hi);
      for (int i = 0; i < n; ++i) {
        const Eigen::Vector2i v = d.getSample();
        s.push_back((v(0) - lo(0)) * (hi(1) - lo(1) + 1) + v(1) - lo(1));
      }
      const int cells = (hi - lo + Eigen::Vector2i(1, 1)).prod();
      follows(c, s, true, [&](double x) { return std::min(1., std::max(0., (x + 1) / cells)); }, "uniform cells");
    }
  }
  c.check(throws([&] { r.sampleNormal(0, -1); }) && throws([&] { r.sampleUniform(1, 1); }) && throws([&] { r.samplePoisson(0); }) &&
          throws([&] { r.sampleExponential(-1); }) && throws([&] { r.sampleGeometric(c.boolean() ? 0 : 1.1); }) &&
          throws([&] { r.sampleGamma(-1, 1); }) && throws([&] { r.sampleGamma(1, 0); }), "parameters outside their range are refused");
  c << " sampler " << how;
  c.nontrivial();
}

PBT_CLAIM(functions, 3000) {
  const size_t n = c.integer(0, 120);
  ac::LogFactorialFunction lf;
  c.near(lf(n), boost::math::lgamma(n + 1.0), 1e-9, 1e-11, "log of the factorial");
  const double x = c.logReal(0.01, 100);
  const int dim = c.integer(1, 4);
  const double y = x + 0.5 * (dim - 1);
  double ref = dim * (dim - 1) * 0.25 * std::log(M_PI);
  for (int i = 0; i < dim; ++i) ref += boost::math::lgamma(y - 0.5 * i);
  ac::LogGammaFunction<double> lg(dim);
  if (c.boolean()) lg = ac::LogGammaFunction<double>(1), lg.setDim(dim);
  c.near(lg(y), ref, 1e-9, 1e-9, "log of the multivariate gamma function");
  ac::LogGammaFunction<size_t> li;
  if (n) c.near(li(n), boost::math::lgamma((double)n), 1e-9, 1e-11, "log of the gamma function of an integer");
  ac::DigammaFunction<double> dg;
  c.near(dg(x), boost::math::digamma(x), 1e-9, 1e-11, "digamma");
  const double h = 1e-5 * std::max(x, 1e-3);
  if (x > 0.1) c.near(dg(x), (boost::math::lgamma(x + h) - boost::math::lgamma(x - h)) / (2 * h), 1e-5, 1e-5, "digamma as a derivative");
  const double a = c.logReal(0.05, 50), z = c.logReal(0.01, 100);
  ac::IncompleteGammaPFunction P(a);
  ac::IncompleteGammaQFunction Q(a);
  if (c.boolean()) P = ac::IncompleteGammaPFunction(1), P.setAlpha(a), Q = ac::IncompleteGammaQFunction(1), Q.setAlpha(a);
  c.near(P(z), boost::math::gamma_p(a, z), 1e-12, 1e-9, "lower incomplete gamma function");
  c.near(Q(z), boost::math::gamma_q(a, z), 1e-12, 1e-9, "upper incomplete gamma function");
  c.near(P(z) + Q(z), 1, 1e-12, 0, "the incomplete gamma functions sum to one");
  c.check(P.getAlpha() == a && Q.getAlpha() == a && lg.getDim() == (size_t)dim, "parameters");
  c << n << " " << x << " " << dim << " " << a << " " << z;
  c.nontrivial(n > 1);
}

namespace {
template <int M> void estimateMv(pbt::Case& c) {
  typedef Eigen::Matrix<double, M, 1> V;
  typedef ac::EstimatorML<ac::NormalDistribution<M> > E;
  const V m = vec(c, M, 10);
  const MatrixXd A = spd(c, M, 0.5, 3);
  std::vector<V> pts;
  for (int k = c.integer(0, 30); k > 0; --k) pts.push_back(V(m + A * vec(c, M, 1)));
  E e;
  if (c.oneIn(3)) {
    e.addPoint(V(vec(c, M, 5)));
    e.addPoint(V(vec(c, M, 5)));
    e.reset();
    c.check(!e.getValid() && e.getNumPoints() == 0, "reset estimator");
  }
  auto reference = [&](const VectorXd& w, V& mean, MatrixXd& S) {
    mean.setZero();
    for (size_t i = 0; i < pts.size(); ++i) mean += w(i) * pts[i];
    mean /= w.sum();
    S = MatrixXd::Zero(M, M);
    for (size_t i = 0; i < pts.size(); ++i) S += w(i) * (pts[i] - mean) * (pts[i] - mean).transpose();
    S /= w.sum();
  };
  if (c.boolean()) e.addPoints(pts);
  else for (auto& p : pts) e.addPoint(p);
  c.eq(e.getNumPoints(), pts.size(), "number of points");
  if (pts.size() < 2) c.check(!e.getValid(), "an estimate from fewer than two points is not valid");
  V mean;
  MatrixXd S;
  reference(VectorXd::Ones(pts.size()), mean, S);
  const bool good = pts.size() > M && Eigen::SelfAdjointEigenSolver<MatrixXd>(S).eigenvalues()(0) > 1e-6;
  if (good) {
    c.check(e.getValid(), "estimate is valid");
    c.nearMat(e.getDistribution().getMean(), mean, 1e-9, 1e-9, "estimated mean");
    c.nearMat(e.getDistribution().getCovariance(), S, 1e-9, 1e-9, "estimated covariance");
  }
  if (good) {
    VectorXd w(pts.size());
    for (int i = 0; i < w.size(); ++i) w(i) = c.real(0.1, 1);
    E f;
    f.addPoints(pts.begin(), pts.end(), w);
    reference(w, mean, S);
    c.check(f.getValid(), "weighted estimate is valid");
    c.nearMat(f.getDistribution().getMean(), mean, 1e-9, 1e-9, "weighted mean");
    c.nearMat(f.getDistribution().getCovariance(), S, 1e-9, 1e-9, "weighted covariance");
  }
  c << pts.size() << " points of dimension " << M;
  c.nontrivial(good);
}
}  // namespace

PBT_CLAIM(estimators, 2000) {
  switch (c.integer(0, 3)) {
    case 0: estimateMv<2>(c); return;
    case 1: estimateMv<3>(c); return;
    default: break;
  }
  ac::EstimatorML<ac::NormalDistribution<1> > e;
  std::vector<double> pts;
  const double m = c.real(-10, 10), sd = c.logReal(0.1, 10);
  for (int k = c.integer(0, 30); k > 0; --k) pts.push_back(m + sd * c.real(-2, 2));
  if (c.oneIn(3)) {
    e.addPoint(c.real(-5, 5));
    e.addPoint(c.real(-5, 5));
    e.reset();
    c.check(!e.getValid() && e.getNumPoints() == 0, "reset estimator");
  }
  if (c.boolean()) e.addPoints(pts);
  else for (double p : pts) e.addPoint(p);
  c.eq(e.getNumPoints(), pts.size(), "number of points");
  VectorXd w = VectorXd::Ones(pts.size());
  auto reference = [&](double& mean, double& var) {
    mean = var = 0;
    for (size_t i = 0; i < pts.size(); ++i) mean += w(i) * pts[i];
    mean /= w.sum();
    for (size_t i = 0; i < pts.size(); ++i) var += w(i) * (pts[i] - mean) * (pts[i] - mean);
    var /= w.sum();
  };
  double mean, var;
  reference(mean, var);
  if (pts.size() < 2) c.check(!e.getValid(), "an estimate from fewer than two points is not valid");
  const bool good = pts.size() > 1 && var > 1e-6;
  if (good) {
    c.check(e.getValid(), "estimate is valid");
    c.near(e.getDistribution().getMean(), mean, 1e-10, 1e-10, "estimated mean");
    c.near(e.getDistribution().getVariance(), var, 1e-10, 1e-10, "estimated variance");
    for (int i = 0; i < w.size(); ++i) w(i) = c.real(0.1, 1);
    reference(mean, var);
    ac::EstimatorML<ac::NormalDistribution<1> > f;
    f.addPoints(pts.begin(), pts.end(), w);
    c.check(f.getValid(), "weighted estimate is valid");
    c.near(f.getDistribution().getMean(), mean, 1e-10, 1e-10, "weighted mean");
    c.near(f.getDistribution().getVariance(), var, 1e-10, 1e-10, "weighted variance");
  }
  c << pts.size() << " points";
  c.nontrivial(good);
}

namespace {
// Cells per dimension, and the cell of a coordinate
template <class T> int cellCount(T lo, T hi, T res) {
  if (std::numeric_limits<T>::is_integer) return (int)((hi - lo) / res) + 1;
  return (int)std::ceil((hi - lo) / res);
}
// What differs between histograms of one and of more dimensions
template <class T, int M> struct Kind {
  typedef ac::Histogram<T, M> H;
  typedef typename H::Coordinate V;
  static H make(const V& a, const V& b, const V& r) { return H(a, b, r); }
  static void add(H& h, const V& x) { h.addSample(x); }
  static void addAll(H& h, const std::vector<V>& x) { h.addSamples(x); }
  static VectorXd mean(const H& h) { return h.getMean(); }
  static MatrixXd covariance(const H& h) { return h.getCovariance(); }
  static VectorXd mode(const H& h) { return h.getMode(); }
  static bool median(const H&, double&) { return false; }
};
template <class T> struct Kind<T, 1> {
  typedef ac::Histogram<T, 1> H;
  typedef typename H::Coordinate V;
  static H make(const V& a, const V& b, const V& r) { return H(a(0), b(0), r(0)); }
  static void add(H& h, const V& x) { h.addSample(x(0)); }
  static void addAll(H& h, const std::vector<V>& x) {
    std::vector<T> y;
    for (auto& v : x) y.push_back(v(0));
    h.addSamples(y);
  }
  static VectorXd mean(const H& h) { return VectorXd::Constant(1, h.getMean()); }
  static MatrixXd covariance(const H& h) { return MatrixXd::Constant(1, 1, h.getVariance()); }
  static VectorXd mode(const H& h) { return VectorXd::Constant(1, h.getMode()); }
  static bool median(const H& h, double& m) {
    m = h.getMedian();
    return true;
  }
};
template <class T, int M> void histogram(pbt::Case& c) {
  typedef Kind<T, M> K;
  typedef ac::Histogram<T, M> H;
  typedef typename H::Coordinate V;
  typedef typename H::Index I;
  const bool whole = std::numeric_limits<T>::is_integer;
  V lo, hi, res;
  Eigen::VectorXi n(M);
  int cells = 1;
  for (int i = 0; i < M; ++i) {
    lo(i) = whole ? (T)c.integer(-10, 10) : (T)c.anyReal(5);
    const int k = c.integer(1, 6);
    if (whole) {
      hi(i) = lo(i) + c.integer(1, 8);
      res(i) = c.integer(1, (int)(hi(i) - lo(i)));
    } else {
      hi(i) = lo(i) + (T)(c.boolean() ? c.pick({0.1, 0.3, 1., 3.}) * k : c.logReal(0.1, 10));
      res(i) = (hi(i) - lo(i)) / k;
      if (c.boolean()) res(i) = (hi(i) - lo(i)) / (T)c.real(1, 6);
      res(i) = std::min(res(i), (T)(hi(i) - lo(i)));
    }
    n(i) = cellCount<T>(lo(i), hi(i), res(i));
    cells *= n(i);
  }
  auto make = K::make;
  H h = make(lo, hi, res);
  c.nearMat(h.getNumCells().template cast<double>(), n.cast<double>(), 0, 0, "cells per dimension");
  c.eq(h.getNumCellsTot(), (size_t)cells, "number of cells");
  c.eq(h.getCells().size(), (size_t)cells, "number of stored cells");
  c.check(h.getMinimum() == lo && h.getMaximum() == hi && h.getResolution() == res, "limits");
  // every index once, each with its own cell
  {
    std::set<size_t> seen;
    int k = 0;
    I i = I::Zero();
    for (; i != h.getNumCells() && k <= cells; h.incrementIndex(i), ++k) {
      c.check(h.isValidIndex(i), "index is valid");
      const size_t l = h.computeLinearIndex(i);
      c.check(l < (size_t)cells && seen.insert(l).second, "every index has a cell of its own");
      {
        const V x = h.getCoordinates(i);
        for (int a = 0; a < M; ++a)
          c.near(x(a), whole ? (double)(T)(lo(a) + (i(a) + 0.5) * res(a)) : lo(a) + (i(a) + 0.5) * res(a), 1e-9, 1e-9, "centre of a cell");
        if (!whole && h.isInRange(x)) c.check(h.getIndex(x) == i, "the centre of a cell lies in it");
      }
    }
    c.eq(k, cells, "number of indices");
  }
  I bad = h.getNumCells() - I::Ones();
  const int axis = c.integer(0, M - 1);
  bad(axis) = c.boolean() ? n(axis) + c.integer(0, 2) : -c.integer(1, 2);
  c.check(!h.isValidIndex(bad) && throws([&] { h.getCell(bad); }) && throws([&] { h.getCoordinates(bad); }) && throws([&] { h[bad] = 1; }), "an index out of range is refused");
  // samples
  MatrixXd centres(M, cells);
  VectorXd count = VectorXd::Zero(cells);
  {
    I i = I::Zero();
    for (int k = 0; k < cells; ++k, h.incrementIndex(i)) centres.col(h.computeLinearIndex(i)) = h.getCoordinates(i).template cast<double>();
  }
  int added = 0;
  const int total = c.integer(0, 60);
  for (int k = 0; k < total; ++k) {
    V x;
    bool in = true;
    for (int a = 0; a < M; ++a) {
      switch (c.integer(0, 11)) {
        case 0: x(a) = lo(a); break;
        case 1: x(a) = hi(a); break;
        case 2: x(a) = whole ? hi(a) : std::nextafter(hi(a), lo(a)); break;
        case 3: x(a) = lo(a) - (whole ? 1 : (T)c.logReal(1e-9, 1)); break;
        case 4: x(a) = hi(a) + (whole ? 1 : (T)c.logReal(1e-9, 1)); break;
        default: x(a) = whole ? (T)c.integer((int)lo(a), (int)hi(a)) : (T)c.real(lo(a), hi(a));
      }
      in = in && x(a) >= lo(a) && x(a) <= hi(a);
    }
    c.eq(h.isInRange(x), in, "sample in range");
    if (in) {
      const I i = h.getIndex(x);
      for (int a = 0; a < M; ++a) {
        c.check(i(a) >= 0 && i(a) < n(a), "index of a sample in range");
        const double from = lo(a) + (double)i(a) * res(a);
        const double eps = whole ? 0 : 1e-9 * (1 + std::fabs(from) + std::fabs((double)hi(a)));
        c.check(x(a) >= from - eps && (i(a) == n(a) - 1 || x(a) < from + res(a) + eps), "the sample lies in its cell");
      }
      const double before = h(x);
      if (c.boolean()) K::add(h, x);
      else K::addAll(h, std::vector<V>(1, x));
      c.eq(h(x), before + 1, "the sample is counted in its cell");
      count(h.computeLinearIndex(i))++;
      ++added;
    } else {
      c.check(throws([&] { h.getIndex(x); }), "index of a sample out of range is refused");
      const auto old = h.getCells();
      K::add(h, x);
      c.check(h.getCells() == old, "a sample out of range is not counted");
    }
  }
  c.near(h.getSum(), added, 0, 0, "sum");
  for (int k = 0; k < cells; ++k) c.eq(h.getCells()[k], count(k), "counts");
  if (added > 0) {
    VectorXd mean = centres * count / added;
    c.nearMat(K::mean(h), mean, 1e-9, 1e-9, "mean");
    if (added > 1) {
      MatrixXd S = MatrixXd::Zero(M, M);
      for (int k = 0; k < cells; ++k) S += count(k) * (centres.col(k) - mean) * (centres.col(k) - mean).transpose();
      S /= added - 1;
      c.label("moments");
      c.nearMat(K::covariance(h), S, 1e-9, 1e-9, "variance");
    }
    const VectorXd mode = K::mode(h);
    double best = -1;
    for (int k = 0; k < cells; ++k)
      if ((centres.col(k) - mode).norm() < 1e-9 * (1 + mode.norm())) best = std::max(best, count(k));
    c.eq(best, count.maxCoeff(), "the mode is a fullest cell");
    double median;
    if (K::median(h, median)) {
      int k = 0;
      for (double sum = count(0); 2 * sum < added; sum += count(++k)) {}
      c.near(median, centres(0, k), 1e-9, 1e-9, "median");
    }
    const H nrm = h.getNormalized();
    c.near(nrm.getSum(), 1, 1e-9, 0, "sum of the normalized histogram");
    for (int k = 0; k < cells; ++k) c.near(nrm.getCells()[k] * added, count(k), 1e-9, 1e-9, "normalized counts");
  }
  H copy(h);
  copy.reset();
  c.near(copy.getSum(), 0, 0, 0, "reset");
  c.near(h.getSum(), added, 0, 0, "the original of a reset copy");
  V wrong = res;
  const int a = c.integer(0, M - 1);
  if (c.boolean()) wrong(a) = c.boolean() ? 0 : -res(a);
  else wrong(a) = (hi(a) - lo(a)) * 2;
  c.check(throws([&] { make(lo, hi, wrong); }) && throws([&] { make(hi, lo, res); }), "an empty range or a bad bin size is refused");
  c << M << " dimensions, " << cells << " cells, " << added << " of " << total << " samples";
  c.nontrivial(added > 3 && cells > 1);
}
}  // namespace

PBT_CLAIM(histograms, 2000) {
  switch (c.integer(0, 4)) {
    case 0: histogram<double, 2>(c); break;
    case 1: histogram<double, 3>(c); break;
    case 2: case 3: histogram<double, 1>(c); break;
    default: histogram<int, 1>(c);
  }
}

PBT_CLAIM(triangular, 2000) {
  const int n = c.integer(2, 8);
  MatrixXd R = mat(c, n, n, 1).triangularView<Eigen::Upper>();
  for (int i = 0; i < n; ++i) R(i, i) = c.sign() * c.logReal(0.3, 3);
  const int b = c.integer(0, n - 2), e = c.integer(b + 1, n - 1);
  const MatrixXd want = (R.transpose() * R).inverse().block(b, b, e - b + 1, e - b + 1);
  const double scale = (R.transpose() * R).inverse().norm();
  c.nearMat(ac::computeCovariance(R, b, e), want, 1e-9 * (1 + scale * scale), 1e-9, "covariance block");
  double s = 0;
  MatrixXd D = R;
  if (c.oneIn(3)) D(c.integer(0, n - 1), c.integer(0, n - 1)) = 0;
  for (int i = b; i <= e; ++i)
    if (D(i, i) != 0) s += std::log2(std::fabs(D(i, i)));
  c.near(ac::computeSumLogDiagR(D, b, e), s, 1e-12, 1e-12, "sum of the logarithms of the diagonal");
  const int x = c.integer(1, n - 1);
  c.check(throws([&] { ac::computeCovariance(R, x, x - 1); }) && throws([&] { ac::computeSumLogDiagR(R, 0, n + c.integer(0, 2)); }) &&
          throws([&] { ac::checkColumnIndices(R, 0, n); }), "column ranges that do not fit are refused");
  c << n << " columns, " << b << " to " << e;
  c.nontrivial(n > 2);
}

PBT_CLAIM(transformations, 2000) {
  {
    const double x = c.real(-5, 5), y = c.real(-5, 5), z = c.real(-5, 5), r = c.real(-3, 3), p = c.real(-1.5, 1.5), w = c.real(-3, 3);
    ac::Transformation<double, 3> T(x, y, z, r, p, w);
    Eigen::Matrix4d M = Eigen::Matrix4d::Identity();
    M.topLeftCorner<3, 3>() = (Eigen::AngleAxisd(w, Vector3d::UnitZ()) * Eigen::AngleAxisd(p, Vector3d::UnitY()) * Eigen::AngleAxisd(r, Vector3d::UnitX())).toRotationMatrix();
    M.topRightCorner<3, 1>() << x, y, z;
    if (c.oneIn(3)) T = ac::Transformation<double, 3>(M);
    else if (c.oneIn(3)) T = ac::Transformation<double, 3>(), T.setTransformationMatrix(M);
    for (int k = c.integer(0, 3); k > 0; --k) {
      M = Eigen::Matrix4d(M.inverse());
      if (c.boolean()) T.inverse();
      else T = T.getInverse();
    }
    c.nearMat(T.getTransformationMatrix(), M, 1e-9, 1e-9, "3-D transformation matrix");
    const Vector3d v = vec(c, 3, 5), want = M.topLeftCorner<3, 3>() * v + M.topRightCorner<3, 1>();
    Vector3d got;
    T.transform(v, got);
    c.nearMat(got, want, 1e-9, 1e-9, "3-D transform");
    c.nearMat(T(v), want, 1e-9, 1e-9, "3-D transform (operator)");
    c.nearMat(T.getInverse()(T(v)), v, 1e-9, 1e-9, "3-D inverse");
  }
  {
    const double x = c.real(-5, 5), y = c.real(-5, 5), w = c.real(-3, 3);
    ac::Transformation<double, 2> T(x, y, w);
    Eigen::Matrix3d M = Eigen::Matrix3d::Identity();
    M.topLeftCorner<2, 2>() = Eigen::Rotation2Dd(w).toRotationMatrix();
    M.topRightCorner<2, 1>() << x, y;
    if (c.oneIn(3)) T = ac::Transformation<double, 2>(M);
    else if (c.oneIn(3)) T = ac::Transformation<double, 2>(), T.setTransformationMatrix(M);
    for (int k = c.integer(0, 3); k > 0; --k) {
      M = Eigen::Matrix3d(M.inverse());
      if (c.boolean()) T.inverse();
      else T = T.getInverse();
    }
    c.nearMat(T.getTransformationMatrix(), M, 1e-9, 1e-9, "2-D transformation matrix");
    const Eigen::Vector2d v = vec(c, 2, 5), want = M.topLeftCorner<2, 2>() * v + M.topRightCorner<2, 1>();
    Eigen::Vector2d got;
    T.transform(v, got);
    c.nearMat(got, want, 1e-9, 1e-9, "2-D transform");
    c.nearMat(T(v), want, 1e-9, 1e-9, "2-D transform (operator)");
    c.nearMat(T.getInverse()(T(v)), v, 1e-9, 1e-9, "2-D inverse");
  }
  {
    const double a = c.logReal(1e-3, 1e6), b = c.oneIn(4) ? a : c.logReal(1e-3, 1e6);
    ac::Timestamp s(a), t(b);
    c.check((s == t) == (a == b) && (s != t) == (a != b) && (s < t) == (a < b) && (s > t) == (a > b) && (s <= t) == (a <= b) && (s >= t) == (a >= b), "order of timestamps");
    c.check((s == b) == (a == b) && (s != b) == (a != b) && (s < b) == (a < b) && (s > b) == (a > b) && (s <= b) == (a <= b) && (s >= b) == (a >= b), "order of timestamps and seconds");
    c.near(s + t, a + b, 0, 0, "sum of timestamps");
    c.near(s - t, a - b, 0, 0, "difference of timestamps");
    const timespec ts = s;
    c.check(ts.tv_nsec >= 0 && ts.tv_nsec < 1000000000, "nanoseconds are in range");
    c.near(ts.tv_sec + 1e-9 * ts.tv_nsec, a, 2e-9, 1e-15, "timespec");
    s += b;
    c.near(s.getSeconds(), a + b, 0, 0, "sum in place");
    s -= b;
    c.near(s.getSeconds(), a + b - b, 0, 0, "difference in place");
  }
  c.nontrivial();
}
PBT_MAIN("I01", "batches: more than two operations leave batches in and more than one group; others as labelled (enough samples, dimensions or cells)")

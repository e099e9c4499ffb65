// B04: every linear system solver against a dense reference, over histories of
// evaluating, building, conditioning, solving and moving the variables.
#include <terms.hpp>
#include <sm_property_tree/BoostPropertyTree.hpp>
#include <aslam_backend/backend/BlockCholeskyLinearSystemSolver.hpp>
#include <aslam_backend/backend/DenseQrLinearSystemSolver.hpp>
#include <aslam_backend/backend/SparseCholeskyLinearSystemSolver.hpp>
#include <aslam_backend/backend/SparseQrLinearSystemSolver.hpp>
using namespace terms;
using namespace aslam::backend;

namespace {
enum Kind { BlockCholesky, BlockQr, SparseCholesky, SparseQr, DenseQr };
const char* const kindName[] = {"block_cholesky", "block_spqr", "sparse_cholesky", "sparse_qr", "dense_qr"};
std::shared_ptr<LinearSystemSolver> solver(pbt::Case& c, Kind k) {
  const bool tree = c.boolean();
  sm::BoostPropertyTree config;
  switch (k) {
    case BlockCholesky:
      if (tree && c.boolean()) config.setString("solverType", "cholesky");
      if (tree) return std::make_shared<BlockCholeskyLinearSystemSolver>(config);
      return c.boolean() ? std::make_shared<BlockCholeskyLinearSystemSolver>() : std::make_shared<BlockCholeskyLinearSystemSolver>("cholesky");
    case BlockQr:
      config.setString("solverType", "spqr");
      if (tree) return std::make_shared<BlockCholeskyLinearSystemSolver>(config);
      return std::make_shared<BlockCholeskyLinearSystemSolver>("spqr");
    case SparseCholesky:
      if (tree) return std::make_shared<SparseCholeskyLinearSystemSolver>(config);
      return std::make_shared<SparseCholeskyLinearSystemSolver>();
    case SparseQr: {
      SparseQRLinearSolverOptions o;
      o.colNorm = c.boolean();
      if (tree) {
        config.setBool("colNorm", o.colNorm);
        return std::make_shared<SparseQrLinearSystemSolver>(config);
      }
      return std::make_shared<SparseQrLinearSystemSolver>(o);
    }
    default:
      if (tree) return std::make_shared<DenseQrLinearSystemSolver>(config);
      return std::make_shared<DenseQrLinearSystemSolver>();
  }
}
struct Quiet {  // solvers report failures on the console
  std::streambuf *o, *e;
  Quiet() : o(std::cout.rdbuf(0)), e(std::cerr.rdbuf(0)) {}
  ~Quiet() {
    std::cout.rdbuf(o);
    std::cerr.rdbuf(e);
    std::cout.clear();
    std::cerr.clear();
  }
};
MatrixXd full(const Matrix* m) {
  MatrixXd d;
  m->toDenseInto(d);
  return d;
}
void stacked(const Problem& p, bool robust, MatrixXd& J, VectorXd& e) {
  p.dense(robust, J, e);
  J.setZero();
  int r = 0;
  for (auto& m : p.models) {
    const int n = m->b.size();
    m->term->evaluateError();
    VectorXd we;
    m->term->getWeightedError(we, robust);
    e.segment(r, n) = we;
    JacobianContainer j(n);
    m->term->getWeightedJacobians(j, robust);
    for (auto& b : j) J.block(r, b.first->columnBase(), n, b.second.cols()) += b.second;
    r += n;
  }
}
void history(pbt::Case& c, Kind kind) {
  Problem p = problem(c, c.oneIn(4) ? 12 : 5, c.oneIn(4) ? 20 : 8, c.boolean() ? 0 : c.real(-1, 1), true, true);
  index(c, p, true);
  if (p.columns == 0) return c.discard();
  List act;
  for (auto& v : p.vars)
    if (v->isActive()) act.push_back(v.get());
  std::sort(act.begin(), act.end(), [](DesignVariable* a, DesignVariable* b) { return a->blockIndex() < b->blockIndex(); });
  std::vector<ErrorTerm*> errors;
  int rows = 0;
  // Terms of inactive variables only are not part of a system
  p.models.erase(std::remove_if(p.models.begin(), p.models.end(), [](std::shared_ptr<Model>& m) {
    return std::none_of(m->vars.begin(), m->vars.end(), [](DesignVariable* v) { return v->isActive(); }); }), p.models.end());
  if (p.models.empty()) return c.discard();
  for (auto& m : p.models) {
    m->term->setRowBase(rows);
    rows += m->term->dimension();
    errors.push_back(m->term);
  }
  std::shared_ptr<LinearSystemSolver> s = solver(c, kind);
  c << "solver " << kindName[kind] << " " << rows << " x " << p.columns << "\n";
  c.eq(s->name(), std::string(kindName[kind]), "name");
  const bool conditioner = c.boolean();
  s->initMatrixStructure(act, errors, conditioner);
  c.eq((int)s->JRows(), rows, "JRows");
  c.eq((int)s->JCols(), p.columns, "JCols");
  MatrixXd J, D;
  VectorXd e, f, d = VectorXd::Zero(p.columns), moved;
  bool built = false, robust = c.boolean();
  int solved = 0;
  for (int n = c.integer(3, 14); n > 0; --n) {
    switch (built ? c.integer(0, 6) : 0) {
      case 0: case 1: {  // evaluate and build
        robust = c.boolean();
        c << "build" << (robust ? " robust\n" : "\n");
        const double q = s->evaluateError(c.integer(0, 5), robust);
        c.near(q, p.cost(true), 1e-8, 1e-9, "cost");
        s->buildSystem(c.integer(0, 5), robust);
        p.dense(robust, D, f);
        stacked(p, robust, J, e);  // of the terms, each of which B03 decides
        c.nearMat(J.transpose() * J, D.transpose() * D, 1e-7 * (1 + J.norm()) * (1 + J.norm()), 0, "Hessian of the terms");
        built = true;
        const double t = 1e-7 * (1 + e.norm()) * (1 + J.norm());
        c.nearMat(s->e(), -e, 1e-7 * (1 + e.norm()), 0, "error vector");
        c.nearMat(s->rhs(), -D.transpose() * f, t, 0, "right hand side");
        break;
      }
      case 2: {  // conditioner
        if (c.boolean()) {
          const double k = c.oneIn(4) ? 0 : c.logReal(0.01, 10);
          d.setConstant(k);
          s->setConstantConditioner(k);
        } else {
          d = vec(c, p.columns, 3).cwiseAbs();
          s->setConditioner(d);
        }
        c << "conditioner " << d.transpose() << "\n";
        if (c.oneIn(5)) {
          bool threw = false;
          try {
            s->setConditioner(VectorXd::Ones(p.columns + c.sign()));
          } catch (const LinearSystemSolver::Exception&) { threw = true; }
          c.check(threw, "a conditioner of the wrong size is refused");
        }
        break;
      }
      case 3: {  // a step is tried, evaluated and taken back
        c << "try\n";
        std::vector<VectorXd> steps;
        for (DesignVariable* v : act) {
          const VectorXd x = vec(c, v->minimalDimensions(), 1);
          v->update(x.data(), x.size());
        }
        c.near(s->evaluateError(c.integer(0, 5), robust), p.cost(true), 1e-8, 1e-9, "cost of a step tried");
        for (DesignVariable* v : act) v->revertUpdate();
        break;
      }
      case 4: {
        if (kind == BlockCholesky && c.boolean()) {  // covariances
          const MatrixXd H = J.transpose() * J + (conditioner ? MatrixXd(d.cwiseProduct(d).asDiagonal()) : MatrixXd::Zero(p.columns, p.columns));
          Eigen::SelfAdjointEigenSolver<MatrixXd> es(H);
          if (es.eigenvalues()(0) < 1e-6 * es.eigenvalues()(p.columns - 1)) break;
          std::vector<std::pair<int, int> > blocks;
          for (int k = c.integer(1, 5); k > 0; --k) blocks.push_back(std::make_pair(c.integer(0, (int)act.size() - 1), c.integer(0, (int)act.size() - 1)));
          SparseBlockMatrix P;
          c << "covariance\n";
          static_cast<BlockCholeskyLinearSystemSolver&>(*s).computeCovarianceBlocks(blocks, P);
          const MatrixXd inv = H.inverse();
          for (auto& b : blocks) {
            DesignVariable *x = act[b.first], *y = act[b.second];
            const MatrixXd* got = P.block(b.first, b.second, false);
            if (!got) return c.fail("covariance block missing");
            c.nearMat(*got, inv.block(x->columnBase(), y->columnBase(), x->minimalDimensions(), y->minimalDimensions()), 1e-7 * inv.norm(), 0, "covariance block");
          }
          c.label("covariance");
          break;
        }
      }  // fall through
      default: {
        const bool regular = conditioner && kind != SparseQr;
        MatrixXd H = J.transpose() * J;
        if (regular) H += d.cwiseProduct(d).asDiagonal();
        const VectorXd rhs = -J.transpose() * e;
        Eigen::SelfAdjointEigenSolver<MatrixXd> es(H);
        const double top = es.eigenvalues()(p.columns - 1), ratio = es.eigenvalues()(0) / top;
        const bool cholesky = kind == BlockCholesky || kind == SparseCholesky;
        bool empty = false;  // a column of zeros
        for (int i = 0; i < p.columns; ++i) empty = empty || (H.col(i).array() == 0).all();
        VectorXd dx;
        bool ok;
        {
          Quiet q;
          ok = s->solveSystem(dx);
        }
        c << "solve ratio " << ratio << (empty ? " singular\n" : "\n");
        if (top < 1e-12 && !(empty && cholesky)) break;
        if (empty && cholesky) {
          c.check(!ok, "a singular system is reported");
          c.label("singular");
          break;
        }
        if (cholesky || kind == BlockQr ? ratio < 1e-8 : (ratio < 1e-9 && !empty)) break;
        c.check(ok, "a regular system is solved");
        if (!ok) return;
        c.eq((int)dx.size(), p.columns, "size of the step");
        const VectorXd r = H * dx - rhs;
        c.check(r.norm() <= 1e-7 * (top * dx.norm() + rhs.norm() + 1e-9), "the step solves the normal equations: residual " + num::str(r) + " step " + num::str(dx));
        if (ratio > 1e-8) c.nearMat(dx, es.eigenvectors() * es.eigenvalues().cwiseInverse().asDiagonal() * es.eigenvectors().transpose() * rhs, 1e-11 / ratio * (1 + rhs.norm() / top) + 1e-7 * (1e-3 + rhs.norm() / top), 0, "step");
        if (kind == SparseQr) {
          auto& q = static_cast<SparseQrLinearSystemSolver&>(*s);
          if (ratio > 1e-6) c.eq((int)q.getRank(), p.columns, "rank");
          std::vector<SuiteSparse_long> perm = q.getPermutationVector();
          std::vector<SuiteSparse_long> sorted = perm;
          std::sort(sorted.begin(), sorted.end());
          for (int i = 0; i < p.columns; ++i) c.eq((int)sorted[i], i, "the permutation is one");
          const auto eigen = q.getPermutationVectorEigen();
          c.check(eigen.size() == p.columns && std::equal(perm.begin(), perm.end(), eigen.data()), "both permutations agree");
        }
        ++solved;
        break;
      }
    }
    if (!built) continue;
    const double scale = (1 + J.norm()) * (1 + J.norm());
    if (kind == BlockCholesky || kind == BlockQr) {
      MatrixXd H = full(s->Hessian());
      H.triangularView<Eigen::StrictlyLower>() = H.transpose();
      c.nearMat(H, J.transpose() * J, 1e-7 * scale, 0, "Hessian");
      SparseBlockMatrix copy;
      static_cast<BlockCholeskyLinearSystemSolver&>(*s).copyHessian(copy);
      MatrixXd C;
      copy.toDenseInto(C);
      C.triangularView<Eigen::StrictlyLower>() = C.transpose();
      c.nearMat(C, H, 1e-12, 0, "copy of the Hessian");
    } else if (kind == SparseQr) {
      auto& q = static_cast<SparseQrLinearSystemSolver&>(*s);
      MatrixXd D, R;
      q.getJacobianTranspose().toDenseInto(D);
      c.nearMat(D.transpose(), J, 1e-7 * (1 + J.norm()), 0, "Jacobian");
      if (c.oneIn(3) && rows >= p.columns) {
        q.getR().toDenseInto(R);
        c.nearMat(R.transpose() * R, J.transpose() * J, 1e-7 * scale, 0, "R'R");
      }
    } else if (kind == DenseQr) {
      c.nearMat(static_cast<DenseQrLinearSystemSolver&>(*s).getJacobian(), J, 1e-7 * (1 + J.norm()), 0, "Jacobian");
      c.nearMat(full(s->Jacobian()), J, 1e-7 * (1 + J.norm()), 0, "Jacobian matrix");
    }
    const VectorXd g = -J.transpose() * e;
    c.near(s->rhsJtJrhs(), (J * g).squaredNorm(), 1e-6 * scale * (1 + g.squaredNorm()), 0, "rhs' J'J rhs");
    if (c.oneIn(3)) {  // the problem moves on
      for (DesignVariable* v : act) {
        const VectorXd x = vec(c, v->minimalDimensions(), 0.5);
        v->update(x.data(), x.size());
      }
      built = false;
    }
  }
  if (solved > 0) c.nontrivial();
}
}  // namespace

PBT_CLAIM(block_cholesky, 700) { history(c, BlockCholesky); }
PBT_CLAIM(block_qr, 500) { history(c, BlockQr); }
PBT_CLAIM(sparse_cholesky, 700) { history(c, SparseCholesky); }
PBT_CLAIM(sparse_qr, 700) { history(c, SparseQr); }
PBT_CLAIM(dense_qr, 700) { history(c, DenseQr); }

PBT_MAIN("B04", "at least one well-conditioned system was solved and compared with the dense solution")

// I01, second part: the linear solver that marginalizes, its matrix routines and
// the incremental estimator, against dense least squares.
#include <terms.hpp>
#include <list>
#include <set>
#include <Eigen/Dense>
#include <aslam_backend/backend/CompressedColumnMatrix.hpp>
#include <aslam_backend/backend/GaussNewtonTrustRegionPolicy.hpp>
#include <aslam_backend/backend/Optimizer2.hpp>
#include <aslam_incremental_calibration/algorithms/linalg.h>
#include <aslam_incremental_calibration/algorithms/marginalize.h>
#include <aslam_incremental_calibration/core/IncrementalEstimator.h>
#include <aslam_incremental_calibration/core/IncrementalOptimizationProblem.h>
#include <aslam_incremental_calibration/core/LinearSolver.h>
#include <aslam_incremental_calibration/core/OptimizationProblem.h>
#include <aslam_incremental_calibration/data-structures/VectorDesignVariable.h>
#include <sm_property_tree/BoostPropertyTree.hpp>
using namespace terms;
namespace ac = aslam::calibration;

namespace {
template <class F> bool throws(F f) {
  try { f(); } catch (const std::exception&) { return true; }
  return false;
}
struct Cholmod : cholmod_common {
  Cholmod() { cholmod_l_start(this); }
  ~Cholmod() { cholmod_l_finish(this); }
};
// A matrix as cholmod has it, freed with the rest
struct Sparse {
  cholmod_sparse* s;
  cholmod_common* c;
  Sparse(cholmod_sparse* s, cholmod_common& c) : s(s), c(&c) {}
  Sparse(const MatrixXd& M, const MatrixXd& pattern, cholmod_common& cc) : c(&cc) {
    cholmod_triplet* t = cholmod_l_allocate_triplet(M.rows(), M.cols(), M.size(), 0, CHOLMOD_REAL, c);
    for (int j = 0; j < M.cols(); ++j)
      for (int i = 0; i < M.rows(); ++i)
        if (pattern(i, j) != 0) {
          ((SuiteSparse_long*)t->i)[t->nnz] = i;
          ((SuiteSparse_long*)t->j)[t->nnz] = j;
          ((double*)t->x)[t->nnz++] = M(i, j);
        }
    s = cholmod_l_triplet_to_sparse(t, 0, c);
    cholmod_l_free_triplet(&t, c);
  }
  Sparse(const Sparse&) = delete;
  ~Sparse() { cholmod_l_free_sparse(&s, c); }
  MatrixXd dense() const {
    MatrixXd M = MatrixXd::Zero(s->nrow, s->ncol);
    for (size_t j = 0; j < s->ncol; ++j)
      for (SuiteSparse_long k = ((SuiteSparse_long*)s->p)[j]; k < ((SuiteSparse_long*)s->p)[j + 1]; ++k)
        M(((SuiteSparse_long*)s->i)[k], j) += ((double*)s->x)[k];
    return M;
  }
};
MatrixXd sparsePattern(pbt::Case& c, int m, int n, bool full) {
  MatrixXd P = MatrixXd::Ones(m, n);
  if (!full)
    for (int j = 0; j < n; ++j)
      for (int i = 0; i < m; ++i)
        if (c.oneIn(3)) P(i, j) = 0;
  return P;
}
MatrixXd pseudoInverse(const MatrixXd& M, int rank) {
  Eigen::JacobiSVD<MatrixXd> svd(M, Eigen::ComputeThinU | Eigen::ComputeThinV);
  return svd.matrixV().leftCols(rank) * svd.singularValues().head(rank).cwiseInverse().asDiagonal() * svd.matrixU().leftCols(rank).transpose();
}
VectorXd singularValues(const MatrixXd& M) { return Eigen::JacobiSVD<MatrixXd>(M).singularValues(); }
// What is left of the information of the columns from j once the others are free
MatrixXd reduced(const MatrixXd& A, int j) {
  const MatrixXd L = A.leftCols(j), R = A.rightCols(A.cols() - j);
  const MatrixXd E = R - L * L.colPivHouseholderQr().solve(R);
  return E.transpose() * E;
}
const double tolerance = 1e-6;
// Rank at that tolerance; none when it is not clear
int clearRank(pbt::Case& c, const VectorXd& sv) {
  int rank = 0;
  for (int i = 0; i < sv.size(); ++i) {
    if (sv(i) > 1e-10 && sv(i) < 1e-3) c.discard();
    rank += sv(i) > tolerance;
  }
  if (rank == 0) c.discard();  // one is the least it gives
  return rank;
}
VectorXd scaling(const MatrixXd& A, double eps) {
  VectorXd g(A.cols());
  for (int j = 0; j < A.cols(); ++j) {
    const double n = A.col(j).norm();
    g(j) = n < std::sqrt(A.rows() * eps) ? 0 : 1 / n;
  }
  return g;
}
// The marginal system as the solver gives it, against Omega
struct Marginal {
  VectorXd sv;
  MatrixXd null, row, covariance, rowCovariance;
};
void sameMarginal(pbt::Case& c, const Marginal& m, const MatrixXd& Omega, int rank, const std::string& what) {
  const int n = Omega.rows();
  const VectorXd sv = singularValues(Omega);
  const double size = 1 + sv(0);
  c.nearMat(m.sv, sv, 1e-9 * size, 0, what + ": singular values");
  c.check(m.row.rows() == n && m.row.cols() == rank, what + ": size of the observable basis");
  c.check(m.null.rows() == n && m.null.cols() == n - rank, what + ": size of the unobservable basis");
  MatrixXd V(n, n);
  V << m.row, m.null;
  c.nearMat(V.transpose() * V, MatrixXd::Identity(n, n), 1e-10, 0, what + ": the bases are orthonormal");
  // the observable space carries the information, the other none
  if (rank < n && sv(rank) < 1e-10) c.nearMat(Omega * m.null, MatrixXd::Zero(n, n - rank), 1e-8 * size, 0, what + ": the unobservable directions carry no information");
  c.nearMat(m.row.transpose() * Omega * m.row, MatrixXd(sv.head(rank).asDiagonal()), 1e-8 * size, 0, what + ": the observable directions are the principal ones");
  const double big = 1 / sv(rank - 1);
  c.nearMat(m.covariance, pseudoInverse(Omega, rank), 1e-8 * big * (1 + big * size), 0, what + ": covariance");
  c.nearMat(m.rowCovariance, MatrixXd(sv.head(rank).cwiseInverse().asDiagonal()), 1e-8 * big * (1 + big * size), 0, what + ": covariance in the observable basis");
}
Marginal marginal(const ac::LinearSolver& s) {
  return Marginal{s.getSingularValues(), s.getNullSpace(), s.getRowSpace(), s.getCovariance(), s.getRowSpaceCovariance()};
}
double log2sum(const VectorXd& sv, int rank) {
  double s = 0;
  for (int i = 0; i < rank; ++i) s += std::log2(sv(i));
  return s;
}
}  // namespace

PBT_CLAIM(linalg, 2000) {
  Cholmod cc;
  const int m = c.integer(1, 7), n = c.integer(1, 7);
  const MatrixXd P = sparsePattern(c, m, n, c.oneIn(3)), M = mat(c, m, n, 3).cwiseProduct(P);
  const Sparse A(M, P, cc);
  MatrixXd D;
  ac::cholmodSparseToEigenDenseCopy(A.s, D);
  c.nearMat(D, M, 0, 0, "dense copy");
  int from = c.integer(0, n - 1), to = c.integer(from, n - 1);
  {
    const Sparse B(ac::columnSubmatrix(A.s, from, to, &cc), cc);
    c.nearMat(B.dense(), M.middleCols(from, to - from + 1), 0, 0, "range of columns");
    c.check(throws([&] { ac::columnSubmatrix(A.s, from, n + c.integer(0, 2), &cc); }), "columns beyond the last are refused");
    c.check(throws([&] { ac::columnSubmatrix(A.s, -1, to, &cc); }), "columns before the first are refused");
    c.check(throws([&] { ac::columnSubmatrix(A.s, to + 1, to, &cc); }), "an empty range of columns is refused");
  }
  from = c.integer(0, m - 1), to = c.integer(from, m - 1);
  {
    const Sparse B(ac::rowSubmatrix(A.s, from, to, &cc), cc);
    c.nearMat(B.dense(), M.middleRows(from, to - from + 1), 0, 0, "range of rows");
    c.check(throws([&] { ac::rowSubmatrix(A.s, from, m + c.integer(0, 2), &cc); }), "rows beyond the last are refused");
    c.check(throws([&] { ac::rowSubmatrix(A.s, -1, to, &cc); }), "rows before the first are refused");
    c.check(throws([&] { ac::rowSubmatrix(A.s, to + 1, to, &cc); }), "an empty range of rows is refused");
  }
  const int j = c.integer(0, n - 1);
  c.near(ac::colNorm(A.s, j), M.col(j).norm(), 1e-14, 1e-13, "norm of a column");
  c.check(throws([&] { ac::colNorm(A.s, n); }) && throws([&] { ac::colNorm(A.s, -1); }), "the norm of no column is refused");
  {
    const double eps = c.oneIn(3) ? c.logReal(1e-4, 1) : std::numeric_limits<double>::epsilon();
    cholmod_dense* G = ac::columnScalingMatrix(A.s, &cc, eps);
    VectorXd g;
    ac::cholmodDenseToEigenDenseCopy(G, g);
    cholmod_l_free_dense(&G, &cc);
    const VectorXd want = scaling(M, eps);
    c.eq(g.size(), n, "size of the scaling");
    for (int k = 0; k < n; ++k)
      if (std::abs(M.col(k).norm() - std::sqrt(m * eps)) > 1e-9) c.near(g(k), want(k), 0, 1e-12, "scaling of a column");
  }
  {
    const double eps = c.boolean() ? c.logReal(1e-3, 1) : 0;
    const Sparse B(ac::eigenDenseToCholmodSparseCopy(M, &cc, eps), cc);
    const MatrixXd want = (M.array().abs() > eps).select(M, MatrixXd::Zero(m, n));
    c.nearMat(B.dense(), want, 0, 0, "sparse copy");
    c.eq((long)((SuiteSparse_long*)B.s->p)[n], (long)(want.array() != 0).count(), "elements of the sparse copy");
  }
  {
    const VectorXd v = vec(c, m, 5);
    cholmod_dense* d = ac::eigenDenseToCholmodDenseCopy(v, &cc);
    VectorXd w;
    ac::cholmodDenseToEigenDenseCopy(d, w);
    cholmod_l_free_dense(&d, &cc);
    c.nearMat(w, v, 0, 0, "copy of a vector");
    cholmod_dense view;
    ac::eigenDenseToCholmodDenseView(v, &view);
    ac::cholmodDenseToEigenDenseCopy(&view, w);
    c.nearMat(w, v, 0, 0, "view of a vector");
  }
  // ranks of descending singular values
  VectorXd sv(c.integer(1, 6));
  for (int i = 0; i < sv.size(); ++i) sv(i) = c.oneIn(3) ? c.logReal(1e-14, 1e-8) : c.logReal(1e-2, 1e2);
  std::sort(sv.data(), sv.data() + sv.size(), std::greater<double>());
  const double eps = c.logReal(1e-12, 1e-3);
  c.near(ac::rankTol(sv, eps), sv(0) * eps * sv.size(), 0, 1e-14, "tolerance of the rank");
  const double tol = c.logReal(1e-13, 1);
  long rank = 0;
  for (int i = 0; i < sv.size(); ++i) rank += sv(i) > tol;
  if (rank > 0) c.eq((long)ac::estimateNumericalRank(sv, tol), rank, "numerical rank");
  const int r = c.integer(1, sv.size());
  if (r < sv.size()) c.near(ac::svGap(sv, r), sv(r - 1) / sv(r), 0, 1e-13, "gap");
  else c.check(std::isinf(ac::svGap(sv, r)), "no gap at full rank");
  c.check(throws([&] { ac::svGap(sv, 0); }) && throws([&] { ac::svGap(sv, sv.size() + 1); }), "the gap at no rank is refused");
  c.check(throws([&] { ac::rankTol(VectorXd(), eps); }), "no singular values are refused");
  c.near(ac::qrTol(A.s, &cc, eps), 20.0 * (m + n) * eps * M.colwise().norm().maxCoeff(), 1e-300, 1e-12, "tolerance of the QR factorization");
  // pseudo-inverse of a symmetric matrix of known rank
  {
    Eigen::JacobiSVD<MatrixXd> svd(MatrixXd(M * M.transpose()), Eigen::ComputeThinU | Eigen::ComputeThinV);
    const int k = c.integer(1, m);
    if (svd.singularValues()(k - 1) > 1e-6) {
      VectorXd b = vec(c, m, 1), x;
      cholmod_dense view;
      ac::eigenDenseToCholmodDenseView(b, &view);
      ac::solveSVD(&view, svd.singularValues(), svd.matrixU(), svd.matrixV(), k, x);
      VectorXd want = VectorXd::Zero(m);
      for (int i = 0; i < k; ++i) want += svd.matrixV().col(i) * (svd.matrixU().col(i).dot(b) / svd.singularValues()(i));
      c.nearMat(x, want, 1e-12 * (1 + want.norm()), 0, "solution up to a rank");
      c.check(throws([&] { ac::solveSVD(&view, svd.singularValues(), svd.matrixU(), svd.matrixV(), m + 1, x); }), "a rank beyond the size is refused");
    }
  }
  c << m << " x " << n << ", " << sv.size() << " singular values";
  c.nontrivial(m > 1 && n > 1);
}

// Solving for all columns, and what is known of the last ones alone
PBT_CLAIM(marginal, 1500) {
  Cholmod cc;
  ac::LinearSolverOptions options;
  options.columnScaling = c.boolean();
  options.svdTol = tolerance;
  if (c.oneIn(4)) options.qrTol = c.logReal(1e-12, 1e-8);
  std::unique_ptr<ac::LinearSolver> holder;
  if (c.boolean()) holder.reset(new ac::LinearSolver(options));
  else {
    sm::BoostPropertyTree t;
    t.setBool("columnScaling", options.columnScaling);
    t.setDouble("svdTol", options.svdTol);
    t.setDouble("qrTol", options.qrTol);
    t.setDouble("epsNorm", options.epsNorm);
    t.setDouble("epsSVD", options.epsSVD);
    t.setDouble("epsQR", options.epsQR);
    t.setBool("verbose", false);
    holder.reset(new ac::LinearSolver(t));
  }
  ac::LinearSolver& solver = *holder;
  c.check(solver.getOptions().columnScaling == options.columnScaling && solver.getOptions().svdTol == options.svdTol && solver.getOptions().qrTol == options.qrTol, "options");
  bool deficient = false;
  for (int rounds = c.integer(1, 3); rounds > 0; --rounds) {
    const int l = c.integer(1, 6), r = c.integer(1, 4), m = l + r + c.integer(0, 6);
    const bool full = c.boolean();
    const MatrixXd P = sparsePattern(c, m, l + r, full);
    MatrixXd A = mat(c, m, l + r, 2).cwiseProduct(P);
    if (r > 1 && c.oneIn(3)) {
      // a direction of the last columns that is not seen, or only through the others
      VectorXd k = VectorXd::Zero(m);
      MatrixXd Q = MatrixXd::Ones(m, 1);
      if (c.boolean()) k = A.col(l) * c.real(-2, 2);
      if (c.boolean()) k += A.leftCols(l) * vec(c, l, 1);
      A.col(l + r - 1) = k;
      deficient = true;
    }
    MatrixXd pattern = P;
    for (int i = 0; i < A.size(); ++i)
      if (A.data()[i] != 0) pattern.data()[i] = 1;
    // the first columns have to be independent
    const VectorXd g = options.columnScaling ? scaling(A, options.epsNorm) : VectorXd::Ones(l + r);
    const MatrixXd S = A * g.asDiagonal();
    const VectorXd left = singularValues(S.leftCols(l));
    if (left(l - 1) < 1e-2 * left(0) || left(l - 1) < 1e-3 || singularValues(A.leftCols(l))(l - 1) < 1e-2) c.discard();
    const VectorXd b = vec(c, m, 3);
    const Sparse a(A, pattern, cc);
    cholmod_dense bView;
    ac::eigenDenseToCholmodDenseView(b, &bView);
    const MatrixXd Omega = reduced(S, l);
    const int rank = clearRank(c, singularValues(Omega));
    const MatrixXd plain = reduced(A, l);
    solver.clear();
    c.check(solver.getSVDRank() == -1 && solver.getSVDRankDeficiency() == -1 && solver.getQRRank() == -1 && solver.getQRRankDeficiency() == -1 && solver.getNullSpace().size() == 0 &&
                solver.getRowSpace().size() == 0 && solver.getCovariance().size() == 0 && solver.getRowSpaceCovariance().size() == 0 && solver.getSingularValuesLog2Sum() == 0,
            "a solver that has solved nothing knows nothing");
    if (c.oneIn(4)) {
      VectorXd bad = vec(c, m + 1, 1), x;
      cholmod_dense badView;
      ac::eigenDenseToCholmodDenseView(bad, &badView);
      c.check(throws([&] { solver.solve(a.s, &badView, l, x); }), "a right hand side of another size is refused");
      c.check(throws([&] { solver.solve(a.s, &bView, 0, x); }) && throws([&] { solver.solve(a.s, &bView, l + r, x); }), "an index that splits off nothing is refused");
      solver.clear();
    }
    VectorXd x;
    for (int times = c.integer(1, 2); times > 0; --times) {
      solver.solve(a.s, &bView, l, x);
      c.eq((long)solver.getQRRank(), (long)l, "rank of the first columns");
      c.eq((long)solver.getQRRankDeficiency(), 0L, "rank deficiency of the first columns");
      c.near(solver.getQRTolerance(), options.qrTol != -1 ? options.qrTol : 20.0 * (m + l) * options.epsQR * S.leftCols(l).colwise().norm().maxCoeff(), 0, 1e-9, "tolerance of the QR factorization");
      c.near(solver.getSVDTolerance(), tolerance, 0, 0, "tolerance of the rank");
      c.eq((long)solver.getSVDRank(), (long)rank, "rank of the last columns");
      c.eq((long)solver.getSVDRankDeficiency(), (long)(r - rank), "rank deficiency of the last columns");
      sameMarginal(c, marginal(solver), Omega, rank, "solved");
      const VectorXd sv = singularValues(Omega);
      c.near(solver.getSingularValuesLog2Sum(), log2sum(sv, rank), 1e-6, 1e-9, "sum of the logarithms");
      if (rank == r) c.check(std::isinf(solver.getSvGap()), "no gap");
      // least squares with the least change along the last columns
      const MatrixXd L = S.leftCols(l), R = S.rightCols(r);
      VectorXd want(l + r);
      want.tail(r) = pseudoInverse(Omega, rank) * (R.transpose() * (b - L * L.colPivHouseholderQr().solve(b)));
      want.head(l) = L.colPivHouseholderQr().solve(b - R * want.tail(r));
      want = g.asDiagonal() * want;
      const double big = (1 + 1 / sv(rank - 1)) * (1 + want.norm());
      c.eq(x.size(), l + r, "size of the solution");
      c.nearMat(x, want, 1e-9 * big, 0, "solution");
    }
    const bool alone = c.oneIn(3);
    if (alone) solver.clear();
    const int ranked = alone ? clearRank(c, singularValues(plain)) : rank;
    if (singularValues(plain)(ranked - 1) < 1e-6) c.discard();
    solver.analyzeMarginal(a.s, l);
    c.eq((long)solver.getSVDRank(), (long)ranked, "rank of the last columns analyzed");
    c.eq((long)solver.getQRRank(), (long)l, "rank of the first columns analyzed");
    sameMarginal(c, marginal(solver), plain, ranked, "analyzed");
    c.near(solver.getSingularValuesLog2Sum(), log2sum(singularValues(plain), ranked), 1e-6, 1e-9, "sum of the logarithms analyzed");
    // the free function
    {
      aslam::backend::CompressedColumnMatrix<std::ptrdiff_t> Jt;
      cholmod_sparse* t = cholmod_l_transpose(a.s, 1, &cc);
      Jt.fromCholmodSparse(t);
      cholmod_l_free_sparse(&t, &cc);
      MatrixXd NS, CS, Sigma, SigmaP, Om;
      const double sum = ac::marginalize(Jt, l, NS, CS, Sigma, SigmaP, Om);
      c.nearMat(Om, plain, 1e-9 * (1 + plain.norm()), 0, "marginalize: information");
      VectorXd s = singularValues(reduced(A * scaling(A, 1e-16).asDiagonal(), l));
      s /= r * s(0);
      int k = 0;
      bool clear = true;
      for (int i = 0; i < r; ++i) {
        k += s(i) > 1e-4;
        clear = clear && (s(i) > 2e-4 || s(i) < 0.5e-4);
      }
      if (clear && singularValues(plain)(k - 1) > 1e-6) {
        sameMarginal(c, Marginal{singularValues(plain), NS, CS, Sigma, SigmaP}, plain, k, "marginalize");
        c.near(sum, log2sum(singularValues(plain), k), 1e-6, 1e-9, "marginalize: sum of the logarithms");
      }
    }
    c << m << " x " << l << " + " << r << " of rank " << rank << (options.columnScaling ? ", scaled" : "") << "; ";
  }
  c.nontrivial(deficient || options.columnScaling);
}

namespace {
typedef boost::shared_ptr<DesignVariable> Var;
typedef Term<aslam::backend::ErrorTermDs> Linear;
typedef boost::shared_ptr<Linear> LinearP;
struct Batch {
  boost::shared_ptr<ac::OptimizationProblem> p;
  std::vector<LinearP> terms;
};
Var newVariable(pbt::Case& c) {
  Var v;
  switch (c.integer(0, 2)) {
    case 0: v = boost::make_shared<ac::VectorDesignVariable<1> >(Eigen::Matrix<double, 1, 1>(vec(c, 1, 2))); break;
    case 1: v = boost::make_shared<ac::VectorDesignVariable<2> >(Eigen::Vector2d(vec(c, 2, 2))); break;
    default: v = boost::make_shared<ac::VectorDesignVariable<3> >(Vector3d(vec(c, 3, 2)));
  }
  v->setActive(true);
  return v;
}
// The whole of the batches that are in, dense
struct Dense {
  MatrixXd A;
  VectorXd b;  // of A x = b
  std::vector<DesignVariable*> order;
  int l;  // columns of the state
  VectorXd x() const {
    VectorXd r(A.cols());
    int o = 0;
    for (auto* d : order) {
      r.segment(o, d->minimalDimensions()) = value(d);
      o += d->minimalDimensions();
    }
    return r;
  }
  double cost(const VectorXd& x) const { return (A * x - b).squaredNorm(); }
};
Dense dense(const std::vector<Batch*>& in, const std::vector<DesignVariable*>& order, const std::set<DesignVariable*>& theta) {
  Dense d;
  d.order = order;
  std::map<DesignVariable*, int> at;
  int n = 0, m = 0;
  d.l = 0;
  for (auto* v : order) {
    at[v] = n;
    n += v->minimalDimensions();
    if (!theta.count(v)) d.l = n;
  }
  for (auto* b : in)
    for (auto& t : b->terms) m += t->b.size();
  d.A = MatrixXd::Zero(m, n);
  d.b = VectorXd::Zero(m);
  int row = 0;
  for (auto* b : in)
    for (auto& t : b->terms) {
      const int k = t->b.size();
      const MatrixXd W = t->info.llt().matrixU();
      int col = 0;
      for (auto* v : t->vars) {
        d.A.block(row, at.at(v), k, v->minimalDimensions()) += W * t->M.middleCols(col, v->minimalDimensions());
        col += v->minimalDimensions();
      }
      d.b.segment(row, k) = W * t->b;
      row += k;
    }
  return d;
}
struct Known {
  Marginal plain, scaled;
  long rank, deficiency;
  double gain, start, final;
};
bool same(const MatrixXd& a, const MatrixXd& b) { return a.rows() == b.rows() && a.cols() == b.cols() && (a.size() == 0 || a == b); }
bool same(const Marginal& a, const Marginal& b) {
  return same(a.sv, b.sv) && same(a.null, b.null) && same(a.row, b.row) && same(a.covariance, b.covariance) && same(a.rowCovariance, b.rowCovariance);
}
Known known(const ac::IncrementalEstimator& e) {
  return Known{{e.getSingularValues(), e.getNobsBasis(), e.getObsBasis(), e.getSigma2Theta(), e.getSigma2ThetaObs()},
               {e.getSingularValues(true), e.getNobsBasis(true), e.getObsBasis(true), e.getSigma2Theta(true), e.getSigma2ThetaObs(true)},
               (long)e.getRankTheta(), (long)e.getRankThetaDeficiency(), e.getInformationGain(), e.getInitialCost(), e.getFinalCost()};
}
}  // namespace

// Batches offered to the estimator, taken or not, removed and run again
PBT_CLAIM(estimator, 700) {
  ac::IncrementalEstimator::Options options;
  c.check(options.infoGainDelta == 0.2 && !options.checkValidity, "default options");
  options.infoGainDelta = c.logReal(0.02, 5);
  options.checkValidity = c.oneIn(3);
  ac::LinearSolverOptions solverOptions;
  solverOptions.columnScaling = c.boolean();
  solverOptions.svdTol = tolerance;
  ac::IncrementalEstimator::OptimizerOptions optimizerOptions;
  optimizerOptions.verbose = false;
  optimizerOptions.nThreads = c.integer(1, 2);
  optimizerOptions.maxIterations = c.integer(3, 20);
  // the last step is the one the system was taken at; the problem is linear
  const size_t group = c.integer(0, 3);
  std::unique_ptr<ac::IncrementalEstimator> holder;
  if (c.boolean()) holder.reset(new ac::IncrementalEstimator(group, options, solverOptions, optimizerOptions));
  else {
    sm::BoostPropertyTree t;
    t.setInt("groupId", group);
    t.setDouble("infoGainDelta", options.infoGainDelta);
    t.setBool("checkValidity", options.checkValidity);
    t.setBool("verbose", false);
    t.setInt("optimizer/maxIterations", optimizerOptions.maxIterations);
    t.setInt("optimizer/nThreads", optimizerOptions.nThreads);
    t.setBool("optimizer/verbose", false);
    t.setBool("optimizer/linearSolver/columnScaling", solverOptions.columnScaling);
    t.setDouble("optimizer/linearSolver/svdTol", solverOptions.svdTol);
    holder.reset(new ac::IncrementalEstimator(t));
  }
  ac::IncrementalEstimator& e = *holder;
  c.check(e.getMargGroupId() == group && e.getOptions().infoGainDelta == options.infoGainDelta && e.getOptions().checkValidity == options.checkValidity &&
              e.getLinearSolverOptions().columnScaling == solverOptions.columnScaling && e.getLinearSolverOptions().svdTol == solverOptions.svdTol &&
              e.getOptimizerOptions().maxIterations == optimizerOptions.maxIterations && e.getOptimizerOptions().nThreads == optimizerOptions.nThreads,
          "options");
  c.check(e.getNumBatches() == 0 && e.getRankTheta() == -1 && e.getRankPsi() == -1 && e.getInformationGain() == 0, "a new estimator is empty");

  std::vector<Var> thetas;
  std::set<DesignVariable*> theta;
  int nr = 0;
  for (int k = c.integer(1, 2); k > 0; --k) {
    thetas.push_back(newVariable(c));
    theta.insert(thetas.back().get());
    nr += thetas.back()->minimalDimensions();
  }
  std::vector<Var> shared;
  for (int k = c.integer(0, 1); k > 0; --k) shared.push_back(newVariable(c));
  std::list<Batch> batches;
  std::vector<Batch*> in;
  std::vector<Var> own;
  double log2 = 0;
  int rankNow = -1, accepted = 0, rejected = 0, removed = 0;
  // what the estimator says, against the batches that are in
  auto problemIs = [&](const std::string& what) {
    c.eq(e.getNumBatches(), in.size(), what + ": number of batches");
    size_t terms = 0;
    for (auto* b : in) terms += b->terms.size();
    c.eq(const_cast<ac::IncrementalOptimizationProblem*>(e.getProblem())->numErrorTerms(), terms, what + ": number of terms");
    for (auto& b : batches)
      for (auto& t : b.terms) c.eq(e.getProblem()->isErrorTermInProblem(t.get()), std::count(in.begin(), in.end(), &b) > 0, what + ": membership of a term");
  };
  auto order = [&] {
    std::vector<DesignVariable*> o;
    auto* p = const_cast<ac::IncrementalOptimizationProblem*>(e.getProblem());
    for (size_t i = 0; i < p->numDesignVariables(); ++i) o.push_back(p->designVariable(i));
    return o;
  };
  struct Expected { MatrixXd plain, scaled; int rank; double log2, least, within; };
  // null when the case is not clear
  auto expected = [&](const Dense& d) {
    Expected x;
    x.plain = reduced(d.A, d.l);
    x.scaled = reduced(d.A * scaling(d.A, solverOptions.epsNorm).asDiagonal(), d.l);
    const VectorXd s = singularValues(d.A.leftCols(d.l) * scaling(d.A.leftCols(d.l), 1e-16).asDiagonal());
    if (s(d.l - 1) < 1e-2) c.discard();
    x.rank = clearRank(c, singularValues(solverOptions.columnScaling ? x.scaled : x.plain));
    if (clearRank(c, singularValues(x.plain)) != x.rank) c.discard();
    x.log2 = log2sum(singularValues(x.plain), x.rank);
    const MatrixXd L = d.A.leftCols(d.l), R = d.A.rightCols(nr);
    // the least cost, a step away from where it is; directions that are not seen stay
    const VectorXd b = d.b - d.A * d.x();
    const VectorXd r = pseudoInverse(R - L * L.colPivHouseholderQr().solve(R), x.rank) * (b - L * L.colPivHouseholderQr().solve(b));
    x.within = 1e-8 * (1 + d.b.squaredNorm()) * (1 + 1 / singularValues(x.plain)(x.rank - 1));
    VectorXd z(d.l + nr);
    z << L.colPivHouseholderQr().solve(b - R * r), r;
    x.least = d.cost(d.x() + z);
    return x;
  };
  auto matches = [&](const Known& k, const Expected& x, const std::string& what) {
    sameMarginal(c, k.plain, x.plain, x.rank, what);
    if (solverOptions.columnScaling) sameMarginal(c, k.scaled, x.scaled, x.rank, what + ", scaled");
    else c.check(k.scaled.sv.size() == 0 && k.scaled.null.size() == 0 && k.scaled.row.size() == 0 && k.scaled.covariance.size() == 0 && k.scaled.rowCovariance.size() == 0, what + ": nothing is scaled");
    c.eq(k.rank, (long)x.rank, what + ": rank");
    c.eq(k.deficiency, (long)(nr - x.rank), what + ": rank deficiency");
  };
  auto given = [&](const ac::IncrementalEstimator::ReturnValue& r) {
    return Known{{r.singularValues, r.nobsBasis, r.obsBasis, r.sigma2Theta, r.sigma2ThetaObs},
                 {r.singularValuesScaled, r.nobsBasisScaled, r.obsBasisScaled, r.sigma2ThetaScaled, r.sigma2ThetaObsScaled},
                 (long)r.rankTheta, (long)r.rankThetaDeficiency, r.informationGain, r.JStart, r.JFinal};
  };
  auto sameKnown = [&](const Known& a, const Known& b, const std::string& what) {
    c.check(same(a.plain, b.plain) && same(a.scaled, b.scaled) && a.rank == b.rank && a.deficiency == b.deficiency && a.start == b.start && a.final == b.final, what);
    c.near(a.gain, b.gain, 0, 0, what + ": information gain");
  };
  auto jacobian = [&](const std::string& what) {
    const Dense d = dense(in, order(), theta);
    MatrixXd J;
    e.getJacobianTranspose().toDenseInto(J);
    // the rows of a term may be turned: the information is what counts
    c.check(J.rows() == d.A.cols() && J.cols() == d.A.rows(), what + ": size of the Jacobian");
    c.nearMat(J * J.transpose(), d.A.transpose() * d.A, 1e-9 * (1 + d.A.squaredNorm()), 0, what + ": Jacobian");
  };
  auto atOptimum = [&](const Dense& d, const Expected& x, const std::string& what) {
    const double cost = d.cost(d.x());
    c.near(cost, x.least, x.within, 0, what + ": cost");
    c.check(d.order.size() >= theta.size(), what + ": variables");
    for (size_t i = 0; i < d.order.size(); ++i)
      c.eq(theta.count(d.order[i]) > 0, i + theta.size() >= d.order.size(), what + ": the marginalized group is the last");
  };
  for (int steps = c.integer(2, 7); steps > 0; --steps) {
    const int what = in.size() > 1 ? c.integer(0, 5) : in.empty() ? 0 : c.integer(0, 4);
    if (what < 4) {
      batches.emplace_back();
      Batch& b = batches.back();
      b.p = boost::make_shared<ac::OptimizationProblem>();
      List state;
      int nl = 0;
      for (int k = c.integer(1, 2); k > 0; --k) {
        own.push_back(newVariable(c));
        b.p->addDesignVariable(own.back(), (group + 1) % 4);
        state.push_back(own.back().get());
        nl += own.back()->minimalDimensions();
      }
      if (!shared.empty() && c.boolean())
        for (auto& v : shared) {
          b.p->addDesignVariable(v, (group + 2) % 4);
          state.push_back(v.get());
          nl += v->minimalDimensions();
        }
      for (auto& v : thetas) b.p->addDesignVariable(v, group);
      if (c.boolean()) {
        auto o = b.p->getGroupsOrdering();
        for (size_t i = o.size(); i > 1; --i) std::swap(o[i - 1], o[c.integer(0, (int)i - 1)]);
        b.p->setGroupsOrdering(o);
      }
      List all = state;
      for (auto& v : thetas) all.push_back(v.get());
      const int rank = c.integer(1, nr), rows = nl + c.integer(1, nr + 3);
      const MatrixXd seen = mat(c, rank, nr, 1);
      const double strength = c.logReal(0.1, 10);
      for (int done = 0; done < rows;) {
        const int k = std::min(rows - done, c.integer(1, 4));
        auto t = boost::make_shared<Linear>(k);
        fill(c, *t, all, k, 0, false);
        t->M.rightCols(nr) = strength * mat(c, k, rank, 1) * seen;
        b.p->addErrorTerm(t);
        b.terms.push_back(t);
        done += k;
      }
      const std::vector<Batch*> before = in;
      const Known knew = known(e);
      std::map<DesignVariable*, MatrixXd> values;
      for (auto* v : all) values[v] = value(v);
      for (auto* v : in.empty() ? std::vector<DesignVariable*>() : order()) values[v] = value(v);
      in.push_back(&b);
      const bool force = c.oneIn(4);
      // the cost it starts from does not depend on the order
      double start = 0;
      for (auto* i : in)
        for (auto& t : i->terms) start += t->squared();
      std::vector<DesignVariable*> trial;
      for (auto& v : values)
        if (!theta.count(v.first)) trial.push_back(v.first);
      for (auto& v : thetas) trial.push_back(v.get());
      const Expected x = expected(dense(in, trial, theta));
      const double gain = 0.5 * (x.log2 - log2);
      const auto r = e.addBatch(b.p, force);
      const std::string name = "batch " + std::to_string(batches.size());
      c << name << ": rank " << r.rankTheta << " gain " << r.informationGain << (r.batchAccepted ? " in" : " out") << "; ";
      c.near(r.JStart, start, 1e-9, 1e-9, name + ": initial cost");
      c.near(r.JFinal, x.least, x.within, 0, name + ": final cost");
      c.near(r.informationGain, gain, 1e-6, 1e-8, name + ": information gain");
      c.check(r.numIterations >= 1 && r.numIterations <= (size_t)optimizerOptions.maxIterations && r.elapsedTime >= 0, name + ": iterations");
      if (std::abs(gain - options.infoGainDelta) < 1e-5) c.discard();
      const bool valid = !options.checkValidity || (r.numIterations != (size_t)optimizerOptions.maxIterations && r.JFinal < r.JStart);
      const bool keep = force || (valid && (gain > options.infoGainDelta || x.rank > rankNow));
      c.eq(r.batchAccepted, keep, name + ": whether it is taken");
      c.check(r.rankPsiDeficiency == 0, name + ": the state is determined");
      // the information does not depend on the order of the state
      matches(given(r), x, name);
      if (keep) {
        ++accepted;
        log2 = x.log2;
        rankNow = x.rank;
        const Dense d = dense(in, order(), theta);
        atOptimum(d, x, name);
        sameKnown(known(e), given(r), name + ": what is known is what was given");
        c.eq((long)e.getRankPsi(), (long)d.l, name + ": rank of the state");
        c.eq((long)r.rankPsi, (long)d.l, name + ": rank of the state given");
        c.check(e.getSVDTolerance() == r.svdTolerance && e.getQRTolerance() == r.qrTolerance && r.svdTolerance == tolerance, name + ": tolerances");
      } else {
        ++rejected;
        in = before;
        for (auto& v : values) c.nearMat(value(v.first), v.second, 0, 0, name + ": the variables of a rejected batch are restored");
        sameKnown(known(e), knew, name + ": a rejected batch leaves what is known");
      }
      problemIs(name);
      if (!in.empty()) jacobian(name);
    } else {
      std::string name = "run again";
      ac::IncrementalEstimator::ReturnValue r;
      if (what == 5) {
        const int i = c.integer(0, (int)in.size() - 1);
        name = "removed";
        ++removed;
        Batch* gone = in[i];
        in.erase(in.begin() + i);
        std::vector<DesignVariable*> trial;
        for (auto* b : in)
          for (auto& t : b->terms)
            for (auto* v : t->vars)
              if (!theta.count(v) && !std::count(trial.begin(), trial.end(), v)) trial.push_back(v);
        for (auto& v : thetas) trial.push_back(v.get());
        expected(dense(in, trial, theta));  // whether it is clear
        if (c.boolean()) e.removeBatch(i);
        else e.removeBatch(gone->p);
      } else {
        if (c.boolean())
          for (auto* v : order()) {
            const VectorXd dx = vec(c, v->minimalDimensions(), 1);
            v->update(dx.data(), dx.size());
          }
        const Dense d = dense(in, order(), theta);
        const double start = d.cost(d.x());
        r = e.reoptimize();
        c.near(r.JStart, start, 1e-9, 1e-9, name + ": initial cost");
        c.check(r.batchAccepted && r.informationGain == 0, name + ": nothing is gained");
        sameKnown(known(e), given(r), name + ": what is known is what was given");
      }
      const Dense d = dense(in, order(), theta);
      const Expected x = expected(d);
      matches(known(e), x, name);
      atOptimum(d, x, name);
      c.near(e.getFinalCost(), x.least, x.within, 0, name + ": final cost");
      c.check(e.getInformationGain() == 0, name + ": no information is gained");
      log2 = x.log2;
      rankNow = x.rank;
      problemIs(name);
      jacobian(name);
      c << name << "; ";
    }
  }
  c.nontrivial(accepted > 1 && rejected + removed > 0);
}

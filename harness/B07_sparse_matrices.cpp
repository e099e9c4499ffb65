// B07: block-sparse and compressed-column matrices against dense matrices, over
// histories of operations.
#include <terms.hpp>
#include <cstdio>
#include <fstream>
#include <sstream>
#include <unistd.h>
#include <aslam_backend/backend/Cholmod.hpp>
#include <aslam_backend/backend/CompressedColumnMatrix.hpp>
#include <aslam_backend/backend/DenseMatrix.hpp>
#include <aslam_backend/backend/SparseBlockMatrixWrapper.hpp>
#include <aslam_backend/backend/sparse_matrix_functions.hpp>
#include <aslam_sparse_block_matrix/linear_solver_cholmod.h>
#include <aslam_sparse_block_matrix/linear_solver_dense.h>
#include <aslam_sparse_block_matrix/sparse_block_matrix.h>
using namespace terms;
using namespace aslam::backend;
namespace sbm = aslam_sparse_block_matrix;
typedef sbm::SparseBlockMatrix<MatrixXd> Blocks;

namespace {
std::vector<int> layout(pbt::Case& c, int blocks, int size) {
  std::vector<int> v;
  int at = 0;
  for (int i = 0; i < blocks; ++i) v.push_back(at += size ? size : c.integer(1, 4));
  return v;
}
// A block-sparse matrix with its dense value and the blocks it stores
template <class M> struct Both {
  typedef sbm::SparseBlockMatrix<M> S;
  std::vector<int> r, k;
  std::shared_ptr<S> s;
  MatrixXd d;
  std::set<std::pair<int, int> > in;
  int rb(int i) const { return i ? r[i - 1] : 0; }
  int kb(int i) const { return i ? k[i - 1] : 0; }
  int rn(int i) const { return r[i] - rb(i); }
  int kn(int i) const { return k[i] - kb(i); }
};
template <class M> void same(pbt::Case& c, const Both<M>& b, const std::string& what) {
  const auto& s = *b.s;
  c.eq(s.rows(), b.r.back(), what + ": rows");
  c.eq(s.cols(), b.k.back(), what + ": columns");
  c.eq(s.bRows(), (int)b.r.size(), what + ": block rows");
  c.eq(s.bCols(), (int)b.k.size(), what + ": block columns");
  c.check(s.rowBlockIndices() == b.r && s.colBlockIndices() == b.k, what + ": layout");
  MatrixXd D;
  s.toDenseInto(D);
  c.nearMat(D, b.d, 1e-9 * (1 + b.d.norm()), 0, what + ": values");
  c.nearMat(s.toDense(), D, 0, 0, what + ": toDense");
  size_t n = 0;
  for (int i = 0; i < (int)b.r.size(); ++i) {
    c.eq(s.rowsOfBlock(i), b.rn(i), what + ": rows of block");
    c.eq(s.rowBaseOfBlock(i), b.rb(i), what + ": row base");
    for (int j = 0; j < (int)b.k.size(); ++j) {
      const bool want = b.in.count({i, j}) > 0;
      c.eq(s.isBlockSet(i, j), want, what + ": stored block");
      if (want) n += b.rn(i) * b.kn(j);
    }
  }
  for (int j = 0; j < (int)b.k.size(); ++j) {
    c.eq(s.colsOfBlock(j), b.kn(j), what + ": columns of block");
    c.eq(s.colBaseOfBlock(j), b.kb(j), what + ": column base");
  }
  c.eq(s.nonZeroBlocks(), b.in.size(), what + ": stored blocks");
  c.eq(s.nonZeros(), n, what + ": stored entries");
  const int i = c.integer(0, b.r.back() - 1), j = c.integer(0, b.k.back() - 1);
  c.near(s(i, j), b.d(i, j), 1e-9 * (1 + b.d.norm()), 0, what + ": entry");
  bool threw = false;
  try {
    if (c.boolean()) s(b.r.back() + c.integer(0, 2), j);
    else s(i, c.boolean() ? b.k.back() : -1);
  } catch (const typename Both<M>::S::IndexException&) { threw = true; }
  c.check(threw, what + ": an index out of range is refused");
}
template <class M> Both<M> fresh(pbt::Case& c, std::vector<int> r, std::vector<int> k, double fillIn = 0.4) {
  Both<M> b;
  b.r = r;
  b.k = k;
  typedef typename Both<M>::S S;
  switch (c.integer(0, 2)) {
    case 0: b.s = std::make_shared<S>(r, k); break;
    case 1: b.s = std::make_shared<S>(&r[0], &k[0], (int)r.size(), (int)k.size()); break;
    default: b.s = std::make_shared<S>(Eigen::VectorXi(Eigen::Map<Eigen::VectorXi>(&r[0], r.size())), Eigen::VectorXi(Eigen::Map<Eigen::VectorXi>(&k[0], k.size())));
  }
  b.d = MatrixXd::Zero(r.back(), k.back());
  for (int i = 0; i < (int)r.size(); ++i)
    for (int j = 0; j < (int)k.size(); ++j)
      if (c.real(0, 1) < fillIn) {
        M* m = b.s->block(i, j, true);
        *m = mat(c, b.rn(i), b.kn(j), 3);
        b.d.block(b.rb(i), b.kb(j), b.rn(i), b.kn(j)) = *m;
        b.in.insert({i, j});
      }
  return b;
}
template <class M> Both<M> copied(const Both<M>& b, std::shared_ptr<typename Both<M>::S> s) {
  Both<M> r = b;
  r.s = s;
  return r;
}
template <class M> MatrixXd compressed(const sbm::SparseBlockMatrix<M>& s, bool upper, bool symmetric, pbt::Case& c) {
  const int n = s.cols(), room = (int)s.nonZeros() * 2 + 1;
  std::vector<int> p(n + 1), i(room);
  std::vector<double> x(room, -1), y(room, -1);
  const int nz = symmetric ? s.template fillUpperTriangleCCS<int>(&p[0], &i[0], &x[0]) : s.template fillCCS<int>(&p[0], &i[0], &x[0], upper);
  const int ny = symmetric ? s.template fillUpperTriangleCCS<int>(&y[0]) : s.template fillCCS<int>(&y[0], upper);
  c.eq(ny, nz, "number of compressed values");
  c.eq(p[n], nz, "end of the columns");
  c.check(x == y, "values written without the structure");
  MatrixXd D = MatrixXd::Zero(s.rows(), n);
  for (int k = 0; k < n; ++k)
    for (int q = p[k]; q < p[k + 1]; ++q) {
      if (i[q] < 0 || i[q] >= s.rows()) {
        c.fail("row index out of range");
        continue;
      }
      if (q > p[k]) c.check(i[q] > i[q - 1], "rows of a column in order");
      D(i[q], k) += x[q];
    }
  return D;
}
std::string scratch() {
  static const std::string name = "/tmp/b07-" + std::to_string(getpid()) + ".txt";
  return name;
}
struct Remove {
  ~Remove() { std::remove(scratch().c_str()); }
};
template <class M> void history(pbt::Case& c, int fixedRows, int fixedCols) {
  const std::vector<int> r = layout(c, c.integer(1, 5), fixedRows), k = layout(c, c.integer(1, 5), fixedCols);
  Both<M> a = fresh<M>(c, r, k);
  typedef typename Both<M>::S S;
  typedef Eigen::Matrix<double, M::ColsAtCompileTime, M::RowsAtCompileTime> T;
  same(c, a, "built");
  int edits = 0;
  for (int n = c.integer(3, 12); n > 0; --n) {
    const int op = c.integer(0, 15);
    c << "op " << op << "\n";
    switch (op) {
      case 0: case 1: {  // write
        const int i = c.integer(0, (int)r.size() - 1), j = c.integer(0, (int)k.size() - 1);
        const bool alloc = c.boolean();
        M* m = a.s->block(i, j, alloc);
        c.eq(m != 0, alloc || a.in.count({i, j}) > 0, "block found");
        if (!m) break;
        c.nearMat(MatrixXd(*m), a.d.block(a.rb(i), a.kb(j), a.rn(i), a.kn(j)), 1e-9 * (1 + a.d.norm()), 0, "block before writing");
        a.in.insert({i, j});
        *m = mat(c, a.rn(i), a.kn(j), 3);
        a.d.block(a.rb(i), a.kb(j), a.rn(i), a.kn(j)) = *m;
        ++edits;
        break;
      }
      case 2: {
        const bool dealloc = c.boolean();
        a.s->clear(dealloc);
        a.d.setZero();
        if (dealloc) a.in.clear();
        break;
      }
      case 3: {
        const double f = c.real(-2, 2);
        if (c.boolean()) {
          a.s->scale(f);
          a.d *= f;
        } else if (c.boolean()) {
          *a.s *= f;
          a.d *= f;
        } else {
          Both<M> b = copied(a, std::make_shared<S>(*a.s * f));
          b.d *= f;
          same(c, b, "scaled copy");
        }
        break;
      }
      case 4: {  // copies are independent
        Both<M> b = copied(a, std::shared_ptr<S>());
        switch (c.integer(0, 3)) {
          case 0: b.s = std::make_shared<S>(*a.s); break;
          case 1: b.s.reset(a.s->clone()); break;
          case 2:
            b.s = fresh<M>(c, layout(c, c.integer(1, 4), fixedRows), layout(c, c.integer(1, 4), fixedCols)).s;
            *b.s = *a.s;
            break;
          default:
            b.s = std::make_shared<S>();
            a.s->cloneInto(*b.s);
        }
        same(c, b, "copy");
        a.s->clear(c.boolean());
        same(c, b, "copy of a matrix cleared since");
        a = b;  // go on with the copy
        break;
      }
      case 5: {  // moves
        Both<M> b = copied(a, std::shared_ptr<S>());
        if (c.boolean())
          b.s = std::make_shared<S>(std::move(*a.s));
        else {
          b.s = fresh<M>(c, layout(c, c.integer(1, 4), fixedRows), layout(c, c.integer(1, 4), fixedCols)).s;
          *b.s = std::move(*a.s);
        }
        a = b;
        same(c, a, "moved");
        break;
      }
      case 6: {
        S& self = *a.s;
        self = *a.s;
        same(c, a, "assigned to itself");
        break;
      }
      case 7: {  // slices
        const int r0 = c.integer(0, (int)r.size() - 1), r1 = c.integer(r0 + 1, (int)r.size());
        const int k0 = c.integer(0, (int)k.size() - 1), k1 = c.integer(k0 + 1, (int)k.size());
        const bool alloc = c.boolean();
        Both<M> b;
        for (int i = r0; i < r1; ++i) b.r.push_back(r[i] - a.rb(r0));
        for (int j = k0; j < k1; ++j) b.k.push_back(k[j] - a.kb(k0));
        b.d = a.d.block(a.rb(r0), a.kb(k0), b.r.back(), b.k.back());
        for (auto& e : a.in)
          if (e.first >= r0 && e.first < r1 && e.second >= k0 && e.second < k1) b.in.insert({e.first - r0, e.second - k0});
        if (c.boolean()) {
          b.s.reset(a.s->slice(r0, r1, k0, k1, alloc));
          same(c, b, alloc ? "slice" : "view");
          if (b.in.empty()) break;
          auto e = b.in.begin();
          std::advance(e, c.integer(0, (int)b.in.size() - 1));
          const MatrixXd v = mat(c, b.rn(e->first), b.kn(e->second), 3);
          *b.s->block(e->first, e->second) = v;
          if (!alloc) {
            a.d.block(a.rb(r0 + e->first), a.kb(k0 + e->second), v.rows(), v.cols()) = v;
            c.check(b.s->block(c.integer(0, (int)b.r.size() - 1), c.integer(0, (int)b.k.size() - 1), true) == 0 || b.in.size() > 0, "a view stores nothing");
            c.label("view");
          }
          b.s.reset();
          same(c, a, "after a slice was written and dropped");
        } else {
          b.s = std::make_shared<S>(b.r, b.k);
          if (c.boolean() && !b.in.empty()) b.s->block(b.in.begin()->first, b.in.begin()->second, true)->setConstant(7);
          a.s->sliceInto(r0, r1, k0, k1, *b.s);
          same(c, b, "slice into a matrix");
        }
        break;
      }
      case 8: {  // transposes
        Both<T> b;
        b.r = k;
        b.k = r;
        b.d = a.d.transpose();
        for (auto& e : a.in) b.in.insert({e.second, e.first});
        if (c.boolean()) {
          sbm::SparseBlockMatrix<T>* t = 0;
          c.check(a.s->transpose(t), "transpose");
          b.s.reset(t);
          same(c, b, "transpose");
          c.check(a.s->transpose(t), "transpose again");  // into the same matrix
          same(c, b, "transpose again");
          std::vector<int> other = k;
          other.back() += 1;
          sbm::SparseBlockMatrix<T> bad(other, r), *p = &bad;
          if (!fixedRows) c.check(!a.s->transpose(p), "transposing into another layout is refused");
        } else {
          typedef typename S::TransposedMatrixType R;
          Both<R> t;
          t.r = k;
          t.k = r;
          t.d = b.d;
          t.in = b.in;
          t.s = std::make_shared<sbm::SparseBlockMatrix<R> >(a.s->transpose());
          same(c, t, "transposed");
          c.nearMat(compressed(*t.s, false, false, c), t.d, 0, 0, "transposed, in compressed columns");
        }
        break;
      }
      case 9: {  // sums
        Both<M> b = fresh<M>(c, r, k);
        S* p = b.s.get();
        c.check(a.s->add(p) && p == b.s.get(), "add");
        b.d += a.d;
        b.in.insert(a.in.begin(), a.in.end());
        same(c, b, "sum");
        S* q = 0;
        c.check(a.s->add(q), "add to nothing");
        Both<M> e = copied(a, std::shared_ptr<S>(q));
        same(c, e, "sum with nothing");
        std::vector<int> other = r;
        other.push_back(other.back() + 1);
        S bad(other, k), *z = &bad;
        c.check(!a.s->add(z), "adding to another layout is refused");
        if (c.boolean()) a = b;
        break;
      }
      case 10: {  // products
        typedef Eigen::Matrix<double, M::ColsAtCompileTime, M::RowsAtCompileTime> F;
        Both<F> f = fresh<F>(c, k, layout(c, c.integer(1, 4), fixedRows));
        Both<MatrixXd> b;
        b.r = r;
        b.k = f.k;
        b.d = a.d * f.d;
        for (auto& e : a.in)
          for (auto& g : f.in)
            if (e.second == g.first) b.in.insert({e.first, g.second});
        if (c.boolean()) {
          sbm::SparseBlockMatrix<MatrixXd>* p = 0;
          c.check(a.s->multiply(p, f.s.get()), "multiply");
          b.s.reset(p);
        } else
          b.s = std::make_shared<Blocks>(*a.s * *f.s);
        same(c, b, "product");
        if (!fixedRows) {
          std::vector<int> other = k;
          other.back() += 1;
          sbm::SparseBlockMatrix<F> bad(other, r);
          sbm::SparseBlockMatrix<MatrixXd>* p = 0;
          c.check(!a.s->multiply(p, &bad) && !p, "multiplying different layouts is refused");
        }
        break;
      }
      case 11: {  // products with vectors
        const VectorXd x = vec(c, k.back(), 3), z = vec(c, r.back(), 3);
        VectorXd y = vec(c, r.back(), 5), w = vec(c, k.back(), 5);
        a.s->multiply(&y, x);
        c.nearMat(y, a.d * x, 1e-9 * (1 + a.d.norm()), 0, "product with a vector");
        a.s->rightMultiply(&w, z);
        c.nearMat(w, a.d.transpose() * z, 1e-9 * (1 + a.d.norm()), 0, "product of a row");
        double *p = 0, *q = 0;
        a.s->multiply(p, x.data());
        a.s->rightMultiply(q, z.data());
        c.nearMat(Eigen::Map<VectorXd>(p, r.back()), y, 1e-9 * (1 + a.d.norm()), 0, "product with an array");
        c.nearMat(Eigen::Map<VectorXd>(q, k.back()), w, 1e-9 * (1 + a.d.norm()), 0, "product of an array");
        delete[] p;
        delete[] q;
        break;
      }
      case 12: {  // compressed columns
        c.nearMat(compressed(*a.s, false, false, c), a.d, 0, 0, "compressed columns");
        break;
      }
      case 13: {  // structure
        if (a.in.empty()) break;
        sbm::MatrixStructure ms;
        if (c.boolean()) {  // used before
          Both<M> f = fresh<M>(c, layout(c, c.integer(1, 4), fixedRows), layout(c, c.integer(1, 4), fixedCols));
          if (!f.in.empty()) f.s->fillBlockStructure(ms);
        }
        a.s->fillBlockStructure(ms);
        c.eq(ms.n, (int)k.size(), "columns of the structure");
        c.eq(ms.m, (int)r.size(), "rows of the structure");
        std::set<std::pair<int, int> > got, want;
        for (int j = 0; j < ms.n; ++j)
          for (int q = ms.Ap[j]; q < ms.Ap[j + 1]; ++q) got.insert({ms.Aii[q], j});
        for (auto& e : a.in)
          if (e.first <= e.second) want.insert(e);
        c.check(got == want && ms.Ap[ms.n] == (int)want.size(), "block structure of the upper triangle");
        break;
      }
      case 14: {  // Octave
        Remove after;
        c.check(a.s->writeOctave(scratch().c_str(), false), "written");
        std::ifstream f(scratch());
        std::string line;
        int rows = -1, cols = -1, nnz = -1;
        while (f.peek() == '#' || f.peek() == '\n') {
          std::getline(f, line);
          std::sscanf(line.c_str(), "# rows: %d", &rows);
          std::sscanf(line.c_str(), "# columns: %d", &cols);
          std::sscanf(line.c_str(), "# nnz: %d", &nnz);
        }
        c.eq(rows, r.back(), "Octave rows");
        c.eq(cols, k.back(), "Octave columns");
        c.eq(nnz, (int)a.s->nonZeros(), "Octave entries");
        MatrixXd D = MatrixXd::Zero(r.back(), k.back());
        int i, j, lines = 0;
        double x;
        while (f >> i >> j >> x) {
          if (i < 1 || j < 1 || i > rows || j > cols) {
            c.fail("Octave index");
            break;
          }
          D(i - 1, j - 1) += x;
          ++lines;
        }
        c.eq(lines, nnz, "Octave lines");
        c.nearMat(D, a.d, 1e-7 * (1 + a.d.norm()), 0, "Octave values");
        break;
      }
      default: {
        std::ostringstream o;
        o << *a.s;
        size_t n = 0, at = 0;
        while ((at = o.str().find("BLOCK: ", at)) != std::string::npos) ++n, ++at;
        c.eq(n, a.in.size(), "printed blocks");
      }
    }
    same(c, a, "after the operation");
  }
  if (edits && a.in.size() > 1) c.nontrivial();
}
}  // namespace

PBT_CLAIM(blocks_of_any_size, 500) { history<MatrixXd>(c, 0, 0); }
PBT_CLAIM(blocks_of_fixed_size, 300) {
  switch (c.integer(0, 2)) {
    case 0: return history<Eigen::Matrix3d>(c, 3, 3);
    case 1: return history<Eigen::Matrix<double, 2, 3> >(c, 2, 3);
    default: return history<Eigen::Matrix<double, 1, 2> >(c, 1, 2);
  }
}

namespace {
// A positive definite matrix of which the upper triangle of blocks is stored
struct Symmetric {
  std::vector<int> l;
  std::shared_ptr<Blocks> s;
  MatrixXd d;
};
Symmetric symmetric(pbt::Case& c, const std::vector<int>& l, const std::set<std::pair<int, int> >& pattern, bool definite) {
  Symmetric m;
  m.l = l;
  m.s = std::make_shared<Blocks>(l, l);
  const int n = l.back();
  m.d = MatrixXd::Zero(n, n);
  for (auto& e : pattern) {
    const int i = e.first ? l[e.first - 1] : 0, j = e.second ? l[e.second - 1] : 0;
    const int r = l[e.first] - i, k = l[e.second] - j;
    const MatrixXd B = mat(c, r, k, 2);
    m.d.block(i, j, r, k) += B;
    m.d.block(j, i, k, r) += B.transpose();
  }
  m.d.diagonal().array() += 0.5 - std::min(0.0, Eigen::SelfAdjointEigenSolver<MatrixXd>(m.d).eigenvalues().minCoeff());
  if (!definite) m.d.diagonal().array() -= 1.5 * m.d.diagonal().maxCoeff();
  for (auto& e : pattern) {
    const int i = e.first ? l[e.first - 1] : 0, j = e.second ? l[e.second - 1] : 0;
    *m.s->block(e.first, e.second, true) = m.d.block(i, j, l[e.first] - i, l[e.second] - j);
  }
  return m;
}
std::set<std::pair<int, int> > pattern(pbt::Case& c, int n) {
  std::set<std::pair<int, int> > p;
  for (int i = 0; i < n; ++i)
    for (int j = i; j < n; ++j)
      if (i == j || c.oneIn(3)) p.insert({i, j});
  return p;
}
}  // namespace

PBT_CLAIM(symmetric_solvers, 400) {
  sbm::LinearSolverCholmod<MatrixXd> cholmod;
  sbm::LinearSolverDense<MatrixXd> dense;
  const bool ordering = c.boolean();
  cholmod.setBlockOrdering(ordering);
  c.eq(cholmod.blockOrdering(), ordering, "ordering");
  cholmod.init();
  dense.init();
  std::vector<int> l = layout(c, c.integer(1, 7), 0);
  std::set<std::pair<int, int> > p = pattern(c, (int)l.size());
  int solves = 0;
  for (int n = c.integer(1, 7); n > 0; --n) {
    if (c.oneIn(3)) {  // another structure
      l = layout(c, c.integer(1, c.oneIn(4) ? 12 : 7), 0);
      p = pattern(c, (int)l.size());
      cholmod.init();
    }
    const bool definite = !c.oneIn(6);
    const Symmetric m = symmetric(c, l, p, definite);
    const MatrixXd before = m.s->toDense();
    const MatrixXd inv = definite ? MatrixXd(m.d.inverse()) : m.d;
    const double t = 1e-8 * (1 + inv.norm()) * (1 + m.d.norm());
    c << (definite ? "solve\n" : "solve an indefinite matrix\n") << m.d << "\n";
    switch (c.integer(0, 3)) {
      case 0: case 1: {
        VectorXd b = vec(c, l.back(), 3), x = vec(c, l.back(), 3), y = x;
        const VectorXd want = inv * b, copy = b;
        const bool solved = cholmod.solve(*m.s, x.data(), b.data());
        c.check(solved || !definite, "solved");
        c.nearMat(b, copy, 0, 0, "right hand side kept");
        if (!definite) {  // refused, or an LDL' factorization that does not need it
          if (!solved) c.label("refused");
          break;
        }
        c.nearMat(x, want, t, 0, "solution");
        c.check(dense.solve(*m.s, y.data(), b.data()), "dense solved");
        c.nearMat(y, want, t, 0, "dense solution");
        ++solves;
        break;
      }
      case 2: {
        std::vector<VectorXd> store;
        std::vector<double*> at;
        for (size_t i = 0; i < l.size(); ++i) {
          const int k = l[i] - (i ? l[i - 1] : 0);
          store.push_back(VectorXd::Zero(k * k));
        }
        for (auto& s : store) at.push_back(s.data());
        double** blocks = c.boolean() ? &at[0] : 0;
        const bool own = !blocks;
        c.eq(cholmod.solveBlocks(blocks, *m.s), definite, "covariance blocks computed");
        if (blocks) {
          for (size_t i = 0; i < l.size(); ++i) {
            const int o = i ? l[i - 1] : 0, k = l[i] - o;
            if (definite) c.nearMat(Eigen::Map<MatrixXd>(blocks[i], k, k), inv.block(o, o, k, k), t, 0, "covariance block");
            if (own) delete[] blocks[i];
          }
          if (own) delete[] blocks;
        }
        ++solves;
        break;
      }
      default: {
        std::vector<std::pair<int, int> > want;
        for (size_t i = 0; i < l.size(); ++i)
          for (size_t j = 0; j < l.size(); ++j)
            if (c.oneIn(3)) want.push_back({(int)i, (int)j});
        if (want.empty()) want.push_back({0, 0});
        Blocks out;
        c.eq(cholmod.solvePattern(out, want, *m.s), definite, "covariance pattern computed");
        if (definite) {
          c.check(out.rowBlockIndices() == l && out.colBlockIndices() == l, "layout of the covariance");
          c.eq(out.nonZeroBlocks(), want.size(), "blocks of the covariance");
          for (auto& e : want) {
            const int i = e.first ? l[e.first - 1] : 0, j = e.second ? l[e.second - 1] : 0;
            const MatrixXd* b = out.block(e.first, e.second);
            if (!b) return c.fail("missing covariance block");
            c.nearMat(*b, inv.block(i, j, l[e.first] - i, l[e.second] - j), t, 0, "covariance block of the pattern");
          }
        }
        ++solves;
      }
    }
    c.nearMat(m.s->toDense(), before, 0, 0, "matrix kept");
  }
  if (solves > 1 && l.size() > 1) c.nontrivial();
}

// Operations on matrices of which the upper triangle is stored
PBT_CLAIM(upper_triangles, 300) {
  const std::vector<int> l = layout(c, c.integer(1, 6), 0);
  const int n = (int)l.size();
  const Symmetric m = symmetric(c, l, pattern(c, n), true);
  c.nearMat(compressed(*m.s, false, true, c), m.d, 0, 0, "whole matrix in compressed columns");
  c.nearMat(compressed(*m.s, true, false, c), MatrixXd(m.d.triangularView<Eigen::Upper>()), 0, 0, "upper triangle in compressed columns");
  std::vector<int> to(n);
  for (int i = 0; i < n; ++i) to[i] = i;
  for (int i = n; i > 1; --i) std::swap(to[i - 1], to[c.integer(0, i - 1)]);
  std::vector<int> size(n), want;
  for (int i = 0; i < n; ++i) size[to[i]] = l[i] - (i ? l[i - 1] : 0);
  for (int i = 0; i < n; ++i) want.push_back(size[i] + (i ? want.back() : 0));
  MatrixXd P = MatrixXd::Zero(l.back(), l.back());
  for (int i = 0; i < n; ++i) {
    const int from = i ? l[i - 1] : 0, k = l[i] - from;
    P.block(to[i] ? want[to[i] - 1] : 0, from, k, k).setIdentity();
  }
  Blocks* q = 0;
  const bool reuse = c.boolean();
  if (reuse) {
    q = new Blocks(want, want);
    for (int i = 0; i < n; ++i)
      if (c.boolean()) q->block(0, i, true)->setConstant(3);
  }
  c.check(m.s->symmPermutation(q, &to[0], true), "permuted");
  std::unique_ptr<Blocks> own(q);
  if (q) {
    c.check(q->rowBlockIndices() == want && q->colBlockIndices() == want, "layout of the permuted matrix");
    MatrixXd D = q->toDense();
    for (int j = 0; j < n; ++j)
      for (int i = j + 1; i < n; ++i) c.check(q->isBlockSet(i, j) == false, "only the upper triangle is written");
    D = MatrixXd(D.triangularView<Eigen::Upper>()) + MatrixXd(D.triangularView<Eigen::StrictlyUpper>()).transpose();
    c.nearMat(D, P * m.d * P.transpose(), 1e-12 * m.d.norm(), 0, "permuted matrix");
  }
  Blocks* w = 0;
  c.check(m.s->symmPermutation(w, &to[0], false), "permuted, all blocks");
  std::unique_ptr<Blocks> own2(w);
  c.nearMat(w->toDense(), P * m.s->toDense() * P.transpose(), 0, 0, "all blocks permuted");
  // Schur complement of the last blocks, which have no common entries
  const int first = c.integer(1, n);
  std::set<std::pair<int, int> > arrow;
  for (auto& e : pattern(c, n))
    if (e.first < first || e.first == e.second) arrow.insert(e);
  Symmetric H = symmetric(c, l, arrow, true);
  const VectorXd rhs = vec(c, l.back(), 3);
  const bool lm = c.boolean();
  const double lambda = c.logReal(1e-3, 10);
  const std::vector<int> top(l.begin(), l.begin() + first);
  Blocks A(top, top);
  std::vector<MatrixXd> inv(n - first);
  VectorXd b;
  if (first < n) {
    aslam::backend::applySchurComplement(*H.s, rhs, lambda, first, lm, A, inv, b);
    MatrixXd F = H.d;
    if (lm) F.diagonal().array() += lambda;
    const int k = top.back(), r = l.back() - k;
    const MatrixXd V = F.bottomRightCorner(r, r).inverse();
    const MatrixXd S = F.topLeftCorner(k, k) - F.topRightCorner(k, r) * V * F.bottomLeftCorner(r, k);
    const double t = 1e-9 * (1 + V.norm()) * (1 + F.norm()) * (1 + F.norm());
    MatrixXd D = A.toDense();
    D = MatrixXd(D.triangularView<Eigen::Upper>());
    c.nearMat(D, MatrixXd(S.triangularView<Eigen::Upper>()), t, 0, "Schur complement");
    c.nearMat(b, rhs.head(k) - F.topRightCorner(k, r) * V * rhs.tail(r), t, 0, "reduced right hand side");
    const VectorXd x = F.ldlt().solve(rhs);
    for (int i = 0; i < n - first; ++i) {
      VectorXd ds;
      aslam::backend::buildDsi(i, *H.s, rhs, first, inv[i], x.head(k), ds);
      const int o = l[first + i - 1];
      c.nearMat(ds, x.segment(o, l[first + i] - o), t * (1 + x.norm()), 0, "eliminated variable");
    }
    c.label("eliminated");
  }
  if (n > 2) c.nontrivial();
}

namespace {
template <class I> void compressedColumns(pbt::Case& c) {
  typedef CompressedColumnMatrix<I> CCM;
  const int rows = c.integer(1, 8);
  // Variables that make up the rows
  std::vector<std::shared_ptr<DesignVariable> > vars;
  int n = 0;
  while (n < rows) {
    vars.push_back(variable(VectorXd::Zero(c.integer(1, std::min(4, rows - n)))));
    vars.back()->setBlockIndex((int)vars.size() - 1);
    vars.back()->setColumnBase(n);
    vars.back()->setActive(true);
    n += vars.back()->minimalDimensions();
  }
  CCM m;
  MatrixXd d(rows, 0);
  bool diagonal = false;
  m.init(rows, 0, 10, 3);
  int grown = 0;
  struct Slot { JacobianColumnPointer at; int column; std::vector<int> vars; int size; };
  std::vector<Slot> slots;
  for (int k = c.integer(3, 14); k > 0; --k) {
    const int op = c.integer(0, 11);
    c << "op " << op << "\n";
    const int cols = (int)d.cols();
    switch (op) {
      case 0: case 1: case 2: {  // Jacobians
        if (diagonal) {
          bool threw = false;
          try {
            m.appendJacobiansSymbolic(1, std::vector<DesignVariable*>(1, vars[0].get()));
          } catch (const typename CCM::Exception&) { threw = true; }
          c.check(threw, "growing after a diagonal is refused");
          break;
        }
        Slot s;
        s.size = c.integer(1, 3);
        s.column = cols;
        for (size_t i = 0; i < vars.size(); ++i)
          if (c.boolean()) s.vars.push_back((int)i);
        if (s.vars.empty()) s.vars.push_back(c.integer(0, (int)vars.size() - 1));
        JacobianContainer j(s.size);
        std::vector<DesignVariable*> list;
        MatrixXd B = MatrixXd::Zero(rows, s.size);
        for (int i : s.vars) {
          const MatrixXd J = mat(c, s.size, vars[i]->minimalDimensions(), 3);
          j.add(vars[i].get(), J);
          list.push_back(vars[i].get());
          B.middleRows(vars[i]->columnBase(), J.cols()) = J.transpose();
        }
        std::reverse(list.begin(), list.end());
        if (c.boolean())
          m.appendJacobians(j);
        else {
          s.at = m.appendJacobiansSymbolic(s.size, list);
          m.writeJacobians(j, s.at);
          slots.push_back(s);
        }
        d.conservativeResize(rows, cols + s.size);
        d.rightCols(s.size) = B;
        ++grown;
        break;
      }
      case 3: {  // rewrite
        if (slots.empty()) break;
        const Slot& s = slots[c.integer(0, (int)slots.size() - 1)];
        JacobianContainer j(s.size);
        for (int i : s.vars) {
          const MatrixXd J = mat(c, s.size, vars[i]->minimalDimensions(), 3);
          j.add(vars[i].get(), J);
          d.block(vars[i]->columnBase(), s.column, J.cols(), s.size) = J.transpose();
        }
        m.writeJacobians(j, s.at);
        break;
      }
      case 4: case 5: {  // diagonal
        const VectorXd v = c.boolean() ? VectorXd(VectorXd::Constant(rows, c.real(-3, 3))) : vec(c, rows, 3);
        const bool constant = v == VectorXd(VectorXd::Constant(rows, v(0))) && c.boolean();
        bool threw = false;
        if (c.boolean()) {
          try {
            if (constant) m.pushConstantDiagonalBlock(v(0)); else m.pushDiagonalBlock(v);
          } catch (const typename CCM::Exception&) { threw = true; }
          c.eq(threw, diagonal, "a second diagonal is refused");
          if (!diagonal) {
            d.conservativeResize(rows, cols + rows);
            d.rightCols(rows) = v.asDiagonal();
            diagonal = true;
          }
        } else {
          try {
            if (constant) m.updateConstantDiagonalBlock(v(0)); else m.updateDiagonalBlock(v);
          } catch (const typename CCM::Exception&) { threw = true; }
          c.eq(threw, !diagonal, "updating a missing diagonal is refused");
          if (diagonal) d.rightCols(rows) = v.asDiagonal();
        }
        break;
      }
      case 6: {
        bool threw = false;
        try {
          m.popDiagonalBlock();
        } catch (const typename CCM::Exception&) { threw = true; }
        c.eq(threw, !diagonal, "popping a missing diagonal is refused");
        if (diagonal) d = MatrixXd(d.leftCols(cols - rows));
        diagonal = false;
        break;
      }
      case 7: {  // products, without the diagonal
        const int k = diagonal ? cols - rows : cols;
        const VectorXd x = vec(c, k, 3), y = vec(c, rows, 3);
        VectorXd p, q;
        m.rightMultiply(x, p);
        m.leftMultiply(y, q);
        c.nearMat(p, d.leftCols(k) * x, 1e-10 * (1 + d.norm()), 0, "product");
        c.nearMat(q, d.leftCols(k).transpose() * y, 1e-10 * (1 + d.norm()), 0, "product of the transpose");
        break;
      }
      case 8: {  // from a dense matrix
        MatrixXd D = mat(c, rows, c.integer(0, 5), 3);
        for (int i = 0; i < D.size(); ++i)
          if (c.oneIn(3)) D(i % rows, i / rows) = 0;
        const double t = c.boolean() ? 0 : c.real(-2, 2);
        if (t == 0 && c.boolean()) m.fromDense(D); else m.fromDenseTolerance(D, t);
        d = D;
        diagonal = false;
        size_t nnz = 0;
        for (int i = 0; i < d.size(); ++i) {
          double& v = d(i % rows, i / rows);
          if (std::fabs(v) <= std::fabs(t)) v = 0;
          nnz += v != 0;
        }
        c.eq(m.nnz(), nnz, "entries kept");
        slots.clear();
        break;
      }
      case 9: {  // through cholmod
        if (cols == 0 || m.nnz() == 0) break;
        Cholmod<I> ch;
        cholmod_sparse view;
        m.getView(&view);
        c.eq((int)view.nrow, rows, "rows of the view");
        c.eq((int)view.ncol, cols, "columns of the view");
        const int at = c.integer(0, cols - 1);
        c.near(ch.colNorm(&view, at), d.col(at).norm(), 1e-10 * (1 + d.norm()), 0, "norm of a column");
        cholmod_sparse* A = ch.aat(&view);
        if (!A) {
          c.fail("no product");
          break;
        }
        CCM copy, product;
        product.fromCholmodSparse(A);
        MatrixXd P;
        product.toDenseInto(P);
        c.nearMat(P, d * d.transpose(), 1e-9 * (1 + d.norm()) * (1 + d.norm()), 0, "product with its transpose");
        ch.free(A);
        copy.fromCholmodSparse(&view);
        MatrixXd C;
        copy.toDenseInto(C);
        c.nearMat(C, d, 0, 0, "read back from the view");
        // with room to spare, as cholmod often allocates
        std::vector<I> roomy(m.row_ind());
        std::vector<double> values(m.values());
        roomy.resize(roomy.size() + c.integer(0, 5), 99);
        values.resize(roomy.size(), 99);
        view.nzmax = roomy.size();
        view.i = &roomy[0];
        view.x = &values[0];
        m.fromCholmodSparse(&view);
        diagonal = false;
        slots.clear();
        break;
      }
      case 10: {  // text
        std::ostringstream o;
        m.writeMATLAB(o);
        std::istringstream f(o.str());
        MatrixXd D = MatrixXd::Zero(rows, cols);
        int i, j;
        double x;
        while (f >> i >> j >> x) {
          if (i < 1 || j < 1 || i > rows || j > cols) {
            c.fail("index out of range");
            break;
          }
          D(i - 1, j - 1) = x;
        }
        c.nearMat(D, d, 1e-14 + 1e-14 * d.norm(), 0, "MATLAB text");
        break;
      }
      default: {
        if (diagonal || !c.oneIn(3)) break;
        slots.clear();
        if (c.boolean()) {
          m.clear();
          d.setZero();
        } else {
          m.init(rows, 0, c.integer(0, 20), c.integer(0, 5));
          d.resize(rows, 0);
        }
        MatrixXd D;
        m.toDenseInto(D);
        c.nearMat(D, d, 0, 0, "cleared");
        c.eq(m.nnz(), (size_t)0, "entries after clearing");
        c.label("cleared");
      }
    }
    c.eq((int)m.rows(), rows, "rows");
    c.eq((int)m.cols(), (int)d.cols(), "columns");
    MatrixXd D;
    m.toDenseInto(D);
    c.nearMat(D, d, 0, 0, "values");
    c.nearMat(static_cast<const Matrix&>(m).toDense(), d, 0, 0, "values through the base");
    if (d.cols()) {
      const int i = c.integer(0, rows - 1), j = c.integer(0, (int)d.cols() - 1);
      c.eq(m(i, j), d(i, j), "entry");
      c.eq(m.value(i, j), d(i, j), "value");
      bool threw = false;
      try {
        if (c.boolean()) m.value(rows, j); else m.value(i, d.cols());
      } catch (const typename CCM::Exception&) { threw = true; }
      c.check(threw, "an index out of range is refused");
    }
    c.eq(m.values().size(), m.nnz(), "values stored");
    c.eq(m.row_ind().size(), m.nnz(), "rows stored");
    c.eq(m.col_ptr().size(), (size_t)d.cols() + 1, "column pointers");
  }
  if (grown > 1) c.nontrivial();
}
}  // namespace
PBT_CLAIM(compressed_columns, 400) { compressedColumns<int>(c); }
PBT_CLAIM(compressed_columns_long, 400) { compressedColumns<SuiteSparse_long>(c); }

// The three matrix classes behind the common base
PBT_CLAIM(same_matrix, 300) {
  const std::vector<int> r = layout(c, c.integer(1, 5), 0), k = layout(c, c.integer(1, 5), 0);
  std::shared_ptr<Matrix> m;
  switch (c.integer(0, 2)) {
    case 0: m = std::make_shared<DenseMatrix>(); break;
    case 1: m = std::make_shared<CompressedColumnMatrix<int> >(); break;
    default: {
      auto w = std::make_shared<SparseBlockMatrixWrapper>();
      w->_M = *fresh<MatrixXd>(c, r, k).s;
      m = w;
    }
  }
  for (int n = c.integer(1, 3); n > 0; --n) {
    MatrixXd D = mat(c, r.back(), k.back(), 3);
    for (int i = 0; i < D.size(); ++i)
      if (c.oneIn(3)) D(i % D.rows(), i / D.rows()) = 0;
    const double t = c.boolean() ? 0 : c.real(0, 2);
    if (t == 0) m->fromDense(D); else m->fromDenseTolerance(D, t);
    for (int i = 0; i < D.size(); ++i)
      if (std::fabs(D(i % D.rows(), i / D.rows())) <= t) D(i % D.rows(), i / D.rows()) = 0;
    c.eq((int)m->rows(), (int)D.rows(), "rows");
    c.eq((int)m->cols(), (int)D.cols(), "columns");
    c.nearMat(m->toDense(), D, 0, 0, "dense");
    const int i = c.integer(0, r.back() - 1), j = c.integer(0, k.back() - 1);
    c.eq((*m)(i, j), D(i, j), "entry");
    const VectorXd x = vec(c, k.back(), 3), y = vec(c, r.back(), 3);
    VectorXd p, q;
    m->rightMultiply(x, p);
    m->leftMultiply(y, q);
    c.nearMat(p, D * x, 1e-10 * (1 + D.norm()), 0, "product");
    c.nearMat(q, D.transpose() * y, 1e-10 * (1 + D.norm()), 0, "product of the transpose");
    std::ostringstream o;
    m->Matrix::write(o);
    std::istringstream f(o.str());
    double v, worst = 0;
    int at = 0;
    while (f >> v) {
      if (at < D.size()) worst = std::max(worst, std::fabs(v - D(at / D.cols(), at % D.cols())));
      ++at;
    }
    c.eq(at, (int)D.size(), "printed entries");
    c.check(worst < 1e-5, "printed values");
  }
  c.nontrivial();
}

PBT_MAIN("B07", "a matrix of several blocks or columns was written and edited, or several systems were solved with one solver")

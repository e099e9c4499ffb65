// U01: matrix archives, boost archives and property trees against models of what was put in.
#include <pbt.hpp>
#include <num.hpp>
#include <archive.hpp>
#include <cameras.hpp>
#include <sm_matrix_archive/MatrixArchive.hpp>
#include <sm_property_tree/BoostPropertyTree.hpp>
#include <sm_eigen/serialization.hpp>
#include <sm_eigen/property_tree.hpp>
#include <sm_kinematics/property_tree.hpp>
#include <sm_kinematics/UncertainTransformation.hpp>
#include <sm_kinematics/UncertainHomogeneousPoint.hpp>
#include <sm_kinematics/UncertainVector.hpp>
#include <sm_kinematics/rotations.hpp>
#include <sm_kinematics/quaternion_algebra.hpp>
#include <sm_opencv/serialization.hpp>
#include <sm_boost/serialization.hpp>
#include <sm_boost/ptime.hpp>
#include <sm_common/serialization_macros.hpp>
#include <boost/date_time/posix_time/posix_time.hpp>
#include <boost/make_shared.hpp>
#include <boost/serialization/map.hpp>
#include <boost/serialization/set.hpp>
#include <boost/serialization/shared_ptr.hpp>
#include <boost/serialization/string.hpp>
#include <boost/serialization/vector.hpp>
#include <aslam_cv_serialization/LinkCvSerialization.hpp>
#include <climits>
#include <limits>

using Eigen::MatrixXd; using Eigen::VectorXd;
using pbt::Case;
namespace {
struct Scratch {
  std::string dir;
  Scratch() {
    char t[] = "/tmp/pbt_u01_XXXXXX";
    if (!mkdtemp(t)) throw std::runtime_error("mkdtemp");
    dir = t;
  }
  ~Scratch() { boost::system::error_code e; boost::filesystem::remove_all(dir, e); }
  std::string operator()(const std::string& n) const { return dir + "/" + n; }
};
std::string slurp(const std::string& f) {
  std::ifstream i(f.c_str(), std::ios::binary);
  return std::string((std::istreambuf_iterator<char>(i)), std::istreambuf_iterator<char>());
}
void spit(const std::string& f, const std::string& s) {
  std::ofstream o(f.c_str(), std::ios::binary);
  o.write(s.data(), s.size());
  o.close();
  if (!o) throw std::runtime_error("scratch file");
}
// no file can grow beyond n bytes, as on a full disk
struct FullDisk {
  rlimit old;
  sighandler_t sig;
  explicit FullDisk(size_t n) {
    getrlimit(RLIMIT_FSIZE, &old);
    sig = signal(SIGXFSZ, SIG_IGN);
    rlimit l = old;
    l.rlim_cur = n;
    setrlimit(RLIMIT_FSIZE, &l);
  }
  ~FullDisk() { setrlimit(RLIMIT_FSIZE, &old); signal(SIGXFSZ, sig); }
};
template <class F> bool throws(F f) {
  try { f(); } catch (const pbt::Failure&) { throw; } catch (const std::exception&) { return true; }
  return false;
}
template <class E, class F> bool throwsA(F f) {
  try { f(); } catch (const E&) { return true; } catch (const pbt::Failure&) { throw; } catch (const std::exception&) {}
  return false;
}
double special(Case& c, bool finite) {
  const double inf = std::numeric_limits<double>::infinity();
  switch (c.bits(finite ? 7 : 10)) {
    case 0: return 0;
    case 1: return c.integer(-9, 9);
    case 2: return c.sign() * c.logReal(1e-300, 1e300);
    case 3: return -0.0;
    case 4: return c.pick({std::numeric_limits<double>::max(), std::numeric_limits<double>::min(), std::numeric_limits<double>::epsilon(), 1. / 3, 0.1});
    case 7: return inf;
    case 8: return -inf;
    case 9: return std::numeric_limits<double>::quiet_NaN();
    default: return c.real(-100, 100);
  }
}
MatrixXd anyMat(Case& c, int r, int k, bool finite = false) {
  MatrixXd m(r, k);
  for (int i = 0; i < r; ++i) for (int j = 0; j < k; ++j) m(i, j) = special(c, finite);
  return m;
}
bool same(const MatrixXd& a, const MatrixXd& b) {
  return a.rows() == b.rows() && a.cols() == b.cols() && (a.size() == 0 || !std::memcmp(a.data(), b.data(), a.size() * sizeof(double)));
}
std::string bytes(Case& c, int maxLen) {
  std::string s(c.integer(0, maxLen), 'x');
  const int style = c.bits(3);
  for (auto& ch : s) ch = style == 0 ? char('a' + c.bits(26)) : style == 1 ? char(32 + c.bits(95)) : char(c.bits(256));
  return s;
}

// ---------------------------------------------------------------- matrix archive
typedef sm::MatrixArchive Archive;
typedef sm::MatrixArchiveException ArchiveError;
struct Entry { bool isString; MatrixXd m; std::string s; };
typedef std::map<std::string, Entry> Model;
bool sameEntry(const Entry& a, const Entry& b) { return a.isString == b.isString && (a.isString ? a.s == b.s : same(a.m, b.m)); }

void compare(Case& c, const Archive& a, const Model& m, const std::string& when) {
  size_t ns = 0, nm = 0;
  for (auto& e : m) (e.second.isString ? ns : nm)++;
  c.eq(a.sizeStrings(), ns, when + "number of strings");
  c.eq(a.sizeMatrices(), nm, when + "number of matrices");
  c.eq(a.size(), ns + nm, when + "number of entries");
  c.eq((size_t)std::distance(a.begin(), a.end()), nm, when + "number of matrices listed");
  c.eq(a.getStrings().size(), ns, when + "number of strings listed");
  for (auto& e : m) {
    if (e.second.isString) {
      auto it = a.getStrings().find(e.first);
      c.check(it != a.getStrings().end(), when + "string " + e.first + " is missing");
      c.check(it->second == e.second.s, when + "string " + e.first + " differs");
      c.check(a.find(e.first) == a.end(), when + "string " + e.first + " is also a matrix");
    } else {
      auto it = a.find(e.first);
      c.check(it != a.end(), when + "matrix " + e.first + " is missing");
      c.check(same(it->second, e.second.m), when + "matrix " + e.first + " differs");
      c.check(!a.getStrings().count(e.first), when + "matrix " + e.first + " is also a string");
    }
  }
}
bool validName(const std::string& n) {
  if (n.empty() || n.size() > 32 || !((n[0] >= 'a' && n[0] <= 'z') || (n[0] >= 'A' && n[0] <= 'Z'))) return false;
  for (char ch : n) if (!((ch >= 'a' && ch <= 'z') || (ch >= 'A' && ch <= 'Z') || (ch >= '0' && ch <= '9') || ch == '_')) return false;
  return true;
}
std::string aName(Case& c) {
  if (c.oneIn(8)) return c.pick<std::string>({std::string(32, 'n'), "Z", "a_b_1", std::string(31, 'm') + "_"});
  return c.pick<std::string>({"a", "b", "c", "x1", "Name_2"});
}
std::string badName(Case& c) {
  return c.pick<std::string>({"", "1a", "_a", "a b", "a-b", std::string(33, 'n'), "a.b", "\xc3\xa4", " a", "a ", "a\n"});
}
// adds one entry to both
void put(Case& c, Archive& a, Model& m) {
  const std::string n = aName(c);
  Entry e;
  e.isString = false;
  switch (c.bits(6)) {
    case 0: e.isString = true; e.s = bytes(c, 20); a.setString(n, e.s); c << "setString(" << n << ") "; break;
    case 1: e.m = anyMat(c, 1, 1); a.setScalar(n, e.m(0, 0)); c << "setScalar(" << n << ") "; break;
    case 2: {
      VectorXd v = anyMat(c, c.integer(0, 5), 1);
      e.m = v;
      c.boolean() ? a.setVector(n, v) : a.setVectorXd(n, v);
      c << "setVector(" << n << ":" << v.size() << ") ";
      break;
    }
    case 3: {
      const int r = c.integer(0, 4), k = c.integer(0, 4);
      const bool over = c.boolean(), there = m.count(n) && !m[n].isString;
      e.m = anyMat(c, r, k);
      c << "createMatrix(" << n << "," << r << "," << k << "," << over << ") ";
      if (there && !over) {
        c.check(throwsA<ArchiveError>([&] { a.createMatrix(n, r, k, false); }), "createMatrix replaced a matrix it was told to keep");
        return;
      }
      MatrixXd& M = a.createMatrix(n, r, k, over);
      c.check(M.rows() == r && M.cols() == k, "size of the created matrix");
      M = e.m;
      break;
    }
    default: {
      e.m = anyMat(c, c.integer(0, 5), c.integer(0, 5));
      c << "setMatrix(" << n << "," << e.m.rows() << "x" << e.m.cols() << ") ";
      if (c.boolean()) a.setMatrixXd(n, e.m);
      else if (c.boolean()) a.setMatrix(n, Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor>(e.m));
      else a.setMatrix(n, e.m);
      break;
    }
  }
  m[n] = e;
}
std::set<std::string> aFilter(Case& c) {
  std::set<std::string> f;
  if (c.boolean()) for (int i = 0, n = c.integer(1, 3); i < n; ++i) f.insert(aName(c));
  return f;
}
void through(Model& to, const Model& from, const std::set<std::string>& f) {
  for (auto& e : from) if (f.empty() || f.count(e.first)) to[e.first] = e.second;
}
}  // namespace

PBT_CLAIM(matrix_archive_history, 800) {
  Scratch dir;
  Archive a;
  Model m;
  std::vector<Model> files(2);  // what a load of each file gives
  std::vector<bool> written(2, false);
  const int steps = c.integer(1, 14);
  for (int s = 0; s < steps; ++s) {
    const int which = c.bits(2);
    const std::string path = dir(which ? "f1.ama" : "f0.ama");
    switch (c.bits(14)) {
      case 0: {
        const std::string n = badName(c);
        c << "bad name '" << n << "' ";
        c.check(throwsA<ArchiveError>([&] { a.setScalar(n, 1); }), "setScalar accepted the name '" + n + "'");
        c.check(throwsA<ArchiveError>([&] { a.setString(n, "x"); }), "setString accepted the name '" + n + "'");
        c.check(throwsA<ArchiveError>([&] { a.setMatrix(n, MatrixXd(1, 1)); }), "setMatrix accepted the name '" + n + "'");
        c.check(throwsA<ArchiveError>([&] { a.setVector(n, VectorXd(1)); }), "setVector accepted the name '" + n + "'");
        c.check(throwsA<ArchiveError>([&] { a.createMatrix(n, 1, 1); }), "createMatrix accepted the name '" + n + "'");
        c.check(throwsA<ArchiveError>([&] { a.setVector("ok", MatrixXd(1, 2)); }), "setVector accepted two columns");
        break;
      }
      case 1: {
        const std::string n = aName(c);
        c << "clear(" << n << ") ";
        a.clear(n);
        m.erase(n);
        break;
      }
      case 2: if (c.oneIn(3)) { c << "clear() "; a.clear(); m.clear(); } break;
      case 3: case 4: {
        const auto f = aFilter(c);
        c << "save" << which << "/" << f.size() << " ";
        if (!f.empty()) a.save(boost::filesystem::path(path), f);
        else if (c.boolean()) a.save(path);
        else a.save(boost::filesystem::path(path));
        files[which].clear();
        through(files[which], m, f);
        written[which] = true;
        std::ostringstream o(std::ios::binary);
        a.save(o, f);
        c.check(o.str() == slurp(path), "saving to a stream and to a file gives different archives");
        c.label("saved");
        break;
      }
      case 5: {
        const auto f = aFilter(c);
        c << "append" << which << "/" << f.size() << " ";
        if (!f.empty()) a.append(boost::filesystem::path(path), f);
        else if (c.boolean()) a.append(path);
        else a.append(boost::filesystem::path(path));
        through(files[which], m, f);
        written[which] = true;
        c.label("appended");
        break;
      }
      case 6: case 7: {
        const auto f = aFilter(c);
        c << "load" << which << "/" << f.size() << " ";
        if (!written[which]) {
          c.check(throwsA<ArchiveError>([&] { a.load(boost::filesystem::path(path), f); }), "loading a missing file did not fail");
          break;
        }
        if (!f.empty()) a.load(boost::filesystem::path(path), f);
        else if (c.boolean()) a.load(path);
        else a.load(boost::filesystem::path(path));
        through(m, files[which], f);
        if (!files[which].empty()) c.nontrivial();
        c.label("loaded");
        break;
      }
      case 8: {  // amend in place
        if (m.empty()) break;
        auto it = m.begin();
        std::advance(it, c.bits(m.size()));
        if (it->second.isString) { it->second.s += "+"; a.getString(it->first) += "+"; }
        else if (it->second.m.size()) { const double v = special(c, true); it->second.m(0, 0) = v; a.getMatrix(it->first)(0, 0) = v; }
        break;
      }
      default: put(c, a, m);
    }
    compare(c, a, m, "");
    const std::string n = aName(c);
    auto it = m.find(n);
    const bool str = it != m.end() && it->second.isString, mat = it != m.end() && !str;
    const Archive& k = a;
    Eigen::MatrixXd om; Eigen::VectorXd ov; double od = 0; std::string os;
    c.check(throwsA<ArchiveError>([&] { k.getString(n); }) == !str, "getString(" + n + ")");
    c.check(throwsA<ArchiveError>([&] { k.getMatrix(n); }) == !mat, "getMatrix(" + n + ")");
    c.check(throwsA<ArchiveError>([&] { k.getMatrix(n, om); }) == !mat, "getMatrix(" + n + ", M)");
    c.check(throwsA<ArchiveError>([&] { k.getVector(n, ov); }) == !(mat && it->second.m.cols() == 1), "getVector(" + n + ")");
    const bool scalar = mat && it->second.m.rows() == 1 && it->second.m.cols() == 1;
    c.check(throwsA<ArchiveError>([&] { k.getScalar(n, od); }) == !scalar, "getScalar(" + n + ")");
    if (str) { k.getString(n, os); c.check(os == it->second.s, "getString value"); }
    if (mat) c.check(same(om, it->second.m), "getMatrix value");
    if (mat && om.cols() == 1) c.check(same(ov, it->second.m), "getVector value");
    if (scalar) { const double x = k.getScalar(n); c.check(!std::memcmp(&x, it->second.m.data(), 8) && !std::memcmp(&od, it->second.m.data(), 8), "getScalar value"); }
  }
}

namespace {
// the file format, read independently; false: must be refused. `open` is set when the format leaves it open.
bool parse(const std::string& s, std::vector<std::pair<std::string, Entry>>& out, bool& open) {
  size_t p = 0;
  auto left = [&] { return s.size() - p; };
  while (p < s.size()) {
    const char kind = s[p++];
    if ((kind != 'A' && kind != 'S') || left() < 32) return false;
    std::string n = s.substr(p, 32);
    p += 32;
    for (unsigned char ch : n) if (ch < 32 || ch > 126) open = true;
    const size_t b = n.find_first_not_of(' ');
    n = b == std::string::npos ? "" : n.substr(b, n.find_last_not_of(' ') - b + 1);
    Entry e;
    e.isString = kind == 'S';
    uint32_t r = 0, k = 1;
    if (left() < 4) return false;
    std::memcpy(&r, &s[p], 4); p += 4;
    if (!e.isString) {
      if (left() < 4) return false;
      std::memcpy(&k, &s[p], 4); p += 4;
    }
    const unsigned __int128 size = (unsigned __int128)r * k * (e.isString ? 1 : 8);
    if (size > left()) return false;
    if (e.isString) e.s = s.substr(p, r);
    else { e.m.resize(r, k); if (size) std::memcpy(e.m.data(), &s[p], (size_t)size); }
    p += (size_t)size;
    if (!left() || s[p++] != 'B') return false;
    if (!validName(n)) return false;
    out.push_back({n, e});
  }
  return true;
}
}  // namespace

PBT_CLAIM(matrix_archive_damage, 1500) {
  Scratch dir;
  Archive a;
  Model m;
  for (int i = 0, n = c.integer(1, 4); i < n; ++i) put(c, a, m);
  const std::string path = dir("f.ama");
  a.save(path);
  std::string s = slurp(path);
  {
    std::vector<std::pair<std::string, Entry>> got;
    bool open = false;
    c.check(parse(s, got, open) && got.size() == m.size(), "the saved file is not in the archive format");
    for (auto& g : got) c.check(m.count(g.first) && sameEntry(m[g.first], g.second), "the saved file holds a different " + g.first);
  }
  const std::string whole = s;
  const int kind = c.bits(5);
  if (kind == 0 && !s.empty()) {
    s.resize(c.integer(0, s.size() - 1));
    c << "| cut to " << s.size() << " of " << whole.size();
    c.label("truncated");
  } else if (kind == 1) {
    const size_t at = c.integer(0, s.size() - 1);
    s.erase(at, c.integer(1, 12));
    c.label("bytes lost");
  } else if (kind == 2) {
    s.insert(c.integer(0, s.size()), bytes(c, 6));
    c.label("bytes inserted");
  } else {
    for (int i = 0, n = c.integer(1, 2); i < n; ++i) {
      size_t at;
      if (c.boolean()) at = c.integer(0, s.size() - 1);
      else at = c.pick({0, 33, 34, 35, 36, 37, 38, 39, 40, 1, 32});  // the first block's marker, name and sizes
      if (at >= s.size()) at = s.size() - 1;
      s[at] = c.boolean() ? char(c.bits(256)) : char(s[at] ^ (1 << c.bits(8)));
    }
    c.label("bytes changed");
  }
  spit(path, s);
  std::vector<std::pair<std::string, Entry>> want;
  bool open = false;
  const bool good = parse(s, want, open);
  if (open) c.discard();
  Archive b;
  if (!good) {
    c.check(throwsA<ArchiveError>([&] { b.load(path); }), "a damaged archive was loaded without an error");
    c.nontrivial();
    return;
  }
  b.load(path);
  Model w;
  for (auto& e : want) w[e.first] = e.second;
  compare(c, b, w, "after damage that keeps the format: ");
  c.nontrivial(s != whole);
}

PBT_CLAIM(matrix_archive_disk_full, 300) {
  Scratch dir;
  Archive a;
  Model m;
  for (int i = 0, n = c.integer(1, 5); i < n; ++i) put(c, a, m);
  if (c.oneIn(4)) { MatrixXd big = MatrixXd::Constant(30, c.integer(1, 60), 0.5); a.setMatrix("big", big); m["big"] = Entry{false, big, ""}; }
  const std::string path = dir("f.ama"), part = dir("g.ama");
  a.save(path);
  const size_t size = slurp(path).size();
  const size_t limit = c.integer(0, size + 2);
  const bool append = c.boolean();
  bool refused;
  {
    FullDisk full(limit);
    refused = throws([&] { append ? a.append(part) : a.save(part); });
  }
  c << "| " << limit << " of " << size << " bytes fit";
  c.eq(refused, limit < size, "error for a file that does not fit");
  if (refused) {
    Archive b;
    c.check(throws([&] { a.save(dir("no/such/dir.ama")); }), "saved to a missing directory");
    c.nontrivial();
  } else {
    Archive b;
    b.load(part);
    compare(c, b, m, "");
  }
}

// ---------------------------------------------------------------- boost archives
namespace {
namespace ar = boost::archive;
struct Item {
  int type;
  int64_t i; double d; std::string s; std::vector<int> v; std::map<std::string, double> m; std::set<int64_t> t;
};
int64_t integerOf(Case& c, int bits, bool isSigned) {
  const int64_t lo = isSigned ? (bits == 64 ? INT64_MIN : -(int64_t(1) << (bits - 1))) : 0;
  const uint64_t hi = isSigned ? (bits == 64 ? (uint64_t)INT64_MAX : (uint64_t(1) << (bits - 1)) - 1) : bits == 64 ? UINT64_MAX : (uint64_t(1) << bits) - 1;
  switch (c.bits(5)) {
    case 0: return 0;
    case 1: return (int64_t)hi;
    case 2: return lo;
    case 3: {  // around the sizes where another byte is needed
      const int k = 8 * c.integer(1, bits / 8);
      const uint64_t p = k == 64 ? 0 : uint64_t(1) << k;
      uint64_t v = p + (uint64_t)(int64_t)c.integer(-2, 2);
      if (isSigned && c.boolean()) v = 0 - v;
      v = bits == 64 ? v : v & ((uint64_t(1) << bits) - 1);
      if (isSigned && bits < 64 && (v >> (bits - 1))) v |= ~((uint64_t(1) << bits) - 1);
      return (int64_t)v;
    }
    default: {
      uint64_t v = (c.bits(1ull << 32) << 32) | c.bits(1ull << 32);
      v >>= 64 - bits + c.bits(bits);
      if (isSigned) { v >>= 1; return c.boolean() ? -(int64_t)v : (int64_t)v; }
      return (int64_t)v;
    }
  }
}
enum { ITEMS = 17 };
Item anyItem(Case& c) {
  Item t;
  t.type = c.bits(ITEMS);
  t.i = 0; t.d = 0;
  switch (t.type) {
    case 0: t.i = c.boolean(); break;
    case 1: t.i = (char)integerOf(c, 8, true); break;
    case 2: t.i = integerOf(c, 8, true); break;
    case 3: t.i = integerOf(c, 8, false); break;
    case 4: t.i = integerOf(c, 16, true); break;
    case 5: t.i = integerOf(c, 16, false); break;
    case 6: t.i = integerOf(c, 32, true); break;
    case 7: t.i = integerOf(c, 32, false); break;
    case 8: case 9: t.i = integerOf(c, 64, true); break;
    case 10: case 11: t.i = integerOf(c, 64, false); break;
    case 12: t.d = (float)special(c, false); break;
    case 13: t.d = special(c, false); break;
    case 14: t.s = bytes(c, 12); break;
    case 15: for (int i = 0, n = c.integer(0, 5); i < n; ++i) t.v.push_back((int)integerOf(c, 32, true)); break;
    case 16:
      for (int i = 0, n = c.integer(0, 3); i < n; ++i) t.m[bytes(c, 4)] = special(c, false);
      for (int i = 0, n = c.integer(0, 3); i < n; ++i) t.t.insert(integerOf(c, 64, true));
      break;
  }
  return t;
}
template <class T, class A> void putAs(A& a, int64_t v) { const T x = (T)v; a << x; }
template <class A> void putItem(A& a, const Item& t) {
  switch (t.type) {
    case 0: return putAs<bool>(a, t.i);
    case 1: return putAs<char>(a, t.i);
    case 2: return putAs<signed char>(a, t.i);
    case 3: return putAs<unsigned char>(a, t.i);
    case 4: return putAs<short>(a, t.i);
    case 5: return putAs<unsigned short>(a, t.i);
    case 6: return putAs<int>(a, t.i);
    case 7: return putAs<unsigned>(a, t.i);
    case 8: return putAs<long>(a, t.i);
    case 9: return putAs<long long>(a, t.i);
    case 10: return putAs<unsigned long>(a, t.i);
    case 11: return putAs<unsigned long long>(a, t.i);
    case 12: { const float f = (float)t.d; a << f; return; }
    case 13: a << t.d; return;
    case 14: a << t.s; return;
    case 15: a << t.v; return;
    default: a << t.m; a << t.t;
  }
}
template <class T, class A> int64_t getAs(A& a) { T x; a >> x; return (int64_t)x; }
bool sameDouble(double a, double b) { return !std::memcmp(&a, &b, sizeof a) || (a != a && b != b); }
template <class A> bool getItem(A& a, const Item& t, std::string& got) {
  int64_t i = 0;
  switch (t.type) {
    case 0: i = getAs<bool>(a); break;
    case 1: i = getAs<char>(a); break;
    case 2: i = getAs<signed char>(a); break;
    case 3: i = getAs<unsigned char>(a); break;
    case 4: i = getAs<short>(a); break;
    case 5: i = getAs<unsigned short>(a); break;
    case 6: i = getAs<int>(a); break;
    case 7: i = getAs<unsigned>(a); break;
    case 8: i = getAs<long>(a); break;
    case 9: i = getAs<long long>(a); break;
    case 10: i = getAs<unsigned long>(a); break;
    case 11: i = getAs<unsigned long long>(a); break;
    case 12: { float f; a >> f; return sameDouble(f, (float)t.d); }
    case 13: { double d; a >> d; return sameDouble(d, t.d); }
    case 14: { std::string s = "old"; a >> s; return s == t.s; }
    case 15: { std::vector<int> v(2, 7); a >> v; return v == t.v; }
    default: {
      std::map<std::string, double> m; std::set<int64_t> s;
      a >> m; a >> s;
      if (s != t.t || m.size() != t.m.size()) return false;
      for (auto& e : t.m) if (!m.count(e.first) || !sameDouble(m[e.first], e.second)) return false;
      return true;
    }
  }
  got = std::to_string(i);
  return i == t.i;
}
template <class Ia> void readAll(Case& c, const std::string& s, const std::vector<Item>& items, unsigned flags, bool& ok) {
  std::istringstream i(s, std::ios::binary);
  // on a stream or on the buffer of one
  std::unique_ptr<Ia> archive(c.boolean() ? new Ia(i, flags) : new Ia(*i.rdbuf(), flags));
  Ia& a = *archive;
  for (auto& t : items) {
    std::string got;
    if (!getItem(a, t, got)) {
      ok = false;
      c.fail("an item of kind " + std::to_string(t.type) + " (" + std::to_string(t.i) + ") came back different" + (got.empty() ? "" : ": " + got));
    }
  }
  ok = true;
}
}  // namespace

PBT_CLAIM(portable_archive, 4000) {
  std::vector<Item> items;
  for (int i = 0, n = c.integer(1, 8); i < n; ++i) items.push_back(anyItem(c));
  unsigned flags = c.pick({0u, (unsigned)ar::endian_big, (unsigned)ar::endian_little});
  if (c.oneIn(3)) flags |= ar::no_header;
  c << items.size() << " items, flags " << flags;
  std::ostringstream o(std::ios::binary);
  {
    typedef ar::portable_binary_oarchive Oa;
    std::unique_ptr<Oa> a(c.boolean() ? new Oa(o, flags) : new Oa(*o.rdbuf(), flags));
    for (auto& t : items) putItem(*a, t);
  }
  const std::string s = o.str();
  bool ok = false;
  readAll<ar::portable_binary_iarchive>(c, s, items, flags & ar::no_header, ok);
  c.check(ok, "read");
  bool numbers = false;
  for (auto& t : items) numbers |= t.type >= 4 && t.type <= 11 && t.i != 0;
  c.nontrivial(numbers || items.size() > 2);
  // cut short, it must be refused
  const std::string cut = s.substr(0, c.integer(0, s.size() - 1));
  bool refused = false;
  try { readAll<ar::portable_binary_iarchive>(c, cut, items, flags & ar::no_header, ok); }
  catch (const pbt::Failure&) { throw; }
  catch (const std::exception&) { refused = true; }
  c.check(refused, "an archive cut to " + std::to_string(cut.size()) + " of " + std::to_string(s.size()) + " bytes was read");
  if (c.oneIn(20)) {
    std::ostringstream o2;
    c.check(throws([&] { ar::portable_binary_oarchive a(o2, ar::endian_big | ar::endian_little); }), "an archive of both byte orders");
  }
}
PBT_CLAIM(portable_format, 4000) {
  // one integer: the byte order, the number of bytes (negative for a negative number), the bytes
  const bool big = c.boolean();
  const int64_t v = integerOf(c, 64, true);
  const unsigned flags = ar::no_header | (big ? ar::endian_big : c.boolean() ? ar::endian_little : 0);
  std::ostringstream o(std::ios::binary);
  {
    typedef ar::portable_binary_oarchive Oa;
    std::unique_ptr<Oa> a(c.boolean() ? new Oa(o, flags) : new Oa(*o.rdbuf(), flags));
    const long x = v;
    *a << x;
  }
  const std::string s = o.str();
  c << v << (big ? " big" : " little");
  uint64_t mag = v < 0 ? 0 - (uint64_t)v : (uint64_t)v;
  std::string digits;
  for (; mag; mag >>= 8) digits += char(mag & 255);
  if (big) std::reverse(digits.begin(), digits.end());
  std::string want(1, char((flags & (ar::endian_big | ar::endian_little)) >> 8));
  want += char(v < 0 ? -(int)digits.size() : (int)digits.size());
  want += digits;
  c.check(s == want, "the bytes of the archive");
  c.nontrivial(digits.size() > 1);
  // a type too small for it
  const int need = digits.size();
  auto narrow = [&](auto t, const char* name) {
    typedef decltype(t) T;
    std::istringstream i(s, std::ios::binary);
    ar::portable_binary_iarchive a(i, ar::no_header);
    T x = 0;
    const bool refused = throws([&] { a >> x; });
    if ((int)sizeof(T) < need) c.check(refused, std::string("a number of ") + std::to_string(need) + " bytes was read as " + name);
    else {
      c.check(!refused, std::string("not read as ") + name);
      if (v >= (int64_t)std::numeric_limits<T>::min() && v <= (int64_t)std::numeric_limits<T>::max()) c.eq((int64_t)x, v, std::string("value as ") + name);
    }
  };
  narrow((short)0, "short");
  narrow((int)0, "int");
  narrow((long)0, "long");
}

namespace {
template <class M> void fill(Case& c, M& m, bool finite) {
  for (int i = 0; i < m.rows(); ++i) for (int j = 0; j < m.cols(); ++j) m(i, j) = (typename M::Scalar)(!std::is_same<typename M::Scalar, double>::value ? (double)c.integer(-100, 100) : special(c, finite));
}
template <class M> bool bitSame(const M& a, const M& b) {
  if (a.rows() != b.rows() || a.cols() != b.cols()) return false;
  for (int i = 0; i < a.rows(); ++i) for (int j = 0; j < a.cols(); ++j) if (!sameDouble((double)a(i, j), (double)b(i, j))) return false;
  return true;
}
template <class M> void eigenRound(Case& c, int r, int k, int kind, const char* name) {
  M a, b;
  a.resize(r, k);
  fill(c, a, kind == arc::TEXT || kind == arc::XML);
  if (M::RowsAtCompileTime == Eigen::Dynamic && M::ColsAtCompileTime == Eigen::Dynamic) b.resize(c.integer(0, 3), c.integer(0, 3));
  c << name << " " << r << "x" << k << " " << arc::kNames[kind] << " ";
  // a number after the matrix, to see that exactly its data was read
  const std::pair<int, double> after(c.integer(-1000, 1000), 0.25);
  std::ostringstream o(std::ios::binary);
  auto save = [&](auto& ar) { ar << boost::serialization::make_nvp("m", a); const int x = after.first; ar << boost::serialization::make_nvp("x", x); };
  auto load = [&](auto& ar) { int x = 0; ar >> boost::serialization::make_nvp("m", b); ar >> boost::serialization::make_nvp("x", x); c.eq(x, after.first, "the value stored after the matrix"); };
  switch (kind) {
    case arc::TEXT: { boost::archive::text_oarchive A(o); save(A); } break;
    case arc::XML: { boost::archive::xml_oarchive A(o); save(A); } break;
    case arc::BINARY: { boost::archive::binary_oarchive A(o); save(A); } break;
    default: { boost::archive::portable_binary_oarchive A(o); save(A); }
  }
  std::istringstream i(o.str(), std::ios::binary);
  switch (kind) {
    case arc::TEXT: { boost::archive::text_iarchive A(i); load(A); } break;
    case arc::XML: { boost::archive::xml_iarchive A(i); load(A); } break;
    case arc::BINARY: { boost::archive::binary_iarchive A(i); load(A); } break;
    default: { boost::archive::portable_binary_iarchive A(i); load(A); }
  }
  c.check(bitSame(a, b), "the matrix came back different");
  if (a.size() > 1) c.nontrivial();
}
template <class Wrong, class M> void eigenWrong(Case& c, const M& a, int kind) {
  Wrong w;
  c.check(throwsA<sm::eigen::SerializationException>([&] { arc::load(kind, arc::save(kind, a), w); }),
          "a " + std::to_string(a.rows()) + "x" + std::to_string(a.cols()) + " matrix was loaded into one of another fixed size");
}
}  // namespace
PBT_CLAIM(eigen_matrices, 2000) {
  using namespace Eigen;
  const int kind = c.bits(arc::KINDS), r = c.integer(0, 5), k = c.integer(0, 5);
  switch (c.bits(11)) {
    case 0: eigenRound<MatrixXd>(c, r, k, kind, "MatrixXd"); break;
    case 1: eigenRound<VectorXd>(c, r, 1, kind, "VectorXd"); break;
    case 2: eigenRound<RowVectorXd>(c, 1, k, kind, "RowVectorXd"); break;
    case 3: eigenRound<Matrix3d>(c, 3, 3, kind, "Matrix3d"); break;
    case 4: eigenRound<Vector4d>(c, 4, 1, kind, "Vector4d"); break;
    case 5: eigenRound<Matrix<double, 2, 5>>(c, 2, 5, kind, "2x5"); break;
    case 6: eigenRound<Matrix<double, 3, Dynamic>>(c, 3, k, kind, "3xX"); break;
    case 7: eigenRound<Matrix<int, Dynamic, 2>>(c, r, 2, kind, "int Xx2"); break;
    case 8: eigenRound<Matrix<float, Dynamic, Dynamic, RowMajor>>(c, r, k, kind, "float row major"); break;
    case 9: eigenRound<Matrix<double, 4, 3, RowMajor>>(c, 4, 3, kind, "4x3 row major"); break;
    default: {
      MatrixXd a = anyMat(c, r, k, true);
      c << r << "x" << k << " into fixed sizes ";
      if (r != 3 || k != 3) eigenWrong<Matrix3d>(c, a, kind);
      if (r != 2 || k != 5) eigenWrong<Matrix<double, 2, 5>>(c, a, kind);
      if (k != 1) eigenWrong<VectorXd>(c, a, kind);
      if (r != 1) eigenWrong<RowVectorXd>(c, a, kind);
      if (r != 3) eigenWrong<Matrix<double, 3, Dynamic>>(c, a, kind);
      Eigen::Affine3d T(num::transform(c, 3., 3.)), U;
      arc::load(kind, arc::save(kind, T), U);
      c.check(bitSame(T.matrix(), U.matrix()), "transform");
      c.nontrivial();
    }
  }
}

namespace {
struct Image { cv::Mat parent, view; };
Image anyImage(Case& c) {
  Image im;
  const int type = CV_MAKETYPE(c.pick({CV_8U, CV_8S, CV_16U, CV_16S, CV_32S, CV_32F, CV_64F}), c.integer(1, 4));
  const int w = c.integer(1, 7), h = c.integer(1, 6);
  im.parent.create(h, w, type);
  uint64_t seed = c.bits(1ull << 30);
  for (int r = 0; r < h; ++r) for (size_t b = 0; b < w * im.parent.elemSize(); ++b) { seed = pbt::mix(seed); im.parent.ptr(r)[b] = (uchar)seed; }
  im.view = im.parent;
  switch (c.bits(5)) {
    case 0: if (c.boolean()) im.view = cv::Mat(); break;
    case 1: case 2: {
      const int x = c.integer(0, w - 1), y = c.integer(0, h - 1);
      im.view = im.parent(cv::Rect(x, y, c.integer(1, w - x), c.integer(1, h - y)));
      break;
    }
    case 3: im.view = im.parent.row(c.integer(0, h - 1)); break;
    default: break;
  }
  return im;
}
bool sameImage(const cv::Mat& a, const cv::Mat& b) {
  if (a.rows != b.rows || a.cols != b.cols || a.type() != b.type()) return false;
  for (int r = 0; r < a.rows; ++r) if (a.cols && std::memcmp(a.ptr(r), b.ptr(r), a.cols * a.elemSize())) return false;
  return true;
}
struct Images {
  std::vector<cv::Mat> m;
  std::vector<cv::KeyPoint> k;
  int marker = 0;
  template <class A> void serialize(A& ar, const unsigned) {
    for (auto& x : m) ar & boost::serialization::make_nvp("image", x);
    for (auto& x : k) { cv::KeyPoint& p = x;
      ar & boost::serialization::make_nvp("px", p.pt.x); ar & boost::serialization::make_nvp("py", p.pt.y); }
    ar & boost::serialization::make_nvp("marker", marker);
  }
};
}  // namespace
PBT_CLAIM(images, 1500) {
  Images in, out;
  std::vector<Image> hold, dest;
  const int n = c.integer(1, 3), kind = c.bits(arc::KINDS);
  for (int i = 0; i < n; ++i) {
    hold.push_back(anyImage(c));
    in.m.push_back(hold.back().view);
    const cv::Mat& v = in.m.back();
    c << v.cols << "x" << v.rows << " of " << hold.back().parent.cols << "x" << hold.back().parent.rows << " type " << v.type() << ", ";
    if (v.rows > 1 || v.cols > 1) c.nontrivial();
    Image d;
    if (c.boolean() && v.rows && v.cols) {  // load into a part of an image of the same size
      d.parent = cv::Mat::zeros(v.rows + c.integer(0, 2), v.cols + c.integer(0, 2), v.type());
      d.view = d.parent(cv::Rect(0, 0, v.cols, v.rows));
    } else if (c.boolean()) d = anyImage(c);
    dest.push_back(d);
    out.m.push_back(d.view);
  }
  std::vector<cv::Mat> around;
  for (auto& d : dest) around.push_back(d.parent.clone());
  in.k.push_back(cv::KeyPoint((float)c.real(-9, 9), (float)c.real(-9, 9), 1));
  out.k.push_back(cv::KeyPoint());
  in.marker = c.integer(-99999, 99999);
  c << arc::kNames[kind];
  arc::load(kind, arc::save(kind, in), out);
  for (int i = 0; i < n; ++i) {
    c.check(sameImage(in.m[i], out.m[i]), "image " + std::to_string(i) + " came back different");
    c.check(sm::opencv::isBinaryEqual(in.m[i], out.m[i]), "isBinaryEqual of equal images");
    // the surroundings of the place it was loaded into
    const cv::Mat &p = dest[i].parent, &q = around[i], &v = dest[i].view;
    if (p.data && v.rows && v.cols) {
      cv::Size whole; cv::Point at;
      v.locateROI(whole, at);
      for (int y = 0; y < p.rows; ++y) for (int x = 0; x < p.cols; ++x) {
        const bool inside = y >= at.y && y < at.y + v.rows && x >= at.x && x < at.x + v.cols;
        if (!inside) c.check(!std::memcmp(p.ptr(y, x), q.ptr(y, x), p.elemSize()), "loading changed pixels outside the image");
      }
    }
    if (in.m[i].total()) {
      cv::Mat other = in.m[i].clone();
      const int y = c.integer(0, other.rows - 1), x = c.integer(0, other.cols - 1);
      other.ptr(y, x)[c.bits(other.elemSize())] ^= 1 << c.bits(8);
      c.check(!sm::opencv::isBinaryEqual(in.m[i], other) && !sm::opencv::isBinaryEqual(other, in.m[i]), "images that differ in one bit compare equal");
      c.check(!sm::opencv::isBinaryEqual(in.m[i], cv::Mat(other.rows, other.cols + 1, other.type())), "images of different size compare equal");
      c.check(!sm::opencv::isBinaryEqual(cv::Mat::zeros(2, 2, CV_8UC1), cv::Mat::zeros(2, 2, CV_8SC1)), "images of different type compare equal");
    }
  }
  c.check(in.k[0].pt == out.k[0].pt, "point");
  c.eq(out.marker, in.marker, "the value stored after the images");
}

namespace {
struct Thing {
  std::vector<double> v;
  std::string s;
  int i = 0;
  bool operator==(const Thing& o) const { return v == o.v && s == o.s && i == o.i; }
  template <class A> void serialize(A& ar, const unsigned) {
    ar & boost::serialization::make_nvp("v", v);
    ar & boost::serialization::make_nvp("s", s);
    ar & boost::serialization::make_nvp("i", i);
  }
};
}  // namespace
PBT_CLAIM(object_files, 600) {
  namespace bs = sm::boost_serialization;
  Scratch dir;
  Thing t, u;
  for (int i = 0, n = c.integer(0, 5); i < n; ++i) t.v.push_back(special(c, true));
  if (c.oneIn(5)) t.v.resize(c.integer(0, 3000), 1.5);
  t.i = (int)integerOf(c, 32, true);
  for (int i = 0, n = c.integer(0, 8); i < n; ++i) t.s += char(c.boolean() ? 'a' + c.bits(26) : 32 + c.bits(95));
  const std::string tag = c.pick<std::string>({"", "thing", "object"});
  const int kind = c.bits(4);
  auto save = [&](const std::string& f) {
    switch (kind) {
      case 0: return bs::save(t, f);
      case 1: return bs::save_txt(t, f);
      case 2: return bs::save_xml(t, tag, f);
      default: return bs::save_xml(t, f);
    }
  };
  auto load = [&](const std::string& f) {
    switch (kind) {
      case 0: return bs::load(u, f);
      case 1: return bs::load_txt(u, f);
      case 2: return bs::load_xml(u, tag, f);
      default: return bs::load_xml(u, f);
    }
  };
  const std::string f = dir("file");
  save(f);
  load(f);
  c << (kind == 0 ? "binary" : kind == 1 ? "text" : "xml") << " with " << t.v.size() << " numbers";
  c.check(t == u, "the object loaded differs from the one saved");
  c.nontrivial(t.v.size() > 0);
  c.check(throws([&] { load(dir("missing")); }), "a missing file was loaded");
  c.check(throws([&] { save(dir("no/such/file")); }), "saved to a missing directory");
  const size_t size = slurp(f).size(), limit = c.integer(0, size + 1);
  bool refused;
  { FullDisk full(limit); refused = throws([&] { save(dir("part")); }); }
  c.eq(refused, limit < size, "error for a file of " + std::to_string(size) + " bytes with space for " + std::to_string(limit));
  if (kind == 0) {
    spit(f, slurp(f).substr(0, c.integer(0, size - 1)));
    c.check(throws([&] { load(f); }), "a truncated file was loaded");
  }
}

PBT_CLAIM(kinematic_objects, 800) {
  namespace k = sm::kinematics;
  const int kind = c.bits(arc::KINDS);
  const Eigen::Matrix4d T = num::transform(c, 3.1, c.boolean() ? 5. : 1e6);
  const std::string in = std::string(" from ") + arc::kNames[kind];
  auto spd = [&](int n) { return num::spd(c, n, 0.1, 2.); };
  c << "T " << num::str(T) << " " << arc::kNames[kind];
  {
    k::Transformation a(T), b;
    arc::load(kind, arc::save(kind, a), b);
    c.check(a.isBinaryEqual(b) && bitSame(Eigen::MatrixXd(a.T()), Eigen::MatrixXd(b.T())), "transformation" + in);
  }
  {
    k::UncertainTransformation a(T, spd(6)), b;
    arc::load(kind, arc::save(kind, a), b);
    c.check(a.isBinaryEqual(b) && bitSame(Eigen::MatrixXd(a.T()), Eigen::MatrixXd(b.T())) && bitSame(Eigen::MatrixXd(a.U()), Eigen::MatrixXd(b.U())), "uncertain transformation" + in);
  }
  {
    k::HomogeneousPoint a(Eigen::Vector4d(num::vec(c, 4, 10))), b;
    arc::load(kind, arc::save(kind, a), b);
    c.check(a.isBinaryEqual(b) && a.toHomogeneous() == b.toHomogeneous(), "homogeneous point" + in);
  }
  {
    k::UncertainHomogeneousPoint a(Eigen::Vector3d(num::vec(c, 3, 10)), Eigen::Matrix3d(spd(3))), b;
    arc::load(kind, arc::save(kind, a), b);
    c.check(a.isBinaryEqual(b) && a.toHomogeneous() == b.toHomogeneous() && bitSame(Eigen::MatrixXd(a.U4()), Eigen::MatrixXd(b.U4())), "uncertain point" + in);
  }
  {
    k::UncertainVector<3> a(Eigen::Vector3d(num::vec(c, 3, 10)), Eigen::Matrix3d(spd(3))), b;
    arc::load(kind, arc::save(kind, a), b);
    c.check(a.isBinaryEqual(b) && a.v() == b.v() && a.E() == b.E(), "uncertain vector" + in);
  }
  c.nontrivial();
}

// cameras through pointers to their base class, whose types the archive must name
PBT_CLAIM(cameras_by_base_class, 250) {
  aslam::linkCvSerialization();
  std::vector<cam::Spec> specs;
  std::vector<cam::Ptr> in, out;
  for (int i = 0, n = c.integer(1, 3); i < n; ++i) {
    // the fov lens is exported with the pinhole only
    cam::Want w;
    w.model = c.integer(0, 3);
    if (w.model == cam::PINHOLE && c.oneIn(4)) { w.dist = cam::FOV; w.shutters = w.masks = false; }
    else if (w.model <= cam::OMNI) w.dist = c.integer(0, 2);
    specs.push_back(cam::anySpec(c, w));
    in.push_back(cam::makeCamera(specs.back()));
  }
  if (c.boolean()) in.push_back(in[c.bits(in.size())]);  // the same camera twice
  if (c.oneIn(4)) in.push_back(cam::Ptr());
  const int kind = c.bits(arc::KINDS);
  c << arc::kNames[kind] << " " << in.size() << " cameras, " << specs[0].str();
  arc::load(kind, arc::save(kind, in), out);
  c.eq(out.size(), in.size(), "number of cameras");
  for (size_t i = 0; i < in.size(); ++i) {
    c.check(!in[i] == !out[i], "a camera became null");
    if (!in[i]) continue;
    c.check(typeid(*in[i]) == typeid(*out[i]), "a camera changed its type");
    if (i < specs.size()) {
      const auto f = cam::make(specs[i]).fixed;
      c.check(f->equal(*out[i]), "a camera came back different");
      Eigen::Vector3d p;
      if (cam::visiblePoint(c, specs[i], p)) {
        VectorXd a, b;
        const bool ra = in[i]->vsEuclideanToKeypoint(p, a), rb = out[i]->vsEuclideanToKeypoint(p, b);
        c.check(ra == rb && bitSame(MatrixXd(a), MatrixXd(b)), "the projection changed");
      }
    }
    for (size_t j = 0; j < i; ++j) c.check((in[i] == in[j]) == (out[i] == out[j]), "cameras that were one object became two, or the reverse");
  }
  c.nontrivial();
}

PBT_CLAIM(posix_times, 2000) {
  using namespace boost::posix_time;
  const int64_t us = c.boolean() ? c.integer64(0, 4102444800000000ll) : c.integer64(0, 3000000);
  const ptime t = ptime(boost::gregorian::date(1970, 1, 1)) + seconds((long)(us / 1000000)) + microseconds((long)(us % 1000000));
  const timeval tv = sm::ptimeToTimeval(t);
  c << us;
  c.eq((int64_t)tv.tv_sec * 1000000 + tv.tv_usec, us, "microseconds");
  c.check(tv.tv_usec >= 0 && tv.tv_usec < 1000000, "microseconds within the second");
  c.nontrivial(us % 1000000 != 0);
}

// ---------------------------------------------------------------- comparisons
namespace {
struct Plain { int x; bool operator==(const Plain& o) const { return x == o.x; } };
struct Deep {
  int a, b;
  bool isBinaryEqual(const Deep& o) const { return SM_CHECKMEMBERSSAME(o, a) && SM_CHECKMEMBERSSAME(o, b, false); }
};
struct Holder {
  Deep d; boost::shared_ptr<Deep> p; const Deep* r; boost::shared_ptr<Plain> q; Plain pl; std::string s; Eigen::Vector2d v;
  bool isBinaryEqual(const Holder& o) const {
    return SM_CHECKMEMBERSSAME(o, d) && SM_CHECKMEMBERSSAME(o, p) && SM_CHECKMEMBERSSAME(o, r) && SM_CHECKMEMBERSSAME(o, q) &&
           SM_CHECKMEMBERSSAME(o, pl) && SM_CHECKMEMBERSSAME(o, s) && SM_CHECKMEMBERSSAME(o, v);
  }
};
}  // namespace
PBT_CLAIM(comparison_macros, 2000) {
  Deep store[2];
  auto holder = [&](Deep* d) {
    Holder h;
    h.d = Deep{c.integer(0, 1), c.integer(0, 1)};
    if (c.boolean()) h.p = boost::make_shared<Deep>(Deep{c.integer(0, 1), 0});
    *d = Deep{0, c.integer(0, 1)};
    h.r = c.boolean() ? d : 0;
    if (c.boolean()) h.q = boost::make_shared<Plain>(Plain{c.integer(0, 1)});
    h.pl = Plain{c.integer(0, 1)};
    h.s = c.boolean() ? "s" : "t";
    h.v = Eigen::Vector2d(c.integer(0, 1), 3);
    return h;
  };
  const Holder a = holder(&store[0]);
  Holder b = c.boolean() ? holder(&store[1]) : a;
  if (c.boolean()) {  // equal content at other places
    if (b.p) b.p = boost::make_shared<Deep>(*b.p);
    if (b.r) { store[1] = *b.r; b.r = &store[1]; }
    if (b.q) b.q = boost::make_shared<Plain>(*b.q);
  }
  auto dsame = [](const Deep& x, const Deep& y) { return x.a == y.a && x.b == y.b; };
  const bool d = dsame(a.d, b.d), p = !a.p == !b.p && (!a.p || dsame(*a.p, *b.p)), r = !a.r == !b.r && (!a.r || dsame(*a.r, *b.r)),
             q = !a.q == !b.q && (!a.q || a.q->x == b.q->x), pl = a.pl.x == b.pl.x, s = a.s == b.s, v = a.v == b.v;
  c << d << p << r << q << pl << s << v;
  c.eq(SM_CHECKSAME(a.d, b.d), d, "objects with isBinaryEqual");
  c.eq(SM_CHECKSAME(a.p, b.p), p, "shared pointers to objects with isBinaryEqual");
  c.eq(SM_CHECKSAME(a.r, b.r), r, "pointers to objects with isBinaryEqual");
  c.eq(SM_CHECKSAME(a.q, b.q), q, "shared pointers to objects with operator==");
  c.eq(SM_CHECKSAME(a.pl, b.pl), pl, "objects with operator==");
  c.eq(SM_CHECKSAME(a.s, b.s), s, "strings");
  c.eq(SM_CHECKSAME(a.v, b.v, false), v, "matrices");
  c.eq(SM_CHECKSAME(a, b), d && p && r && q && pl && s && v, "objects with members");
  c.nontrivial(a.p || a.q);
}

// ---------------------------------------------------------------- property trees
namespace {
typedef sm::PropertyTree Tree;
struct Value { int type; double d; int i; bool b; std::string s; };  // 0 double, 1 int, 2 bool, 3 string
typedef std::vector<std::string> Path;
typedef std::map<Path, Value> Props;
Path split(const std::string& s) {
  Path p;
  std::string w;
  for (char ch : s) { if (ch == '/') { if (!w.empty()) p.push_back(w); w.clear(); } else w += ch; }
  if (!w.empty()) p.push_back(w);
  return p;
}
std::string join(const Path& p) { std::string s; for (auto& w : p) s += "/" + w; return s; }
std::string aKey(Case& c, int maxDepth) {
  std::string s;
  for (int i = 0, n = c.integer(1, maxDepth); i < n; ++i) s += (i ? "/" : "") + c.pick<std::string>({"a", "b", "key", "x1", "A"});
  return s;
}
std::string aText(Case& c, int style) {
  std::string s;
  for (int i = 0, n = c.integer(style == 0 ? 0 : 1, 6); i < n; ++i) {
    const std::string inner = "abcXYZ019._- <>&\"'/$";
    s += style == 0 ? char(1 + c.bits(255)) : inner[c.bits(inner.size())];
  }
  if (style == 1) for (size_t i : {size_t(0), s.size() - 1}) if (s[i] == ' ') s[i] = 'q';
  if (style == 2) { s.clear(); for (int i = 0, n = c.integer(1, 6); i < n; ++i) s += "abcXYZ019.-"[c.bits(11)]; }
  return s;
}
Value aValue(Case& c, int style) {
  Value v{(int)c.bits(4), 0, 0, false, ""};
  switch (v.type) {
    case 0: v.d = special(c, true); break;
    case 1: v.i = (int)integerOf(c, 32, true); break;
    case 2: v.b = c.boolean(); break;
    default: v.s = c.oneIn(3) ? c.pick<std::string>({"12", "-7", "3.5", "hello", "12abc", "true", "99999999999", "1 2"}) : aText(c, style);
  }
  return v;
}
void setValue(Tree& t, const std::string& k, const Value& v) {
  switch (v.type) {
    case 0: return t.setDouble(k, v.d);
    case 1: return t.setInt(k, v.i);
    case 2: return t.setBool(k, v.b);
    default: t.setString(k, v.s);
  }
}
std::string show(const Value& v) {
  std::ostringstream o;
  o.precision(17);
  switch (v.type) { case 0: o << v.d; break; case 1: o << v.i; break; case 2: o << (v.b ? "true" : "false"); break; default: o << '"' << v.s << '"'; }
  return o.str();
}
typedef Tree::InvalidValueException BadValue;
typedef Tree::InvalidKeyException BadKey;
void checkValue(Case& c, const Tree& t, const std::string& k, const Value& v, const std::string& when) {
  const std::string at = when + "key '" + k + "' holding " + show(v) + ": ";
  c.check(t.doesKeyExist(k), at + "does not exist");
  switch (v.type) {
    case 0:
      c.check(t.getDouble(k) == v.d && std::signbit(t.getDouble(k)) == std::signbit(v.d), at + "getDouble");
      c.check(t.getDouble(k, -123.5) == v.d, at + "getDouble with a default");
      c.check(std::strtod(t.getString(k).c_str(), 0) == v.d, at + "getString");
      if (v.d != std::floor(v.d)) {
        c.check(throwsA<BadValue>([&] { t.getInt(k); }), at + "read as an integer");
        c.check(throwsA<BadValue>([&] { t.getBool(k); }), at + "read as a bool");
      }
      break;
    case 1:
      c.eq(t.getInt(k), v.i, at + "getInt");
      c.eq(t.getInt(k, v.i ^ 1), v.i, at + "getInt with a default");
      c.eq(t.getDouble(k), (double)v.i, at + "getDouble");
      c.eq(t.getString(k), std::to_string(v.i), at + "getString");
      if (v.i != 0 && v.i != 1) c.check(throwsA<BadValue>([&] { t.getBool(k); }), at + "read as a bool");
      break;
    case 2:
      c.eq(t.getBool(k), v.b, at + "getBool");
      c.eq(t.getBool(k, !v.b), v.b, at + "getBool with a default");
      break;
    default:
      c.check(t.getString(k) == v.s, at + "getString");
      c.check(t.getString(k, v.s + "!") == v.s, at + "getString with a default");
      if (v.s == "12" || v.s == "-7") { c.eq(t.getInt(k), std::atoi(v.s.c_str()), at + "getInt"); c.eq(t.getDouble(k), (double)std::atoi(v.s.c_str()), at + "getDouble"); }
      if (v.s == "3.5") c.eq(t.getDouble(k), 3.5, at + "getDouble");
      if (v.s == "true") c.eq(t.getBool(k), true, at + "getBool");
      if (v.s == "3.5" || v.s == "hello" || v.s == "12abc" || v.s == "true" || v.s == "99999999999" || v.s == "1 2") c.check(throwsA<BadValue>([&] { t.getInt(k); }), at + "read as an integer");
      if (v.s == "hello" || v.s == "12abc" || v.s == "true" || v.s == "1 2") c.check(throwsA<BadValue>([&] { t.getDouble(k); }), at + "read as a double");
      if (v.s == "hello" || v.s == "12abc" || v.s == "12") c.check(throwsA<BadValue>([&] { t.getBool(k); }), at + "read as a bool");
  }
}
bool hasNode(const Props& m, const Path& p) {
  for (auto& e : m) if (e.first.size() >= p.size() && std::equal(p.begin(), p.end(), e.first.begin())) return true;
  return false;
}
}  // namespace
PBT_CLAIM(property_tree_history, 1200) {
  struct View { boost::shared_ptr<Tree> t; Path ns; };
  const std::string base = c.pick<std::string>({"", "a", "/b", "a/b/", "/"});
  std::vector<View> views;
  views.push_back({boost::make_shared<sm::BoostPropertyTree>(base), split(base)});
  Props m;
  int reads = 0;
  for (int s = 0, n = c.integer(1, 14); s < n; ++s) {
    const size_t vi = c.bits(views.size());
    Tree& t = *views[vi].t;
    const Tree& ct = t;
    const bool absolute = c.oneIn(3);
    const std::string k = (absolute ? "/" : "") + aKey(c, 3);
    Path p = absolute ? Path() : views[vi].ns;
    for (auto& w : split(k)) p.push_back(w);
    auto it = m.find(p);
    switch (c.bits(8)) {
      case 0: {  // a view of a part of the tree
        if (views.size() > 4) break;
        const bool abs = c.oneIn(3), copy = c.oneIn(4);
        const std::string child = (abs ? "/" : "") + aKey(c, 2) + (c.boolean() ? "/" : "");
        Path ns = abs ? Path() : views[vi].ns;
        for (auto& w : split(child)) ns.push_back(w);
        c << "view " << child << (copy ? " copied" : "") << "; ";
        boost::shared_ptr<Tree> x = boost::make_shared<Tree>(t, child);
        if (copy) x = boost::make_shared<Tree>(*x);
        views.push_back({x, ns});
        break;
      }
      case 1: {
        for (const char* bad : {"", "/"}) {
          c.check(throwsA<BadKey>([&] { ct.getInt(bad); }), "getInt of an empty key");
          c.check(throwsA<BadKey>([&] { t.setInt(bad, 1); }), "setInt of an empty key");
          c.check(throwsA<BadKey>([&] { ct.getString(bad, "x"); }), "getString of an empty key");
          c.check(throwsA<BadKey>([&] { ct.doesKeyExist(bad); }), "doesKeyExist of an empty key");
        }
        break;
      }
      case 2: {  // a default that is stored
        if (it == m.end() && hasNode(m, p)) break;
        Value d = aValue(c, 0);
        if (it != m.end()) { d.type = it->second.type; }
        c << join(p) << " default " << show(d) << "; ";
        switch (d.type) {
          case 0: c.check(t.getDouble(k, d.d) == (it == m.end() ? d.d : it->second.d), "getDouble with a default to store"); break;
          case 1: c.eq(t.getInt(k, d.i), it == m.end() ? d.i : it->second.i, "getInt with a default to store"); break;
          case 2: c.eq(t.getBool(k, d.b), it == m.end() ? d.b : it->second.b, "getBool with a default to store"); break;
          default: c.check(t.getString(k, d.s) == (it == m.end() ? d.s : it->second.s), "getString with a default to store");
        }
        if (it == m.end()) m[p] = d;
        break;
      }
      case 3: case 4: {
        Value v = aValue(c, 0);
        c << join(p) << " = " << show(v) << "; ";
        setValue(t, k, v);
        m[p] = v;
        break;
      }
      default: {  // read
        if (it != m.end()) { checkValue(c, ct, k, it->second, ""); ++reads; break; }
        if (hasNode(m, p)) break;
        const std::string at = "missing key '" + k + "': ";
        c.check(!ct.doesKeyExist(k), at + "exists");
        c.check(throwsA<BadKey>([&] { ct.getInt(k); }), at + "getInt");
        c.check(throwsA<BadKey>([&] { ct.getDouble(k); }), at + "getDouble");
        c.check(throwsA<BadKey>([&] { ct.getBool(k); }), at + "getBool");
        c.check(throwsA<BadKey>([&] { ct.getString(k); }), at + "getString");
        c.eq(ct.getInt(k, -3), -3, at + "default int");
        c.eq(ct.getDouble(k, 0.125), 0.125, at + "default double");
        c.eq(ct.getBool(k, true), true, at + "default bool");
        c.eq(ct.getBool(k, false), false, at + "default bool");
        c.eq(ct.getString(k, "dflt"), std::string("dflt"), at + "default string");
        c.check(!ct.doesKeyExist(k), at + "was created by reading it");
      }
    }
  }
  for (auto& e : m) checkValue(c, *views[0].t, join(e.first), e.second, "at the end, ");
  std::set<std::string> roots;
  for (auto& e : m) roots.insert(e.first[0]);
  sm::BoostPropertyTree& top = dynamic_cast<sm::BoostPropertyTree&>(*views[0].t);
  std::set<std::string> got;
  for (auto& x : top) got.insert(x.first);
  c.check(got == roots, "the top level entries listed");
  c.nontrivial(m.size() >= 2);
}

PBT_CLAIM(property_tree_files, 600) {
  Scratch dir;
  sm::BoostPropertyTree t;
  Props m;
  const int kind = c.bits(3);  // xml, ini, info
  for (int i = 0, n = c.integer(1, 7); i < n; ++i) {
    std::string k = kind == 1 ? "s" + std::to_string(c.integer(0, 2)) + "/" + aKey(c, 1) : aKey(c, 3);
    Value v = aValue(c, kind == 0 ? 1 : kind == 1 ? 2 : 1);
    c << k << "=" << show(v) << " ";
    setValue(t, k, v);
    m[split(k)] = v;
  }
  const std::string f = dir("tree");
  if (kind == 0) t.saveXml(f); else if (kind == 1) t.saveIni(f); else t.saveInfo(f);
  sm::BoostPropertyTree u;
  if (c.boolean()) u.setInt("old", 3);
  auto load = [&](sm::BoostPropertyTree& x, const std::string& file) { if (kind == 0) x.loadXml(file); else if (kind == 1) x.loadIni(file); else x.loadInfo(file); };
  load(u, f);
  c << (kind == 0 ? "| xml" : kind == 1 ? "| ini" : "| info");
  for (auto& e : m) checkValue(c, u, join(e.first), e.second, "loaded: ");
  c.check(!u.doesKeyExist("old"), "loading kept an entry that is not in the file");
  c.check(throws([&] { load(u, dir("missing")); }), "a missing file was loaded");
  c.check(throws([&] { if (kind == 0) t.saveXml(dir("no/dir")); else if (kind == 1) t.saveIni(dir("no/dir")); else t.saveInfo(dir("no/dir")); }), "saved to a missing directory");
  // the same through a tree made from a boost tree
  boost::property_tree::ptree pt;
  for (auto& x : u) pt.push_back(x);
  sm::BoostPropertyTree w(pt);
  pt.clear();
  for (auto& e : m) checkValue(c, w, join(e.first), e.second, "copied: ");
  c.nontrivial(m.size() >= 2);
}

PBT_CLAIM(property_tree_objects, 800) {
  sm::BoostPropertyTree t;
  const std::string ns = c.pick<std::string>({"pose", "a/b", "x"});
  Eigen::Vector4d q(num::vecAny(c, 4, 3));
  const Eigen::Vector3d p(num::vecAny(c, 3, 10));
  if (q.norm() < 1e-3) q[3] += 1;
  const char* names[] = {"x", "y", "z", "w"};
  const int drop = c.boolean() ? -1 : c.bits(7);
  for (int i = 0; i < 4; ++i) if (drop != i) t.setDouble(ns + "/q_a_b/" + names[i], q[i]);
  for (int i = 0; i < 3; ++i) if (drop != 4 + i) t.setDouble(ns + "/t_a_b_a/" + names[i], p[i]);
  c << num::str(q.transpose()) << " " << num::str(p.transpose()) << " without " << drop;
  const sm::PropertyTree s(t, ns);
  if (drop >= 0) {
    c.check(throwsA<BadKey>([&] { sm::kinematics::transformationFromPropertyTree(s); }), "a transformation was read although a component is missing");
    c.nontrivial();
    return;
  }
  c.check(sm::eigen::quaternionFromPropertyTree(sm::PropertyTree(s, "q_a_b")) == q, "quaternion");
  c.check(sm::eigen::vector3FromPropertyTree(sm::PropertyTree(s, "t_a_b_a")) == p, "vector");
  const sm::kinematics::Transformation T = sm::kinematics::transformationFromPropertyTree(s);
  Eigen::Matrix4d want = Eigen::Matrix4d::Identity();
  const Eigen::Vector4d n = q / q.norm();
  // passive convention: (e sin, cos) of half the angle stands for exp(-angle [e]x)
  const Eigen::Matrix3d E = num::skew(n.head<3>());
  want.topLeftCorner<3, 3>() = Eigen::Matrix3d::Identity() - 2 * n[3] * E + 2 * E * E;
  want.topRightCorner<3, 1>() = p;
  c.nearMat(T.T(), want, 1e-12, 1e-12, "transformation");
  c.nontrivial();
}

PBT_CLAIM(find_file, 200) {
  Scratch dir;
  const std::string name = c.pick<std::string>({"f.xml", "with space", "sub/f"});
  const bool there = c.boolean(), slash = c.boolean(), set = !c.oneIn(4);
  boost::filesystem::create_directories(dir("sub"));
  if (there) spit(dir(name), "x");
  const char* var = "PBT_U01_DIR";
  set ? setenv(var, (dir.dir + (slash ? "/" : "")).c_str(), 1) : unsetenv(var);
  c << name << " there " << there << " variable " << set;
  boost::filesystem::path p;
  const bool refused = throwsA<std::runtime_error>([&] { p = sm::findFile(name, var); });
  unsetenv(var);
  c.eq(refused, !(there && set), "refused");
  if (!refused) c.check(boost::filesystem::equivalent(p, dir(name)), "the file found");
  c.nontrivial(there && set);
}

PBT_MAIN("U01", "the case moved data that is not empty or all default through storage, or damaged it (see nontrivial in each claim)")

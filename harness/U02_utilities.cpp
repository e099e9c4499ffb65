// U02: identifiers, strings, numbers, logging, job queues, timers and random numbers against models.
#include <pbt.hpp>
#include <num.hpp>
#include <archive.hpp>
#include <sm_common/hash_id.hpp>
#include <sm_common/Id.hpp>
#include <sm_common/string_routines.hpp>
#include <sm_common/round.hpp>
#include <sm_common/maths.hpp>
#include <sm_common/numerical_comparisons.hpp>
#include <sm_common/progress_info.hpp>
#include <sm_common/source_file_pos.hpp>
#include <sm_logging/logging.hpp>
#include <sm_logging/logging/Formatter.hpp>
#include <sm_logging/logging/StdOutLogger.hpp>
#include <sm_boost/JobQueue.hpp>
#include <sm_timing/Timer.hpp>
#include <sm_random/random.hpp>
#include <boost/filesystem.hpp>
#include <boost/make_shared.hpp>
#include <dlfcn.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <atomic>
#include <deque>
#include <limits>
#include <random>
#include <unordered_map>

using pbt::Case;

// ---- a clock the cases turn themselves: sm_timing reads the time by gettimeofday ----
namespace fake {
bool on = false;
int64_t us = 0;
}
extern "C" int gettimeofday(struct timeval* t, void* z) noexcept {
  static int (*real)(struct timeval*, void*) = (int (*)(struct timeval*, void*))dlsym(RTLD_NEXT, "gettimeofday");
  if (!fake::on) return real(t, z);
  t->tv_sec = fake::us / 1000000;
  t->tv_usec = fake::us % 1000000;
  return 0;
}

namespace {
template <class F> bool throws(F f) {
  try { f(); } catch (const pbt::Failure&) { throw; } catch (const std::exception&) { return true; }
  return false;
}
template <class E, class F> bool throwsA(F f) {
  try { f(); } catch (const E&) { return true; } catch (const pbt::Failure&) { throw; } catch (const std::exception&) {}
  return false;
}
// runs the body in a process of its own; returns "" or what went wrong
void req(bool ok, const std::string& m) { if (!ok) throw std::runtime_error(m); }
template <class A, class B> void reqEq(const A& a, const B& b, const std::string& m) {
  if (a == b) return;
  std::ostringstream o;
  o << m << ": got " << a << ", expected " << b;
  throw std::runtime_error(o.str());
}
template <class F> std::string inChild(int seconds, F body) {
  int fd[2];
  if (pipe(fd)) throw std::runtime_error("pipe");
  fflush(stdout); fflush(stderr);
  const pid_t p = fork();
  if (p == 0) {
    close(fd[0]);
    const int null = open("/dev/null", O_WRONLY);
    dup2(null, 1); dup2(null, 2);
    signal(SIGALRM, SIG_DFL);
    alarm(seconds);
    std::string m;
    try { body(); } catch (const std::exception& e) { m = std::string("!") + e.what(); } catch (...) { m = "!unknown exception"; }
    if (m.size() > 3000) m.resize(3000);
    if (m.empty()) m = "ok";
    if (write(fd[1], m.data(), m.size()) < 0) _exit(3);
    _exit(0);
  }
  close(fd[1]);
  std::string got;
  char b[512];
  ssize_t n;
  while ((n = read(fd[0], b, sizeof b)) > 0) got.append(b, n);
  close(fd[0]);
  int st = 0;
  waitpid(p, &st, 0);
  if (WIFSIGNALED(st)) return WTERMSIG(st) == SIGALRM ? "no end within " + std::to_string(seconds) + " s" : std::string("process ended by ") + strsignal(WTERMSIG(st));
  if (got == "ok") return "";
  return got.empty() ? "process ended early" : got.substr(1);
}
std::string text(Case& c, int maxLen, const std::string& alphabet) {
  std::string s(c.integer(0, maxLen), ' ');
  for (char& x : s) x = alphabet[c.bits(alphabet.size())];
  return s;
}
uint64_t anyU64(Case& c) {
  switch (c.bits(5)) {
    case 0: return c.bits(4);
    case 1: return ~0ull - c.bits(4);
    case 2: return 1ull << c.bits(64);
    case 3: return (1ull << c.bits(64)) - 1;
    default: return (uint64_t)c.integer64(INT64_MIN, INT64_MAX);
  }
}
double special(Case& c) {
  switch (c.bits(8)) {
    case 0: return 0;
    case 1: return c.integer(-9, 9) + 0.5;
    case 2: return c.sign() * c.logReal(1e-300, 1e300);
    case 3: return std::nextafter(c.integer(-4, 4) + 0.5, c.sign() * 1e9);
    case 4: return c.sign() * (double)((1ull << 52) + c.bits(1ull << 52));
    case 5: return c.integer(-1000, 1000);
    case 6: return c.sign() * (double)c.bits(1ull << 40) + 0.5;
    default: return c.real(-100, 100);
  }
}
}  // namespace

namespace u02 { SM_DEFINE_ID(AnId) }
SM_DEFINE_ID_HASH(u02::AnId)
using u02::AnId;

PBT_CLAIM(ids, 20000) {
  const uint64_t x = anyU64(c), y = c.oneIn(3) ? x : anyU64(c);
  c << "x " << x << " y " << y;
  AnId a(x), b(y);
  c.check((a == b) == (x == y) && (a != b) == (x != y), "equality");
  c.check((a < b) == (x < y) && (a > b) == (x > y) && (a <= b) == (x <= y) && (a >= b) == (x >= y), "order");
  c.eq(a.getId(), x, "getId"); c.eq(a.value(), x, "value");
  c.eq(a.isSet(), x != ~0ull, "isSet");
  c.eq(a.isBinaryEqual(b), x == y, "isBinaryEqual");
  std::ostringstream o; o << a;
  c.eq(o.str(), std::to_string(x), "printed");
  if (x == y) c.check(std::hash<AnId>()(a) == std::hash<AnId>()(b) && boost::hash<AnId>()(a) == boost::hash<AnId>()(b), "hashes of equal ids");
  AnId k; c.check(!k.isSet(), "new id");
  AnId d = a;
  sm::Id old = d++;
  c.eq(old.value(), x, "post-increment returns the old value"); c.eq(d.value(), x + 1, "post-increment");
  d = a;
  c.eq((++d).value(), x + 1, "pre-increment"); c.eq(d.value(), x + 1, "pre-increment changes it");
  d = b; c.eq(d.value(), y, "assigned");
  d.swap(a); c.check(d.value() == x && a.value() == y, "swapped");
  d.clear(); c.check(!d.isSet(), "cleared");
  srand(c.integer(1, 1 << 30)); d.setRandom(); c.check(d.isSet(), "random id is set");
  std::unordered_map<AnId, int> m; m[AnId(x)] = 1; m[AnId(y)] = 2;
  c.eq(m.size(), x == y ? 1u : 2u, "hash map"); c.eq(m[AnId(x)], x == y ? 2 : 1, "entry");
  const int kind = c.integer(0, arc::PORTABLE);
  AnId e;
  arc::load(kind, arc::save(kind, AnId(x)), e);
  c.eq(e.value(), x, "stored and loaded");
  c.nontrivial(x != 0 || y != 0);
}

PBT_CLAIM(hash_ids, 10000) {
  unsigned char bytes[2][16];
  const bool same = c.oneIn(3);
  for (int k = 0; k < 2; ++k) for (int i = 0; i < 16; ++i) bytes[k][i] = k && (same || i != 7 * (int)c.bits(3)) ? bytes[0][i] : c.oneIn(3) ? c.bits(256) : 0;
  auto hex = [&](int k, bool upper) {
    std::string s; char b[3];
    for (int i = 0; i < 16; ++i) { snprintf(b, 3, upper ? "%02X" : "%02x", bytes[k][i]); s += b; }
    return s;
  };
  sm::HashId h[2];
  c << hex(0, false) << " " << hex(1, false);
  for (int k = 0; k < 2; ++k) {
    c.check(!h[k].isValid(), "new id is invalid");
    c.check(h[k].fromHexString(hex(k, c.boolean())), "read");
    c.eq(h[k].hexString(), hex(k, false), "hexString");
    std::ostringstream o; o << h[k];
    c.eq(o.str(), hex(k, false), "printed");
    c.eq(h[k].isValid(), hex(k, false) != std::string(32, '0'), "valid");
  }
  const bool eq = !memcmp(bytes[0], bytes[1], 16);
  c.check((h[0] == h[1]) == eq && (h[0] != h[1]) == !eq, "equality");
  c.eq((int)(h[0] < h[1]) + (int)(h[1] < h[0]) + (int)eq, 1, "exactly one of <, >, ==");
  c.check((h[0] > h[1]) == (h[1] < h[0]), "> mirrors <");
  if (eq) c.eq(std::hash<sm::HashId>()(h[0]), std::hash<sm::HashId>()(h[1]), "hash");
  // transitivity with a third
  sm::HashId t = sm::HashId::random();
  c.check(t.isValid() && !(t == sm::HashId::random()), "random ids differ");
  if (h[0] < h[1] && h[1] < t) c.check(h[0] < t, "transitive");
  if (t < h[0] && h[0] < h[1]) c.check(t < h[1], "transitive");
  sm::HashId copy(h[0]), as; as = h[0];
  c.check(copy == h[0] && as == h[0], "copies");
  // damaged text is refused and changes nothing
  std::string bad = hex(1, false);
  switch (c.bits(3)) {
    case 0: bad.resize(c.integer(0, 31)); break;
    case 1: bad += text(c, 3, "0a") + "0"; break;
    default: bad[c.bits(32)] = c.pick({'g', 'G', ' ', '-', '+', 'x', 'z', ':', '@', '`', '/', '.', '\0', '\n'});
  }
  c.check(!copy.fromHexString(bad), "damaged text accepted");
  c.check(copy == h[0], "refused text changed the id");
  copy.setInvalid();
  c.check(!copy.isValid() && copy == sm::HashId(), "setInvalid");
  c.nontrivial(h[0].isValid());
}

PBT_CLAIM(string_replacing, 20000) {
  const std::string s = text(c, 12, "abc");
  const char t = c.pick({'a', 'b', 'c', 'd'}), r = c.pick({'x', 'a', 'b'});
  const unsigned skip = c.integer(0, 5);
  c << "'" << s << "' " << t << " by " << r << " skip " << skip;
  std::string f = s, b = s;
  unsigned k = skip;
  for (size_t i = 0; i < s.size(); ++i) if (s[i] == t) { if (k) --k; else f[i] = r; }
  k = skip;
  for (size_t i = s.size(); i-- > 0;) if (s[i] == t) { if (k) --k; else b[i] = r; }
  c.eq(sm::replace(s, t, r, skip), f, "replace");
  c.eq(sm::replace_reverse(s, t, r, skip), b, "replace_reverse");
  if (!skip) { c.eq(sm::replace(s, t, r), f, "replace"); c.eq(sm::replace_reverse(s, t, r), b, "replace_reverse"); }
  const unsigned len = c.integer(0, 20);
  c.eq(sm::leading_pad(s, len, r), std::string(s.size() < len ? len - s.size() : 0, r) + s, "leading_pad");
  const std::string path = text(c, 6, "a/");
  c.eq(sm::ensureTrailingBackslash(path), !path.empty() && path.back() == '/' ? path : path + "/", "trailing slash");
  c.nontrivial(s.find(t) != std::string::npos);
}

PBT_CLAIM(environment_variables, 5000) {
  // pieces: plain text, references to variables that exist and that do not, an unclosed reference at the end
  std::map<std::string, std::string> env;
  for (const char* n : {"PBT_A", "PBT_B2", "PBT_EMPTY"}) {
    const std::string v = n[4] == 'E' ? "" : text(c, 6, "x$(/)y PBT_A");
    env[n] = v; setenv(n, v.c_str(), 1);
  }
  unsetenv("PBT_NONE");
  std::string in, out;
  int subst = 0;
  for (int i = c.integer(0, 6); i > 0; --i) {
    if (c.boolean()) { const std::string p = text(c, 5, "ab)$/ "); in += p; out += p; if (!p.empty() && p.back() == '$') { in += " "; out += " "; } }
    else {
      const std::string n = c.pick<std::string>({"PBT_A", "PBT_B2", "PBT_EMPTY", "PBT_NONE", "PBT_a"});
      in += "$(" + n + ")";
      auto e = env.find(n);
      if (e == env.end()) out += "$(" + n + ")"; else { out += e->second; ++subst; }
    }
  }
  if (c.oneIn(4)) { in += "$(PBT_A"; out += "$(PBT_A"; }
  c << "'" << in << "'";
  const std::string got = sm::substituteEnvVars(in);
  for (auto& e : env) unsetenv(e.first.c_str());
  c.eq(got, out, "substituted");
  c.nontrivial(subst > 0);
}

PBT_CLAIM(formatted_numbers, 10000) {
  const double x = special(c);
  const unsigned w = c.integer(0, 25), p = c.integer(0, 17);
  char b[1000];
  c << num::str(Eigen::VectorXd::Constant(1, x)) << " width " << w << " precision " << p;
  snprintf(b, sizeof b, "%*.*f", w, p, x);
  c.eq(sm::padded(x, w, p), std::string(b), "padded");
  snprintf(b, sizeof b, "%*.*e", std::max(w, p + 7), p, x);
  c.eq(sm::scientific(x, w, p), std::string(b), "scientific");
  snprintf(b, sizeof b, "%.*f", p, x);
  c.eq(sm::fixedFloat(x, p), std::string(b), "fixedFloat");
  snprintf(b, sizeof b, "%g", x);
  c.eq(sm::ts(x), std::string(b), "ts");
  const int64_t n = (int64_t)anyU64(c) >> c.bits(60);
  std::string s = std::to_string(n);
  c.eq(sm::ts(n), s, "ts");
  c.eq(sm::padded(n, w), std::string(s.size() < w ? w - s.size() : 0, '0') + s, "padded integer");
  c.eq(sm::padded(n, w, '.'), std::string(s.size() < w ? w - s.size() : 0, '.') + s, "padded integer");
  c.eq(sm::s_tuple(n), s, "tuple of 1");
  c.eq(sm::s_tuple(n, "b"), "[" + s + ",b]", "tuple of 2");
  c.eq(sm::s_tuple(1, n, 'c'), "[1," + s + ",c]", "tuple of 3");
  c.eq(sm::s_tuple(1, 2, n, 4), "[1,2," + s + ",4]", "tuple of 4");
  c.eq(sm::s_tuple(n, 2, 3, 4, 5), "[" + s + ",2,3,4,5]", "tuple of 5");
  c.eq(sm::s_tuple(1, 2, 3, 4, n, 6), "[1,2,3,4," + s + ",6]", "tuple of 6");
  c.eq(sm::s_tuple(1, 2, 3, 4, 5, n, "g"), "[1,2,3,4,5," + s + ",g]", "tuple of 7");
  std::vector<double> v(c.integer(0, 5));
  for (double& d : v) d = special(c);
  std::string plain = "<", pad = "<", arr = "[";
  for (size_t i = 0; i < v.size(); ++i) {
    if (i) { plain += "; "; pad += "; "; arr += ","; }
    snprintf(b, sizeof b, "%g", v[i]); plain += b; arr += b;
    snprintf(b, sizeof b, "%*.*f", w, p, v[i]); pad += b;
  }
  std::ostringstream o;
  sm::toStream(o, v.begin(), v.end(), "; ", "<", ">");
  c.eq(o.str(), plain + ">", "toStream");
  c.eq(sm::paddedToString(w, p, v.begin(), v.end(), "; ", "<", ">"), pad + ">", "paddedToString");
  c.eq(sm::arrToString(v.begin(), v.end()), arr + "]", "arrToString");
  c.eq(sm::arrToString(v.data(), (unsigned)v.size()), arr + "]", "arrToString of an array");
  const int line = c.integer(0, 100000);
  const std::string fn = text(c, 5, "fgh_"), file = text(c, 8, "ab/.cpp");
  sm::source_file_pos pos(fn, file, line);
  std::ostringstream q; q << pos;
  const std::string want = file + ":" + std::to_string(line) + ": " + fn + "()";
  c.check(pos.toString() == want && q.str() == want && (std::string)pos == want, "source position");
  const int all = c.integer(1, 1000), done = c.integer(0, all);
  std::ostringstream cap;
  std::streambuf* was = std::cout.rdbuf(cap.rdbuf());
  const std::ios::fmtflags fl = std::cout.flags();
  const std::streamsize pr = std::cout.precision();
  bool bad = throws([&] { sm::showProgress(done, all); });
  std::cout.rdbuf(was); std::cout.flags(fl); std::cout.precision(pr);
  c.check(!bad, "progress refused");
  if (done == all) c.check(cap.str().find("Complete!") != std::string::npos, "progress " + cap.str());
  else {
    double shown = -1;
    sscanf(cap.str().c_str(), "\r%lf%% complete", &shown);
    c.near(shown, 100. * done / all, 0.0051, 0, "progress " + cap.str());
  }
  c.check(throws([&] { sm::showProgress(0, -c.integer(0, 5)); }), "progress of nothing");
  c.nontrivial(!v.empty() || w > 0);
}

PBT_CLAIM(rounding, 20000) {
  const double x = special(c);
  c.check(true, "");
  c << num::str(Eigen::VectorXd::Constant(1, x));
  // nearest integer, ties away from zero, in exact arithmetic
  const double tr = std::trunc(x), rest = std::fabs(x - tr);  // both exact
  const double want = rest >= 0.5 ? tr + (x < 0 ? -1 : 1) : tr;
  c.eq(sm::round(x), want, "round");
  const float f = (float)x;
  if (std::isfinite(f)) {
    const float tf = std::trunc(f), wf = std::fabs(f - tf) >= 0.5f ? tf + (f < 0 ? -1 : 1) : tf;
    c.eq(sm::round(f), wf, "round of a float");
    if (std::fabs(wf) < 2147483000.f) { c.eq(sm::rint(f), (int)wf, "rint of a float"); }
    if (std::fabs(wf) < 9e18f) c.eq(sm::lrint(f), (long)wf, "lrint of a float");
  }
  if (std::fabs(want) < 2147483647.) c.eq(sm::rint(x), (int)want, "rint");
  if (std::fabs(want) < 9.2e18) c.eq(sm::lrint(x), (long)want, "lrint");
  c.eq(sm::sgn(x), x > 0 ? 1 : x < 0 ? -1 : 0, "sgn");
  const int n = c.integer(-3, 3);
  c.eq(sm::sgn(n), n > 0 ? 1 : n < 0 ? -1 : 0, "sgn");
  c.nontrivial(x != tr);
}

PBT_CLAIM(quadratic, 20000) {
  // either from roots, or from coefficients
  double a = c.sign() * c.logReal(1e-6, 1e6), b, k;
  if (c.boolean()) {
    const double r = c.oneIn(5) ? 0 : c.sign() * c.logReal(1e-8, 1e8), s = c.oneIn(5) ? r : c.oneIn(5) ? -r : c.sign() * c.logReal(1e-8, 1e8);
    b = -a * (r + s); k = a * r * s;
  } else {
    b = c.oneIn(4) ? 0 : c.sign() * c.logReal(1e-6, 1e6);
    k = c.oneIn(4) ? 0 : c.sign() * c.logReal(1e-6, 1e6);
  }
  c << a << " " << b << " " << k;
  const long double disc = (long double)b * b - 4.0L * a * k, scale = (long double)b * b + std::fabs(4.0L * a * k);
  std::pair<double, double> x;
  const bool refused = throwsA<std::runtime_error>([&] { x = sm::solveQuadratic(a, b, k); });
  if (std::fabs((double)disc) > 1e-14 * (double)scale || disc == 0) c.eq(refused, disc < 0, "no real solution");
  if (refused) return;
  for (double z : {x.first, x.second}) {
    c.check(std::isfinite(z), "root " + std::to_string(z));
    const long double v = (long double)a * z * z + (long double)b * z + k;
    const long double m = std::fabs((long double)a * z * z) + std::fabs((long double)b * z) + std::fabs((long double)k);
    c.check(std::fabs((double)v) <= 1e-13 * (double)m, "not a root: residual " + std::to_string((double)(v / (m == 0 ? 1 : m))));
  }
  // both roots: their sum and product, each as precise as without cancellation
  const long double S = -(long double)b / a, P = (long double)k / a;
  c.near((double)((long double)x.first + x.second), (double)S, 1e-7 * (std::fabs(x.first) + std::fabs(x.second)), 0, "sum of the roots");
  c.near((double)((long double)x.first * x.second), (double)P, 0, 1e-7, "product of the roots");
  c.nontrivial(disc > 0);
}

template <class T> void comparisons(Case& c) {
  const T eps = c.oneIn(3) ? std::numeric_limits<T>::epsilon() : (T)c.logReal(1e-7, 0.5);
  T a = (T)(c.oneIn(6) ? 0 : c.sign() * c.logReal(1e-30, 1e30)), b;
  switch (c.bits(5)) {
    case 0: b = a; break;
    case 1: b = a * (T)(1 + c.real(-3, 3) * eps); break;
    case 2: b = std::nextafter(a, (T)c.sign() * std::numeric_limits<T>::max()); break;
    case 3: b = -a; break;
    default: b = (T)(c.sign() * c.logReal(1e-30, 1e30));
  }
  const bool dflt = eps == std::numeric_limits<T>::epsilon();
  auto eqf = [&](T p, T q) { return dflt ? sm::approximatelyEqual(p, q) : sm::approximatelyEqual(p, q, eps); };
  auto gt = [&](T p, T q) { return dflt ? sm::definitelyGreaterThan(p, q) : sm::definitelyGreaterThan(p, q, eps); };
  auto lt = [&](T p, T q) { return dflt ? sm::definitelyLessThan(p, q) : sm::definitelyLessThan(p, q, eps); };
  std::ostringstream o; o.precision(17); o << a << " " << b << " eps " << eps;
  c << o.str();
  c.eq((int)eqf(a, b) + (int)gt(a, b) + (int)lt(a, b), 1, "exactly one of equal, greater and less");
  c.check(eqf(a, b) == eqf(b, a) && gt(a, b) == lt(b, a), "symmetric");
  c.check(eqf(a, a), "equal to itself");
  c.check(eqf(-a, -b) == eqf(a, b) && gt(-a, -b) == lt(a, b), "mirrored");
  const long double d = (long double)a - b, m = (long double)std::max(std::fabs(a), std::fabs(b)) * eps;
  // where rounding cannot matter the answer is the definition's
  const long double slack = (long double)std::max(std::fabs(a), std::fabs(b)) * std::numeric_limits<T>::epsilon() * 1.01L + std::numeric_limits<T>::min();
  if (std::fabs(std::fabs((double)d) - (double)m) > (double)slack) {
    c.eq(eqf(a, b), std::fabs((double)d) <= (double)m, "approximatelyEqual");
    c.eq(gt(a, b), d > m, "definitelyGreaterThan");
    c.eq(lt(a, b), -d > m, "definitelyLessThan");
  }
  const T bad = (T)-c.integer(0, 2);
  c.check(throwsA<std::invalid_argument>([&] { sm::approximatelyEqual(a, b, bad); }) && throwsA<std::invalid_argument>([&] { sm::definitelyGreaterThan(a, b, bad); }) &&
          throwsA<std::invalid_argument>([&] { sm::definitelyLessThan(a, b, bad); }), "tolerance that is not positive");
  c.nontrivial(a != b);
}
PBT_CLAIM(comparisons_double, 20000) { comparisons<double>(c); }
PBT_CLAIM(comparisons_float, 20000) { comparisons<float>(c); }

// ---------------------------------------------------------------- logging
namespace {
namespace lg = sm::logging;
struct Got { std::string stream, message, time, file, function; int level, line; };
struct Recorder : lg::Logger {
  std::vector<Got> got;
  double now = 0;
  int throwOn = -1, recurseOn = -1;  // at this message
  lg::Logger::Time currentTimeImplementation() const override {
    return lg::Logger::Time(std::chrono::duration_cast<lg::Logger::Duration>(std::chrono::microseconds((int64_t)std::llround(now * 1e6))));
  }
  void logImplementation(const lg::LoggingEvent& e) override {
    got.push_back({e.streamName, e.message, e.timestring, e.file, e.function, (int)e.level, e.line});
    const int n = (int)got.size() - 1;
    if (n == throwOn) throw std::runtime_error("logger out of order");
    if (n == recurseOn) SM_FATAL_STREAM("recursive");
  }
};
int g_conds = 0, g_args = 0;
bool cond(bool b) { ++g_conds; return b; }
const std::string& arg(const std::string& s) { ++g_args; return s; }
const char* argp(const std::string& s) { ++g_args; return s.c_str(); }
struct Fire { bool cond; double rate; std::string text; int n; };
enum Kind { PLAIN, COND, ONCE, THROTTLE };
struct Site { int level; bool named; Kind kind; bool stream; std::string name; void (*fire)(const Fire&); };
#define PR "%s|%d", argp(f.text), f.n
#define ST arg(f.text) << '|' << f.n
#define S(L, NAMED, KIND, STREAM, NAME, CALL) {(int)lg::levels::L, NAMED, KIND, STREAM, NAME, [](const Fire& f) { (void)f; CALL; }}
#define SITES(L, M, N)                                                             \
  S(L, false, PLAIN, false, "", SM_##M(PR)), S(L, false, PLAIN, true, "", SM_##M##_STREAM(ST)),                     \
  S(L, true, PLAIN, false, N, SM_##M##_NAMED(N, PR)), S(L, true, PLAIN, true, N, SM_##M##_STREAM_NAMED(N, ST)),    \
  S(L, false, COND, false, "", SM_##M##_COND(cond(f.cond), PR)), S(L, false, COND, true, "", SM_##M##_STREAM_COND(cond(f.cond), ST)), \
  S(L, true, COND, false, N, SM_##M##_COND_NAMED(cond(f.cond), N, PR)), S(L, true, COND, true, N, SM_##M##_STREAM_COND_NAMED(cond(f.cond), N, ST)), \
  S(L, false, ONCE, false, "", SM_##M##_ONCE(PR)), S(L, false, ONCE, true, "", SM_##M##_STREAM_ONCE(ST)),           \
  S(L, true, ONCE, false, N, SM_##M##_ONCE_NAMED(N, PR)), S(L, true, ONCE, true, N, SM_##M##_STREAM_ONCE_NAMED(N, ST)), \
  S(L, false, THROTTLE, false, "", SM_##M##_THROTTLE(f.rate, PR)), S(L, false, THROTTLE, true, "", SM_##M##_STREAM_THROTTLE(f.rate, ST)), \
  S(L, true, THROTTLE, false, N, SM_##M##_THROTTLE_NAMED(f.rate, N, PR)), S(L, true, THROTTLE, true, N, SM_##M##_STREAM_THROTTLE_NAMED(f.rate, N, ST))
const std::vector<Site>& sites() {
  static const std::vector<Site> s = {
    SITES(All, ALL, "a"), SITES(Finest, FINEST, "b"), SITES(Verbose, VERBOSE, "a"), SITES(Finer, FINER, "b"), SITES(Trace, TRACE, "a.b"),
    SITES(Fine, FINE, "b"), SITES(Debug, DEBUG, "a"), SITES(Info, INFO, "b"), SITES(Warn, WARN, "a.b"), SITES(Error, ERROR, "a"), SITES(Fatal, FATAL, "b")};
  return s;
}
void fireDynamic(int level, const Fire& f, bool stream) {
  const lg::Level l = (lg::Level)level;
  if (stream) SM_LOG_STREAM(l, "sm.a", ST); else SM_LOG(l, "sm.a", PR);
}
struct LogOp { int what, site, level; std::string stream; double dt; Fire f; };
}  // namespace

PBT_CLAIM(log_history, 400) {
  const std::vector<Site>& all = sites();
  // a few sites used over and over
  std::vector<int> mine(c.integer(1, 6));
  for (int& m : mine) m = c.integer(0, (int)all.size() - 1);
  std::vector<LogOp> ops(c.integer(1, 40));
  int emitted = 0;
  for (LogOp& o : ops) {
    o.what = c.pick({0, 0, 0, 0, 0, 1, 2, 3, 4, 5});
    o.site = mine[c.bits(mine.size())];
    o.level = c.integer(0, 10);
    o.stream = c.pick<std::string>({"sm", "sm.a", "sm.b", "sm.a.b", "sm.other"});
    o.dt = c.pick({0., 0.25, 1., 3.5});
    o.f.cond = c.boolean(); o.f.rate = c.pick({0., 0.5, 1., 4.}); o.f.n = c.integer(-100, 100);
    o.f.text = c.oneIn(12) ? std::string(c.integer(4080, 4110), 'x') : c.oneIn(20) ? std::string(c.integer(1, 20000), 'y') : text(c, 8, "ab %\\\n$");
    if (c.oneIn(8)) o.f.text = "%s%n";
  }
  const int throwOn = c.oneIn(3) ? c.integer(0, 6) : -1, recurseOn = c.oneIn(3) ? c.integer(0, 6) : -1;
  for (auto& o : ops) {
    if (o.what == 0) { const Site& s = all[o.site]; c << "fire[" << o.site << " level " << s.level << " kind " << s.kind << (s.stream ? " stream" : "") << " name '" << s.name << "' cond " << o.f.cond << " rate " << o.f.rate << " len " << o.f.text.size() << "] "; }
    else c << (o.what == 1 ? "level " : o.what == 2 ? "enable " : o.what == 3 ? "disable " : o.what == 4 ? "wait " : "dynamic ") << o.level << " " << o.stream << " " << o.dt << "; ";
  }
  // the model runs here, for the count of messages; the code runs in a process of its own, as its locations are static
  auto run = [&](bool real) {
    boost::shared_ptr<Recorder> rec;
    if (real) { rec = boost::make_shared<Recorder>(); rec->throwOn = throwOn; rec->recurseOn = recurseOn; lg::setLogger(rec); req(lg::getLogger() == rec, "logger in use"); }
    int level = 7;
    std::set<std::string> on = {"sm"};
    std::map<int, bool> hit; std::map<int, double> last;
    double now = 0;
    int count = 0;
    for (const LogOp& o : ops) {
      if (real) rec->now = now;
      g_conds = g_args = 0;
      int conds = 0;
      bool emit = false;
      std::string stream; int lv = 0;
      switch (o.what) {
        case 1: level = o.level; if (real) { lg::setLevel((lg::Level)level); reqEq((int)lg::getLevel(), level, "level"); } continue;
        case 2: on.insert(o.stream); if (real) lg::enableNamedStream(o.stream); break;
        case 3: on.erase(o.stream); if (real) lg::disableNamedStream(o.stream); break;
        case 4: now += o.dt; continue;
        case 5:
          stream = "sm.a"; lv = o.level; emit = lv >= level && on.count(stream);
          if (real) fireDynamic(o.level, o.f, o.f.cond);
          break;
        default: {
          const Site& s = all[o.site];
          stream = s.named ? "sm." + s.name : "sm"; lv = s.level;
          const bool enabled = lv >= level && on.count(stream);
          emit = enabled;
          if (s.kind == COND) { conds = enabled; emit = enabled && o.f.cond; }
          if (s.kind == ONCE) { emit = enabled && !hit[o.site]; if (emit) hit[o.site] = true; }
          if (s.kind == THROTTLE) { emit = enabled && last[o.site] + o.f.rate <= now; if (emit) last[o.site] = now; }
          if (real) s.fire(o.f);
        }
      }
      if (emit) ++count;
      if (!real) continue;
      for (const char* n : {"sm", "sm.a", "sm.b", "sm.a.b", "sm.other"}) reqEq(lg::isNamedStreamEnabled(n), on.count(n) > 0, std::string("stream enabled ") + n);
      reqEq(rec->got.size(), (size_t)count, "messages so far");
      reqEq(g_conds, conds, "times the condition was evaluated");
      reqEq(g_args, emit ? 1 : 0, "times the arguments were evaluated");
      if (!emit) continue;
      const Got& g = rec->got.back();
      reqEq(g.message, o.f.text + "|" + std::to_string(o.f.n), "message");
      reqEq(g.stream, stream, "stream"); reqEq(g.level, lv, "level of the message");
      char b[64]; snprintf(b, sizeof b, "%.6f", now);
      reqEq(g.time, std::string(b), "time");
      req(g.file.find("U02_utilities.cpp") != std::string::npos && g.line > 0 && !g.function.empty(), "place");
    }
    if (real) {
      lg::g_logging_globals.shutdown();
      lg::setLevel(lg::levels::All); lg::enableNamedStream("sm.a");
      fireDynamic(10, Fire{true, 0, "late", 0}, true);
      fireDynamic(10, Fire{true, 0, "late", 0}, false);
      reqEq(rec->got.size(), (size_t)count, "messages after shutdown");
    }
    return count;
  };
  emitted = run(false);
  const std::string bad = inChild(20, [&] { run(true); });
  c.check(bad.empty(), bad);
  c.nontrivial(emitted > 1 && emitted < (int)ops.size());
}

PBT_CLAIM(log_threads, 60) {
  const int threads = c.integer(2, 6), each = c.integer(1, 60);
  const bool stream = c.boolean();
  const int len = c.pick({0, 10, 5000});
  c << threads << " threads, " << each << " messages, " << len;
  const std::string bad = inChild(20, [&] {
    auto rec = boost::make_shared<Recorder>();
    lg::setLogger(rec);
    boost::thread_group g;
    for (int t = 0; t < threads; ++t) g.create_thread([=] {
      const std::string fill(len, 'a' + t);
      for (int i = 0; i < each; ++i) {
        if (stream ^ (i % 3 == 0)) SM_INFO_STREAM(t << " " << i << " " << fill); else SM_INFO("%d %d %s", t, i, fill.c_str());
        if (i % 7 == 3) boost::this_thread::yield();
      }
    });
    g.join_all();
    reqEq(rec->got.size(), (size_t)threads * each, "messages");
    std::vector<int> next(threads, 0);
    for (const Got& m : rec->got) {
      int t = -1, i = -1;
      sscanf(m.message.c_str(), "%d %d", &t, &i);
      req(t >= 0 && t < threads, "mixed up message");
      reqEq(i, next[t]++, "order within a thread");
      reqEq(m.message, std::to_string(t) + " " + std::to_string(i) + " " + std::string(len, 'a' + t), "message");
    }
  });
  c.check(bad.empty(), bad);
  c.nontrivial(each > 1);
}

PBT_CLAIM(log_locations_threads, 60) {
  // streams are switched and the level set while other threads come across their locations for the first time
  const int threads = c.integer(1, 4), locs = c.integer(50, 400), toggles = c.integer(50, 400);
  const uint64_t seed = c.bits(1u << 30);
  const bool level = c.boolean();
  c << threads << " threads " << locs << " locations " << toggles << " switches";
  const std::string bad = inChild(15, [&] {
    lg::LoggingGlobals g;
    std::vector<std::vector<lg::LogLocation>> all(threads, std::vector<lg::LogLocation>(locs));
    boost::thread_group group;
    const std::vector<std::string> names = {"", "sm", "sm.a", "sm.b"};
    for (int t = 0; t < threads; ++t) group.create_thread([&, t] {
      for (int i = 0; i < locs; ++i) {
        const uint64_t r = pbt::mix(seed + 1000 * t + i);
        g.initializeLogLocation(&all[t][i], names[r % 4], (lg::Level)((r >> 8) % 11));
        if (r % 5 == 0) boost::this_thread::yield();
      }
    });
    std::set<std::string> on = {"sm"};
    int lv = 7;
    for (int i = 0; i < toggles; ++i) {
      const uint64_t r = pbt::mix(~seed + i);
      const std::string& n = names[1 + r % 3];
      if (level && r % 7 == 0) g.setLevel((lg::Level)(lv = (r >> 20) % 11));
      else if ((r >> 8) % 2) { g.enableNamedStream(n); on.insert(n); }
      else { g.disableNamedStream(n); on.erase(n); }
    }
    group.join_all();
    for (int t = 0; t < threads; ++t) for (int i = 0; i < locs; ++i) {
      const lg::LogLocation& l = all[t][i];
      const uint64_t r = pbt::mix(seed + 1000 * t + i);
      const std::string& n = names[r % 4];
      req(l._initialized && l._streamName == n && (int)l._level == (int)((r >> 8) % 11), "location");
      reqEq(l._loggerEnabled, (int)l._level >= lv && (n.empty() || on.count(n)), "location enabled, stream '" + n + "' level " + std::to_string((int)l._level));
    }
  });
  c.check(bad.empty(), bad);
  c.nontrivial();
}

PBT_CLAIM(log_formats, 10000) {
  struct Piece { bool token; std::string s; };
  std::string stream = text(c, 5, "sm.ab"), file = text(c, 8, "a/.cpp"), fn = text(c, 6, "f_:"), msg = text(c, 20, "m ${}e%\n"), time = text(c, 8, "0123.");
  const int level = c.integer(0, 11), line = c.integer(0, 99999);
  std::map<std::string, std::string> extra = {{"host", text(c, 5, "hst")}, {"Node", "n"}};
  lg::LoggingEvent e(stream.c_str(), (lg::Level)level, file.c_str(), line, fn.c_str(), msg.c_str(), time);
  static const char* severity[] = {"  ALL", "FINES", "VERBO", "FINER", "TRACE", " FINE", "DEBUG", " INFO", " WARN", "ERROR", "FATAL", "UNKNO"};
  std::ostringstream tid; tid << boost::this_thread::get_id();
  std::map<std::string, std::string> val = {{"severity", severity[level]}, {"message", msg}, {"time", time}, {"thread", tid.str()}, {"file", file},
                                            {"line", std::to_string(line)}, {"function", fn}, {"streamname", stream}};
  for (auto& x : extra) val[x.first] = x.second;
  auto make = [&](std::string& out) {
    std::string fmt;
    for (int i = c.integer(0, 6); i > 0; --i) {
      if (c.boolean()) { const std::string p = text(c, 5, "a[ ]:{}"); fmt += p; out += p; }
      else {
        const std::string t = c.pick<std::string>({"severity", "message", "time", "thread", "file", "line", "function", "streamname", "host", "Node", "nosuch", "Message"});
        fmt += "${" + t + "}";
        out += val.count(t) ? val[t] : "${" + t + "}";
      }
    }
    if (c.oneIn(5)) { fmt += "$"; out += "$"; }
    return fmt;
  };
  std::string w0, w1, w2;
  const std::string f0 = make(w0), f1 = make(w1), f2 = make(w2);
  const bool env = c.boolean(), color = c.boolean();
  c << "'" << f0 << "' '" << f1 << "' '" << f2 << "'";
  if (env) setenv("SMCONSOLE_FORMAT", f0.c_str(), 1); else { unsetenv("SMCONSOLE_FORMAT"); w0 = "[" + val["severity"] + "] [" + time + "]: " + msg; }
  lg::Formatter f;
  unsetenv("SMCONSOLE_FORMAT");
  f.extra_fixed_tokens_ = extra;
  f.doColor_ = color;
  static const char* colors[] = {"\033[92m", "\033[92m", "\033[92m", "\033[92m", "\033[92m", "\033[92m", "\033[32m", "\033[0m", "\033[33m", "\033[31m", "\033[91m", "\033[0m"};
  auto printed = [&] { std::ostringstream o; f.print(e, o); return o.str(); };
  auto want = [&](const std::string& s) { return (color ? colors[level] : "") + s + (color ? "\033[0m" : "") + "\n"; };
  c.eq(printed(), want(w0), "printed by the first format");
  f.init(f1.c_str());
  c.eq(printed(), want(w1), "printed by the second format");
  f.init(f2.c_str());
  c.eq(printed(), want(w2), "printed by the third format");
  c.eq(printed(), want(w2), "printed once more");
  // the logger for standard output
  lg::StdOutLogger l;
  l.formatter.doColor_ = color; l.formatter.init(f1.c_str()); l.formatter.extra_fixed_tokens_ = extra;
  std::ostringstream cap;
  std::streambuf* was = std::cout.rdbuf(cap.rdbuf());
  l.log(e);
  std::cout.rdbuf(was);
  c.eq(cap.str(), want(w1), "logged to standard output");
  c.nontrivial(f1.find("${") != std::string::npos);
}

// ---------------------------------------------------------------- job queue
namespace {
int threadsNow() {
  int n = 0;
  for (boost::filesystem::directory_iterator i("/proc/self/task"), e; i != e; ++i) ++n;
  return n;
}
bool eventually(const std::function<bool()>& f, double seconds) {
  for (const double end = pbt::now() + seconds; pbt::now() < end; usleep(200)) if (f()) return true;
  return f();
}
struct Job { int kind, us, children; };
}  // namespace

PBT_CLAIM(jobs_all_run, 200) {
  const int threads = c.integer(1, 8), n = c.integer(0, 60), rounds = c.integer(1, 3);
  const bool startLate = c.oneIn(3), twice = c.oneIn(3);
  std::vector<Job> jobs(n);
  for (Job& j : jobs) { j.kind = c.bits(4); j.us = c.oneIn(4) ? c.integer(1, 300) : 0; j.children = c.oneIn(8) ? c.integer(1, 3) : 0; }
  c << threads << " threads " << n << " jobs " << rounds << " rounds" << (startLate ? " late" : "");
  const std::string bad = inChild(20, [&] {
    std::unique_ptr<sm::JobQueue> q(new sm::JobQueue);
    std::atomic<int> active(0), peak(0), childRuns(0);
    const int before = threadsNow();
    if (!startLate) q->start(threads);
    for (int round = 0; round < rounds; ++round) {
      std::vector<std::atomic<int>> runs(n);
      std::vector<int> order; boost::mutex om;
      for (auto& r : runs) r = 0;
      std::vector<boost::unique_future<int>> fut(n);
      std::vector<boost::unique_future<std::string>> sfut(n);
      int children = 0;
      const int c0 = childRuns;
      for (int i = 0; i < n; ++i) {
        const Job j = jobs[i];
        children += j.children;
        auto body = [&, i, j] {
          const int a = ++active;
          for (int p = peak; p < a && !peak.compare_exchange_weak(p, a);) {}
          if (threads == 1) { boost::mutex::scoped_lock l(om); order.push_back(i); }
          if (j.us) usleep(j.us);
          for (int k = 0; k < j.children; ++k) q->scheduleWork([&] { ++childRuns; });
          ++runs[i];
          --active;
        };
        switch (j.kind) {
          case 0: q->scheduleWork(body); break;
          case 1: q->scheduleFuture<int>([=] { body(); return 7 * i; }, fut[i]); break;
          case 2: q->scheduleFuture<std::string>([=] { body(); return std::to_string(i); }, sfut[i]); break;
          default: q->scheduleFuture<int>([=]() -> int { body(); throw std::out_of_range("job " + std::to_string(i)); }, fut[i]);
        }
      }
      if (startLate && round == 0) {
        if (n) { req(!q->empty(), "jobs wait for the start"); req(childRuns == 0 && active == 0, "ran before the start"); }
        q->start(threads);
      }
      if (twice) q->start(threads);  // has no effect
      auto futures = [&] {
        for (int i = 0; i < n; ++i) {
          if (jobs[i].kind == 1) reqEq(fut[i].get(), 7 * i, "result");
          if (jobs[i].kind == 2) reqEq(sfut[i].get(), std::to_string(i), "result");
          if (jobs[i].kind == 3) {
            std::string what = "no error";
            try { fut[i].get(); } catch (const std::exception& e) { what = e.what(); }
            req(what.find("job " + std::to_string(i)) != std::string::npos || what.find("out_of_range") != std::string::npos, "error of a job: " + what);
          }
        }
      };
      if (round % 2) futures();
      q->waitForEmptyQueue();
      req(q->empty(), "not empty");
      for (int i = 0; i < n; ++i) reqEq((int)runs[i], 1, "runs of job " + std::to_string(i));
      reqEq(childRuns - c0, children, "jobs of jobs");
      if (round % 2 == 0) futures();
      if (threads == 1) for (int i = 0; i < n; ++i) reqEq(order[i], i, "order with one thread");
    }
    req(peak <= threads, "more jobs at once than threads");
    req(threadsNow() - before <= threads, "more threads than asked for");
    q.reset();
    req(eventually([&] { return threadsNow() == before; }, 5), "threads left behind");
  });
  c.check(bad.empty(), bad);
  c.nontrivial(n > 0 && threads > 1);
}

PBT_CLAIM(jobs_stopped, 200) {
  // how the queue ends: join, stop, or only the destructor; before, during or after the jobs; also never started
  const int threads = c.integer(0, 8), n = c.integer(0, 30), how = c.bits(3), slow = c.pick({0, 0, 50, 500}), pause = c.pick({0, 0, 20, 1000});
  const bool start = threads > 0;
  c << threads << " threads " << n << " jobs end " << how << " us " << slow << " pause " << pause;
  const std::string bad = inChild(20, [&] {
    const int before = threadsNow();
    std::vector<std::atomic<int>> begun(n), done(n);
    for (int i = 0; i < n; ++i) begun[i] = done[i] = 0;
    std::vector<boost::unique_future<int>> fut(n);
    // in memory of its own, overwritten afterwards: a thread that still uses the queue would notice
    void* mem = malloc(sizeof(sm::JobQueue));
    sm::JobQueue* q = new (mem) sm::JobQueue;
    if (start) q->start(threads);
    for (int i = 0; i < n; ++i) {
      boost::function<int()> f = [&, i] { ++begun[i]; if (slow) usleep(slow); ++done[i]; return i; };
      if (i % 2) q->scheduleFuture<int>(f, fut[i]); else q->scheduleWork([f] { f(); });
    }
    if (pause) usleep(pause);
    if (how == 0) q->join();
    if (how == 1) q->stop();
    if (how == 0) {
      for (int i = 0; i < n; ++i) { req(begun[i] == done[i], "join returned with a job under way"); }
      const bool left = std::any_of(begun.begin(), begun.end(), [](const std::atomic<int>& b) { return b == 0; });
      reqEq(q->empty(), !left, "empty");
      req(eventually([&] { return threadsNow() == before; }, 5), "threads left after join");
    }
    q->~JobQueue();
    memset(mem, 0xee, sizeof(sm::JobQueue));
    int ran = 0;
    for (int i = 0; i < n; ++i) { req(begun[i] <= 1 && begun[i] == done[i], "runs of a job"); ran += begun[i]; }
    req(start || !ran, "ran without a thread");
    req(eventually([&] { return threadsNow() == before; }, 5), "threads left behind");
    int later = 0;
    for (int i = 0; i < n; ++i) later += begun[i];
    reqEq(later, ran, "jobs run after the end");
    for (int i = 1; i < n; i += 2) {
      if (done[i]) { reqEq(fut[i].get(), i, "result"); continue; }
      bool broken = false;
      try { fut[i].get(); } catch (const boost::broken_promise&) { broken = true; }
      req(broken, "the future of a job that never ran");
    }
    // with one thread the jobs that ran are the first ones
    if (threads == 1) for (int i = 1; i < n; ++i) req(!begun[i] || begun[i - 1], "a later job ran before an earlier one");
  });
  c.check(bad.empty(), bad);
  c.nontrivial(start);
}

PBT_CLAIM(jobs_short_lived, 30) {
  // many queues that end as soon as they were started: races between the end and threads just getting going
  const int threads = c.integer(1, 6), how = c.bits(2), times = c.integer(100, 400), jobs = c.bits(3);
  c << times << " queues of " << threads << " threads end " << how;
  const std::string bad = inChild(20, [&] {
    for (int k = 0; k < times; ++k) {
      std::atomic<int> ran(0);
      void* mem = malloc(sizeof(sm::JobQueue));
      sm::JobQueue* q = new (mem) sm::JobQueue;
      q->start(threads);
      for (int i = 0; i < jobs; ++i) q->scheduleWork([&] { ++ran; });
      if (how == 0) q->join();
      q->~JobQueue();
      memset(mem, 0xee, sizeof(sm::JobQueue));
      req(ran <= jobs, "runs");
    }
    req(eventually([&] { return threadsNow() == 1; }, 5), "threads left behind");
  });
  c.check(bad.empty(), bad);
  c.nontrivial();
}

// ---------------------------------------------------------------- timers
PBT_CLAIM(timers, 2000) {
  using namespace sm::timing;
  static int serial = 0;
  const std::string base = "tag" + std::to_string(getpid()) + "_" + std::to_string(serial++ % 4);
  const int tags = c.integer(1, 3);
  std::vector<std::string> tag; std::vector<size_t> handle;
  for (int i = 0; i < tags; ++i) {
    tag.push_back(base + std::string(i, '+')); handle.push_back(Timing::getHandle(tag[i]));
    if (c.boolean()) Timing::reset(tag[i]); else Timing::reset(handle[i]);
    c.eq(Timing::getTag(handle[i]), tag[i], "tag"); c.eq(Timing::getHandle(tag[i]), handle[i], "handle");
    c.eq(Timing::getNumSamples(tag[i]), 0u, "samples after reset");
    for (int j = 0; j < i; ++j) c.check(handle[j] != handle[i], "handles differ");
  }
  c.check(throwsA<TimerException>([&] { Timer t((size_t)1 << 40); }), "handle that does not exist");
  c.check(throwsA<TimerException>([&] { Timing::getTag((size_t)1 << 40); }) && throwsA<TimerException>([&] { Timing::getMeanSeconds((size_t)1 << 40); }), "handle that does not exist");
  // local time jumps twice a year
  setenv("TZ", c.pick({"UTC", "CET-1CEST,M3.5.0,M10.5.0/3", "EST5EDT,M3.2.0,M11.1.0"}), 1); tzset();
  struct Off { ~Off() { fake::on = false; setenv("TZ", "UTC", 1); tzset(); } } off;
  // around the end and the begin of summer time, or anywhere
  fake::us = c.pick<int64_t>({1352000000, 1351386000, 1332637200, 1352005200, 1331449200}) * 1000000 - c.integer(0, 7200) * 1000000LL + c.integer(0, 999999);
  fake::on = true;
  std::vector<std::vector<double>> got(tags);
  std::vector<std::unique_ptr<Timer>> t(c.integer(1, 4));
  std::vector<int> of(t.size()); std::vector<bool> running(t.size()); std::vector<int64_t> since(t.size());
  const int64_t unit = c.pick<int64_t>({1, 1, 1000, 60000000});
  const bool constant = c.oneIn(3);
  std::vector<int> steps;
  for (int n = c.integer(1, 120); n > 0; --n) {
    const int k = c.bits(t.size());
    switch (c.bits(5)) {
      case 0:
        if (!t[k]) {
          of[k] = c.bits(tags); running[k] = !c.oneIn(3); since[k] = fake::us;
          const bool stopped = !running[k];
          t[k].reset(c.boolean() ? stopped ? new Timer(tag[of[k]], true) : new Timer(tag[of[k]]) : stopped ? new Timer(handle[of[k]], true) : new Timer(handle[of[k]]));
        } else {
          if (running[k]) got[of[k]].push_back((fake::us - since[k]) * 1e-6);
          t[k].reset();
        }
        break;
      case 1: case 2:
        if (!t[k]) break;
        if (running[k]) { c.check(throwsA<TimerException>([&] { t[k]->start(); }), "started twice"); t[k]->stop(); got[of[k]].push_back((fake::us - since[k]) * 1e-6); }
        else { c.check(throwsA<TimerException>([&] { t[k]->stop(); }), "stopped twice"); t[k]->start(); since[k] = fake::us; }
        running[k] = !running[k];
        break;
      case 3: fake::us += constant ? 100 * unit + 3 : c.oneIn(4) ? 0 : c.integer(0, 200) * unit; break;
      default: if (c.oneIn(10)) { const int g = c.bits(tags); Timing::reset(handle[g]); got[g].clear(); }
    }
    if (t[k]) c.eq(t[k]->isTiming(), running[k], "isTiming");
  }
  for (size_t k = 0; k < t.size(); ++k) if (t[k]) { if (running[k]) got[of[k]].push_back((fake::us - since[k]) * 1e-6); t[k].reset(); }
  fake::on = false;
  int most = 0;
  const std::string table = Timing::print();
  for (int i = 0; i < tags; ++i) {
    const std::vector<double>& g = got[i];
    c << "tag " << i << ": " << g.size() << " samples; ";
    most = std::max(most, (int)g.size());
    c.eq(Timing::getNumSamples(handle[i]), g.size(), "number of samples"); c.eq(Timing::getNumSamples(tag[i]), g.size(), "number of samples");
    const size_t at = table.find(tag[i] + std::string(tag[i].size() < 0 ? 0 : 0, ' '));
    c.check(at != std::string::npos, "tag in the table");
    // the line that starts with the tag alone
    std::string line;
    std::istringstream ls(table);
    for (std::string l; std::getline(ls, l);) if (l.compare(0, tag[i].size(), tag[i]) == 0 && (l[tag[i].size()] == ' ' || l[tag[i].size()] == '\t')) line = l;
    c.check(!line.empty(), "line of the table");
    std::istringstream fields(line); std::string f0; size_t f1 = 99999;
    fields >> f0 >> f1;
    c.eq(f1, g.size(), "samples in the table");
    if (g.empty()) continue;
    double sum = 0, lo = g[0], hi = g[0];
    for (double x : g) { sum += x; lo = std::min(lo, x); hi = std::max(hi, x); }
    const double mean = sum / g.size();
    double var = 0;
    for (double x : g) var += (x - mean) * (x - mean);
    var /= g.size();
    const size_t w = std::min<size_t>(50, g.size());
    double roll = 0;
    for (size_t j = g.size() - w; j < g.size(); ++j) roll += g[j];
    roll /= w;
    const double tol = 1e-12 * hi;
    c.near(Timing::getTotalSeconds(handle[i]), sum, tol * g.size(), 1e-12, "total"); c.near(Timing::getTotalSeconds(tag[i]), sum, tol * g.size(), 1e-12, "total");
    c.near(Timing::getMeanSeconds(handle[i]), mean, tol, 1e-12, "mean"); c.near(Timing::getMeanSeconds(tag[i]), mean, tol, 1e-12, "mean");
    c.near(Timing::getMinSeconds(handle[i]), lo, 1e-15, 1e-12, "minimum"); c.near(Timing::getMinSeconds(tag[i]), lo, 1e-15, 1e-12, "minimum");
    c.near(Timing::getMaxSeconds(handle[i]), hi, 1e-15, 1e-12, "maximum"); c.near(Timing::getMaxSeconds(tag[i]), hi, 1e-15, 1e-12, "maximum");
    const double v = Timing::getVarianceSeconds(handle[i]);
    c.near(v, var, 1e-10 * hi * hi, 1e-10, "variance"); c.eq(Timing::getVarianceSeconds(tag[i]), v, "variance");
    c.check(v >= 0, "negative variance");
    if (roll > 1e-3 * hi) c.near(Timing::getHz(handle[i]), 1 / roll, 0, 1e-9, "rate of the last 50");
    if (roll > 1e-3 * hi) c.near(Timing::getHz(tag[i]), 1 / roll, 0, 1e-9, "rate of the last 50");
    for (double x : {Timing::getTotalSeconds(handle[i]), Timing::getMinSeconds(handle[i]), Timing::getMaxSeconds(handle[i]), Timing::getMeanSeconds(handle[i])})
      c.check(line.find(Timing::secondsToTimeString(x)) != std::string::npos, "statistics in the table: " + line);
    c.check(line.find("nan") == std::string::npos, "table: " + line);
  }
  c.nontrivial(most > 2);
}

PBT_CLAIM(time_strings, 20000) {
  int64_t us;
  switch (c.bits(3)) {
    case 0: us = c.integer64(0, 1000000); break;
    case 1: us = c.integer(0, 7200) * 1000000LL + c.pick({-1, 0, 1, 999999}); break;
    default: us = c.integer64(0, 99LL * 3600 * 1000000);
  }
  us = std::max<int64_t>(us, 0);
  const double off = c.pick({0., 0.3e-6, -0.3e-6, 0.49e-6});
  const double s = std::max(0., us * 1e-6 + off);
  c << us << " us + " << off;
  char b[64];
  snprintf(b, sizeof b, "%02d:%02d:%02d.%06d", (int)(us / 3600000000LL), (int)(us / 60000000 % 60), (int)(us / 1000000 % 60), (int)(us % 1000000));
  c.eq(sm::timing::Timing::secondsToTimeString(s), std::string(b), "time string");
  c.nontrivial(us >= 60000000);
}

// ---------------------------------------------------------------- random numbers
namespace {
double ksUniform(std::vector<double> v) {
  std::sort(v.begin(), v.end());
  double d = 0;
  for (size_t i = 0; i < v.size(); ++i) d = std::max(d, std::max(std::fabs(v[i] - (double)i / v.size()), std::fabs((double)(i + 1) / v.size() - v[i])));
  return d;
}
}  // namespace

PBT_CLAIM(random_numbers, 300) {
  const uint64_t seed = anyU64(c);
  const int n = c.integer(1, 200), burn = c.integer(0, 5);
  std::vector<int> what(n); std::vector<double> lo(n), hi(n); std::vector<int> il(n), ih(n);
  for (int i = 0; i < n; ++i) {
    what[i] = c.bits(6);
    const double a = c.sign() * c.logReal(1e-6, 1e9);
    lo[i] = a;
    hi[i] = c.oneIn(3) ? std::nextafter(a, 1e300) : c.oneIn(3) ? a * (1 + c.sign() * 1e-15 * (a > 0 ? 1 : 1)) : a + c.logReal(1e-6, 1e9);
    if (hi[i] < lo[i]) std::swap(lo[i], hi[i]);
    if (hi[i] == lo[i]) hi[i] = std::nextafter(lo[i], 1e300);
    il[i] = (int)(c.oneIn(3) ? c.integer(-5, 5) : c.integer64(INT32_MIN, INT32_MAX - 1));
    ih[i] = c.oneIn(3) ? il[i] + 1 : (int)std::min<int64_t>(INT32_MAX, c.integer64((int64_t)il[i] + 1, c.boolean() ? INT32_MAX : (int64_t)il[i] + 20));
  }
  c << "seed " << seed << " n " << n;
  auto draw = [&] {
    std::vector<double> v;
    for (int i = 0; i < n; ++i) switch (what[i]) {
      case 0: v.push_back(sm::random::normal()); break;
      case 1: v.push_back(sm::random::randn()); break;
      case 2: v.push_back(sm::random::uniform()); break;
      case 3: v.push_back(sm::random::rand()); break;
      case 4: v.push_back(sm::random::randLU(lo[i], hi[i])); break;
      default: v.push_back(sm::random::randLUi(il[i], ih[i]));
    }
    return v;
  };
  sm::random::seed(seed);
  const std::vector<double> a = draw();
  for (int i = 0; i < burn; ++i) sm::random::normal();
  sm::random::seed(seed);
  c.check(a == draw(), "the same seed gives the same numbers");
  sm::random::seed((uint32_t)(seed + 1));
  if (n > 20) c.check(a != draw(), "another seed gives other numbers");
  for (int i = 0; i < n; ++i) {
    if (what[i] < 2) c.check(std::fabs(a[i]) < 9, "normal number");
    else if (what[i] < 4) c.check(a[i] >= 0 && a[i] < 1, "uniform number");
    else if (what[i] == 4) { if (!(a[i] >= lo[i] && a[i] < hi[i])) { std::ostringstream o; o.precision(17); o << "randLU(" << lo[i] << ", " << hi[i] << ") gave " << a[i]; c.fail(o.str()); } }
    else if (!(a[i] >= il[i] && a[i] < ih[i])) { std::ostringstream o; o.precision(17); o << "randLUi(" << il[i] << ", " << ih[i] << ") gave " << a[i]; c.fail(o.str()); }
  }
  c.nontrivial(n > 1);
}

PBT_CLAIM(random_distributions, 60) {
  // Dvoretzky-Kiefer-Wolfowitz: off by more than eps with probability below 2 exp(-2 n eps^2), here 2e-13
  const int n = 4000;
  const double eps = std::sqrt(std::log(1e13) / (2 * n));
  sm::random::seed(c.bits(1ull << 32));
  const double lo = c.real(-100, 100), hi = lo + c.logReal(1e-3, 1e3);
  const int il = c.integer(-1000, 1000), k = c.integer(1, 12);
  std::vector<double> u, nrm, r, lag;
  std::vector<int> cnt(k, 0);
  double last = 0.3;
  for (int i = 0; i < n; ++i) {
    const double x = c.boolean() ? sm::random::uniform() : sm::random::rand();
    u.push_back(x);
    lag.push_back(std::fmod(x + last, 1.0)); last = x;
    nrm.push_back(0.5 * std::erfc(-(i % 2 ? sm::random::normal() : sm::random::randn()) / std::sqrt(2.)));
    r.push_back((sm::random::randLU(lo, hi) - lo) / (hi - lo));
    const int j = sm::random::randLUi(il, il + k);
    c.check(j >= il && j < il + k, "range");
    ++cnt[j - il];
    if (c.used() > 100000) c.discard();
  }
  c << "seed, k " << k;
  c.check(ksUniform(u) < eps, "uniform: off by " + std::to_string(ksUniform(u)));
  c.check(ksUniform(lag) < eps, "sums of successive uniforms modulo 1: off by " + std::to_string(ksUniform(lag)));
  c.check(ksUniform(nrm) < eps, "normal: off by " + std::to_string(ksUniform(nrm)));
  c.check(ksUniform(r) < eps, "randLU: off by " + std::to_string(ksUniform(r)));
  double d = 0, cum = 0;
  for (int j = 0; j < k; ++j) { cum += cnt[j]; d = std::max(d, std::fabs(cum / n - (j + 1.) / k)); }
  c.check(d < eps, "randLUi: off by " + std::to_string(d));
  c.nontrivial();
}

PBT_MAIN("U02", "the case exercised more than a default, empty or constant value: see nontrivial in each claim")

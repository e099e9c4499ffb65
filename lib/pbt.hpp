// A small property-based testing engine.
//
// A claim is a function of a Case. Everything random a claim uses is drawn from
// the Case, which records each draw as an integer "choice"; a run is a pure
// function of the choice sequence, so a failure is shrunk by editing that
// sequence (integrated shrinking, as in Hypothesis) and replayed from a file.
//
// Claims run in forked workers. The choices live in memory shared with the
// parent, so a case that ends its process (abort, signal, failed assertion) or
// hangs is a failure like any other, with its choices at hand.
//
//   PBT_CLAIM(name, cases) { ... c.integer(0, 5) ... c.check(cond, "..."); }
//   PBT_KNOWN(name, "what fails") { return true if the fixed input still fails; }
//   PBT_MAIN("K01", "rule text")
#pragma once
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <signal.h>
#include <unistd.h>
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>
#include <Eigen/Core>

namespace pbt {

inline uint64_t mix(uint64_t x) {
  x += 0x9e3779b97f4a7c15ull;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}
inline double now() {
  timeval t;
  gettimeofday(&t, 0);
  return t.tv_sec + 1e-6 * t.tv_usec;
}

static const uint32_t kCap = 1u << 17;

struct Failure : std::exception {
  std::string msg;
  explicit Failure(const std::string& m) : msg(m) {}
  const char* what() const noexcept override { return msg.c_str(); }
};
struct Discard : std::exception {};

struct Slot {  // shared with the parent
  volatile uint32_t n;
  volatile uint32_t claim;
  volatile uint64_t index;
  volatile uint32_t running;
  volatile uint32_t outcome;  // 0 none, 1 pass, 2 fail, 3 discard
  volatile double started;
  char msg[8192];
  uint64_t ch[kCap];
};

class Case {
 public:
  Case(Slot* slot, uint64_t seed) : _s(slot), _seed(seed), _replay(false), _pos(0) { _s->n = 0; }
  Case(Slot* slot, const std::vector<uint64_t>& r) : _s(slot), _seed(0), _replay(true), _in(r), _pos(0) { _s->n = 0; }

  // ---- draws; the simplest value is what choice 0 gives ----
  uint64_t bits(uint64_t bound) {  // [0, bound)
    if (bound <= 1) return 0;
    uint64_t v;
    if (_replay) {
      v = _pos < _in.size() ? _in[_pos] : 0;
      if (v >= bound) v %= bound;
    } else {
      _seed += 0x9e3779b97f4a7c15ull;
      uint64_t x = mix(_seed);
      v = (uint64_t)(((unsigned __int128)x * bound) >> 64);
    }
    ++_pos;
    if (_s->n < kCap) {
      _s->ch[_s->n] = v;
      _s->n = _s->n + 1;
    }
    _hash = mix(_hash ^ v);
    return v;
  }
  int integer(int lo, int hi) { return lo + (int)bits((uint64_t)((int64_t)hi - lo) + 1); }
  int64_t integer64(int64_t lo, int64_t hi) {
    uint64_t span = (uint64_t)hi - (uint64_t)lo;
    if (span == ~0ull) return (int64_t)((bits(1ull << 32) << 32) | bits(1ull << 32));
    return (int64_t)((uint64_t)lo + bits(span + 1));
  }
  // true with probability 1 in n
  bool oneIn(int n) { return bits(n) == (uint64_t)(n - 1); }
  bool boolean() { return bits(2) == 1; }
  // uniform in [lo, hi]; shrinks towards 0 if 0 lies inside, else towards lo
  double real(double lo, double hi) {
    const uint64_t N = 1ull << 44;
    uint64_t u = bits(2 * N);
    double f = (double)(u >> 1) / (double)(N - 1);
    if (lo < 0 && hi > 0) {
      double span = hi - lo;
      // side chosen by measure, kept in one draw
      double pos = hi / span;
      double g = f;
      if (u & 1) {  // remap so that both sides are reachable from one draw
        return g < pos ? g / pos * hi : (g - pos) / (1 - pos) * lo;
      }
      return g < 1 - pos ? g / (1 - pos) * lo : (g - (1 - pos)) / pos * hi;
    }
    return std::min(hi, std::max(lo, lo + f * (hi - lo)));
  }
  double logReal(double lo, double hi) {
    double x = std::exp(real(std::log(lo), std::log(hi)));
    return std::min(hi, std::max(lo, x));
  }
  double sign() { return boolean() ? -1. : 1.; }
  // a spread of magnitudes, with zero and small integers
  double anyReal(double maxAbs) {
    switch (bits(6)) {
      case 0: return 0.0;
      case 1: return (double)integer(-(int)std::min(maxAbs, 10.), (int)std::min(maxAbs, 10.));
      case 2: return sign() * logReal(1e-12 * maxAbs, maxAbs);
      default: return real(-maxAbs, maxAbs);
    }
  }
  template <typename T>
  T pick(const std::vector<T>& v) { return v[bits(v.size())]; }
  template <typename T>
  T pick(std::initializer_list<T> v) { return v.begin()[bits(v.size())]; }

  // ---- verdicts ----
  [[noreturn]] void fail(const std::string& m) { throw Failure(m + ctx()); }
  void check(bool ok, const std::string& m) {
    ++checks;
    if (!ok) fail(m);
  }
  template <typename A, typename B>
  void eq(const A& a, const B& b, const std::string& m) {
    ++checks;
    if (!(a == b)) {
      std::ostringstream o;
      o.precision(17);
      o << m << ": got " << a << ", expected " << b;
      fail(o.str());
    }
  }
  // |a - b| <= atol + rtol * max(|a|, |b|); NaN fails
  void near(double a, double b, double atol, double rtol, const std::string& m) {
    ++checks;
    double tol = atol + rtol * std::max(std::fabs(a), std::fabs(b));
    if (!(std::fabs(a - b) <= tol)) {
      if (a == b) return;
      std::ostringstream o;
      o.precision(17);
      o << m << ": got " << a << ", expected " << b << " (off by " << a - b << ", tolerance " << tol << ")";
      fail(o.str());
    }
  }
  template <typename D1, typename D2>
  void nearMat(const Eigen::MatrixBase<D1>& A, const Eigen::MatrixBase<D2>& B, double atol, double rtol,
               const std::string& m) {
    ++checks;
    Eigen::MatrixXd a = A.template cast<double>(), b = B.template cast<double>();
    if (a.rows() != b.rows() || a.cols() != b.cols()) {
      std::ostringstream o;
      o << m << ": size " << a.rows() << "x" << a.cols() << ", expected " << b.rows() << "x" << b.cols();
      fail(o.str());
    }
    if (a.size() == 0) return;
    double scale = std::max(a.cwiseAbs().maxCoeff(), b.cwiseAbs().maxCoeff());
    bool bad = !a.allFinite() || !b.allFinite();
    double d = (a - b).cwiseAbs().maxCoeff(), tol = atol + rtol * scale;
    if (bad || !(d <= tol)) {
      std::ostringstream o;
      o.precision(12);
      o << m << ": off by " << d << " (tolerance " << tol << ")\n got\n" << a << "\n expected\n" << b;
      fail(o.str());
    }
  }
  void discard() { throw Discard(); }
  // this case exercises the claim; by default distinct means distinct choices
  void nontrivial(bool yes = true) { if (yes) isNontrivial = true; }
  void label(const std::string& l) { labels.insert(l); }
  template <typename T>
  Case& operator<<(const T& t) { _note << t; return *this; }  // describes the case
  std::string note() const { return _note.str(); }
  uint64_t hash() const { return _hash; }
  size_t used() const { return _pos; }

  bool isNontrivial = false;
  long checks = 0;
  std::set<std::string> labels;

 private:
  std::string ctx() const { return _note.str().empty() ? "" : " | case: " + _note.str().substr(0, 3000); }
  Slot* _s;
  uint64_t _seed;
  bool _replay;
  std::vector<uint64_t> _in;
  size_t _pos;
  uint64_t _hash = 1469598103934665603ull;
  std::ostringstream _note{[] { std::ostringstream o; o.precision(12); return o; }()};
};

struct Claim {
  std::string name;
  long cases;
  void (*fn)(Case&);
};
struct Known {
  std::string name, what;
  bool (*fn)();
};
inline std::vector<Claim>& claims() { static std::vector<Claim> c; return c; }
inline std::vector<Known>& knowns() { static std::vector<Known> c; return c; }
struct RegC { RegC(const char* n, long k, void (*f)(Case&)) { claims().push_back({n, k, f}); } };
struct RegK { RegK(const char* n, const char* w, bool (*f)()) { knowns().push_back({n, w, f}); } };

#define PBT_CLAIM(NAME, CASES)                                   \
  static void pbt_claim_##NAME(::pbt::Case& c);                  \
  static ::pbt::RegC pbt_reg_##NAME(#NAME, CASES, pbt_claim_##NAME); \
  static void pbt_claim_##NAME(::pbt::Case& c)
#define PBT_KNOWN(NAME, WHAT)                                    \
  static bool pbt_known_##NAME();                                \
  static ::pbt::RegK pbt_regk_##NAME(#NAME, WHAT, pbt_known_##NAME); \
  static bool pbt_known_##NAME()

inline int runOne(const Claim& cl, Case& c, std::string* msg) {  // 1 pass, 2 fail, 3 discard
  try {
    cl.fn(c);
    return 1;
  } catch (const Failure& f) {
    *msg = f.msg;
    return 2;
  } catch (const Discard&) {
    return 3;
  } catch (const std::exception& e) {
    *msg = std::string("unexpected exception: ") + e.what() + (c.note().empty() ? "" : " | case: " + c.note().substr(0, 3000));
    return 2;
  } catch (...) {
    *msg = "unexpected exception of unknown type";
    return 2;
  }
}

template <typename T>
T* shared(size_t count) {
  void* p = mmap(0, sizeof(T) * count, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); exit(2); }
  return (T*)p;
}
inline std::string jsonStr(const std::string& s) {
  std::string o = "\"";
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
    else if (ch == '\n') o += "\\n";
    else if (ch == '\t') o += "\\t";
    else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, 8, "\\u%04x", ch); o += b; }
    else o += ch;
  }
  return o + "\"";
}

struct Runner {
  std::string id, rule;
  uint64_t seed = 1;
  double scale = 1, cap = 60, hang = 60, shrinkTime = 15;
  int workers = 8;
  std::string json, replayDir = ".", only;
  Slot* trial = shared<Slot>(1);

  // Runs one case in a child. 1 pass, 2 fail, 3 discard.
  int attempt(const Claim& cl, const std::vector<uint64_t>& in, std::string* msg, std::vector<uint64_t>* out, bool loud = false) {
    trial->n = 0;
    trial->outcome = 0;
    trial->msg[0] = 0;
    fflush(0);
    char logName[] = "/tmp/pbt_log_XXXXXX";
    int lf = mkstemp(logName);
    unlink(logName);
    pid_t p = fork();
    if (p == 0) {
      if (!loud && lf >= 0) { dup2(lf, 1); dup2(lf, 2); }
      setlimits();
      alarm((unsigned)hang + 1);
      Case c(trial, in);
      std::string m;
      int r = runOne(cl, c, &m);
      strncpy(trial->msg, m.c_str(), sizeof(trial->msg) - 1);
      trial->outcome = r;
      fflush(0);
      _exit(0);
    }
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    int r = trial->outcome;
    *msg = trial->msg;
    if (!WIFEXITED(st) || WEXITSTATUS(st) != 0 || r == 0) {
      r = 2;
      std::ostringstream o;
      if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) o << "no end within " << hang << " s";
      else if (WIFSIGNALED(st)) o << "process ended by signal " << WTERMSIG(st) << " (" << strsignal(WTERMSIG(st)) << ")";
      else o << "process ended with status " << WEXITSTATUS(st);
      if (!loud && lf >= 0) {
        off_t sz = lseek(lf, 0, SEEK_END);
        off_t from = sz > 1500 ? sz - 1500 : 0;
        std::string tail(sz - from, 0);
        lseek(lf, from, SEEK_SET);
        if (!tail.empty() && read(lf, &tail[0], tail.size()) > 0) o << ": " << tail;
      }
      *msg = o.str();
    }
    if (lf >= 0) close(lf);
    if (out) out->assign(trial->ch, trial->ch + trial->n);
    return r;
  }
  static void setlimits() {
    rlimit l = {0, 0};
    setrlimit(RLIMIT_CORE, &l);
    l.rlim_cur = l.rlim_max = (rlim_t)6 << 30;
    setrlimit(RLIMIT_AS, &l);
  }

  std::vector<uint64_t> shrink(const Claim& cl, std::vector<uint64_t> best, std::string* msg) {
    double end = now() + shrinkTime;
    auto better = [](const std::vector<uint64_t>& a, const std::vector<uint64_t>& b) {
      if (a.size() != b.size()) return a.size() < b.size();
      return a < b;
    };
    auto tryit = [&](const std::vector<uint64_t>& v) {
      if (now() > end) return false;
      std::string m;
      std::vector<uint64_t> out;
      if (attempt(cl, v, &m, &out) != 2) return false;
      while (!out.empty() && out.back() == 0) out.pop_back();
      if (!better(out, best)) return false;
      best = out;
      *msg = m;
      return true;
    };
    tryit(best);
    bool changed = true;
    while (changed && now() < end) {
      changed = false;
      for (size_t k = std::max<size_t>(1, best.size() / 2); k >= 1 && now() < end; k /= 2) {
        for (size_t i = 0; i + k <= best.size() && now() < end;) {
          std::vector<uint64_t> v = best;
          v.erase(v.begin() + i, v.begin() + i + k);
          if (tryit(v)) { changed = true; continue; }
          v = best;
          bool nz = false;
          for (size_t j = i; j < i + k; ++j) { nz |= v[j] != 0; v[j] = 0; }
          if (nz && tryit(v)) changed = true;
          i += k;
        }
      }
      for (size_t i = 0; i < best.size() && now() < end; ++i) {
        // lower the value: halve repeatedly, then clear low bits
        for (int s = 1; s < 64 && i < best.size(); s *= 2) {
          std::vector<uint64_t> v = best;
          if (v[i] == 0) break;
          v[i] >>= s;
          if (tryit(v)) { changed = true; s = 0; s = 1; continue; }
        }
        for (int b = 40; b >= 4 && i < best.size(); b -= 6) {
          std::vector<uint64_t> v = best;
          uint64_t w = v[i] & ~((1ull << b) - 1);
          if (w == v[i] || w == 0) continue;
          v[i] = w;
          if (tryit(v)) { changed = true; break; }
        }
        if (i < best.size() && best[i] > 0 && best[i] < 64) {
          std::vector<uint64_t> v = best;
          --v[i];
          if (tryit(v)) changed = true;
        }
      }
    }
    return best;
  }

  struct ClaimStat { long eval = 0, disc = 0, nontriv = 0; long checks = 0; };

  int run() {
    auto& cs = claims();
    const int NC = cs.size();
    std::vector<long> total(NC);
    for (int k = 0; k < NC; ++k) {
      total[k] = only.empty() || only == cs[k].name ? std::max<long>(workers, (long)(cs[k].cases * scale)) : 0;
    }
    const int NW = workers;
    Slot* slots = shared<Slot>(NW);
    Slot* fails = shared<Slot>(NC);
    volatile uint32_t* failed = shared<uint32_t>(NC);
    const int R = 24;
    struct Prog { volatile int round, claim; volatile long idx; };
    Prog* prog = shared<Prog>(NW);
    char dirT[] = "/tmp/pbt_run_XXXXXX";
    if (!mkdtemp(dirT)) { perror("mkdtemp"); return 2; }
    std::string dir = dirT;
    double t0 = now(), deadline = t0 + cap;

    auto worker = [&](int w, int gen) {
      setlimits();
      int nul = open("/dev/null", O_WRONLY);
      dup2(nul, 1);
      dup2(nul, 2);
      std::vector<ClaimStat> st(NC);
      std::map<std::string, long> labels;
      std::vector<std::unordered_set<uint64_t>> seen(NC);
      std::vector<std::string> samples(NC);
      std::vector<int> nsamples(NC, 0);
      auto dump = [&] {
        std::ofstream o(dir + "/w" + std::to_string(w) + "." + std::to_string(gen));
        for (int k = 0; k < NC; ++k) o << "S " << k << " " << st[k].eval << " " << st[k].disc << " " << st[k].nontriv << " " << st[k].checks << "\n";
        for (auto& l : labels) o << "L " << l.second << " " << l.first << "\n";
        for (int k = 0; k < NC; ++k) if (!samples[k].empty()) o << samples[k];
        std::ofstream h(dir + "/h" + std::to_string(w) + "." + std::to_string(gen), std::ios::binary);
        for (int k = 0; k < NC; ++k) for (uint64_t x : seen[k]) { uint64_t y = mix(x ^ (uint64_t)k); h.write((char*)&y, 8); }
      };
      double lastDump = now();
      Slot* s = slots + w;
      for (int r = prog[w].round; r < R; ++r, prog[w].round = r, prog[w].claim = 0, prog[w].idx = 0) {
        for (int k = prog[w].claim; k < NC; ++k, prog[w].claim = k, prog[w].idx = 0) {
          long lo = total[k] * r / R, hi = total[k] * (r + 1) / R;
          for (long i = std::max(lo, (long)prog[w].idx); i < hi; ++i) {
            prog[w].idx = i + 1;
            if (i % NW != w) continue;
            if (failed[k]) break;
            if (now() > deadline) { dump(); _exit(0); }
            s->claim = k;
            s->index = i;
            s->started = now();
            s->running = 1;
            Case c(s, mix(mix(seed * 1000003ull + k) ^ mix((uint64_t)i * 0x51ed27ull + 17)));
            std::string m;
            int out = runOne(cs[k], c, &m);
            s->running = 0;
            st[k].eval++;
            st[k].checks += c.checks;
            if (out == 3) st[k].disc++;
            if (out == 1) {
              if (c.isNontrivial) {
                st[k].nontriv++;
                if (seen[k].size() < 2000000) seen[k].insert(c.hash());
                if (w == 0 && nsamples[k] < 2 && !c.note().empty()) {
                  nsamples[k]++;
                  samples[k] += "X " + std::to_string(k) + " " + jsonStr(cs[k].name + ": " + c.note().substr(0, 400)) + "\n";
                }
              }
              for (auto& l : c.labels) labels[cs[k].name + "/" + l]++;
            }
            if (out == 2 && __sync_bool_compare_and_swap(&failed[k], 0u, 1u)) {
              Slot* f = fails + k;
              memcpy(f->ch, s->ch, sizeof(uint64_t) * s->n);
              f->n = s->n;
              strncpy(f->msg, m.c_str(), sizeof(f->msg) - 1);
              f->index = i;
              f->outcome = 2;
            }
            if (now() - lastDump > 2) { dump(); lastDump = now(); }
          }
        }
      }
      dump();
      fflush(0);
      _exit(0);
    };
    std::vector<pid_t> pid(NW, -1);
    std::vector<int> gen(NW, 0);
    int alive = 0;
    auto spawn = [&](int w) {
      fflush(0);
      pid_t p = fork();
      if (p == 0) { worker(w, gen[w]); _exit(0); }
      pid[w] = p;
      gen[w]++;
      ++alive;
    };
    for (int w = 0; w < NW; ++w) spawn(w);
    while (alive > 0) {
      int st;
      pid_t p = waitpid(-1, &st, WNOHANG);
      if (p > 0) {
        int w = std::find(pid.begin(), pid.end(), p) - pid.begin();
        if (w == NW) continue;
        --alive;
        pid[w] = -1;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && !slots[w].running) continue;
        Slot* s = slots + w;
        int k = s->claim;
        if (__sync_bool_compare_and_swap(&failed[k], 0u, 1u)) {
          Slot* f = fails + k;
          memcpy(f->ch, s->ch, sizeof(uint64_t) * s->n);
          f->n = s->n;
          snprintf(f->msg, sizeof(f->msg), "process ended (signal %d)", WIFSIGNALED(st) ? WTERMSIG(st) : 0);
          f->index = s->index;
          f->outcome = 2;
        }
        s->running = 0;
        if (gen[w] < 40 && now() < deadline) spawn(w);
        continue;
      }
      usleep(5000);
      for (int w = 0; w < NW; ++w)
        if (pid[w] > 0 && slots[w].running && now() - slots[w].started > hang) kill(pid[w], SIGKILL);
    }
    double searchTime = now() - t0;

    // ---- gather ----
    std::vector<ClaimStat> st(NC);
    std::map<std::string, long> labels;
    std::vector<std::string> samples;
    std::unordered_set<uint64_t> seen;
    for (int w = 0; w < NW; ++w)
      for (int g = 0; g < gen[w]; ++g) {
        std::ifstream in(dir + "/w" + std::to_string(w) + "." + std::to_string(g));
        std::string line;
        while (std::getline(in, line)) {
          std::istringstream is(line);
          std::string t;
          is >> t;
          if (t == "S") {
            int k; ClaimStat x;
            is >> k >> x.eval >> x.disc >> x.nontriv >> x.checks;
            st[k].eval += x.eval; st[k].disc += x.disc; st[k].nontriv += x.nontriv; st[k].checks += x.checks;
          } else if (t == "L") {
            long n; std::string l;
            is >> n;
            std::getline(is, l);
            labels[l.substr(1)] += n;
          } else if (t == "X") {
            int k; std::string l;
            is >> k;
            std::getline(is, l);
            samples.push_back(l.substr(1));
          }
        }
        std::ifstream h(dir + "/h" + std::to_string(w) + "." + std::to_string(g), std::ios::binary);
        uint64_t x;
        while (h.read((char*)&x, 8)) seen.insert(x);
        unlink((dir + "/w" + std::to_string(w) + "." + std::to_string(g)).c_str());
        unlink((dir + "/h" + std::to_string(w) + "." + std::to_string(g)).c_str());
      }
    rmdir(dir.c_str());

    // ---- failures ----
    int violations = 0, unconfirmed = 0;
    std::ostringstream vio;
    for (int k = 0; k < NC; ++k) {
      if (!failed[k]) continue;
      std::vector<uint64_t> orig(fails[k].ch, fails[k].ch + fails[k].n), best;
      std::string msg = fails[k].msg, m;
      auto confirmed = [&](const std::vector<uint64_t>& v) {
        for (int t = 0; t < 3; ++t) if (attempt(cs[k], v, &m, 0) != 2) return false;
        return true;
      };
      if (!confirmed(orig)) {
        unconfirmed++;
        fprintf(stderr, "UNCONFIRMED %s %s: %s\n", id.c_str(), cs[k].name.c_str(), msg.c_str());
        continue;
      }
      msg = m;
      best = shrink(cs[k], orig, &msg);
      if (!confirmed(best)) { best = orig; }
      confirmed(best);
      msg = m;
      violations++;
      std::string path = replayDir + "/" + id + "-" + cs[k].name + ".replay";
      std::ofstream o(path);
      o << "property " << id << "\nclaim " << cs[k].name << "\nchoices " << best.size();
      for (uint64_t v : best) o << " " << v;
      o << "\nmessage " << jsonStr(msg) << "\n";
      printf("VIOLATION property=%s replay=%s\n", id.c_str(), path.c_str());
      printf("  claim %s (case %lu of seed %lu): %s\n", cs[k].name.c_str(), (unsigned long)fails[k].index, (unsigned long)seed, msg.c_str());
    }
    // ---- known findings: does the fixed input still fail? ----
    std::string kj;
    for (auto& kn : knowns()) {
      fflush(0);
      pid_t p = fork();
      if (p == 0) {
        int nul = open("/dev/null", O_WRONLY);
        dup2(nul, 1); dup2(nul, 2);
        setlimits();
        alarm(60);
        bool f = true;
        try { f = kn.fn(); } catch (...) {}
        _exit(f ? 7 : 0);
      }
      int s = 0;
      waitpid(p, &s, 0);
      bool still = !(WIFEXITED(s) && WEXITSTATUS(s) == 0);
      kj += std::string(kj.empty() ? "" : ",") + "{\"name\":" + jsonStr(kn.name) + ",\"what\":" + jsonStr(kn.what) + ",\"fails\":" + (still ? "true" : "false") + "}";
    }
    long ev = 0, nt = 0;
    std::ostringstream j;
    j << "{\"claims\":{";
    for (int k = 0; k < NC; ++k) {
      ev += st[k].eval;
      nt += st[k].nontriv;
      j << (k ? "," : "") << jsonStr(cs[k].name) << ":{\"cases\":" << st[k].eval << ",\"nontrivial\":" << st[k].nontriv
        << ",\"discarded\":" << st[k].disc << ",\"checks\":" << st[k].checks << ",\"planned\":" << total[k] << "}";
    }
    j << "},\"labels\":{";
    bool first = true;
    for (auto& l : labels) { j << (first ? "" : ",") << jsonStr(l.first) << ":" << l.second; first = false; }
    j << "},\"samples\":[";
    for (size_t i = 0; i < samples.size(); ++i) j << (i ? "," : "") << samples[i];
    j << "],\"known\":[" << kj << "],\"evaluations\":" << ev << ",\"distinct_nontrivial\":" << seen.size() << ",\"nontrivial\":" << nt
      << ",\"rule\":" << jsonStr(rule) << ",\"violations\":" << violations << ",\"unconfirmed\":" << unconfirmed
      << ",\"search_s\":" << searchTime << "}";
    if (!json.empty()) std::ofstream(json) << j.str() << "\n";
    return violations ? 1 : 0;
  }

  int replay(const std::string& file) {
    std::ifstream in(file);
    std::string word, claim;
    size_t n;
    std::vector<uint64_t> v;
    while (in >> word) {
      if (word == "claim") in >> claim;
      else if (word == "choices") { in >> n; v.resize(n); for (auto& x : v) in >> x; break; }
    }
    for (auto& cl : claims())
      if (cl.name == claim) {
        std::string m;
        int r = attempt(cl, v, &m, 0, true);
        printf("%s %s\n", r == 2 ? "FAILS" : r == 1 ? "passes" : "discarded", m.c_str());
        return r == 2 ? 1 : 0;
      }
    fprintf(stderr, "no such claim\n");
    return 2;
  }
};

inline int mainImpl(const char* id, const char* rule, int argc, char** argv) {
  Runner r;
  r.id = id;
  r.rule = rule;
  std::string rep;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&] { return std::string(argv[++i]); };
    if (a == "--seed") r.seed = strtoull(val().c_str(), 0, 10);
    else if (a == "--scale") r.scale = atof(val().c_str());
    else if (a == "--cap") r.cap = atof(val().c_str());
    else if (a == "--hang") r.hang = atof(val().c_str());
    else if (a == "--shrink") r.shrinkTime = atof(val().c_str());
    else if (a == "--workers") r.workers = atoi(val().c_str());
    else if (a == "--json") r.json = val();
    else if (a == "--replays") r.replayDir = val();
    else if (a == "--only") r.only = val();
    else if (a == "--replay") rep = val();
    else if (a == "--list") { for (auto& c : claims()) printf("%s %ld\n", c.name.c_str(), c.cases); return 0; }
    else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 2; }
  }
  if (!rep.empty()) return r.replay(rep);
  return r.run();
}
#define PBT_MAIN(ID, RULE) \
  int main(int argc, char** argv) { return ::pbt::mainImpl(ID, RULE, argc, argv); }

}  // namespace pbt

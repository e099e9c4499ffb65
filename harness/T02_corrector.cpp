// T02: sm::timing::TimestampCorrector against the lower envelope of all points it was given.
#include <pbt.hpp>
#include <sm_timing/TimestampCorrector.hpp>
#include <deque>

typedef long double ld;
struct Pt { ld x, y; };

// the lower envelope of the points at m: the lowest chord over m
static ld envelope(const std::vector<Pt>& P, ld m) {
  ld best = 1e300L;
  for (const Pt& a : P) {
    if (a.x > m) break;
    if (a.x == m) best = std::min(best, a.y);
    for (const Pt& b : P)
      if (b.x > m) best = std::min(best, a.y + (m - a.x) * ((b.y - a.y) / (b.x - a.x)));
  }
  return best;
}
// how many points are corners of the lower envelope; `all` also counts those on its edges
static int corners(const std::vector<Pt>& P, bool all, ld eps) {
  int n = 0;
  for (size_t i = 0; i < P.size(); ++i) {
    bool below = false, on = false;
    for (size_t a = 0; a < i; ++a)
      for (size_t b = i + 1; b < P.size(); ++b) {
        const ld y = P[a].y + (P[i].x - P[a].x) * ((P[b].y - P[a].y) / (P[b].x - P[a].x));
        if (P[i].y > y + eps) below = true;
        else if (P[i].y > y - eps) on = true;
      }
    n += !below && (all || !on);
  }
  return n;
}

struct Feed {   // a stream of (remote, local) pairs
  bool exact;   // small integers: every computation is exact
  double unit, remote0, local0, drift, period, jitter;
};
template <class T> static Feed anyFeed(pbt::Case& c) {
  Feed f;
  f.exact = c.oneIn(2);
  const bool ints = std::is_integral<T>::value;
  f.unit = ints ? 1e9 : 1;
  f.remote0 = c.oneIn(3) ? 0 : c.oneIn(2) ? std::floor(c.real(-1000, 1000)) : std::floor(c.real(1e8, 1.6e9));
  f.local0 = c.oneIn(3) ? f.remote0 : c.oneIn(2) ? std::floor(c.real(-1000, 1000)) : std::floor(c.real(1e9, 1.7e9));
  f.drift = c.oneIn(3) ? 0 : c.real(-1e-3, 1e-3);
  f.period = c.logReal(1e-3, 30);
  f.jitter = c.oneIn(4) ? 0 : c.logReal(1e-4, 10) * f.period;
  return f;
}
template <class T> static std::pair<T, T> nextPoint(pbt::Case& c, const Feed& f, T last, bool first) {
  if (f.exact) {
    const T x = first ? T(c.integer(-5, 5)) : T(last + c.integer(1, 4));
    return std::make_pair(x, T(c.integer(0, 3) * c.integer(0, 12) + (c.boolean() ? x : T(0))));
  }
  const double step = f.period * (c.oneIn(8) ? c.integer(2, 40) : 1);
  const T x = first ? T(f.remote0 * f.unit) : T(last + T(step * f.unit));
  const double elapsed = double(x - T(f.remote0 * f.unit));
  const double delay = f.jitter * f.unit * (c.oneIn(6) ? 10 : 1) * c.real(0, 1);
  return std::make_pair(x, T(T(f.local0 * f.unit) + T(elapsed * (1 + f.drift)) + T(delay)));
}

template <class T> static void run(pbt::Case& c) {
  const bool ints = std::is_integral<T>::value;
  sm::timing::TimestampCorrector<T> tc;
  const Feed f = anyFeed<T>(c);
  const int n = c.integer(1, c.oneIn(4) ? 60 : 14);
  std::vector<Pt> P;
  T last = 0, xmax = 0;
  bool shrank = false;
  size_t before = 0;
  for (int i = 0; i < n; ++i) {
    if (i && c.oneIn(12)) {   // a time that does not advance is refused and changes nothing
      const T back = T(last - T(c.pick({0, 1, 3})));
      const size_t size = tc.convexHullSize();
      bool threw = false;
      try { tc.correctTimestamp(back, T(0)); } catch (const typename sm::timing::TimestampCorrector<T>::TimeWentBackwardsException&) { threw = true; }
      c.check(threw, "a remote time that does not advance was accepted");
      c.eq(tc.convexHullSize(), size, "hull size after a refused time");
      c.label("refused");
    }
    const auto p = nextPoint<T>(c, f, last, i == 0);
    if (i && !(p.first > last)) c.discard();
    last = p.first;
    xmax = std::max<T>(xmax, last > 0 ? last : -last);
    c << "(" << p.first << "," << p.second << ") ";
    P.push_back({ld(p.first), ld(p.second)});
    const T got = tc.correctTimestamp(p.first, p.second);
    // resolution of the numbers themselves
    const ld big = std::max<ld>(std::fabs(P.back().y), std::fabs(P[0].y));
    const ld span = P.back().x - P[0].x;
    ld yspan = 0, steep = 0;
    for (size_t k = 1; k < P.size(); ++k) steep = std::max<ld>(steep, std::fabs((P[k].y - P[k - 1].y) / (P[k].x - P[k - 1].x)));
    for (const Pt& q : P) yspan = std::max<ld>(yspan, std::fabs(q.y - P[0].y));
    const ld rtol = 4e-16L, eps = f.exact && !ints ? 1e-9L : ints ? 1.01L + 1e-12L * yspan : 8 * rtol * (big + steep * ld(xmax)) + 1e-12L * yspan + 1e-15L;
    // the hull keeps the first and the latest point and never more than all of them
    const size_t size = tc.convexHullSize();
    if (size < before) shrank = true;
    before = size;
    const int lo = corners(P, false, eps), hi = corners(P, true, eps);
    c.check(int(size) >= lo && int(size) <= hi, "the hull has " + std::to_string(size) + " points, the envelope between " + std::to_string(lo) + " and " + std::to_string(hi));
    // never later than the time of reception
    c.check(ld(got) <= P.back().y + eps, "the corrected time is later than the time of reception");
    if (P.size() < 2) {
      c.eq(got, p.second, "the first time is returned as it is");
      bool a = false, b = false, d = false;
      typedef typename sm::timing::TimestampCorrector<T>::NotInitializedException NI;
      try { tc.getLocalTime(p.first); } catch (const NI&) { a = true; }
      try { tc.getSlope(); } catch (const NI&) { b = true; }
      try { tc.getOffset(); } catch (const NI&) { d = true; }
      c.check(a && b && d, "no relation of the clocks before the second time");
      continue;
    }
    // the relation of the clocks: the line through the envelope's edge above the midpoint
    const ld mid = P[0].x + (P.back().x - P[0].x) / 2;
    // slopes left and right of the midpoint (they differ when it is a corner)
    const ld slope = tc.getSlope(), offset = tc.getOffset();
    ld line[3];
    const ld at[3] = {P[0].x, mid, P.back().x};
    for (int k = 0; k < 3; ++k) line[k] = k == 1 && (ints && mid != std::floor(mid)) ? (ld(tc.getLocalTime(T(mid - 0.5L))) + ld(tc.getLocalTime(T(mid + 0.5L)))) / 2 : ld(tc.getLocalTime(T(at[k])));
    const ld env = envelope(P, mid);
    // integer midpoints are rounded towards an end, which may put them on the neighbouring edge
    const ld half = ints ? 0.5L : 0;
    const ld slack = eps * 4 + half * 2 * (yspan / std::max<ld>(span, 1));
    ld edge = slack;
    if (ints) edge += std::max<ld>(std::fabs(envelope(P, std::max(at[0], mid - 1)) - env), std::fabs(envelope(P, std::min(at[2], mid + 1)) - env));
    c.check(std::fabs(line[1] - env) <= edge, "the clock relation does not touch the envelope above the midpoint: off by " + std::to_string(double(line[1] - env)));
    // extrapolating to the ends and beyond magnifies the rounding of the edge by span / its length
    ld minGap = span;
    for (size_t k = 1; k < P.size(); ++k) minGap = std::min(minGap, P[k].x - P[k - 1].x);
    const ld lever = span / minGap;
    const ld tol = slack + (ints ? 2 : 1) * eps * 0 + rtol * 8 * big + (f.exact ? 0 : rtol * 4 * big * lever) + (ints ? 1.01L : 0);
    for (const Pt& q : P) c.check(ld(tc.getLocalTime(T(q.x))) <= q.y + tol, "the clock relation lies above a measured time by " + std::to_string(double(ld(tc.getLocalTime(T(q.x))) - q.y)));
    // slope and offset describe the same line
    c.check(std::fabs((line[2] - line[0]) - slope * span) <= tol * 2 + 1e-12L * std::fabs(slope * span), "slope and clock relation differ");
    const ld offTol = tol * 4 + 1e-14L * (std::fabs(offset) + std::fabs(slope * P[0].x));
    c.check(std::fabs(offset + slope * P[0].x - line[0]) <= offTol, "offset and clock relation differ");
    // a query before the start or beyond the end follows the same line
    const T far = T(c.boolean() ? P.back().x + std::floor(span + 1) : P[0].x - std::floor(span + 1));
    c.check(std::fabs(ld(tc.getLocalTime(far)) - (line[0] + slope * (ld(far) - P[0].x))) <= tol * 4 + 1e-12L * std::fabs(slope * span), "a query outside of the history leaves the line");
    if (size >= 3) c.check(std::fabs(ld(got) - line[2]) <= eps, "the corrected time does not follow the clock relation");
    else c.eq(got, p.second, "the corrected time with two points on the envelope");
  }
  c.nontrivial(P.size() >= 3);
  c.label(ints ? "integer times" : "floating point times");
  if (shrank) c.label("points left the hull");
  if (shrank && tc.convexHullSize() == 2) c.label("back to two points");
}
PBT_CLAIM(floating_point_times, 3000) { run<double>(c); }
PBT_CLAIM(integer_times, 3000) { run<int64_t>(c); }

// points that are not on the envelope make no difference
PBT_CLAIM(independent_of_history, 1500) {
  const bool more = c.boolean();
  sm::timing::TimestampCorrector<double> a, b;
  double x = 0;
  std::vector<Pt> P;
  const int n = c.integer(3, 20);
  for (int i = 0; i < n; ++i) {
    x += c.integer(1, 4);
    P.push_back({ld(x), ld(c.integer(0, 12) * (more ? c.integer(0, 3) : 1))});
  }
  double ra = 0, rb = 0;
  int kept = 0;
  for (size_t i = 0; i < P.size(); ++i) {
    ra = a.correctTimestamp(P[i].x, P[i].y);
    bool drop = false;   // strictly above a chord of the points that are kept
    for (size_t p = 0; p < i; ++p)
      for (size_t q = i + 1; q < P.size(); ++q)
        drop |= P[i].y > P[p].y + (P[i].x - P[p].x) * (P[q].y - P[p].y) / (P[q].x - P[p].x) + 1e-9L;
    if (drop) continue;
    ++kept;
    rb = b.correctTimestamp(P[i].x, P[i].y);
  }
  c << "kept " << kept << " of " << n;
  c.near(ra, rb, 1e-9, 0, "corrected time without the points above the envelope");
  for (double t : {-3., 0., x / 2, x, x + 5}) c.near(a.getLocalTime(t), b.getLocalTime(t), 1e-9, 0, "clock relation without the points above the envelope");
  c.nontrivial(kept < n);
}
// without jitter the exact relation of the clocks comes out
PBT_CLAIM(no_jitter, 1500) {
  sm::timing::TimestampCorrector<double> tc;
  const double slope = 1 + c.real(-0.1, 0.1), offset = c.real(-1e6, 1e6), delay = c.real(0, 1);
  double x = c.real(-1e5, 1e5);
  const int n = c.integer(2, 40);
  std::vector<double> X;
  for (int i = 0; i < n; ++i) {
    x += c.logReal(1e-2, 10);
    X.push_back(x);
    // late packets between exact ones
    const double late = i && i + 1 < n && c.oneIn(3) ? c.logReal(1e-2, 10) : 0;
    const double y = slope * x + offset + delay;
    const double got = tc.correctTimestamp(x, y + late);
    if (i > 2 && late == 0) c.near(got, y, 1e-7, 0, "corrected time without jitter");
  }
  const double span = X.back() - X[0];
  c.near(tc.getSlope(), slope, 1e-8 / std::min(span, 1e-2) + 1e-9, 0, "slope");
  for (double t : X) c.near(tc.getLocalTime(t), slope * t + offset + delay, 1e-8 * (1 + span / 1e-2), 0, "exact clock relation");
  c.nontrivial(n > 2);
}
PBT_MAIN("T02", "a case feeds at least three times; in independent_of_history, at least one point lies above the envelope")

// T01: aslam times and durations, and sm::timing's conversions, against 128-bit integer nanoseconds.
#include <pbt.hpp>
#include <archive.hpp>
#include <aslam_time/Time.hpp>
#include <aslam_time/Duration.hpp>
#include <aslam_time/implementation/Time.hpp>
#include <aslam_time/implementation/Duration.hpp>
#include <sm_timing/NsecTimeUtilities.hpp>
#include <boost/date_time/posix_time/posix_time.hpp>
#include <climits>

typedef __int128 ns_t;
static const ns_t G = 1000000000;
static std::string show(ns_t v) {
  std::string s;
  const bool neg = v < 0;
  unsigned __int128 u = neg ? -(unsigned __int128)v : v;
  do { s.insert(s.begin(), char('0' + int(u % 10))); u /= 10; } while (u);
  return (neg ? "-" : "") + s;
}
template <class X> struct Range;
template <> struct Range<aslam::Time> { static ns_t lo() { return 0; } static ns_t hi() { return ns_t(UINT_MAX) * G + G - 1; } };
template <> struct Range<aslam::WallTime> : Range<aslam::Time> {};
template <> struct Range<aslam::Duration> { static ns_t lo() { return ns_t(INT_MIN) * G; } static ns_t hi() { return ns_t(INT_MAX) * G + G - 1; } };
template <> struct Range<aslam::WallDuration> : Range<aslam::Duration> {};
template <class X> ns_t value(const X& x) { return ns_t(x.sec) * G + ns_t(x.nsec); }
template <class X> void normalized(pbt::Case& c, const X& x) { c.check(ns_t(x.nsec) >= 0 && ns_t(x.nsec) < G, "nanoseconds not normalized: " + show(x.nsec)); }
template <class X> bool fits(ns_t v) { return v >= Range<X>::lo() && v <= Range<X>::hi(); }

// op() must give `expected`, or report that it does not fit
template <class X, class F> void gives(pbt::Case& c, ns_t expected, F op, const char* what) {
  X got;
  try { got = op(); }
  catch (const std::runtime_error& e) {
    c.check(!fits<X>(expected), std::string(what) + " refused " + show(expected) + " ns, which can be represented");
    c.label("out of range");
    return;
  }
  c.check(fits<X>(expected), std::string(what) + " gave " + show(value(got)) + " ns for " + show(expected) + " ns, which cannot be represented");
  normalized(c, got);
  c.check(value(got) == expected, std::string(what) + ": got " + show(value(got)) + " ns, expected " + show(expected));
}
static int64_t anySec(pbt::Case& c, int64_t lo, int64_t hi) {
  switch (c.integer(0, 5)) {
    case 0: return std::min(hi, std::max(lo, int64_t(c.integer(-3, 3))));
    case 1: return lo + c.integer(0, 2);
    case 2: return hi - c.integer(0, 2);
    case 3: return c.pick({int64_t(INT_MAX), int64_t(1445454545)});
    default: return c.integer64(lo, hi);
  }
}
static int64_t anyNsec(pbt::Case& c, int64_t lo, int64_t hi) {
  switch (c.integer(0, 5)) {
    case 0: return 0;
    case 1: return c.integer(0, 2);
    case 2: return 999999999 - c.integer(0, 2);
    case 3: { const int64_t v = int64_t(c.integer(-2, 4)) * 1000000000 + c.integer(-1, 1); return std::min(hi, std::max(lo, v)); }
    case 4: return c.integer64(lo, hi);
    default: return c.integer(0, 999999999);
  }
}
template <class T> T anyTime(pbt::Case& c) {
  T t;
  t.sec = uint32_t(anySec(c, 0, UINT_MAX));
  t.nsec = uint32_t(anyNsec(c, 0, 999999999) % 1000000000);
  c << "time " << t.sec << "+" << t.nsec << "ns ";
  return t;
}
template <class D> D anyDuration(pbt::Case& c) {
  D d;
  d.sec = int32_t(anySec(c, INT_MIN, INT_MAX));
  d.nsec = int32_t(anyNsec(c, 0, 999999999) % 1000000000);
  c << "duration " << d.sec << "+" << d.nsec << "ns ";
  return d;
}
template <class X> void compare(pbt::Case& c, const X& a, const X& b) {
  const ns_t x = value(a), y = value(b);
  c.eq(a == b, x == y, "=="); c.eq(a != b, x != y, "!=");
  c.eq(a < b, x < y, "<"); c.eq(a > b, x > y, ">");
  c.eq(a <= b, x <= y, "<="); c.eq(a >= b, x >= y, ">=");
}
static double anySeconds(pbt::Case& c) {
  switch (c.integer(0, 9)) {
    case 0: return c.integer(-5, 5) + c.pick({0., 0.5, 1e-9, -1e-9, 0.4e-9, 0.6e-9, -0.6e-9, 0.999999999, 0.9999999996, 1e-10, -1e-17});
    case 1: return c.sign() * c.logReal(1e-12, 1e10);
    case 2: return c.pick({double(INT_MAX), double(INT_MIN), double(UINT_MAX), 0.}) + c.integer(-3, 3) * c.pick({0.25, 1., 1e-7});
    case 3: return c.pick({double(INFINITY), double(-INFINITY), double(NAN), 1e300, -1e300, 1e19, -1e19, 1e10});
    case 4: return c.integer64(-3000000000LL, 5000000000LL) * c.pick({1., 1e-3, 1e-6, 1e-9});
    default: return c.real(-3e9, 5e9);
  }
}
template <class X, class F> void fromSeconds(pbt::Case& c, double t, F op, const char* what) {
  const long double exact = (long double)t * 1e9L, lo = (long double)Range<X>::lo(), hi = (long double)Range<X>::hi();
  // half a nanosecond, and the resolution of the number's fraction
  const long double tol = 0.5L + 1e-6L;
  X got;
  try { got = op(); }
  catch (const std::runtime_error&) {
    c.check(!(exact > lo - 0.4L && exact < hi + 0.4L), std::string(what) + " refused a time that can be represented");
    c.label("out of range");
    return;
  }
  c.check(exact > lo - 0.6L && exact < hi + 0.6L, std::string(what) + " accepted a time that cannot be represented: gave " + show(value(got)) + " ns");
  normalized(c, got);
  c.check(std::fabs((long double)value(got) - exact) <= tol, std::string(what) + ": got " + show(value(got)) + " ns, off by " + std::to_string(double((long double)value(got) - exact)));
}

template <class T, class D> void times(pbt::Case& c) {
  const T a = anyTime<T>(c), b = anyTime<T>(c);
  const D d = anyDuration<D>(c);
  const ns_t va = value(a), vb = value(b), vd = value(d);
  gives<D>(c, va - vb, [&] { return a - b; }, "time - time");
  gives<T>(c, va + vd, [&] { return a + d; }, "time + duration");
  gives<T>(c, va - vd, [&] { return a - d; }, "time - duration");
  gives<T>(c, va + vd, [&] { T t = a; t += d; return t; }, "time += duration");
  gives<T>(c, va - vd, [&] { T t = a; T& r = (t -= d); c.check(&r == &t, "-= returns its time"); return t; }, "time -= duration");
  if (fits<T>(va + vd)) {
    c.check((a + d) - d == a && (!fits<D>(vd) || (a + d) - a == d), "adding and subtracting a duration is not the identity");
    c.label("invertible");
  }
  compare(c, a, b);
  T near = a;   // differs by little
  if (near.nsec > 0) { --near.nsec; compare(c, a, near); compare(c, near, a); }
  compare(c, a, a);
  c.check(ns_t(a.toNSec()) == va, "toNSec");
  gives<T>(c, va, [&] { T t = b; return t.fromNSec(a.toNSec()); }, "fromNSec");
  c.near(a.toSec(), double((long double)va * 1e-9L), 0, 4e-16, "toSec");
  c.eq(a.isZero(), va == 0, "isZero");
  c.eq(a.is_zero(), va == 0, "is_zero");
  // text
  std::ostringstream o;
  o << std::setfill('*') << std::hex << std::dec << a << "|" << std::setw(4) << 7;
  char want[64];
  snprintf(want, sizeof want, "%u.%09u|***7", a.sec, a.nsec);
  c.eq(o.str(), std::string(want), "printed time");
  // boost
  const boost::posix_time::ptime p = a.toBoost();
  const boost::posix_time::time_duration since = p - boost::posix_time::ptime(boost::gregorian::date(1970, 1, 1));
  const ns_t tick = G / boost::posix_time::time_duration::ticks_per_second();
  c.check(ns_t(since.ticks()) * tick <= va && va < (ns_t(since.ticks()) + 1) * tick, "toBoost: " + show(ns_t(since.ticks()) * tick));
  for (int k = 0; k < arc::KINDS; ++k) {
    T back;
    arc::load(k, arc::save(k, a), back);
    c.check(back == a, std::string("stored in a ") + arc::kNames[k] + " archive");
  }
  c.nontrivial(va && vd);
}
PBT_CLAIM(time_arithmetic, 2500) { times<aslam::Time, aslam::Duration>(c); }
PBT_CLAIM(wall_time_arithmetic, 1500) { times<aslam::WallTime, aslam::WallDuration>(c); }

template <class D> struct Stored { static void go(pbt::Case&, const D&) {} };
template <> struct Stored<aslam::Duration> {
  static void go(pbt::Case& c, const aslam::Duration& a) {
    for (int k = 0; k < arc::KINDS; ++k) {
      aslam::Duration back;
      arc::load(k, arc::save(k, a), back);
      c.check(back == a, std::string("stored in a ") + arc::kNames[k] + " archive");
    }
  }
};
template <class D> void durations(pbt::Case& c) {
  const D a = anyDuration<D>(c), b = anyDuration<D>(c);
  const ns_t va = value(a), vb = value(b);
  gives<D>(c, va + vb, [&] { return a + b; }, "duration + duration");
  gives<D>(c, va - vb, [&] { return a - b; }, "duration - duration");
  gives<D>(c, -va, [&] { return -a; }, "-duration");
  gives<D>(c, va + vb, [&] { D t = a; t += b; return t; }, "duration += duration");
  gives<D>(c, va - vb, [&] { D t = a; t -= b; return t; }, "duration -= duration");
  gives<D>(c, va + va, [&] { D t = a; t += t; return t; }, "duration += itself");
  compare(c, a, b);
  D next = a;
  if (next.nsec < 999999999) { ++next.nsec; compare(c, a, next); compare(c, next, a); }
  compare(c, a, a);
  c.check(ns_t(a.toNSec()) == va, "toNSec");
  gives<D>(c, va, [&] { D t = b; return t.fromNSec(a.toNSec()); }, "fromNSec");
  c.near(a.toSec(), double((long double)va * 1e-9L), 2e-16, 4e-16, "toSec");
  D z = a;
  c.eq(z.isZero(), va == 0, "isZero");
  // scaling happens in floating point
  const double s = c.oneIn(3) ? c.integer(-3, 3) : c.oneIn(3) ? c.sign() * c.logReal(1e-6, 1e6) : c.real(-2, 2);
  c << " scale " << s;
  for (int k = 0; k < 2; ++k) {
    const long double exact = (long double)va * s, tol = 0.51L + 1e-15L * std::fabs(exact);
    try {
      D t = a;
      if (k) t *= s; else t = a * s;
      normalized(c, t);
      c.check(std::fabs((long double)value(t) - exact) <= tol, "duration * number: got " + show(value(t)) + " ns");
    } catch (const std::runtime_error&) {
      c.check(exact > (long double)Range<D>::hi() - tol || exact < (long double)Range<D>::lo() + tol, "duration * number refused a product that can be represented");
      c.label("out of range");
    }
  }
  // text: the decimal number of seconds
  std::ostringstream o;
  o << std::setfill('*') << a << "|" << std::setw(4) << 7;
  const ns_t mag = va < 0 ? -va : va;
  std::string frac = show(mag % G);
  frac.insert(0, 9 - frac.size(), '0');
  c.eq(o.str(), (va < 0 ? "-" : "") + show(mag / G) + "." + frac + "|***7", "printed duration");
  const boost::posix_time::time_duration td = a.toBoost();
  const ns_t tick = G / boost::posix_time::time_duration::ticks_per_second();
  const ns_t back = ns_t(td.ticks()) * tick;
  c.check(back <= va && va < back + tick, "toBoost: " + show(back));
  Stored<D>::go(c, a);
  c.nontrivial(va && vb);
  if (va < 0) c.label("negative");
}
PBT_CLAIM(duration_arithmetic, 2500) { durations<aslam::Duration>(c); }
PBT_CLAIM(wall_duration_arithmetic, 1500) { durations<aslam::WallDuration>(c); }

// building from seconds and nanoseconds, and from nanoseconds alone
PBT_CLAIM(construction, 4000) {
  const uint32_t us = uint32_t(anySec(c, 0, UINT_MAX)), un = uint32_t(anyNsec(c, 0, UINT_MAX));
  const int32_t is = int32_t(anySec(c, INT_MIN, INT_MAX)), in = int32_t(anyNsec(c, INT_MIN, INT_MAX));
  c << us << "," << un << " " << is << "," << in;
  gives<aslam::Time>(c, ns_t(us) * G + un, [&] { return aslam::Time(us, un); }, "Time(sec, nsec)");
  gives<aslam::WallTime>(c, ns_t(us) * G + un, [&] { return aslam::WallTime(us, un); }, "WallTime(sec, nsec)");
  gives<aslam::Duration>(c, ns_t(is) * G + in, [&] { return aslam::Duration(is, in); }, "Duration(sec, nsec)");
  gives<aslam::WallDuration>(c, ns_t(is) * G + in, [&] { return aslam::WallDuration(is, in); }, "WallDuration(sec, nsec)");
  const uint64_t un64 = c.oneIn(2) ? uint64_t(us) * 1000000000ull + un : uint64_t(c.integer64(INT64_MIN, INT64_MAX));
  const int64_t in64 = c.oneIn(2) ? int64_t(is) * 1000000000ll + in : c.integer64(INT64_MIN, INT64_MAX);
  c << " " << un64 << " " << in64;
  gives<aslam::Time>(c, un64, [&] { aslam::Time t; return t.fromNSec(un64); }, "Time::fromNSec");
  gives<aslam::WallTime>(c, un64, [&] { aslam::WallTime t; return t.fromNSec(un64); }, "WallTime::fromNSec");
  gives<aslam::Duration>(c, in64, [&] { aslam::Duration t; return t.fromNSec(in64); }, "Duration::fromNSec");
  gives<aslam::WallDuration>(c, in64, [&] { aslam::WallDuration t; return t.fromNSec(in64); }, "WallDuration::fromNSec");
  {   // the normalizing functions themselves
    int64_t s = c.integer64(-10000000000LL, 10000000000LL), n = c.integer64(-5000000000LL, 5000000000LL);
    const ns_t v = ns_t(s) * G + n;
    struct P { int64_t sec, nsec; };
    int64_t s1 = s, n1 = n, s2 = s, n2 = n;
    bool ok1 = true, ok2 = true;
    try { aslam::normalizeSecNSecUnsigned(s1, n1); } catch (const std::runtime_error&) { ok1 = false; }
    try { aslam::normalizeSecNSecSigned(s2, n2); } catch (const std::runtime_error&) { ok2 = false; }
    c.eq(ok1, fits<aslam::Time>(v), "normalizeSecNSecUnsigned's range");
    c.eq(ok2, fits<aslam::Duration>(v), "normalizeSecNSecSigned's range");
    if (ok1) c.check(ns_t(s1) * G + n1 == v && n1 >= 0 && n1 < G, "normalizeSecNSecUnsigned");
    if (ok2) c.check(ns_t(s2) * G + n2 == v && n2 >= 0 && n2 < G, "normalizeSecNSecSigned");
    uint64_t s3 = uint64_t(anySec(c, 0, 10000000000LL)), n3 = c.boolean() ? uint64_t(anyNsec(c, 0, INT64_MAX)) : uint64_t(c.integer64(INT64_MIN, INT64_MAX));
    const ns_t v3 = ns_t(s3) * G + n3;
    bool ok3 = true;
    try { aslam::normalizeSecNSec(s3, n3); } catch (const std::runtime_error&) { ok3 = false; }
    c.eq(ok3, fits<aslam::Time>(v3), "normalizeSecNSec's range");
    if (ok3) c.check(ns_t(s3) * G + n3 == v3 && n3 < uint64_t(G), "normalizeSecNSec");
  }
  c.nontrivial(un >= 1000000000u || in < 0 || in >= 1000000000 || is < 0);
}
PBT_CLAIM(from_seconds, 5000) {
  const double t = anySeconds(c);
  c.eq(0, 0, "");
  std::ostringstream o;
  o.precision(17);
  o << t;
  c << o.str();
  fromSeconds<aslam::Time>(c, t, [&] { return aslam::Time(t); }, "Time(seconds)");
  fromSeconds<aslam::Time>(c, t, [&] { aslam::Time x(3, 5); return x.fromSec(t); }, "Time::fromSec");
  fromSeconds<aslam::WallTime>(c, t, [&] { return aslam::WallTime(t); }, "WallTime(seconds)");
  fromSeconds<aslam::Duration>(c, t, [&] { return aslam::Duration(t); }, "Duration(seconds)");
  fromSeconds<aslam::Duration>(c, t, [&] { aslam::Duration x(3, 5); return x.fromSec(t); }, "Duration::fromSec");
  fromSeconds<aslam::WallDuration>(c, t, [&] { return aslam::WallDuration(t); }, "WallDuration(seconds)");
  c.nontrivial(t != std::floor(t));
  if (t < 0) c.label("negative");
}
// integer nanoseconds of sm::timing
PBT_CLAIM(nanosecond_utilities, 2500) {
  using namespace sm::timing;
  const int64_t n = c.oneIn(3) ? c.integer(-2000, 2000) : c.oneIn(2) ? c.integer64(-4000000000000000000LL, 4000000000000000000LL) : c.integer64(1000000000000000000LL, 1900000000000000000LL);
  c << n;
  c.eq(int64_t(chronoToNsec(nsecToChrono(n))), n, "through std::chrono");
  c.check(nsecToChrono(n).time_since_epoch() == std::chrono::nanoseconds(n), "nsecToChrono");
  c.near(nsecToSec(n), double((long double)n * 1e-9L), 0, 4e-16, "nsecToSec");
  const double s = c.boolean() ? nsecToSec(n) : c.real(-9e9, 9e9);
  // conversions may round in either direction
  c.check(std::fabs((long double)secToNsec(s) - (long double)s * 1e9L) <= 1 + 3e-16L * std::fabs((long double)s * 1e9L), "secToNsec");
  const auto before = std::chrono::system_clock::now();
  const int64_t now = nsecNow();
  const auto after = std::chrono::system_clock::now();
  c.check(now >= chronoToNsec(before) && now <= chronoToNsec(after), "nsecNow");
  c.nontrivial();
}
// the clock and sleeping
template <class T, class D> void sleeping(pbt::Case& c) {
  auto clock = [] { timespec t; clock_gettime(CLOCK_REALTIME, &t); return ns_t(t.tv_sec) * G + t.tv_nsec; };
  auto mono = [] { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return ns_t(t.tv_sec) * G + t.tv_nsec; };
  const ns_t a = clock();
  const T now = T::now();
  const ns_t b = clock();
  normalized(c, now);
  c.check(value(now) >= a - 1000 && value(now) <= b + 1000, "now");
  const ns_t len = c.oneIn(3) ? -ns_t(c.integer64(0, 2000000000000000000LL)) : c.integer(0, 3000000);
  c << show(len) << " ns";
  D d;
  d.fromNSec(int64_t(len));
  const ns_t s = mono();
  c.check(d.sleep(), "sleep was interrupted");
  const ns_t took = mono() - s;
  c.check(took >= len - 1000, "slept too short");
  c.check(took < 5 * G, "slept too long");
  const ns_t s2 = mono();
  const T end = len < -ns_t(1000000000) * G ? T(5, 0) : T::now() + d;
  c.check(T::sleepUntil(end), "sleepUntil was interrupted");
  c.check(value(T::now()) >= value(end), "sleepUntil returned early");
  c.check(mono() - s2 < 5 * G, "slept until too late");
  c.nontrivial(len != 0);
}
PBT_CLAIM(sleep, 40) { sleeping<aslam::Time, aslam::Duration>(c); }
PBT_CLAIM(wall_sleep, 40) { sleeping<aslam::WallTime, aslam::WallDuration>(c); }
PBT_CLAIM(limits, 1) {
  c.check(value(aslam::TIME_MAX) == Range<aslam::Time>::hi() && value(aslam::TIME_MIN) <= 1, "TIME_MIN and TIME_MAX");
  c.check(value(aslam::DURATION_MAX) == Range<aslam::Duration>::hi() && value(aslam::DURATION_MIN) == Range<aslam::Duration>::lo(), "DURATION_MIN and DURATION_MAX");
  c.check(aslam::Time().isZero() && aslam::Duration().sec == 0 && aslam::Duration().nsec == 0, "default values");
  c.nontrivial();
}
PBT_MAIN("T01", "operands differ from zero; constructions with parts to normalize or negative seconds; fractional seconds")

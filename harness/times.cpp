#include "util.h"
#include <icl_core/TimeStamp.h>
#include <icl_core/TimeSpan.h>
#include <sstream>
using namespace icl_core;
static const int64_t G = 1000000000;
// exact values without wide multiplication: only the difference of two values is ever formed
struct V { int64_t s, n; };
static V val(int64_t s, int64_t n) { V v = {s, n}; return v; }
static V val(const TimeSpan &t) { return val(t.tsSec(), t.tsNSec()); }
static V val(const TimeStamp &t) { return val((int64_t)t.tsSec(), (int32_t)t.tsNSec()); }
static V operator+(V a, V b) { return val(a.s + b.s, a.n + b.n); }
static V operator-(V a, V b) { return val(a.s - b.s, a.n - b.n); }
static V operator-(V a) { return val(-a.s, -a.n); }
static int64_t cmp(V a, V b) { int64_t d = a.s - b.s, k = d > 64 ? 64 : d < -64 ? -64 : d; return k * G + (a.n - b.n); } // |n| < 2^33 everywhere: sign and zero are exact
static bool operator==(V a, V b) { return cmp(a, b) == 0; } static bool operator!=(V a, V b) { return cmp(a, b) != 0; } static bool operator<(V a, V b) { return cmp(a, b) < 0; } static bool operator>(V a, V b) { return cmp(a, b) > 0; } static bool operator<=(V a, V b) { return cmp(a, b) <= 0; } static bool operator>=(V a, V b) { return cmp(a, b) >= 0; }
static bool norm(int64_t s, int64_t n) { return n > -G && n < G && !(s > 0 && n < 0) && !(s < 0 && n > 0); }
static bool norm(const TimeSpan &t) { return norm(t.tsSec(), t.tsNSec()); }
static bool norm(const TimeStamp &t) { return norm((int64_t)t.tsSec(), (int32_t)t.tsNSec()); }
static const int64_t LIM = (int64_t)1 << 60;
// operands are constructed from normalized parts (construction from arbitrary parts is covered by time_ctor)
static TimeSpan span(const char *a, const char *b) { int64_t s = sx_irange(a, -LIM, LIM); int32_t n = sx_i32(b); sx_assume(norm(s, n)); return TimeSpan(s, n); }
static TimeStamp stamp(const char *a, const char *b) { int64_t s = sx_irange(a, 0, LIM); uint32_t n = sx_u32(b); sx_assume(n < G); return TimeStamp((uint64_t)s, n); }
ENTRY time_ctor() {
  int64_t s = sx_irange("s", -LIM, LIM); int32_t n = sx_i32("n"); TimeSpan t(s, n); sx_assert(val(t) == val(s, n), "construction keeps the value"); sx_assert(norm(t), "construction normalizes"); sx_observe("s", t.tsSec()); sx_observe("n", t.tsNSec());
  struct timespec ts; ts.tv_sec = s; ts.tv_nsec = n; TimeSpan u(ts); sx_assert(u == t, "timespec construction"); TimeStamp q(ts); sx_assert(val(q) == val(s, n) && norm(q), "time stamp from timespec");
  struct timespec back = t.timespec(); sx_assert(back.tv_sec == t.tsSec() && back.tv_nsec == t.tsNSec(), "timespec conversion"); back = q.systemTimespec(); sx_assert(back.tv_sec == (int64_t)q.tsSec() && back.tv_nsec == (int32_t)q.tsNSec(), "system timespec conversion");
}
ENTRY time_stamp_ctor() { int64_t s = sx_irange("s", 0, LIM); uint32_t n = sx_u32("n"); TimeStamp t((uint64_t)s, n); sx_assert(val(t) == val(s, (int64_t)n), "time stamp construction keeps the value"); sx_assert(norm(t), "time stamp construction normalizes"); TimeStamp c((time_t)s); sx_assert(val(c) == val(s, 0), "time stamp from time_t"); }
ENTRY time_span_arith() {
  TimeSpan a = span("as", "an"), b = span("bs", "bn"); TimeSpan p = a + b, m = a - b, pe = a, me = a; pe += b; me -= b; sx_observe("ps", p.tsSec()); sx_observe("pn", p.tsNSec());
  sx_assert(val(p) == val(a) + val(b) && norm(p), "span sum is exact and normalized"); sx_assert(val(m) == val(a) - val(b) && norm(m), "span difference is exact and normalized"); sx_assert(pe == p && me == m, "compound assignment agrees");
}
ENTRY time_abs() { TimeSpan a = span("as", "an"); TimeSpan x = abs(a); sx_assert(val(x) == (val(a) < val(0, 0) ? -val(a) : val(a)) && norm(x), "abs is the magnitude"); }
ENTRY time_stamp_arith() {
  TimeStamp t = stamp("ts", "tn"); TimeSpan d = span("ds", "dn"); TimeStamp p = t + d, q = d + t, m = t - d, pe = t, me = t; pe += d; me -= d;
  sx_assert(val(p) == val(t) + val(d) && norm(p), "stamp + span is exact"); sx_assert(q == p && pe == p, "addition forms agree"); sx_assert(val(m) == val(t) - val(d) && norm(m) && me == m, "stamp - span is exact");
}
ENTRY time_stamp_diff() { TimeStamp t = stamp("ts", "tn"), u = stamp("us", "un"); TimeSpan d = t - u; sx_assert(val(d) == val(t) - val(u) && norm(d), "stamp difference is exact"); sx_assert(u + d == t, "u + (t - u) == t"); }
template <class T> static void order(const T &a, const T &b) {
  V x = val(a), y = val(b); sx_assert((a < b) == (x < y), "< is the order of values"); sx_assert((a > b) == (x > y), "> is the order of values"); sx_assert((a <= b) == (x <= y), "<= is the order of values"); sx_assert((a >= b) == (x >= y), ">= is the order of values"); sx_assert((a == b) == (x == y), "== is equality of values"); sx_assert((a != b) == (x != y), "!= is inequality of values"); sx_observe("lt", a < b); }
ENTRY time_span_order() { TimeSpan a = span("as", "an"), b = span("bs", "bn"); order(a, b); }
ENTRY time_stamp_order() { TimeStamp a = stamp("as", "an"), b = stamp("bs", "bn"); order(a, b); sx_assert(TimeStamp() == TimeStamp::cZERO && val(TimeStamp::cZERO) == val(0, 0) && val(TimeSpan::cZERO) == val(0, 0) && TimeSpan() == TimeSpan::cZERO, "zero constants"); TimeStamp t = stamp("cs", "cn"); sx_assert(t <= TimeStamp::maxTime() && TimeStamp::maxTime().tsNSec() == 999999999, "maxTime is an upper bound"); }
ENTRY time_units() {
  int64_t v = sx_i64("v"); sx_assume(v > -LIM / 1000 && v < LIM / 1000); int u = sx_choose(3, "unit"); TimeSpan t, c; if (u == 0) { t.fromSec(v); c = TimeSpan::createFromSec(v); } else if (u == 1) { t.fromMSec(v); c = TimeSpan::createFromMSec(v); } else { t.fromUSec(v); c = TimeSpan::createFromUSec(v); }
  int64_t per = u == 0 ? 1 : u == 1 ? 1000 : 1000000, f = G / per; sx_assert(t == c, "create and set agree"); sx_assert(val(t) == val(v / per, v % per * f) && norm(t), "unit conversion is exact and normalized"); sx_observe("s", t.tsSec()); sx_observe("n", t.tsNSec());
  if (u == 1) sx_assert(t.toMSec() == v, "milliseconds read back"); if (u == 2) sx_assert(t.toUSec() == v, "microseconds read back");
}
ENTRY time_to_units_wide() { int64_t s = sx_irange("s", -9000000000000000LL, 9000000000000000LL); int32_t n = (int32_t)sx_irange("n", -G + 1, G - 1); sx_assume((s >= 0 && n >= 0) || (s <= 0 && n <= 0)); TimeSpan t(s, n); sx_assert(t.toMSec() == s * 1000 + n / 1000000, "milliseconds of any span that fits"); if (s >= -9000000000000LL && s <= 9000000000000LL) sx_assert(t.toUSec() == s * 1000000 + n / 1000, "microseconds of any span that fits"); if (s >= -9000000000LL && s <= 9000000000LL) sx_assert(t.toNSec() == s * G + n, "nanoseconds of any span that fits"); }
ENTRY time_to_units() { int64_t s = sx_irange("s", -9000000, 9000000); int32_t n = (int32_t)sx_irange("n", -G + 1, G - 1); TimeSpan t(s, n); int64_t v = s * G + n; sx_assert(t.toNSec() == v, "toNSec"); sx_assert(t.toUSec() == v / 1000, "toUSec truncates toward zero"); sx_assert(t.toMSec() == v / 1000000, "toMSec truncates toward zero"); sx_assert(t.tsUSec() == t.tsNSec() / 1000, "tsUSec"); }
ENTRY time_fields() {
  int64_t s = sx_irange("s", 0, (int64_t)1 << 40); int32_t n = (int32_t)sx_irange("n", 0, G - 1); TimeSpan t(s, n); TimeStamp p((uint64_t)s, n);
  sx_assert(t.hours() >= 0 && t.hours() < 24 && t.minutes() >= 0 && t.minutes() < 60 && t.seconds() >= 0 && t.seconds() < 60, "fields in range");
  sx_assert(t.milliSeconds() < 1000 && t.microSeconds() < 1000 && t.nanoSeconds() < 1000, "sub-second fields in range");
  sx_assert(t.days() * 86400 + t.hours() * 3600 + t.minutes() * 60 + t.seconds() == s, "days, hours, minutes and seconds recombine to the value");
  sx_assert(t.milliSeconds() * 1000000 + t.microSeconds() * 1000 + t.nanoSeconds() == n, "milli-, micro- and nanoseconds recombine to the value");
  sx_assert(p.days() == t.days() && p.hours() == t.hours() && p.minutes() == t.minutes() && p.seconds() == t.seconds() && p.milliSeconds() == t.milliSeconds() && p.microSeconds() == t.microSeconds() && p.nanoSeconds() == t.nanoSeconds(), "stamps use the same fields");
}
// the printed text is a sum of value+unit items with one leading sign
static void print(int64_t lim, int k, int nlim) {
  int64_t s = sx_irange("s", -lim, lim); int32_t n = (int32_t)sx_irange("n", -nlim, nlim); int32_t f = k == 0 ? 1000000 : k == 1 ? 1000 : 1; sx_assume(k == 0 || n % 10 != 0); n *= f; sx_assume(norm(s, n)); TimeSpan t(s, n);
  std::ostringstream o; o << t; std::string x = o.str(); sx_observe_str("text", x);
  size_t i = 0; bool neg = false; if (i < x.size() && x[i] == '-') { neg = true; ++i; } int64_t sum = 0; int items = 0;
  while (i < x.size()) { int64_t v = 0; int digits = 0; while (i < x.size() && x[i] >= '0' && x[i] <= '9') { v = v * 10 + (x[i] - '0'); ++i; ++digits; } sx_assert(digits > 0, "every item starts with a number");
    std::string u; while (i < x.size() && x[i] >= 'a' && x[i] <= 'z') u += x[i++]; int64_t w = u == "h" ? 3600 * G : u == "m" ? 60 * G : u == "s" ? G : u == "ms" ? 1000000 : u == "us" ? 1000 : u == "ns" ? 1 : 0; sx_assert(w != 0, "every item has a known unit"); sum += v * w; ++items; }
  sx_assert(items > 0, "text is not empty"); sx_assert((neg ? -sum : sum) == s * G + n, "the printed items add up to the value");
}
#ifdef VF_THOROUGH
enum { SL = 400000, UL = 75, NL = 999 };
#else
enum { SL = 20000, UL = 9, NL = 999 };
#endif
ENTRY time_print_sec() { print(SL, 0, 0); }
ENTRY time_print_ms() { print(UL, 0, NL); }
ENTRY time_print_us() { print(UL, 1, NL); }
ENTRY time_print_ns() { print(UL, 2, NL); }

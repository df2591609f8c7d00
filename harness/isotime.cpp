#include "util.h"
#include <icl_core/TimeStamp.h>
#include <icl_core/TimeSpan.h>
#include <cstdio>
#include <boost/date_time/posix_time/posix_time_types.hpp>
using namespace icl_core;
static const int64_t G = 1000000000;
static bool leap(int64_t y) { return y % 4 == 0 && (y % 100 != 0 || y % 400 == 0); }
static int64_t days(int64_t y) { int64_t p = y - 1; return (y - 1970) * 365 + (p / 4 - 1969 / 4) - (p / 100 - 1969 / 100) + (p / 400 - 1969 / 400); }
#ifdef VF_THOROUGH
static const int YEARS[] = {1970, 1971, 1972, 1999, 2000, 2001, 2026, 2038, 2096, 2100, 2101, 2400};
#else
static const int YEARS[] = {1972, 2100};
#endif
static const int ML[12] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
// every second of the year, every nanosecond: text has the calendar digits and reads back
static void iso(int part) {
  int y = YEARS[part == 0 ? sx_choose(ARRLEN(YEARS), "year") : 0], m = part == 0 ? sx_choose(12, "month") : 2; int64_t d0 = days(y); for (int i = 0; i < m; ++i) d0 += ML[i] + (i == 1 && leap(y)); int md = ML[m] + (m == 1 && leap(y));
  int64_t d = 0, s = 0, n = 0; if (part == 0) d = sx_irange("day", 0, md - 1); else if (part == 1) s = sx_irange("sec", 0, 86399); else n = sx_irange("nsec", 0, G - 1);
  TimeStamp t((uint64_t)((d0 + d) * 86400 + s), (uint32_t)n); String b = t.formatIso8601BasicUTC(); sx_assert(b.size() == 25 && b[8] == 'T' && b[15] == ',', "basic format layout"); sx_observe_str("iso", b);
  int64_t dig[25]; for (int i = 0; i < 25; ++i) dig[i] = b[i] - '0'; for (int i = 0; i < 25; ++i) sx_assert(i == 8 || i == 15 || (dig[i] >= 0 && dig[i] <= 9), "digits");
  sx_assert(dig[0] * 1000 + dig[1] * 100 + dig[2] * 10 + dig[3] == y && dig[4] * 10 + dig[5] == m + 1 && dig[6] * 10 + dig[7] == d + 1, "calendar date"); sx_assert((dig[9] * 10 + dig[10]) * 3600 + (dig[11] * 10 + dig[12]) * 60 + dig[13] * 10 + dig[14] == s && dig[11] < 6 && dig[13] < 6, "time of day");
  int64_t v = 0; for (int i = 16; i < 25; ++i) v = v * 10 + dig[i]; sx_assert(v == n, "nanoseconds");
  TimeStamp r = TimeStamp::fromIso8601BasicUTC(b); sx_assert(r == t, "the basic text reads back as the same time stamp");
  String e = t.formatIso8601UTC(); sx_assert(e.size() == 19, "extended layout"); const int map[14] = {0, 1, 2, 3, 5, 6, 8, 9, 11, 12, 14, 15, 17, 18}; for (int i = 0; i < 14; ++i) sx_assert(e[map[i]] == b[i < 8 ? i : i + 1], "extended format has the same digits"); sx_assert(e[4] == '-' && e[7] == '-' && e[10] == ' ' && e[13] == ':' && e[16] == ':', "extended separators");
}
ENTRY iso_date() { iso(0); }
ENTRY iso_time() { iso(1); }
ENTRY iso_nsec() { iso(2); }
// a date text cut after any number of fields; one field has any two digits
ENTRY iso_parse() {
  static const char *Y[] = {"1970", "1972"}; int y = sx_choose(2, "y"); std::string s = Y[y]; int64_t f[5] = {2, 28, 1, 59, 7}; unsigned n = sx_choose(6, "fields"), q = n ? sx_choose(n, "free") : 9; 
  if (q == 1) f[0] = 1 + sx_choose(12, "month");
  for (unsigned i = 0; i < n; ++i) { if (i == 2) s += 'T'; char a = '0' + (char)(f[i] / 10), b = '0' + (char)(f[i] % 10); if (i == q) { a = '0' + (char)sx_range("a", 0, 9); b = '0' + (char)sx_range("b", 0, 9); f[i] = (a - '0') * 10 + (b - '0'); } s += a; s += b; }
  for (unsigned i = n; i < 5; ++i) f[i] = i < 2; 
  TimeStamp t = TimeStamp::fromIso8601BasicUTC(s); bool ok = f[0] >= 1 && f[0] <= 12 && f[1] >= 1; sx_observe("sec", t.tsSec()); if (!ok) return;
  int64_t d = days(1970 + 2 * y); for (int i = 0; i < 12; ++i) if (i + 1 < f[0]) d += ML[i] + (i == 1 && y == 1); sx_assert((int64_t)t.tsSec() == (d + f[1] - 1) * 86400 + f[2] * 3600 + f[3] * 60 + f[4] && t.tsNSec() == 0, "missing fields default to the start of the period");
}
ENTRY iso_frac() { unsigned n = sx_choose(11, "n"); std::string s = "19700101T000000,"; int64_t v = 0; for (unsigned i = 0; i < n; ++i) { int dgt = (int)sx_range("d", 0, 9); s += (char)('0' + dgt); if (i < 9) v = v * 10 + dgt; } for (unsigned i = n; i < 9; ++i) v *= 10; TimeStamp t = TimeStamp::fromIso8601BasicUTC(s); sx_assert(t.tsSec() == 0 && (int64_t)t.tsNSec() == v, "the fraction may have any number of digits"); }
ENTRY iso_any() { // every time stamp formats to a terminated text inside its buffer
  static const uint64_t W[] = {0, 253402300800ull - 1800, (1ull << 40), (1ull << 55), 67768036191676799ull - 30, (1ull << 63) - 1800, ~0ull - 3600}; uint64_t s = W[sx_choose(7, "window")] + sx_range("s", 0, 3600); TimeStamp t(s, 5u); String a = t.formatIso8601UTC(), b = t.formatIso8601BasicUTC(), c = t.formatIso8601(), d = t.formatIso8601Basic(); sx_observe("n", a.size()); sx_assert(a.size() <= 19 && b.size() <= 25 && a == c && b == d, "formatted text is bounded"); sx_assert(b.size() >= 10 && b.compare(b.size() - 10, 10, ",000000005") == 0, "sub-second part is always there");
  char buf[8]; memset(buf, '#', 8); t.strfTime(buf, 5, "%H%M"); sx_assert(buf[5] == '#' && (buf[0] == 0 || buf[4] == 0), "strfTime respects the buffer size"); memset(buf, '#', 8); t.strfLocaltime(buf, 4, "%H%M"); sx_assert(buf[4] == '#' && memchr(buf, 0, 4), "strfLocaltime terminates the text even if it does not fit");
}
ENTRY ptime_conv() {
  using namespace boost::posix_time; int64_t us = sx_irange("us", 0, (int64_t)1 << 52); ptime p(boost::gregorian::date(1970, 1, 1), time_duration(0, 0, 0, us)); TimeStamp t(p), u; u = p; sx_observe("s", t.tsSec()); sx_observe("n", t.tsNSec());
  sx_assert((int64_t)t.tsSec() == us / 1000000 && (int64_t)t.tsNSec() == us % 1000000 * 1000, "ptime converts exactly"); sx_assert(t == u, "assignment converts like construction");
}
static const double FAC[] = {2, 0.5, -2, 4, 0.25, 1};
ENTRY span_scale() { // scaling by powers of two is exact up to truncation of the last nanosecond
  #ifdef VF_THOROUGH
  static const int64_t S[] = {0, 1, 7, -3, -100000, 1234567}; static const int NF = 6;
#else
  static const int64_t S[] = {0, 7, -3}; static const int NF = 3;
#endif
  static const int32_t N[] = {0, 999999984}; int64_t s = S[sx_choose(ARRLEN(S), "s")]; int32_t n = N[sx_choose(2, "n")] + (int32_t)sx_range("ns", 0, 15); if (s < 0) n = -n; sx_assume(!(s > 0 && n < 0) && !(s < 0 && n > 0)); TimeSpan t(s, n); int k = sx_choose(NF, "factor"); bool div = sx_choose(2, "div"); TimeSpan r = div ? t / FAC[k] : t * FAC[k]; sx_observe("s", r.tsSec()); sx_observe("n", r.tsNSec());
  // exact value in quarter nanoseconds
  static const int NUM[] = {2, 8, -2, 1, 16, 4}, MUL[] = {8, 2, -8, 16, 1, 4}; int64_t v = s * G + n, e = v * (div ? NUM[k] : MUL[k]), a = (r.tsSec() * G + r.tsNSec()) * 4, d = e - a; 
  sx_assert(d > -4 && d < 4, "scaling is exact to the nanosecond"); sx_assert(r.tsNSec() > -G && r.tsNSec() < G && !(r.tsSec() > 0 && r.tsNSec() < 0) && !(r.tsSec() < 0 && r.tsNSec() > 0), "scaled span is normalized");
}

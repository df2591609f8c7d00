#include "util.h"
#include <icl_core/StringHelper.h>
#include <icl_core/EnumHelper.h>
#include <icl_core/os_string.h>
#include <icl_core/SequenceNumber.h>
using namespace icl_core;
#ifdef VF_THOROUGH
static const unsigned SL = 6, TL = 6;
#else
static const unsigned SL = 5, TL = 5;
#endif
static void split_case(const std::string &s, const std::string &d) {
  std::vector<String> p = split(s, d); sx_observe("parts", p.size());
  sx_assert(!p.empty() || s == d, "at least one part");
  String j = join(p, d); sx_observe_str("join", j);
  bool same = j == s, trail = (j + d) == s; sx_assert(same || trail, "join inverts split, up to one trailing delimiter");
  for (size_t i = 0; i < p.size(); ++i) sx_assert(p[i].find(d) == String::npos, "no part contains the delimiter");
  if (s.empty()) sx_assert(p.size() == 1 && p[0].empty(), "splitting an empty string gives one empty string");
}
ENTRY str_split() { unsigned n = sx_choose(SL + 1, "n"), d = 1 + sx_choose(2, "d"); std::string dl = sx_string(d, "del", "abc"); split_case(sx_string(n, "s", "abc"), dl); }
ENTRY str_split_any() { unsigned n = sx_choose(4, "n"); std::string dl = sx_string(1, "del", 0); split_case(sx_string(n, "s", 0), dl); }
ENTRY str_split_empty_delim() { unsigned n = sx_choose(4, "n"); std::string s = sx_string(n, "s", 0); std::vector<String> p = split(s, ""); sx_assert(join(p, "") == s, "splitting at an empty delimiter terminates and joins back"); }
ENTRY str_join() {
  unsigned k = sx_choose(4, "k"); std::vector<String> v; String d = sx_string(sx_choose(3, "d"), "del", 0), e; 
  for (unsigned i = 0; i < k; ++i) { v.push_back(sx_string(sx_choose(3, "n"), "s", 0)); if (i) e += d; e += v[i]; }
  sx_assert(join(v, d) == e, "join concatenates with delimiters in between");
  bool plain = d.size() == 1 && k > 0; for (unsigned i = 0; i < k && plain; ++i) plain = v[i].find(d) == String::npos; if (plain && (k == 1 || !v[k - 1].empty())) sx_assert(split(e, d) == v, "split inverts join for delimiter-free parts");
}
static bool sp(unsigned char c) { return c == ' ' || (c >= 9 && c <= 13); }
ENTRY str_trim() {
  unsigned n = sx_choose(TL + 1, "n"); char b[16]; for (unsigned i = 0; i < n; ++i) b[i] = (char)sx_u8("c"); std::string s(b, n), t = trim(s); sx_observe_str("trim", t);
  unsigned f = 0, l = n; while (f < l && sp(b[f])) ++f; while (l > f && sp(b[l - 1])) --l; sx_assert(t.size() == l - f && s.compare(f, l - f, t) == 0, "trim removes exactly the leading and trailing whitespace"); sx_assert(trim(t) == t, "trim is idempotent");
}
ENTRY str_case() {
  unsigned n = sx_choose(4, "n"); char b[16]; for (unsigned i = 0; i < n; ++i) { b[i] = (char)sx_u8("c"); sx_assume((unsigned char)b[i] < 128); } std::string s(b, n), u = toUpper(s), l = toLower(s);
  sx_assert(u.size() == n && l.size() == n, "case conversion keeps the length"); for (unsigned i = 0; i < n; ++i) { char c = b[i]; sx_assert(u[i] == (c >= 'a' && c <= 'z' ? c - 32 : c), "upper case"); sx_assert(l[i] == (c >= 'A' && c <= 'Z' ? c + 32 : c), "lower case"); }
}
ENTRY str_pad() {
  unsigned n = sx_choose(4, "n"); std::string s = sx_string(n, "s", 0); unsigned w = sx_choose(7, "w"); char p = (char)sx_u8("pad");
  std::string a = padLeft<String>(s, w, p), b = padRight<String>(s, w, p); unsigned e = w > n ? w : n; sx_assert(a.size() == e && b.size() == e, "padded length is max(width, length)");
  for (unsigned i = 0; i < e; ++i) { sx_assert(a[i] == (i < e - n ? p : s[i - (e - n)]), "padLeft keeps the text right-aligned"); sx_assert(b[i] == (i < n ? s[i] : p), "padRight keeps the text left-aligned"); }
  int32_t x = (int32_t)sx_irange("x", -120, 1200); std::string t = stringify<int32_t>(x), q = padLeft<int32_t>(x, 6, '0'), r = padRight<int32_t>(x, 6, ' '); unsigned z = t.size() < 6 ? 6 - t.size() : 0;
  sx_assert(q == std::string(z, '0') + t && r == t + std::string(z, ' '), "padding a number pads its text");
}
ENTRY str_stringify() {
  int32_t x = sx_i32("x"); sx_assume(x > -10000 && x < 10000); std::string t = stringify<int32_t>(x); int64_t v = 0; bool neg = t[0] == '-'; for (size_t i = neg; i < t.size(); ++i) { sx_assert(t[i] >= '0' && t[i] <= '9', "digits only"); v = v * 10 + (t[i] - '0'); } sx_assert((neg ? -v : v) == x, "stringify prints the decimal value"); sx_observe_str("t", t);
  sx_assert(stringify<bool>(true) == "true" && stringify<bool>(false) == "false", "bool text");
}
ENTRY enum_lookup() {
  static const char *const names[] = {"ab", "a", "b", "", "abc", NULL}; int which = sx_choose(4, "which"); int32_t v = sx_i32("init"), o = v; unsigned n = sx_choose(4, "n"); std::string s = sx_string(n, "s", 0); bool ok; int64_t v64 = 0;
  std::vector<std::string> dn(names, names + 5);
  if (which == 0) ok = string2Enum(s, v, names); else if (which == 1) ok = string2Enum(s, v, names, ""); else if (which == 2) ok = string2Enum(s, v, dn); else { v64 = v; ok = string2Enum(s, v64, dn); v = (int32_t)v64; }
  int e = -1, cnt = which == 1 ? 3 : 5; for (int i = 0; i < cnt; ++i) if (s == names[i]) e = i;
  sx_assert(ok == (e >= 0), "lookup succeeds exactly for listed names"); sx_assert(v == (ok ? e : o), "result is the index of the name and untouched on failure"); sx_observe("ok", ok);
}
ENTRY os_strings() {
  unsigned n = sx_choose(5, "n"); char b[8]; sx_chars(b, n, "s", 0); char d[8]; memset(d, '#', 8); char *r = icl_core::os::stpcpy(d, b); sx_assert(r == d + n && *r == 0 && memcmp(d, b, n + 1) == 0, "stpcpy copies and returns the end");
  char *u = icl_core::os::strdup(b); sx_assert(u && u != b && strcmp(u, b) == 0, "strdup copies"); free(u);
  unsigned cap = sx_choose(8, "cap"); char o[8]; memset(o, '#', 8); int k = icl_core::os::snprintf(o, cap, "%s", b); sx_assert(k == (int)n, "snprintf returns the full length"); for (unsigned i = cap; i < 8; ++i) sx_assert(o[i] == '#', "snprintf never writes past the buffer"); if (cap) { unsigned m = n < cap ? n : cap - 1; sx_assert(o[m] == 0 && memcmp(o, b, m) == 0, "snprintf truncates and terminates"); }
}
template <class T, T MAX, T MIN> static void seqnum() {
  typedef SequenceNumber<T, MAX, MIN> S; const uint64_t R = (uint64_t)MAX - MIN, H = R / 2; uint64_t x = sx_u64("a"), k = sx_u64("k"); sx_assume(x < R && k < R);
  S a((T)(MIN + x)), b((T)(MIN + (x + k >= R ? x + k - R : x + k))); // b is k increments after a
  bool lt = a < b, gt = a > b, le = a <= b, ge = a >= b, eq = a == b, ne = a != b; sx_observe("lt", lt); sx_observe("gt", gt);
  sx_assert(eq == (k == 0) && ne == (k != 0), "equal exactly when zero increments apart");
  sx_assert(!(lt && (b < a)), "never smaller in both directions"); sx_assert(le == (lt || eq), "<= is < or =="); sx_assert(ge == !lt, ">= is not <");
  if (k > 0 && k < H) { sx_assert(lt && !gt && le && !ge, "a number less than half the range ahead is larger, across wrap-around"); sx_assert(b > a && b >= a && !(b < a) && !(b <= a), "ordering is antisymmetric"); }
  S c(a); ++c; sx_assert((T)c == (x + 1 == R ? MIN : (T)(MIN + x + 1)), "increment wraps to the minimum"); S d(a); S old = d++; sx_assert(old == a && d == c, "post-increment returns the old value"); if (R > 3) sx_assert(a < c && c > a, "the successor is larger");
  sx_assert(S::maxValue() == MAX && S::minValue() == MIN, "bounds"); S e; sx_assert((T)e == MIN, "initial value"); e = (T)(MIN + x); sx_assert(e == a, "assign from raw value"); e = b; sx_assert(e == b, "assign");
}
ENTRY seq_u8() { seqnum<uint8_t, 255, 0>(); } ENTRY seq_u8_odd() { seqnum<uint8_t, 101, 0>(); } ENTRY seq_u16() { seqnum<uint16_t, 65535, 0>(); } ENTRY seq_u16_small() { seqnum<uint16_t, 1000, 0>(); }
ENTRY seq_u32() { seqnum<uint32_t, 0xffffffffu, 0>(); } ENTRY seq_min() { seqnum<uint16_t, 200, 100>(); } ENTRY seq_min32() { seqnum<uint32_t, 5000, 4000>(); }

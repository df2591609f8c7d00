#include "util.h"
#include <icl_core/SchemeParser.h>
#include <sstream>
#include <vector>
using namespace icl_core; typedef std::string S;
#ifdef VF_THOROUGH
static const unsigned LEN = 9, TAIL = 7;
#else
static const unsigned LEN = 7, TAIL = 6;
#endif
// the grammar as documented in SchemeParser.cpp, read by hand
static bool al(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); } static bool an(char c) { return al(c) || (c >= '0' && c <= '9'); } static bool sp(char c) { return c == ' ' || (c >= 9 && c <= 13); }
struct Ref { bool ok; S scheme, spec, anchor; std::vector<std::pair<S, S> > q; };
static size_t alnums(const S &t, size_t i) { while (i < t.size() && an(t[i])) ++i; return i; }
static Ref ref(const S &t) { Ref r; r.ok = false; size_t i = 0, n = t.size(), j = 0; while (j < n && al(t[j])) ++j;
  if (j) { for (;;) { size_t k = j; if (k < n && t[k] == '+') { ++k; size_t l = k; while (l < n && al(t[l])) ++l; if (l > k) { j = l; continue; } } break; } if (t.compare(j, 3, "://") == 0) { r.scheme = t.substr(0, j + 3); i = j + 3; } }
  j = i; while (j < n && t[j] != '?' && t[j] != '#') ++j; if (j == i) return r; r.spec = t.substr(i, j - i); i = j;
  if (i < n && t[i] == '#') { j = alnums(t, i + 1); if (j == i + 1) return r; if (j < n && t[j] == '-') { size_t k = alnums(t, j + 1); if (k > j + 1) j = k; } r.anchor = t.substr(i + 1, j - i - 1); i = j; }
  if (i < n && t[i] == '?') do { ++i; j = alnums(t, i); if (j == i) return r; for (;;) { if (j < n && an(t[j])) ++j; else if (j + 1 < n && t[j] == '_' && an(t[j + 1])) j += 2; else break; } if (j >= n || t[j] != '=') return r; size_t k = j + 1; while (k < n && t[k] != '?' && t[k] != '&' && !sp(t[k])) ++k; if (k == j + 1) return r; r.q.push_back(std::make_pair(t.substr(i, j - i), t.substr(j + 1, k - j - 1))); i = k; } while (i < n && t[i] == '&');
  r.ok = i == n; return r; }
static S lower(S s) { for (char &c : s) if (c >= 'A' && c <= 'Z') c += 32; return s; }
static SchemeType type(const S &s) { S l = lower(s); return l == "file://" ? FileScheme : l == "http://" ? HttpScheme : l == "camera://" ? CameraScheme : l == "gps://" ? GpsScheme : OtherScheme; }
static void check(bool r, const Scheme &s, const S &t) { Ref w = ref(t); sx_assert(r == w.ok, "exactly the texts of the grammar are accepted"); if (!r || !w.ok) return; sx_assert(s.scheme_name == lower(w.scheme) && s.scheme_type == type(w.scheme), "scheme name and type"); sx_assert(s.specifier == w.spec, "specifier"); sx_assert(s.anchor == w.anchor, "anchor"); sx_assert(s.queries.size() == w.q.size(), "number of queries"); for (size_t i = 0; i < w.q.size(); ++i) sx_assert(s.queries[i].name == w.q[i].first && s.queries[i].value == w.q[i].second, "queries in order"); std::ostringstream o; o << s; S x = lower(w.scheme) + w.spec; for (size_t i = 0; i < w.q.size(); ++i) x += (i ? "&" : "?") + w.q[i].first + "=" + w.q[i].second; if (!w.anchor.empty()) x += "#" + w.anchor; sx_assert(o.str() == x, "a scheme is printed with all its parts"); }
static S txt(unsigned n, const char *set) { char b[16]; sx_chars(b, n, "c", set); return S(b, n); }
// any text over the characters that matter
ENTRY scheme_any() { unsigned n = sx_choose(LEN + 1, "len"); S t = txt(n, "a:/?#=&-"); SchemeParser p; bool r = p.parseScheme(t); check(r, p.getSchemeResult(), t); sx_assert(!r || p.getParseInfo().full, "a full parse is reported"); if (p.getParseInfo().hit) sx_assert(p.getParseInfo().length <= n, "a parse ends in the text"); }
// the parts, one at a time, behind valid ones
ENTRY scheme_name() { static const char *const N[] = {"file", "HTTP", "camera", "gPs", "http+x", "filed", "fil", "a"}; S t = N[sx_choose(8, "name")]; t += txt(sx_choose(3, "len"), "+a:1"); if (sx_choose(2, "sep")) t += "://"; t += "p"; SchemeParser p; bool r = p.parseScheme(t); check(r, p.getSchemeResult(), t); }
ENTRY scheme_query() { S t = sx_choose(2, "anchor") ? "http://h#x" : "h"; t += "?k=v" + txt(sx_choose(TAIL + 1, "len"), "a=&_?# "); SchemeParser p; bool r = p.parseScheme(t); check(r, p.getSchemeResult(), t); sx_reach("end"); sx_must_reach("end"); }
ENTRY scheme_key() { S t = "h?" + txt(sx_choose(TAIL + 1, "len"), "a_=-1") + "=v"; SchemeParser p; bool r = p.parseScheme(t); check(r, p.getSchemeResult(), t); }
ENTRY scheme_anchor() { S t = "h#" + txt(sx_choose(TAIL + 1, "len"), "a-1?= _"); SchemeParser p; bool r = p.parseScheme(t); check(r, p.getSchemeResult(), t); }
ENTRY scheme_bytes() { char b[4]; unsigned n = 1 + sx_choose(2, "len"); sx_chars(b, n, "c", 0); for (unsigned i = 0; i < n; ++i) sx_assume(b[i] != 0); S x(b, n); int w = sx_choose(4, "where"); S t = w == 0 ? x : w == 1 ? x + "://h" : w == 2 ? "h#" + x : "h?k=" + x; SchemeParser p; bool r = p.parseScheme(t); check(r, p.getSchemeResult(), t); }
// one parse leaves nothing for the next
ENTRY scheme_again() { static const char *const T[] = {"http://a#b?c=d", "x", "gps://y?k=v&l=w", "file:///p/q.x#n-1", "?", "camera://z#", "Other+one://s?a_b=1"}; int a = sx_choose(7, "first"), b = sx_choose(7, "second"); SchemeParser p; p.parseScheme(T[a]); bool r = p.parseScheme(T[b]); check(r, p.getSchemeResult(), T[b]); Scheme s; BOOST_SPIRIT_NAMESPACE::parse_info<> info; r = SchemeParser::parseScheme(T[b], s, info); check(r, s, T[b]); sx_assert(info.full == r, "the result of the parse"); }

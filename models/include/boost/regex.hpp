// Model of the part of Boost.Regex (Perl syntax, backtracking) which the code under test uses.  Used only for the
// symbolic encoding; every replay runs against the real library.
#ifndef VF_BOOST_REGEX_HPP
#define VF_BOOST_REGEX_HPP
#include <algorithm>
#include <functional>
#include <map>
#include <memory>
#include <iterator>
#include <ostream>
#include <algorithm>
#include <utility>
#include <locale>
#include <stdexcept>
#include <string>
#include <vector>
namespace boost {
class bad_expression : public std::runtime_error { public: explicit bad_expression(const std::string &s) : std::runtime_error(s) {} int code() const { return 0; } std::ptrdiff_t position() const { return 0; } };
typedef bad_expression regex_error;
namespace vf_re {
enum { CHR, ANY, SET, GRP, BOL, EOL };
struct Node { int kind; char c; bool neg; std::vector<std::pair<unsigned char, unsigned char> > set; std::vector<std::vector<Node> > alt; int group; int min, max; bool lazy; Node() : kind(CHR), c(0), neg(false), group(-1), min(1), max(1), lazy(false) {} };
typedef std::vector<Node> Seq;
struct Parser {
  const char *p, *e; int groups; Parser(const char *a, const char *b) : p(a), e(b), groups(0) {}
  void bad() { throw bad_expression("bad expression"); }
  std::vector<Seq> alternatives(bool top) { std::vector<Seq> r; r.push_back(Seq()); while (p < e) { if (*p == ')') { if (top) bad(); return r; } if (*p == '|') { ++p; r.push_back(Seq()); continue; } r.back().push_back(atom()); } if (!top) bad(); return r; }
  void cls(char k, Node &n) { if (k == 'd') n.set.push_back(std::make_pair('0', '9')); else if (k == 's') { n.set.push_back(std::make_pair(' ', ' ')); n.set.push_back(std::make_pair('\t', '\r')); } else { n.set.push_back(std::make_pair('a', 'z')); n.set.push_back(std::make_pair('A', 'Z')); n.set.push_back(std::make_pair('0', '9')); n.set.push_back(std::make_pair('_', '_')); } }
  Node atom() {
    Node n; char c = *p++;
    switch (c) {
    case '(': n.kind = GRP; if (e - p > 1 && p[0] == '?' && p[1] == ':') p += 2; else n.group = ++groups; n.alt = alternatives(false); if (p == e) bad(); ++p; break;
    case '.': n.kind = ANY; break;
    case '^': n.kind = BOL; return n;
    case '$': n.kind = EOL; return n;
    case '[': n.kind = SET; if (p < e && *p == '^') { n.neg = true; ++p; } for (bool first = true;; first = false) { if (p == e) bad(); if (*p == ']' && !first) { ++p; break; } char a = *p++; if (a == '\\') { if (p == e) bad(); a = *p++; if (a == 'd' || a == 's' || a == 'w') { cls(a, n); continue; } } char b = a; if (e - p > 1 && *p == '-' && p[1] != ']') { b = p[1]; p += 2; } n.set.push_back(std::make_pair((unsigned char)a, (unsigned char)b)); } break;
    case '\\': if (p == e) bad(); n.c = *p++; if (n.c == 'd' || n.c == 's' || n.c == 'w') { n.kind = SET; cls(n.c, n); } else if (n.c == 'n') n.c = '\n'; else if (n.c == 't') n.c = '\t'; break;
    case '*': case '+': case '?': bad(); break;
    default: n.c = c; }
    if (p < e && (*p == '*' || *p == '+' || *p == '?')) { n.min = *p == '+'; n.max = *p == '?' ? 1 : 1 << 30; ++p; if (p < e && *p == '?') { n.lazy = true; ++p; } else if (p < e && (*p == '*' || *p == '+')) bad(); }
    return n; }
};
struct Cap { long b, e; };
struct Cont; // what is left to match
struct Matcher {
  const char *s; long n; std::vector<Cap> caps; bool whole, notbol, noteol; Matcher() : s(0), n(0), whole(false), notbol(false), noteol(false), end(-1) {}
  struct K { const Seq *q; size_t i; int count; long from; int close; long open; K *next; };
  bool one(const Node &x, char c) const { if (x.kind == CHR) return x.c == c; if (x.kind == ANY) return true; bool in = false; for (size_t k = 0; k < x.set.size(); ++k) if ((unsigned char)c >= x.set[k].first && (unsigned char)c <= x.set[k].second) { in = true; break; } return in != x.neg; }
  // match q[i..] having matched count repetitions of q[i], then k
  bool go(const Seq &q, size_t i, int count, long from, long at, K *k) {
    if (i == q.size()) { if (!k) { if (whole && at != n) return false; end = at; return true; }
      if (k->close >= 0) { Cap o = caps[k->close]; Cap c = {k->open, at}; caps[k->close] = c; if (go(*k->q, k->i, k->count, k->from, at, k->next)) return true; caps[k->close] = o; return false; }
      return go(*k->q, k->i, k->count, k->from, at, k->next); }
    const Node &x = q[i];
    if (x.kind == BOL) return at == 0 && !notbol && go(q, i + 1, 0, -1, at, k);
    if (x.kind == EOL) return at == n && !noteol && go(q, i + 1, 0, -1, at, k);
    bool enough = count >= x.min, more = count < x.max && !(count > x.min && from == at);
    if (enough && x.lazy && go(q, i + 1, 0, -1, at, k)) return true;
    if (more) {
      if (x.kind == GRP) { K kk = {&q, i, count + 1, at, x.group, at, k}; for (size_t a = 0; a < x.alt.size(); ++a) if (go(x.alt[a], 0, 0, -1, at, &kk)) return true; }
      else if (at < n && one(x, s[at]) && go(q, i, count + 1, at, at + 1, k)) return true; }
    return enough && !x.lazy && go(q, i + 1, 0, -1, at, k); }
  long end;
};
}
namespace regex_constants {
typedef unsigned match_flag_type; typedef unsigned syntax_option_type;
enum { match_default = 0, format_default = 0, format_perl = 0, match_perl = 0, match_any = 0, match_not_bol = 1, match_not_eol = 2, match_continuous = 4, match_not_null = 8, format_sed = 16, format_all = 32, format_literal = 64, format_first_only = 128, format_no_copy = 256, match_prev_avail = 512, match_single_line = 0, match_extra = 0, match_partial = 0 };
enum error_type { error_unknown };
}
using regex_constants::match_flag_type; using regex_constants::match_default; using regex_constants::match_perl; using regex_constants::match_any; using regex_constants::match_not_bol; using regex_constants::match_not_eol; using regex_constants::match_continuous; using regex_constants::match_not_null; using regex_constants::match_prev_avail; using regex_constants::match_single_line; using regex_constants::match_extra; using regex_constants::match_partial;
using regex_constants::format_default; using regex_constants::format_perl; using regex_constants::format_sed; using regex_constants::format_all; using regex_constants::format_first_only; using regex_constants::format_no_copy;
class regex {
public:
  typedef char value_type; typedef unsigned flag_type; typedef std::string::const_iterator const_iterator;
  static const flag_type normal = 0, perl = 0, ECMAScript = 0, extended = 0, optimize = 0, nosubs = 0, no_except = 0, icase = 1, literal = 2;
  std::vector<vf_re::Seq> alt; int groups; std::string text; flag_type fl;
  regex() : groups(0), fl(0) {}
  regex(const char *p, flag_type f = 0) { init(p, p + std::char_traits<char>::length(p), f); }
  regex(const char *p, size_t n, flag_type f = 0) { init(p, p + n, f); }
  regex(const char *p, const char *q, flag_type f = 0) { init(p, q, f); }
  regex(const std::string &s, flag_type f = 0) { init(s.data(), s.data() + s.size(), f); }
  template <class I> regex(I a, I b, flag_type f = 0) { std::string s(a, b); init(s.data(), s.data() + s.size(), f); }
  regex &operator=(const std::string &s) { init(s.data(), s.data() + s.size(), 0); return *this; }
  regex &operator=(const char *s) { return *this = std::string(s); }
  regex &assign(const std::string &s, flag_type f = 0) { init(s.data(), s.data() + s.size(), f); return *this; }
  regex &assign(const regex &r) { return *this = r; }
  std::string str() const { return text; } std::string expression() const { return text; } bool empty() const { return text.empty(); } unsigned mark_count() const { return groups; } flag_type flags() const { return fl; } size_t size() const { return text.size(); } int status() const { return 0; }
  void swap(regex &o) { std::swap(alt, o.alt); std::swap(groups, o.groups); text.swap(o.text); std::swap(fl, o.fl); }
private:
  static void fold(std::vector<vf_re::Seq> &v) { for (size_t i = 0; i < v.size(); ++i) for (size_t k = 0; k < v[i].size(); ++k) { vf_re::Node &n = v[i][k]; if (n.kind == vf_re::CHR && ((n.c >= 'a' && n.c <= 'z') || (n.c >= 'A' && n.c <= 'Z'))) { n.kind = vf_re::SET; n.set.push_back(std::make_pair((unsigned char)n.c, (unsigned char)n.c)); n.set.push_back(std::make_pair((unsigned char)(n.c ^ 32), (unsigned char)(n.c ^ 32))); } else if (n.kind == vf_re::SET) { size_t m = n.set.size(); for (size_t j = 0; j < m; ++j) for (unsigned c = n.set[j].first; c <= n.set[j].second; ++c) if ((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z')) n.set.push_back(std::make_pair((unsigned char)(c ^ 32), (unsigned char)(c ^ 32))); } fold(n.alt); } }
  void init(const char *a, const char *b, flag_type f) { alt.clear(); text.assign(a, b); fl = f; groups = 0; if (f & literal) { vf_re::Seq q; for (; a != b; ++a) { vf_re::Node n; n.c = *a; q.push_back(n); } alt.push_back(q); } else { vf_re::Parser p(a, b); alt = p.alternatives(true); groups = p.groups; } if (f & icase) fold(alt); }
};
template <class It> class sub_match : public std::pair<It, It> {
public:
  typedef char value_type; typedef It iterator; typedef std::ptrdiff_t difference_type;
  bool matched; sub_match() : std::pair<It, It>(), matched(false) {} sub_match(It a, It b, bool m) : std::pair<It, It>(a, b), matched(m) {}
  std::string str() const { return matched ? std::string(this->first, this->second) : std::string(); } operator std::string() const { return str(); } difference_type length() const { return matched ? this->second - this->first : 0; }
  int compare(const std::string &o) const { return str().compare(o); }
};
template <class I> bool operator==(const sub_match<I> &a, const std::string &b) { return a.str() == b; } template <class I> bool operator!=(const sub_match<I> &a, const std::string &b) { return a.str() != b; }
template <class I> bool operator==(const std::string &b, const sub_match<I> &a) { return a.str() == b; } template <class I> bool operator!=(const std::string &b, const sub_match<I> &a) { return a.str() != b; }
template <class I> bool operator==(const sub_match<I> &a, const char *b) { return a.str() == b; } template <class I> bool operator!=(const sub_match<I> &a, const char *b) { return a.str() != b; }
template <class I> bool operator==(const sub_match<I> &a, const sub_match<I> &b) { return a.str() == b.str(); } template <class I> bool operator!=(const sub_match<I> &a, const sub_match<I> &b) { return a.str() != b.str(); } template <class I> bool operator<(const sub_match<I> &a, const sub_match<I> &b) { return a.str() < b.str(); }
template <class I> std::string operator+(const std::string &b, const sub_match<I> &a) { return b + a.str(); } template <class I> std::string operator+(const sub_match<I> &a, const std::string &b) { return a.str() + b; } template <class I> std::string operator+(const char *b, const sub_match<I> &a) { return b + a.str(); } template <class I> std::string operator+(const sub_match<I> &a, const char *b) { return a.str() + b; }
template <class I> std::ostream &operator<<(std::ostream &o, const sub_match<I> &a) { return o << a.str(); }
typedef sub_match<std::string::const_iterator> ssub_match; typedef sub_match<const char *> csub_match;
template <typename It> class match_results {
public:
  typedef sub_match<It> value_type; typedef const value_type &const_reference; typedef size_t size_type; typedef std::ptrdiff_t difference_type; typedef typename std::vector<value_type>::const_iterator const_iterator; typedef const_iterator iterator;
  std::vector<value_type> m; value_type none, pre, suf; It base; match_results() : base() {}
  size_t size() const { return m.size(); } bool empty() const { return m.empty(); } size_t max_size() const { return m.max_size(); }
  const value_type &operator[](int i) const { return i >= 0 && (size_t)i < m.size() ? m[i] : none; } std::string str(int i = 0) const { return (*this)[i].str(); } difference_type length(int i = 0) const { return (*this)[i].length(); } difference_type position(int i = 0) const { return (*this)[i].matched ? (*this)[i].first - base : -1; }
  const value_type &prefix() const { return pre; } const value_type &suffix() const { return suf; } const_iterator begin() const { return m.begin(); } const_iterator end() const { return m.end(); }
  std::string format(const std::string &f, match_flag_type fl = 0) const { return expand(f, fl); }
  std::string expand(const std::string &f, match_flag_type fl) const { if (fl & regex_constants::format_literal) return f; std::string o; for (size_t k = 0; k < f.size(); ++k) {
    if (f[k] == '\\' && k + 1 < f.size()) { ++k; if (f[k] >= '1' && f[k] <= '9') o += str(f[k] - '0'); else o += f[k] == 'n' ? '\n' : f[k] == 't' ? '\t' : f[k]; }
    else if ((fl & format_sed) && f[k] == '&') o += str(0);
    else if (!(fl & format_sed) && f[k] == '$' && k + 1 < f.size()) { char c = f[k + 1]; if (c == '&') { ++k; o += str(0); } else if (c == '$') { ++k; o += '$'; } else if (c == '`') { ++k; o += pre.str(); } else if (c == '\'') { ++k; o += suf.str(); } else if (c >= '0' && c <= '9') { ++k; o += str(c - '0'); } else if (c == '{' && k + 3 < f.size() && f[k + 2] >= '0' && f[k + 2] <= '9' && f[k + 3] == '}') { o += str(f[k + 2] - '0'); k += 3; } else o += f[k]; }
    else o += f[k]; } return o; }
};
typedef match_results<std::string::const_iterator> smatch; typedef match_results<const char *> cmatch;
// text s[0..n) with the iterator b at its start; a match at position at
template <class It> bool vf_run(const char *s, long n, It b, long at, bool whole, match_results<It> *r, const regex &re, long *end, match_flag_type fl) {
  for (size_t a = 0; a < re.alt.size(); ++a) { vf_re::Matcher m; vf_re::Cap none = {-1, -1}; m.s = s; m.n = n; m.whole = whole; m.notbol = fl & match_not_bol; m.noteol = fl & match_not_eol; m.end = -1; m.caps.assign(re.groups + 1, none);
    if (!m.go(re.alt[a], 0, 0, -1, at, 0)) continue; if ((fl & match_not_null) && m.end == at) continue;
    *end = m.end; vf_re::Cap all = {at, m.end}; m.caps[0] = all; if (r) { r->base = b; r->pre = sub_match<It>(b, b + at, at > 0); r->suf = sub_match<It>(b + m.end, b + n, m.end < n); r->none = sub_match<It>(b + n, b + n, false); r->m.assign(re.groups + 1, r->none); for (int g = 0; g <= re.groups; ++g) if (m.caps[g].b >= 0) r->m[g] = sub_match<It>(b + m.caps[g].b, b + m.caps[g].e, true); } return true; }
  if (r) r->m.clear(); return false; }
template <class It> bool vf_find(It b, It e, match_results<It> *r, const regex &re, match_flag_type fl, bool whole, long from, long *end) { std::string s(b, e); long n = (long)s.size(); if (whole) return vf_run(s.data(), n, b, 0, true, r, re, end, fl); for (long i = from; i <= n; ++i) { if (vf_run(s.data(), n, b, i, false, r, re, end, fl)) return true; if (fl & match_continuous) break; } return false; }
template <class It> bool regex_match(It b, It e, match_results<It> &m, const regex &r, match_flag_type f = 0) { long x; return vf_find(b, e, &m, r, f, true, 0, &x); }
template <class It> bool regex_match(It b, It e, const regex &r, match_flag_type f = 0) { long x; return vf_find(b, e, (match_results<It> *)0, r, f, true, 0, &x); }
inline bool regex_match(const std::string &s, smatch &m, const regex &r, match_flag_type f = 0) { return regex_match(s.begin(), s.end(), m, r, f); }
inline bool regex_match(const std::string &s, const regex &r, match_flag_type f = 0) { return regex_match(s.begin(), s.end(), r, f); }
inline bool regex_match(const char *s, cmatch &m, const regex &r, match_flag_type f = 0) { return regex_match(s, s + std::char_traits<char>::length(s), m, r, f); }
inline bool regex_match(const char *s, const regex &r, match_flag_type f = 0) { return regex_match(s, s + std::char_traits<char>::length(s), r, f); }
template <class It> bool regex_search(It b, It e, match_results<It> &m, const regex &r, match_flag_type f = 0) { long x; return vf_find(b, e, &m, r, f, false, 0, &x); }
template <class It> bool regex_search(It b, It e, const regex &r, match_flag_type f = 0) { long x; return vf_find(b, e, (match_results<It> *)0, r, f, false, 0, &x); }
inline bool regex_search(const std::string &s, smatch &m, const regex &r, match_flag_type f = 0) { return regex_search(s.begin(), s.end(), m, r, f); }
inline bool regex_search(const std::string &s, const regex &r, match_flag_type f = 0) { return regex_search(s.begin(), s.end(), r, f); }
inline bool regex_search(const char *s, cmatch &m, const regex &r, match_flag_type f = 0) { return regex_search(s, s + std::char_traits<char>::length(s), m, r, f); }
inline bool regex_search(const char *s, const regex &r, match_flag_type f = 0) { return regex_search(s, s + std::char_traits<char>::length(s), r, f); }
inline std::string regex_replace(const std::string &s, const regex &r, const std::string &f, match_flag_type fl = 0) {
  std::string o; long i = 0, n = (long)s.size(), last = 0; bool done = false, copy = !(fl & format_no_copy); while (i <= n) { smatch m; long e; if (!done && vf_run(s.data(), n, s.begin(), i, false, &m, r, &e, fl)) { m.pre = ssub_match(s.begin() + last, m[0].first, true); last = e; o += m.expand(f, fl); done = fl & format_first_only; if (e > i) { i = e; continue; } } if (i < n && copy) o += s[i]; ++i; }
  return o; }
template <class O, class It> O regex_replace(O out, It b, It e, const regex &r, const std::string &f, match_flag_type fl = 0) { std::string o = regex_replace(std::string(b, e), r, f, fl); return std::copy(o.begin(), o.end(), out); }
// every match of a text
template <class It> class regex_iterator {
public:
  typedef std::forward_iterator_tag iterator_category; typedef match_results<It> value_type; typedef std::ptrdiff_t difference_type; typedef const value_type *pointer; typedef const value_type &reference;
  regex_iterator() : at(-1) {}
  regex_iterator(It a, It e_, const regex &r, match_flag_type f = 0) : b(a), e(e_), re(r), fl(f), at(0) { next(); }
  reference operator*() const { return m; } pointer operator->() const { return &m; } regex_iterator &operator++() { next(); return *this; } regex_iterator operator++(int) { regex_iterator o = *this; next(); return o; }
  bool operator==(const regex_iterator &o) const { return at < 0 || o.at < 0 ? at == o.at : b == o.b && at == o.at; } bool operator!=(const regex_iterator &o) const { return !(*this == o); }
private:
  It b, e; regex re; match_flag_type fl; long at; match_results<It> m;
  void next() { long x; if (at <= e - b && vf_find(b, e, &m, re, fl, false, at, &x)) at = x > b_pos() ? x : x + 1; else at = -1; } long b_pos() const { return m[0].first - b; }
};
typedef regex_iterator<std::string::const_iterator> sregex_iterator; typedef regex_iterator<const char *> cregex_iterator;
template <class It> class regex_token_iterator {
public:
  typedef std::forward_iterator_tag iterator_category; typedef sub_match<It> value_type; typedef std::ptrdiff_t difference_type; typedef const value_type *pointer; typedef const value_type &reference;
  regex_token_iterator() : k(0) {}
  regex_token_iterator(It a, It e, const regex &r, int sub = 0, match_flag_type f = 0) : k(0) { It last = a; for (regex_iterator<It> i(a, e, r, f), z; i != z; ++i) { if (sub == -1) v.push_back(value_type(last, (*i)[0].first, true)); else v.push_back((*i)[sub]); last = (*i)[0].second; } if (sub == -1 && last != e) v.push_back(value_type(last, e, true)); }
  reference operator*() const { return v[k]; } pointer operator->() const { return &v[k]; } regex_token_iterator &operator++() { ++k; return *this; } regex_token_iterator operator++(int) { regex_token_iterator o = *this; ++k; return o; }
  bool operator==(const regex_token_iterator &o) const { return v.size() - k == o.v.size() - o.k; } bool operator!=(const regex_token_iterator &o) const { return !(*this == o); }
private: std::vector<value_type> v; size_t k;
};
typedef regex_token_iterator<std::string::const_iterator> sregex_token_iterator; typedef regex_token_iterator<const char *> cregex_token_iterator;
}
#endif

#include "util.h"
#include <icl_core/List.h>
#include <icl_core/Vector.h>
#include <icl_core/Map.h>
#include <icl_core/Multimap.h>
#include <icl_core/Set.h>
#include <icl_core/Queue.h>
#include <icl_core/VectorWrapper.h>
#include <icl_core/Convert.h>
#include <icl_core/RemoveMemberPointer.h>
#include <icl_core/os_mem.h>
#include <stdexcept>
using namespace icl_core;
#ifdef VF_THOROUGH
static const int OPS = 3;
#else
static const int OPS = 2;
#endif
typedef long Elem; typedef std::vector<Elem> SV;
struct Wrap { ICL_CORE_WRAP_VECTOR(Wrap, SV, public, wrapped); };
static Elem val() { return (Elem)sx_u64("v"); }
template <class C> static bool eq(const C &c, const SV &m) { if (c.size() != m.size() || c.empty() != m.empty()) return false; int ok = 1; size_t i = 0; for (typename C::const_iterator it = c.begin(); it != c.end(); ++it) ok &= *it == m[i++]; return ok && i == m.size(); }
// the wrapped vector behaves as a vector
static void same(Wrap &w, const SV &m) { const Wrap &c = w; sx_assert(eq(w, m), "the wrapper holds the elements of a vector"); size_t n = m.size(), i = 0; int ok = 1; for (Wrap::iterator it = w.begin(); it != w.end(); ++it) ok &= *it == m[i++]; ok &= i == n; i = n; for (Wrap::reverse_iterator it = w.rbegin(); it != w.rend(); ++it) ok &= *it == m[--i]; for (i = 0; i < n; ++i) ok &= w[i] == m[i] && c[i] == m[i] && w.at(i) == m[i] && c.at(i) == m[i]; i = n; for (Wrap::const_reverse_iterator it = c.rbegin(); it != c.rend(); ++it) ok &= *it == m[--i]; if (n) ok &= w.front() == m.front() && c.front() == m.front() && w.back() == m.back() && c.back() == m.back(); sx_assert(ok, "every access sees them"); sx_assert(c.capacity() >= n && c.max_size() == m.max_size(), "there is room for the elements"); bool t = false; try { w.at(n); } catch (std::out_of_range &) { t = true; } bool u = false; try { c.at(n + 5); } catch (std::out_of_range &) { u = true; } sx_assert(t && u, "checked access is checked"); }
ENTRY wrap_ops() { int n = sx_choose(4, "n"); SV m; Wrap w; for (int i = 0; i < n; ++i) { Elem v = val(); m.push_back(v); w.push_back(v); } SV om(1, 9); Wrap ow((SV)om); size_t p, q, k; Elem v = val(), src[3] = {v, 1, 2};
  for (int i = 0; i < OPS; ++i) { n = (int)m.size(); switch (sx_choose(12, "op")) { case 0: m.push_back(v); w.push_back(v); break; case 1: if (n) { m.pop_back(); w.pop_back(); } break; case 2: { p = sx_choose(n + 1, "p"); Wrap::iterator it = w.insert(w.begin() + p, v); m.insert(m.begin() + p, v); sx_assert(it == w.begin() + p, "where it was inserted"); break; } case 3: p = sx_choose(n + 1, "p"); k = sx_choose(3, "k"); w.insert(w.begin() + p, k, v); m.insert(m.begin() + p, k, v); break; case 4: p = sx_choose(n + 1, "p"); k = sx_choose(4, "k"); w.insert(w.begin() + p, src, src + k); m.insert(m.begin() + p, src, src + k); break;
    case 5: if (n) { p = sx_choose(n, "p"); Wrap::iterator it = w.erase(w.begin() + p); m.erase(m.begin() + p); sx_assert(it == w.begin() + p, "behind the erased element"); } break; case 6: { p = sx_choose(n + 1, "p"); q = p + sx_choose(n + 1 - (int)p, "q"); Wrap::iterator it = w.erase(w.begin() + p, w.begin() + q); m.erase(m.begin() + p, m.begin() + q); sx_assert(it == w.begin() + p, "behind the erased elements"); break; } case 7: k = sx_choose(6, "k"); if (sx_choose(2, "def")) { w.resize(k); m.resize(k); } else { w.resize(k, v); m.resize(k, v); } break; case 8: w.clear(); m.clear(); break; case 9: w.swap(ow); m.swap(om); break; case 10: k = sx_choose(3, "k"); w.assign(Wrap::size_type(k), v); m.assign(k, v); break; case 11: k = sx_choose(4, "k"); w.assign(src, src + k); m.assign(src, src + k); break; } same(w, m); } same(ow, om); w.reserve(20); sx_assert(w.capacity() >= 20, "room is reserved"); same(w, m); sx_reach("end"); sx_must_reach("end"); }
// an element of the vector itself may be handed in
ENTRY wrap_alias() { int n = 1 + sx_choose(3, "n"); SV m; Wrap w; if (sx_choose(2, "room")) { w.reserve(20); m.reserve(20); } for (int i = 0; i < n; ++i) { Elem v = val(); m.push_back(v); w.push_back(v); } size_t a = sx_choose(n, "from"), p = sx_choose(n + 1, "p"), k = sx_choose(4, "k"); Elem v = m[a]; switch (sx_choose(4, "op")) { case 0: w.push_back(w[a]); m.push_back(v); break; case 1: { Wrap::iterator it = w.insert(w.begin() + p, w[a]); m.insert(m.begin() + p, v); sx_assert(it == w.begin() + p, "where it was inserted"); break; } case 2: w.insert(w.begin() + p, k, w[a]); m.insert(m.begin() + p, k, v); break; case 3: w.resize(n + k, w[a]); m.resize(n + k, v); break; } same(w, m); sx_reach("end"); sx_must_reach("end"); }
ENTRY wrap_make() { Elem v = val(), src[3] = {val(), val(), val()}; SV m(src, src + 3); Wrap a(m), b(src, src + 3), c(Wrap::size_type(2), v), d(Wrap::size_type(2)), e, f(a); e = c; same(a, m); same(b, m); same(f, m); same(c, SV(2, v)); same(e, SV(2, v)); same(d, SV(2, 0)); a[0] = 1; a.at(1) = 2; a.back() = 3; sx_assert(a.front() == 1 && a[1] == 2 && a[2] == 3, "elements are written"); same(f, m); }
// the other containers are those of the standard library
template <class C> static void seq() { Elem v = val(), src[3] = {val(), v, val()}; SV m(src, src + 3); std::vector<Elem> n2(2, v); C a, b(src, src + 3), c(b), e(typename C::size_type(2), v), f(typename C::size_type(2)); sx_assert(a.empty() && eq(b, m) && eq(c, m) && eq(e, n2) && eq(f, SV(2, 0)), "a container holds what it was made from"); c.push_back(v); a = c; sx_assert(eq(b, m) && c.size() == 4 && a.size() == 4 && a.back() == v, "a copy is independent"); }
ENTRY cont_seq() { seq<List<Elem> >(); seq<Vector<Elem> >(); std::list<Elem> l(2, 5); std::vector<Elem> v(2, 5); List<Elem> a(l); Vector<Elem> b(v); sx_assert(eq(a, v) && eq(b, v), "standard containers are converted"); }
ENTRY cont_assoc() { int k[3]; Elem v[3]; std::pair<int, Elem> p[3]; for (int i = 0; i < 3; ++i) { k[i] = sx_choose(2, "k"); v[i] = val(); p[i] = std::make_pair(k[i], v[i]); } Map<int, Elem> a(p, p + 3), b(a), c; Multimap<int, Elem> d(p, p + 3), e(d), e0; Set<int> s; for (int i = 0; i < 3; ++i) { c[k[i]] = v[i]; s.insert(k[i]); } std::map<int, Elem> sm; for (int i = 0; i < 3; ++i) sm.insert(p[i]); Map<int, Elem> g(sm); std::multimap<int, Elem> smm(d); Multimap<int, Elem> h(smm); std::set<int> ss(s); Set<int> t(ss), u(t);
  size_t keys = 1 + !(k[0] == k[1] && k[1] == k[2]); sx_assert(a.size() == keys && b.size() == keys && c.size() == keys && g.size() == keys && s.size() == keys && t == s && u == s && d.size() == 3 && e.size() == 3 && h.size() == 3 && e0.empty(), "maps have a key once, multimaps every value"); for (int i = 0; i < 3; ++i) { Elem first = 0, last = 0; bool set = false; size_t n = 0; for (int j = 0; j < 3; ++j) if (k[j] == k[i]) { if (!set) first = v[j]; set = true; last = v[j]; ++n; } sx_assert(a[k[i]] == first && b[k[i]] == first && g[k[i]] == first && c[k[i]] == last && d.count(k[i]) == n && d.find(k[i])->second == first && h.lower_bound(k[i])->second == first, "values are found by key"); } }
ENTRY cont_queue() { Queue<Elem> q; Elem v[3]; for (int i = 0; i < 3; ++i) q.push(v[i] = val()); Queue<Elem> r(q); std::queue<Elem> s(q); Queue<Elem> t(s); for (int i = 0; i < 3; ++i) { sx_assert(q.front() == v[i] && t.front() == v[i], "first in, first out"); q.pop(); t.pop(); } sx_assert(q.empty() && r.size() == 3 && r.front() == v[0], "a copy is independent"); }
struct Deg { int d; }; namespace icl_core { template <> void convert(const int &f, Deg &t) { t.d = 2 * f; } } struct M { long x; };
ENTRY conv() { int v = (int)sx_u32("v"); long l = convert<long>(v); short s; convert(v, s); unsigned char c = convert<unsigned char>(v); Deg d = convert<Deg>(v); double f = convert<double>(v); sx_assert(l == v && s == (short)v && c == (unsigned char)v && d.d == (int)(2u * (unsigned)v) && f == (double)v, "converting casts unless there is a special conversion"); RemoveMemberPointer<long M::*>::Type a = 3; RemoveMemberPointer<int>::Type b = v; sx_assert(sizeof a == 8 && b == v && a == 3, "the type behind a member pointer"); }
ENTRY mem_ops() { unsigned char a[6], b[6], s[6]; for (int i = 0; i < 6; ++i) { a[i] = sx_u8("a"); b[i] = sx_u8("b"); s[i] = b[i]; } int o = sx_choose(3, "o"), n = sx_choose(5, "n"); if (o + n > 6) { sx_done(); return; } int c = (int)sx_u32("c"); bool set = sx_choose(2, "set"); void *r = set ? os::memset(b + o, c, n) : os::memcpy(b + o, a, n); sx_assert(r == b + o, "the destination is returned"); for (int i = 0; i < 6; ++i) sx_assert(b[i] == (i >= o && i < o + n ? set ? (unsigned char)c : a[i - o] : s[i]), "exactly the given bytes are written"); }

#include "util.h"
#include <icl_core/DataHeader.h>
#include <icl_core/KeyValueDirectory.h>
#include <icl_core/Singleton.h>
#include <icl_core/Singleton.hpp>
#include <sstream>
#include <vector>
using namespace icl_core; typedef std::string S;
#ifdef VF_THOROUGH
static const unsigned OPS = 4;
#else
static const unsigned OPS = 3;
#endif
// ---- C15: data with a header ----
struct Big { int a, b, c; }; static S str(unsigned v) { std::ostringstream o; o << v; return o.str(); }
static boost::posix_time::ptime pt(int k) { using namespace boost::posix_time; using boost::gregorian::date; static const ptime P[] = {ptime(), ptime(date(2014, 5, 6), time_duration(7, 8, 9, 10)), ptime(date(1970, 1, 1), time_duration(0, 0, 0)), ptime(boost::date_time::pos_infin)}; return P[k]; }
ENTRY header_values() { DataHeader d; sx_assert(d.coordinate_system.empty() && d.timestamp.is_not_a_date_time() && d.sequence_number == 0 && d.dsin == 0, "a default header is empty, invalid and numbered zero"); S cs = sx_string(sx_choose(3, "len"), "c", 0); int k = sx_choose(4, "time"); uint32_t n = sx_u32("n"); bool num = sx_choose(2, "num"); DataHeader h = num ? DataHeader(cs, pt(k), n) : DataHeader(cs, pt(k)); sx_assert(h.coordinate_system == cs && (h.timestamp == pt(k) || (h.timestamp.is_not_a_date_time() && k == 0)) && h.sequence_number == (num ? n : 0) && h.dsin == 0, "a header is what it was made from"); DataHeader c(h), a; a = h; sx_assert(c.coordinate_system == cs && c.sequence_number == h.sequence_number && a.coordinate_system == cs && a.sequence_number == h.sequence_number && (a.timestamp == pt(k) || k == 0), "copies are equal"); }
ENTRY header_stamped() { int v = (int)sx_u32("v"); uint32_t n = sx_u32("n"); DataHeader h("frame", pt(1), n); h.dsin = 7; Stamped<int> both(v, h), data(v), head(h); head.get() = v; Stamped<int> *s[] = {&both, &data, &head}; for (int i = 0; i < 3; ++i) { const Stamped<int> &c = *s[i]; sx_assert((int)c == v && c.get() == v && c.cget() == v && *c == v && **s[i] == v && s[i]->get() == v, "the data is kept"); const DataHeader &x = c.header(); sx_assert(i == 1 ? x.coordinate_system.empty() && x.sequence_number == 0 && x.dsin == 0 && x.timestamp.is_not_a_date_time() : x.coordinate_system == "frame" && x.sequence_number == n && x.dsin == 7 && x.timestamp == pt(1), "the header is kept"); }
  Stamped<int> c(both); *c = v + 1; c.header().sequence_number = 3; StampedBase &b = c; sx_assert(*both == v && both.header().sequence_number == n && b.header().sequence_number == 3 && *c == (int)((unsigned)v + 1), "a copy is independent"); both = c; sx_assert(*both == *c && both.header().sequence_number == 3, "assigning copies data and header"); Stamped<Big> g(Big(), h); g->a = v; g->c = 5; const Stamped<Big> &cg = g; sx_assert(g.get().a == v && cg->a == v && cg.cget().c == 5, "members are accessed"); StampedBase::Ptr p(new Stamped<int>(v, h)); boost::shared_ptr<Stamped<int> > q = boost::dynamic_pointer_cast<Stamped<int> >(p); sx_assert(q && q->get() == v, "the type is recovered"); sx_reach("end"); sx_must_reach("end"); }
ENTRY header_print() { int k = sx_choose(4, "time"); static const char *const T[] = {"not-a-date-time", "2014-May-06 07:08:09.000010", "1970-Jan-01 00:00:00", "+infinity"}; static const unsigned N[] = {0, 1, 4294967295u}; unsigned n = N[sx_choose(3, "n")]; S cs = sx_string(sx_choose(2, "len"), "c", 0); DataHeader h(cs, pt(k), n); h.dsin = 12; S w = "[seq: " + str(n) + ", timestamp: " + T[k] + ", DSIN: 12, Frame: " + cs + "; "; Stamped<int> i(-5, h); Stamped<Big> b(Big(), h); Stamped<S> s(S("te xt"), h); std::ostringstream x, y, z; x << i; y << b; s.print(z); sx_assert(x.str() == w + "-5]", "header and data are printed"); sx_assert(y.str() == w + "12 data bytes]", "data which cannot be printed is counted"); sx_assert(z.str() == w + "te xt]", "text is printed as it is"); }
// ---- C36: named values ----
static S key(int k) { static const char *const K[] = {"a", "ab", "b"}; return K[k]; }
ENTRY kv_map() { KeyValueDirectory<int> d; bool has[3] = {false, false, false}; int val[3]; for (unsigned i = 0; i < OPS; ++i) { int k = sx_choose(3, "k"), v = (int)sx_u32("v"); bool r = d.insert(key(k), v); sx_assert(r == !has[k], "inserting tells new from replaced"); has[k] = true; val[k] = v; for (int j = 0; j < 3; ++j) { int x = 77; bool g = d.get(key(j), x); sx_assert(g == has[j] && d.hasKey(key(j)) == has[j] && x == (has[j] ? val[j] : 77), "the last value of a key is found, and nothing else"); } }
  S q = sx_string(sx_choose(3, "len"), "q", 0); int x = 77; bool g = d.get(q, x); int want = -1; for (int j = 0; j < 3; ++j) if (q == key(j)) want = j; sx_assert(g == (want >= 0 && has[want]) && (g ? x == val[want] : x == 77), "any other key is not found"); }
ENTRY kv_find() { KeyValueDirectory<S> d; static const char *const K[] = {"/a", "/a/b", "/a/c", "/b", ""}; bool has[5]; for (int i = 0; i < 5; ++i) { has[i] = sx_choose(2, "has"); if (has[i]) d.insert(K[i], S("v") + K[i]); } static const char *const Q[] = {".*", "/a.*", "/a/(.)", "/(.)(/(.))?", "/b", "b", ""}; int q = sx_choose(7, "query"); static const bool M[7][5] = {{1, 1, 1, 1, 1}, {1, 1, 1, 0, 0}, {0, 1, 1, 0, 0}, {1, 1, 1, 1, 0}, {0, 0, 0, 1, 0}, {0}, {0, 0, 0, 0, 1}}; static const int order[] = {4, 0, 1, 2, 3};
  KeyValueDirectoryIterator<S> it = d.find(Q[q]); for (int pass = 0; pass < 2; ++pass) { for (int i : order) if (has[i] && M[q][i]) { bool n = it.next(); sx_assert(n && it.key() == K[i] && it.value() == S("v") + K[i], "every matching entry is found once, sorted by key"); sx_assert(it.matchGroup(0) == K[i] && it.matchGroup(9) == "", "the whole match is group zero"); if (q == 2) sx_assert(it.matchGroup(1) == S(K[i]).substr(3), "match groups are given"); if (q == 3) sx_assert(it.matchGroup(1) == S(K[i]).substr(1, 1) && it.matchGroup(3) == (i == 1 || i == 2 ? S(K[i]).substr(3) : ""), "match groups are given"); }
    bool e = it.next(); sx_assert(!e, "then there are none left"); if (pass == 0) { if (sx_choose(2, "more")) { e = it.next(); sx_assert(!e, "and never again"); } it.reset(); } } }
// ---- C37: singletons ----
struct One { static int live, made; int v; One() : v(42) { ++live; ++made; } ~One() { --live; } }; int One::live, One::made;
static std::vector<void (*)()> g_exit; template <class T> struct AtEnd { static void scheduleDestruction(DestructionFuncPtr f) { g_exit.push_back(f); } static void onDeadReference() { SLPDefaultLifetime<T>::onDeadReference(); } }; template <class T> struct Phoenix { static void scheduleDestruction(DestructionFuncPtr f) { g_exit.push_back(f); } static void onDeadReference() {} };
static int g_locked, g_locks; template <class T> struct Locked { static void memoryBarrier() {} struct Lock { int n; Lock() : n(0) {} }; struct Guard { Guard(Lock &) { ++g_locked; ++g_locks; } ~Guard() { --g_locked; } }; };
template <class SI> static void use(bool owned) { One &a = SI::instance(); sx_assert(a.v == 42 && One::made == 1, "the instance is constructed at first use"); a.v = 5; One &b = SI::instance(); sx_assert(&a == &b && b.v == 5 && One::made == 1, "there is one instance"); sx_assert(g_exit.size() <= 1 && g_locked == 0, "its destruction is scheduled once"); if (!g_exit.empty()) { (*g_exit[0])(); if (owned) sx_assert(One::live == 0, "destruction destroys it"); bool thrown = false; try { SI::instance(); } catch (std::logic_error &) { thrown = true; } sx_assert(thrown, "a destroyed instance is not used again"); } }
ENTRY singleton_new() { use<Singleton<One, SCPCreateUsingNew, AtEnd> >(true); } ENTRY singleton_malloc() { use<Singleton<One, SCPCreateUsingMalloc, AtEnd> >(true); } ENTRY singleton_static() { use<Singleton<One, SCPCreateStatic, AtEnd> >(false); } ENTRY singleton_keep() { use<Singleton<One, SCPCreateUsingNew, SLPNoDestroy> >(false); sx_assert(One::live == 1 && g_exit.empty(), "an instance without destruction is kept"); } ENTRY singleton_lock() { use<Singleton<One, SCPCreateUsingNew, AtEnd, Locked> >(true); sx_assert(g_locks == 2, "creation is locked, use is not"); }
ENTRY singleton_again() { typedef Singleton<One, SCPCreateUsingNew, Phoenix> SI; for (int i = 1; i <= 3; ++i) { One &a = SI::instance(); sx_assert(a.v == 42 && One::made == i && One::live == 1 && g_exit.size() == (size_t)i, "a destroyed instance may be made anew"); a.v = 1; (*g_exit.back())(); sx_assert(One::live == 0, "and is destroyed again"); } }

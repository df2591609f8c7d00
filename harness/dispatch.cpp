#include "mt.h"
#include "quietlog.h"
#include <icl_core_dispatch/PeriodicDispatchThread.h>
#include <icl_core_dispatch/CallbackOperation.h>
#include <vector>
using namespace icl_core; using namespace icl_core::dispatch; using icl_core::thread::PeriodicThread;
#ifdef VF_THOROUGH
static const int PRE = 3;
#else
static const int PRE = 2;
#endif
// the list operations of the C++ library, here so that their accesses are seen
namespace std { namespace __detail { void _List_node_base::_M_hook(_List_node_base *p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; } void _List_node_base::_M_unhook() noexcept { _List_node_base *n = _M_next, *p = _M_prev; p->_M_next = n; n->_M_prev = p; } } }
typedef PeriodicDispatchThread PDT; static PDT *g_t; static std::vector<int> g_ran; static std::vector<TimeStamp> g_at; static int g_total, g_stop_after;
static void shared(PDT &t) { g_t = &t; vf_shared((char *)&t + sizeof(PeriodicThread), sizeof(PDT) - sizeof(PeriodicThread), 1); }
static void clk() { vf_clock(1000 + (long)sx_range("now_s", 0, 1u << 30), (long)sx_range("now_n", 0, 999999999)); }
struct Op : Operation { int id, n; Op *more; bool added; Op(int i) : id(i), n(0), more(0), added(false) {} virtual void execute() { ++n; g_ran.push_back(id); g_at.push_back(TimeStamp((uint64_t)vf_now_s(), (uint32_t)vf_now_n())); if (more && !added) { added = true; g_t->addOperation(more); } if (g_stop_after && (int)g_ran.size() >= g_stop_after) g_t->stop(); } };
static void gone() { sx_assert(vf_running() == 0, "no thread is left running"); sx_assert(vf_unjoined() == 0, "every system thread is released"); }
// every period each operation runs once, in the order of adding
ENTRY dispatch_order() { clk(); vf_threads(0); int n = 1 + sx_choose(3, "n"); Op a(0), b(1), c(2); Op *o[3] = {&a, &b, &c}; long ps = (long)sx_range("per_s", 0, 1 << 20), pn = (long)sx_range("per_n", 0, 999999999); sx_assume((ps > 0) | (pn >= 1000000)); TimeSpan p((int64_t)ps, (int32_t)pn); int cycles = 2 + (PRE > 2);
  { PDT t("dispatch", p); shared(t); for (int i = 0; i < n; ++i) t.addOperation(o[i]); g_stop_after = n * cycles; bool r = t.start(); sx_assert(r, "start succeeds"); r = t.wait(); vf_unshared((char *)&t + sizeof(PeriodicThread)); }
  sx_assert((int)g_ran.size() == n * cycles, "the last period is completed, and no other is begun after stopping"); for (int i = 0; i < n * cycles; ++i) sx_assert(g_ran[i] == i % n, "each operation runs once per period, in order"); for (int i = 1; i < cycles; ++i) { TimeSpan d = g_at[i * n] - g_at[(i - 1) * n]; sx_assert(!(d < p - TimeSpan(0, 100000)) && !(p + TimeSpan(0, 100000) < d), "one round per period"); } gone(); sx_reach("end"); sx_must_reach("end"); }
// adding while the thread runs
ENTRY dispatch_add() { vf_threads(PRE); Op a(0), b(1); { PDT t("dispatch", TimeSpan(1, 0)); shared(t); bool first = sx_choose(2, "first"); if (first) t.addOperation(&a); bool r = t.start(); sx_assert(r, "start succeeds"); if (!first) t.addOperation(&a); t.addOperation(&b); timespec d = {1, 0}; for (int i = 0; i < 10 && b.n < 2; ++i) nanosleep(&d, 0); t.stop(); t.join(); vf_unshared((char *)&t + sizeof(PeriodicThread)); }
  sx_assert(a.n >= 2 && b.n >= 2 && b.n <= a.n, "an added operation runs from the next period on"); int last = -1; for (int x : g_ran) { if (x == 1) sx_assert(last == 0, "operations run in the order of adding"); last = x; } gone(); }
// an operation which adds an operation
ENTRY dispatch_add_inside() { vf_threads(0); Op a(0), b(1), c(2); a.more = &c; g_stop_after = 0; { PDT t("dispatch", TimeSpan(1, 0)); shared(t); t.addOperation(&a); t.addOperation(&b); bool r = t.start(); sx_assert(r, "start succeeds"); timespec d = {1, 500000000}; for (int i = 0; i < 10 && b.n < 3; ++i) nanosleep(&d, 0); t.stop(); t.join(); vf_unshared((char *)&t + sizeof(PeriodicThread)); }
  sx_assert(a.n >= 3 && a.n == b.n && (c.n == a.n || c.n == a.n - 1), "an operation added by an operation runs at the latest from the next period on"); gone(); }
// destroying the dispatcher stops it
ENTRY dispatch_destroy() { vf_threads(PRE); Op a(0); { PDT t("dispatch", TimeSpan(1, 0)); t.addOperation(&a); if (sx_choose(2, "start")) { bool r = t.start(); sx_assert(r, "start succeeds"); if (sx_choose(2, "later")) { timespec d = {1, 500000000}; nanosleep(&d, 0); } } } int n = a.n; timespec d = {5, 0}; nanosleep(&d, 0); sx_assert(a.n == n, "a destroyed dispatcher runs nothing"); gone(); }
static int g_calls; static void f0() { ++g_calls; } struct Add { int k; void operator()() { g_calls += k; } };
ENTRY dispatch_callback() { int k = sx_i8("k"); CallbackOperation a(f0), b((Add{k})); int n = sx_choose(4, "n"); for (int i = 0; i < n; ++i) a.execute(); sx_assert(g_calls == n, "a callback is called once per execution"); Operation *o = &b; o->execute(); sx_assert(g_calls == n + k, "a function object is called"); sx_reach("end"); sx_must_reach("end"); }

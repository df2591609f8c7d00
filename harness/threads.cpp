#include "mt.h"
#include "quietlog.h"
#include <icl_core_thread/Thread.h>
#include <icl_core_thread/PeriodicThread.h>
#include <icl_core_thread/PeriodicThreadImplEmulate.h>
#include <icl_core_thread/ActiveObject.h>
using namespace icl_core; using namespace icl_core::thread;
#ifdef VF_THOROUGH
static const int PRE = 3, NOPS = 3;
#else
static const int PRE = 2, NOPS = 2;
#endif
static void clk() { int64_t s = 1000 + (int64_t)sx_range("now_s", 0, 1u << 30); int64_t n = (int64_t)sx_range("now_n", 0, 999999999); vf_clock(s, n); }
static TimeStamp now() { return TimeStamp((uint64_t)vf_now_s(), (uint32_t)vf_now_n()); }
static TimeSpan span(const char *a, const char *b) { int64_t s = sx_irange(a, 0, 1 << 20); int32_t n = (int32_t)sx_range(b, 0, 999999999); return TimeSpan(s, n); }
static int g_runs, g_ended; static long g_payload; static volatile bool g_in; static TimeSpan g_work;
static void reset() { g_runs = g_ended = 0; g_payload = 0; g_in = false; vf_shared(&g_payload, 8, 1); }
static void gone() { sx_assert(vf_running() == 0, "no thread is left running"); sx_assert(vf_unjoined() == 0, "every system thread is released"); }
static void over(Thread &t, int n) { sx_assert(g_runs == n && g_ended == n && g_payload == n, "the body ran exactly once and is over after waiting"); sx_assert(!t.running(), "a finished thread is not running"); }
struct Once : Thread { Once() : Thread("once") {} virtual void run() { ++g_runs; sx_assert(threadSelf(), "a thread knows itself"); ++g_payload; ++g_ended; } };
struct Work : Thread { Work() : Thread("work") {} virtual void run() { ++g_runs; timespec d = g_work.timespec(); nanosleep(&d, 0); ++g_payload; ++g_ended; } };
struct Loop : Thread { Loop() : Thread("loop") {} virtual void run() { ++g_runs; g_in = true; while (execute()) os::usleep(900000); ++g_payload; ++g_ended; } };
static bool end_by(Thread &t, int how) { switch (how) { case 0: t.join(); return true; case 1: return t.wait(); case 2: { TimeSpan lim(5, 0); TimeStamp t0 = now(); bool w = t.wait(lim); sx_assert(w || !(now() + TimeSpan(0, 1000) < t0 + lim), "a limited wait fails only after its time"); if (!w) t.join(); return true; } default: t.stop(); t.join(); return true; } }
// start, then any way of waiting: the body ran exactly once and is over
ENTRY thread_once() {
  reset(); vf_threads(PRE); { Once t; vf_shared(&t, sizeof t, 2 * sx_choose(2, "coarse")); sx_assert(!t.running(), "a new thread is not running"); bool w = t.wait(); sx_assert(w, "waiting for a thread which was not started succeeds");
    int again = 1 + sx_choose(2, "again");
    for (int i = 1; i <= again; ++i) { bool r = t.start(); sx_assert(r, "start succeeds"); r = end_by(t, sx_choose(4, "how")); sx_assert(r, "an unlimited wait always succeeds"); over(t, i); }
    vf_unshared(&t); }
  gone();
}
ENTRY thread_stop() {
  reset(); vf_threads(PRE); { Loop t; vf_shared(&t, sizeof t, 2 * sx_choose(2, "coarse")); bool r = t.start(); sx_assert(r && t.running(), "start succeeds and the thread is running");
    if (sx_choose(2, "seen")) { while (!g_in) os::usleep(1); sx_assert(t.execute(), "a thread executes until it is stopped"); bool s = t.start(); sx_assert(s, "starting a running thread succeeds"); TimeSpan lim(2, 0); TimeStamp t0 = now(); bool w = t.wait(lim); sx_assert(!w && !(now() + TimeSpan(0, 1000) < t0 + lim), "waiting for a running thread fails after its time"); sx_assert(t.running(), "the thread still runs"); }
    t.stop(); sx_assert(!t.execute(), "a stop request is kept"); r = end_by(t, sx_choose(2, "how")); sx_assert(r, "an unlimited wait always succeeds"); over(t, 1); vf_unshared(&t); }
  gone();
}
// stopping from another thread while the owner waits
ENTRY thread_stop_other() {
  reset(); vf_threads(PRE); { Loop t; bool r = t.start(); sx_assert(r, "start succeeds"); auto f = [&] { t.stop(); }; Worker w(f); bool ok = end_by(t, sx_choose(2, "how")); sx_assert(ok, "an unlimited wait always succeeds"); over(t, 1); w.join(); }
  gone();
}
ENTRY thread_destroyed() { // the destructor stops, waits and releases
  reset(); vf_threads(PRE); { Loop t; bool r = t.start(); sx_assert(r, "start succeeds"); while (!g_in) os::usleep(1); if (sx_choose(2, "stopped")) t.stop(); }
  sx_assert(g_runs == 1 && g_ended == 1 && g_payload == 1, "the body is over when the thread object is gone"); gone();
}
ENTRY thread_not_created() {
  reset(); vf_threads(PRE); { Once t; vf_create_fails(1); bool r = t.start(); sx_assert(!r && !t.running() && g_runs == 0, "a thread which could not be created is not started"); int how = sx_choose(3, "how"); if (how < 2) { r = end_by(t, how); sx_assert(r, "waiting for a thread which was not started succeeds"); } if (sx_choose(2, "retry")) { r = t.start(); sx_assert(r, "start succeeds later"); r = t.wait(); sx_assert(r, "an unlimited wait always succeeds"); over(t, 1); } }
  gone();
}
ENTRY thread_limit() { // the body takes g_work, the waiter waits for at most lim: every pair of times
  clk(); reset(); vf_threads(PRE); g_work = span("work_s", "work_n"); sx_assume(!(g_work < TimeSpan(0, 1000000))); { Work t; TimeStamp tb = now(); bool r = t.start(); TimeStamp t0 = now(); TimeSpan lim = span("lim_s", "lim_n"); bool w = sx_choose(2, "abs") ? t.wait(t0 + lim) : t.wait(lim); TimeSpan took = now() - t0;
    if (w) { sx_assert(g_ended == 1 && g_payload == 1, "a successful wait means the body is over"); sx_assert(!(now() - tb < g_work), "the body is not over earlier"); } else { sx_assert(!(took + TimeSpan(0, 1000) < lim), "a limited wait fails only after its time"); sx_assert(!(lim + TimeSpan(2, 0) < took), "a limited wait does not last longer"); sx_assert(!(g_work + TimeSpan(0, 1000000) < lim), "a limited wait which ends after the body succeeds"); t.join(); }
    sx_assert(r && g_ended == 1, "the body is over"); }
  gone();
}
// ---- active objects: queued operations run once, in order, in the object's thread, or are deleted ----
static int g_made, g_deleted, g_seq[8], g_done; static long g_state;
struct Op : ActiveOperation { int id; Thread *t; Op(int i, Thread *t) : id(i), t(t) { __sync_fetch_and_add(&g_made, 1); } virtual ~Op() { __sync_fetch_and_add(&g_deleted, 1); } virtual void invoke() { sx_assert(t->threadSelf(), "operations run in the thread of the object"); g_state += id; g_seq[g_done++] = id; } };
struct AO : ActiveObject { int begun, stopped; AO() : ActiveObject("ao"), begun(0), stopped(0) {} void put(int i) { queue(new Op(i, this)); } virtual void onThreadStart() { sx_assert(!stopped, "start handler first"); ++begun; } virtual void onThreadStop() { ++stopped; } 
  // what an active object has of its own, whatever its name
  char *own() { return (char *)static_cast<ActiveObject *>(this) + sizeof(Thread); } void share() { vf_shared(own(), sizeof(ActiveObject) - sizeof(Thread), 1); } void unshare() { vf_unshared(own()); } };
static void ao_reset() { g_made = g_deleted = g_done = 0; g_state = 0; vf_shared(&g_state, 8, 1); }
ENTRY active_order() { // operations queued before the stop request by one thread
  ao_reset(); vf_threads(PRE); int n = 1 + sx_choose(NOPS, "ops"); { AO a; a.share(); bool r = a.start(); sx_assert(r, "start succeeds"); for (int i = 1; i <= n; ++i) a.put(i); bool drain = sx_choose(2, "drain"); if (drain) while (((volatile int &)g_done) != n) os::usleep(1); a.stop(); a.join();
    sx_assert(a.begun == 1 && a.stopped == 1, "start and stop handler ran once"); if (drain) sx_assert(g_done == n, "queued operations run"); for (int i = 0; i < g_done; ++i) sx_assert(g_seq[i] == i + 1, "operations run in queue order, once"); sx_assert(g_deleted == n, "every operation is deleted once"); 
    a.put(9); sx_assert(g_deleted == n + 1 && g_done <= n, "an operation queued to a stopped object is deleted"); a.unshare(); }
  sx_assert(g_made == g_deleted, "every operation is deleted once"); sx_assert(vf_running() == 0 && vf_unjoined() == 0, "the thread is gone");
}
ENTRY active_two() { // two clients and a stop request
  ao_reset(); vf_threads(PRE); { AO a; a.share(); bool r = a.start(); sx_assert(r, "start succeeds"); auto f = [&] { a.put(1); a.put(2); }; Worker w(f); a.put(3); bool stop_first = sx_choose(2, "stop_first"); if (!stop_first) { w.join(); while (((volatile int &)g_done) != 3) os::usleep(1); } a.stop(); if (stop_first) w.join(); a.join();
    if (!stop_first) sx_assert(g_done == 3 && g_state == 6, "queued operations run"); int p1 = -1, p2 = -1; for (int i = 0; i < g_done; ++i) { if (g_seq[i] == 1) { sx_assert(p1 < 0, "once"); p1 = i; } if (g_seq[i] == 2) { sx_assert(p2 < 0, "once"); p2 = i; } } sx_assert(p2 < 0 || (p1 >= 0 && p1 < p2), "operations of one client keep their order"); a.unshare(); }
  sx_assert(g_made == 3 && g_deleted == 3, "every operation is deleted once");
}
// ---- periodic threads ----
static int g_cycles; static TimeStamp g_at[8]; static TimeSpan g_per[8];
struct Per : PeriodicThread { int n; bool change; TimeSpan next; Per(const TimeSpan &p, int n) : PeriodicThread("per", p), n(n), change(false) {} virtual void run() { g_at[0] = now(); for (int i = 1; i <= n && execute(); ++i) { if (change && i == 2) { bool r = setPeriod(next); sx_assert(r, "the period can be changed"); g_at[1] = now(); } waitPeriod(); g_at[i] = now(); ++g_cycles; } } };
static TimeSpan per(const char *a, const char *b) { TimeSpan p = span(a, b); sx_assume(!(p < TimeSpan(0, 1000000))); return p; }
ENTRY periodic_beat() {
  clk(); vf_threads(0); g_cycles = 0; TimeSpan p = per("per_s", "per_n"); { Per t(p, NOPS); sx_assert(t.period() == p, "the period is kept"); for (int k = 0; k < 2; ++k) { g_cycles = 0; bool r = t.start(); sx_assert(r, "start succeeds"); r = t.wait(); sx_assert(r && g_cycles == NOPS, "all cycles"); for (int i = 1; i <= NOPS; ++i) { TimeSpan d = g_at[i] - g_at[i - 1]; sx_assert(!(d < p - TimeSpan(0, 100000)) && !(p + TimeSpan(0, 100000) < d), "one cycle per period"); } sx_assert(vf_open_fds() <= 1, "restarting does not use up timers"); } }
  gone(); sx_assert(vf_open_fds() == 0, "the timer is released");
}
ENTRY periodic_change() {
  clk(); vf_threads(0); g_cycles = 0; TimeSpan p = per("per_s", "per_n"), q = per("next_s", "next_n"); { Per t(p, NOPS + 1); bool early = sx_choose(2, "early"); if (early) { t.setPeriod(q); p = q; } else { t.change = true; t.next = q; } bool r = t.start(); r = t.wait(); sx_assert(r && g_cycles == NOPS + 1, "all cycles"); sx_assert(t.period() == q, "the new period is kept");
    for (int i = 1; i <= NOPS + 1; ++i) { if (!early && i == 1) continue; TimeSpan d = g_at[i] - g_at[i - 1]; sx_assert(!(d < q - TimeSpan(0, 100000)) && !(q + TimeSpan(0, 100000) < d), "one cycle per new period"); } }
  gone(); sx_assert(vf_open_fds() == 0, "the timer is released");
}
// the portable implementation without kernel timers
static TimeSpan uspan(const char *a, const char *b) { int64_t s = sx_irange(a, 0, 1 << 20); int32_t n = (int32_t)sx_range(b, 0, 999999); return TimeSpan(s, n * 1000); } // the clock of the library counts microseconds
ENTRY periodic_emulated() {
  vf_clock(1000 + (long)sx_range("now_s", 0, 1u << 30), 1000 * (long)sx_range("now_us", 0, 999999)); vf_threads(0); TimeSpan p = uspan("per_s", "per_us"); sx_assume(!(p < TimeSpan(0, 1000000))); PeriodicThreadImplEmulate e(p); sx_assert(e.period() == p, "the period is kept"); e.waitPeriod(); TimeStamp a = now(); TimeSpan used = uspan("used_s", "used_us"); timespec u = used.timespec(); nanosleep(&u, 0);
  e.waitPeriod(); TimeSpan d = now() - a; TimeSpan w = used < p ? p : used; sx_assert(!(d < w - TimeSpan(0, 100000)) && !(w + TimeSpan(0, 100000) < d), "the next cycle begins one period after the last, or at once when late");
}

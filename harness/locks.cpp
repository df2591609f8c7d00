#include "mt.h"
#include <icl_core_thread/Mutex.h>
#include <icl_core_thread/RWLock.h>
#include <icl_core_thread/Sem.h>
#include <icl_core_thread/SpinLock.h>
#include <icl_core_thread/ScopedMutexLock.h>
#include <icl_core_thread/ScopedRWLock.h>
#include <icl_core_thread/ScopedSpinLock.h>
using namespace icl_core; using namespace icl_core::thread;
#ifdef VF_THOROUGH
static const int PRE = 4, TH = 3, NOPS = 4;
#else
static const int PRE = 3, TH = 2, NOPS = 3;
#endif
static void clk() { int64_t s = 1000 + (int64_t)sx_range("now_s", 0, 1u << 30); int64_t n = (int64_t)sx_range("now_n", 0, 999999999); vf_clock(s, n); }
static TimeStamp now() { return TimeStamp((uint64_t)vf_now_s(), (uint32_t)vf_now_n()); }
// the library's clock has a resolution of one microsecond
static bool waited(const TimeStamp &t0, const TimeStamp &until) { TimeStamp n = now(); return until < t0 ? n == t0 : !(until < n) && !(n + TimeSpan(0, 1000) < until) && !(n < t0); }
static TimeSpan span() { int64_t s = sx_irange("rel_s", 0, 1 << 20); int32_t n = (int32_t)sx_range("rel_n", 0, 999999999); return TimeSpan(s, n); }
static volatile int g_in, g_writers, g_readers; static long g_data;
static void inside() { sx_assert(++g_in == 1, "at most one thread is inside the critical section"); g_data++; g_data++; sx_assert(g_in == 1, "at most one thread is inside the critical section"); --g_in; }
static long g_base; static void base() { g_base = g_data = (long)(sx_u64("base") & ~1ull); }
static void share() { base(); vf_shared(&g_data, 8, 1); vf_shared((void *)&g_in, 4, 0); }
// ---- mutual exclusion, every way of locking ----
static bool lock_by(Mutex &m, int how) { switch (how) { case 0: return m.lock(); case 1: return m.tryLock(); case 2: return m.lock(TimeSpan(1, 5)); default: return m.lock(now() + TimeSpan(0, 7)); } }
static void mutex_excl_(int kinds) {
  Mutex m; share(); int how[3]; for (int i = 0; i < TH; ++i) how[i] = sx_choose(kinds, "how"); vf_threads(PRE); int got = 0; bool nest = sx_choose(2, "nest");
  auto body = [&](int i) { if (lock_by(m, how[i])) { if (nest) { bool in = m.lock(); sx_assert(in, "a mutex may be locked again by its holder"); m.unlock(); } ++got; inside(); m.unlock(); } else sx_assert(how[i] != 0, "an unlimited lock succeeds"); };
  auto f0 = [&] { body(0); }; auto f1 = [&] { body(1); }; auto f2 = [&] { body(2); };
  if (TH == 3) { Worker a(f0), b(f1); f2(); a.join(); b.join(); } else { Worker a(f0); f1(); a.join(); }
  sx_assert(g_data - g_base == 2 * got, "every update inside the lock counts"); bool free_ = m.tryLock(); sx_assert(free_, "the mutex is free afterwards"); m.unlock();
}
ENTRY mutex_excl() { mutex_excl_(4); }
ENTRY scoped_mutex_excl() {
  Mutex m; share(); vf_threads(PRE);
  auto f = [&] { ScopedMutexLock l(m); sx_assert(l.isLocked() && l, "a forced scoped lock holds the mutex"); inside(); };
  Worker a(f), b(f); f(); a.join(); b.join(); sx_assert(g_data - g_base == 6, "every update inside the lock counts"); bool free_ = m.tryLock(); sx_assert(free_, "leaving the scope releases the mutex"); m.unlock();
}
// ---- a held mutex: answers and deadlines are truthful ----
ENTRY mutex_held() {
  clk(); Mutex m; vf_threads(0); Semaphore held(0), go(0); int depth = 1 + sx_choose(2, "depth");
  auto owner = [&] { for (int i = 0; i < depth; ++i) m.lock(); held.post(); go.wait(); for (int i = 0; i < depth; ++i) m.unlock(); held.post(); go.wait(); };
  Worker w(owner); held.wait(); TimeStamp t0 = now();
  switch (sx_choose(4, "how")) {
  case 0: { bool r = m.tryLock(); sx_assert(!r, "a mutex held by another thread is not available"); sx_assert(now() == t0, "trying does not wait"); break; }
  case 1: { TimeSpan s = span(); bool r = m.lock(s); sx_assert(!r, "a mutex held by another thread is not available"); sx_observe("s", vf_now_s()); sx_assert(waited(t0, t0 + s), "the relative time passes exactly before giving up"); break; }
  case 2: { TimeStamp d = t0 + span(); bool r = m.lock(d); sx_assert(!r && waited(t0, d), "the absolute time passes exactly before giving up"); break; }
  default: { TimeStamp d = t0 - span(); bool r = m.lock(d); sx_assert(!r && now() == t0, "a deadline in the past does not wait"); break; } }
  go.post(); held.wait(); bool r = sx_choose(2, "then") ? m.tryLock() : m.lock(span()); sx_assert(r, "a mutex is available after its holder released every lock"); m.unlock(); go.post(); w.join();
}
// released in time or not: the answer says which
ENTRY mutex_timed_race() {
  Mutex m; Semaphore held(0); share(); vf_threads(PRE); clk(); TimeStamp t0 = now();
  auto owner = [&] { m.lock(); held.post(); inside(); m.unlock(); };
  Worker w(owner); held.wait(); TimeSpan s = span(); if (m.lock(s)) { inside(); m.unlock(); } else sx_assert(waited(t0, t0 + s), "giving up needs the time to pass"); w.join(); bool f = m.tryLock(); sx_assert(f, "free afterwards"); m.unlock();
}
// ---- reader-writer lock ----
static bool rlock(RWLock &m, int how) { switch (how) { case 0: return m.readLock(); case 1: return m.tryReadLock(); case 2: return m.readLock(TimeSpan(1, 5)); default: return m.readLock(now() + TimeSpan(0, 7)); } }
static bool wlock(RWLock &m, int how) { switch (how) { case 0: return m.writeLock(); case 1: return m.tryWriteLock(); case 2: return m.writeLock(TimeSpan(1, 5)); default: return m.writeLock(now() + TimeSpan(0, 7)); } }
static void as_reader() { ++g_readers; sx_assert(g_writers == 0, "no writer beside a reader"); long x = g_data, y = g_data; sx_assert(x == y && x % 2 == 0, "a reader sees no half-done update"); sx_assert(g_writers == 0, "no writer beside a reader"); --g_readers; }
static void as_writer() { ++g_writers; sx_assert(g_writers == 1 && g_readers == 0, "a writer is alone"); g_data++; g_data++; sx_assert(g_writers == 1 && g_readers == 0, "a writer is alone"); --g_writers; }
ENTRY rwlock_excl() {
  RWLock l; base(); vf_shared(&g_data, 8, 1); vf_threads(PRE); int how[2], role[2]; for (int i = 0; i < 2; ++i) { role[i] = sx_choose(2, "role"); how[i] = sx_choose(4, "how"); } int wr = 0;
  auto body = [&](int i) { if (role[i] ? wlock(l, how[i]) : rlock(l, how[i])) { if (role[i]) { as_writer(); ++wr; } else as_reader(); l.unlock(); } else sx_assert(how[i] != 0, "an unlimited lock succeeds"); };
  auto f0 = [&] { body(0); }; auto f1 = [&] { body(1); }; Worker a(f0); f1(); a.join(); sx_assert(g_data - g_base == 2 * wr, "every update inside the lock counts"); bool f = l.tryWriteLock(); sx_assert(f, "free afterwards"); l.unlock();
}
ENTRY scoped_rw_excl() {
  RWLock l; base(); vf_shared(&g_data, 8, 1); vf_threads(PRE); int r0 = sx_choose(2, "role"), r1 = sx_choose(2, "role");
  auto body = [&](int w) { ScopedRWLock s(l, w ? ScopedRWLock::eLM_WRITE_LOCK : ScopedRWLock::eLM_READ_LOCK); sx_assert(s.isLocked() && s, "a forced scoped lock holds the lock"); if (w) as_writer(); else as_reader(); };
  auto f0 = [&] { body(r0); }; auto f1 = [&] { body(r1); }; Worker a(f0), b(f1); body(1); a.join(); b.join(); sx_assert(g_data - g_base == 2 * (1 + r0 + r1), "every update inside the lock counts"); bool f = l.tryWriteLock(); sx_assert(f, "leaving the scope releases the lock"); l.unlock();
}
ENTRY rwlock_held() {
  clk(); RWLock l; vf_threads(0); Semaphore held(0), go(0); int w = sx_choose(2, "holder_writes");
  auto owner = [&] { if (w) l.writeLock(); else l.readLock(); held.post(); go.wait(); l.unlock(); held.post(); go.wait(); };
  Worker t(owner); held.wait(); TimeStamp t0 = now(); int q = sx_choose(2, "want_write"); bool exp = !w && !q, r; TimeStamp at = t0;
  switch (sx_choose(4, "how")) {
  case 0: r = q ? l.tryWriteLock() : l.tryReadLock(); break;
  case 1: { TimeSpan s = span(); r = q ? l.writeLock(s) : l.readLock(s); at = t0 + s; break; }
  case 2: { TimeStamp d = t0 + span(); r = q ? l.writeLock(d) : l.readLock(d); at = d; break; }
  default: { TimeStamp d = t0 - span(); r = q ? l.writeLock(d) : l.readLock(d); break; } }
  sx_assert(r == exp, "readers share, writers exclude, and the answer says so"); sx_assert(r ? now() == t0 : waited(t0, at), "exactly the requested time passes before giving up"); if (r) l.unlock();
  go.post(); held.wait(); r = q ? l.tryWriteLock() : l.readLock(span()); sx_assert(r, "available after the holder released it"); l.unlock(); go.post(); t.join();
}
// ---- spin lock ----
ENTRY spin_excl() {
  SpinLock l; share(); vf_threads(PRE); int how[2] = {sx_choose(3, "how"), sx_choose(3, "how")}, got = 0;
  auto body = [&](int i) { if (how[i] == 2) { ScopedSpinLock s(l); sx_assert(s.isLocked(), "scoped spin lock is held"); ++got; inside(); return; } bool r = how[i] ? l.tryLock() : l.lock(); if (r) { ++got; inside(); l.unlock(); } else sx_assert(how[i] == 1, "an unlimited lock succeeds"); };
  auto f0 = [&] { body(0); }; auto f1 = [&] { body(1); }; Worker a(f0); f1(); a.join(); sx_assert(g_data - g_base == 2 * got && got >= 1, "every update inside the lock counts"); bool f = l.tryLock(); sx_assert(f, "free afterwards"); bool g = l.tryLock(); sx_assert(!g, "a held spin lock is not available"); l.unlock();
}
// ---- semaphores ----
// large counts are kept in full
ENTRY sem_large() { static const uint32_t N[] = {3, 127, 128, 255, 256, 257, 65535, 65536, 65537, 0x7ffffffe}; vf_clock(1000, 0); int k = sx_choose(10, "init"), n = k < 6 ? (int)N[k] : 3; Semaphore s(N[k]); for (int i = 0; i < n; ++i) { bool r = s.tryWait(); sx_assert(r, "every permit of a new semaphore can be taken"); } for (int i = 0; i < 3; ++i) s.post(); n = 3 + (k < 6 ? 0 : 2); for (int i = 0; i < n; ++i) { bool r = s.tryWait(); sx_assert(r, "every permit of a new semaphore can be taken"); } bool r = s.tryWait(); sx_assert(r == (k >= 6), "no permit is invented"); }
ENTRY sem_count() { // single thread, any history: the counter never goes below zero and no permit is lost
  uint32_t init = (uint32_t)sx_choose(3, "init"); vf_clock(1000, 999999999); Semaphore s(init); uint32_t v = init; int timed = 0; auto sp = [&] { return timed++ ? TimeSpan(0, 999999999) : span(); };
  for (int i = 0; i < NOPS; ++i) switch (sx_choose(4, "op")) {
    case 0: s.post(); ++v; break;
    case 1: { bool r = s.tryWait(); sx_assert(r == (v > 0), "a permit is available exactly if the count is positive"); if (r) --v; break; }
    case 2: { TimeStamp t0 = now(); TimeSpan d = sp(); bool r = s.wait(d); sx_assert(r == (v > 0), "a permit is available exactly if the count is positive"); sx_assert(r ? now() == t0 : waited(t0, t0 + d), "exactly the requested time passes before giving up"); if (r) --v; break; }
    default: { TimeStamp t0 = now(); TimeStamp d = sx_choose(2, "past") ? t0 - sp() : t0 + sp(); bool r = s.wait(d); sx_assert(r == (v > 0), "a permit is available exactly if the count is positive"); sx_assert(r ? now() == t0 : waited(t0, d), "exactly the requested time passes before giving up"); if (r) --v; break; } }
  sx_observe("v", v); while (v) { bool r = s.wait(); sx_assert(r, "every permit can be taken"); --v; } bool r = s.tryWait(); sx_assert(!r, "no permit is invented");
}
ENTRY sem_handover() { // producers and consumers: nobody is left waiting while permits remain, data is handed over
  Semaphore s(sx_choose(2, "init")); vf_threads(PRE); long d0 = 0; vf_shared(&d0, 8, 1); Semaphore ready(0);
  auto prod = [&] { d0 = 42; ready.post(); s.post(); }; auto cons = [&] { bool r = s.wait(); sx_assert(r, "wait succeeds"); s.post(); };
  Worker p(prod), c(cons); bool r = ready.wait(); sx_assert(r && d0 == 42, "data written before post is seen after wait"); p.join(); c.join(); r = s.tryWait(); sx_assert(r, "permits are conserved");
}
ENTRY sem_limit() { // at most `init` threads at a time
  Semaphore s(1); share(); vf_threads(PRE); int how[2] = {sx_choose(3, "how"), sx_choose(3, "how")}, got = 0;
  auto body = [&](int i) { bool r = how[i] == 0 ? s.wait() : how[i] == 1 ? s.tryWait() : s.wait(TimeSpan(1, 1)); if (r) { ++got; inside(); s.post(); } else sx_assert(how[i] != 0, "an unlimited wait succeeds"); };
  auto f0 = [&] { body(0); }; auto f1 = [&] { body(1); }; Worker a(f0); f1(); a.join(); sx_assert(g_data - g_base == 2 * got, "as many entries as permits"); bool r = s.tryWait(); sx_assert(r, "permits are conserved"); r = s.tryWait(); sx_assert(!r, "no permit is invented");
}

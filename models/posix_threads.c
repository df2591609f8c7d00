// Scheduling model of POSIX threads, semaphores, clocks and timers.  Used by the executor in place of
// the system's functions and, with VF_NATIVE, by the native replay (the calls of the compiled code are
// redirected to the vf_ versions), so that a recorded schedule reproduces on the compiled code.
// Sequentially consistent interleavings; a switch is possible at every call of one of these functions,
// at every atomic operation and at every access to a registered range (vf_shared); the number of
// switches away from a thread which could continue is bounded, all others are free.
#define _GNU_SOURCE
#include <pthread.h>
#include <semaphore.h>
#include <errno.h>
#include <time.h>
#include <sys/time.h>
#include <sys/timerfd.h>
#include <unistd.h>
#include <string.h>
#include <stdlib.h>
#include "../harness/sx.h"
#ifdef VF_NATIVE
#define P(x) vf_##x
#else
#define P(x) x
#endif
#define NT 8
#define NOBJ 96
enum { FREE_, RUN, BLOCKED, DONE };
typedef struct { long s; long n; } ts_t; // clock value
typedef struct { int state, joined, detached, timed, fired, cancelled, cancelable; const void *obj; ts_t deadline; void *(*fn)(void *); void *arg, *ret; unsigned vc[NT]; } T;
static T g_t[NT]; static int g_nt = 1, g_cur, g_on, g_budget, g_live;
enum { K_MUTEX = 1, K_RW, K_SEM, K_TIMER, K_ATOM };
typedef struct { const void *p; int kind, type, owner, count, writer; int readers[NT]; unsigned long value, missed; long per_s, per_n; ts_t next; int armed; unsigned vc[NT]; } O;
static O g_o[NOBJ]; static int g_no;
static ts_t g_now; static int g_init; static int g_ticks;
typedef struct { const char *p; size_t n; int race; } R; static R g_r[64]; static int g_nr;
typedef struct { const void *a; unsigned w[NT], r[NT]; int wt; } S; static S g_s[512]; static int g_ns; // shadow cells of race-checked ranges
static int tlt(ts_t a, ts_t b) { return (a.s < b.s) | ((a.s == b.s) & (a.n < b.n)); }
static void start(void) { if (!g_init) { g_init = 1; g_t[0].state = RUN; g_t[0].vc[0] = 1; g_now.s = 1500000000; g_now.n = 0; } }
// ---- harness interface ----
void vf_threads(int budget) { start(); g_on = 1; g_budget = budget; }
void vf_clock(long s, long n) { start(); g_now.s = s; g_now.n = n; }
static long g_un = -1, g_uu; void vf_clock_at_us(long sec, long us) { vf_clock(sec, us * 1000); g_uu = us; g_un = us * 1000; }
static int g_us; void vf_clock_us(void) { g_us = 1; } // interrupted sleeps last whole microseconds
static long g_step; void vf_clock_step_us(long us) { g_step = us; } // every reading of the clock takes that long
void vf_clock_ticks(int n) { g_ticks = n; } // the next n clock readings advance the clock by any amount below one second
long vf_now_s(void) { start(); return g_now.s; } long vf_now_n(void) { return g_now.n; }
void vf_shared(const void *p, size_t n, int race) { if (g_nr < 64) { g_r[g_nr].p = p; g_r[g_nr].n = n; g_r[g_nr++].race = race; } else sx_incomplete("too many shared ranges"); }
void vf_unshared(const void *p) { for (int i = 0; i < g_nr; i++) if (g_r[i].p == p) { g_r[i] = g_r[--g_nr]; return; } }
int vf_unjoined(void) { int n = 0; for (int i = 1; i < g_nt; i++) n += g_t[i].state != FREE_ && !g_t[i].joined && !g_t[i].detached; return n; }
int vf_running(void) { int n = 0; for (int i = 1; i < g_nt; i++) n += g_t[i].state == RUN || g_t[i].state == BLOCKED; return n; }
int vf_self(void) { return g_cur; }
int vf_mutex_owner(const void *p) { for (int i = 0; i < g_no; i++) if (g_o[i].p == p) return g_o[i].count ? g_o[i].owner : -1; return -1; }
// ---- happens-before ----
static void join_vc(unsigned *a, const unsigned *b) { for (int i = 0; i < NT; i++) if (b[i] > a[i]) a[i] = b[i]; }
static void acq(O *o) { join_vc(g_t[g_cur].vc, o->vc); }
static void rel(O *o) { join_vc(o->vc, g_t[g_cur].vc); g_t[g_cur].vc[g_cur]++; }
// ---- scheduler ----
static void go(int t) { if (t != g_cur) { g_cur = t; sx_thread_switch(t); } }
static int others(int *c) { int n = 0; for (int i = 0; i < g_nt; i++) if (i != g_cur && g_t[i].state == RUN) c[n++] = i; return n; }
void vf_finish_self(void);
static void point(void) { // a thread which could continue may be interrupted
  if (!g_on || g_budget <= 0) return;
  int c[NT], n = others(c); if (!n) return;
  int k = sx_choose(n + 1, "sched"); if (k) { g_budget--; go(c[k - 1]); }
}
static void fire(int t) { // the deadline of t passes
  T *x = &g_t[t]; if (tlt(g_now, x->deadline)) g_now = x->deadline;
  x->timed = 0; x->fired = 1; x->state = RUN; x->obj = 0;
}
static void away(void) { // the current thread cannot continue: any other one may
  int c[NT], n = others(c), m = n, timed[NT];
  for (int i = 0; i < g_nt; i++) if (g_t[i].state == BLOCKED && g_t[i].timed) { timed[m - n] = i; m++; }
  int late = n && g_budget > 0; // a deadline may also pass while others could run
  int lim = n ? (late ? m : n) : m;
  if (!lim) sx_error("deadlock", g_t[0].state == DONE ? "a thread never finishes" : "no thread can ever continue");
  int k = lim > 1 ? sx_choose(lim, "next") : 0;
  if (k < n) { go(c[k]); return; }
  if (n) g_budget--;
  int t = timed[k - n];
  for (int i = 0; i < g_nt; i++) if (i != t && g_t[i].state == BLOCKED && g_t[i].timed) sx_assume(!tlt(g_t[i].deadline, g_t[t].deadline));
  fire(t); go(t);
}
static void cancel_point(void) { if (g_t[g_cur].cancelled) vf_finish_self(); }
static int block(const void *obj, const ts_t *deadline) { // returns 1 if the deadline passed
  T *x = &g_t[g_cur]; x->state = BLOCKED; x->obj = obj; x->fired = 0; x->timed = deadline != 0; if (deadline) x->deadline = *deadline;
  away();
  return g_t[g_cur].fired;
}
static void wake(const void *obj) { for (int i = 0; i < g_nt; i++) if (g_t[i].state == BLOCKED && g_t[i].obj == obj && obj) { g_t[i].state = RUN; g_t[i].timed = 0; g_t[i].obj = 0; } }
static void rest(void) { // polling: let somebody else run
  if (!g_on) return; int c[NT], n = others(c); if (n) { int k = n > 1 ? sx_choose(n, "next") : 0; go(c[k]); return; }
  for (int i = 0; i < g_nt; i++) if (g_t[i].state == BLOCKED && g_t[i].timed) { g_t[g_cur].state = RUN; away(); return; }
}
static void tick(void) { if (g_ticks > 0) { g_ticks--; long d = (long)sx_sym("tick", 32); sx_assume(d >= 0 && d < 1000000000); long n = g_now.n + d; int c = n >= 1000000000; g_now.n = sx_ite(c, n - 1000000000, n); g_now.s = g_now.s + c; } }
static O *obj(const void *p, int kind) {
  start();
  for (int i = 0; i < g_no; i++) if (g_o[i].p == p) { if (g_o[i].kind != kind) sx_error("sync", "operation on a destroyed or different synchronization object"); return &g_o[i]; }
  if (g_no == NOBJ) sx_incomplete("too many synchronization objects");
  O *o = &g_o[g_no++]; memset(o, 0, sizeof *o); o->p = p; o->kind = kind; return o;
}
static void drop(const void *p) { for (int i = 0; i < g_no; i++) if (g_o[i].p == p) { g_o[i] = g_o[--g_no]; return; } }
static void touch(const void *p, char m) { volatile char *c = (volatile char *)p; if (*c != m) *c = m; } // finds freed objects
static int live(const void *p, char m) { return *(volatile const char *)p == m; }
// ---- threads ----
void vf_finish_self(void) {
  T *x = &g_t[g_cur]; x->state = DONE; wake(x);
  int c[NT], n = others(c), m = n, timed[NT]; for (int i = 0; i < g_nt; i++) if (g_t[i].state == BLOCKED && g_t[i].timed) { timed[m - n] = i; m++; }
  int lim = n ? n : m; if (!lim) sx_error("deadlock", "no thread can ever continue");
  int k = lim > 1 ? sx_choose(lim, "next") : 0, t; if (k < n) t = c[k]; else { t = timed[k - n]; for (int i = 0; i < g_nt; i++) if (i != t && g_t[i].state == BLOCKED && g_t[i].timed) sx_assume(!tlt(g_t[i].deadline, g_t[t].deadline)); fire(t); }
  g_cur = t; sx_thread_finish(t);
}
static void trampoline(void *a) { T *x = (T *)a; x->ret = x->fn(x->arg); vf_finish_self(); }
static int g_create_fails; void vf_create_fails(int n) { g_create_fails = n; } // the n-th creation from now on fails
int P(pthread_create)(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void *), void *arg) {
  start(); (void)a; if (g_create_fails && !--g_create_fails) return EAGAIN;
  if (g_nt == NT) sx_incomplete("too many threads");
  T *x = &g_t[g_nt]; memset(x, 0, sizeof *x); x->fn = fn; x->arg = arg; x->state = RUN; memcpy(x->vc, g_t[g_cur].vc, sizeof x->vc); x->vc[g_nt] = 1; g_t[g_cur].vc[g_cur]++;
  int id = sx_thread_create(trampoline, x); if (id != g_nt) sx_incomplete("thread numbering"); g_nt++;
  if (t) *t = (pthread_t)(0x7000 + id); point(); return 0;
}
static int tid(pthread_t t) { long i = (long)t - 0x7000; return i >= 0 && i < g_nt ? (int)i : -1; }
int P(pthread_join)(pthread_t t, void **r) {
  int i = tid(t); if (i < 0 || g_t[i].state == FREE_) { if (i < 0) sx_error("sync", "join of an invalid thread"); return ESRCH; }
  if (g_t[i].joined || g_t[i].detached) { sx_error("sync", "thread joined twice or after detaching"); return EINVAL; }
  if (i == g_cur) return EDEADLK;
  point(); while (g_t[i].state != DONE) block(&g_t[i], 0);
  g_t[i].joined = 1; join_vc(g_t[g_cur].vc, g_t[i].vc); if (r) *r = g_t[i].ret; return 0;
}
int P(pthread_detach)(pthread_t t) { int i = tid(t); if (i < 0) return ESRCH; g_t[i].detached = 1; return 0; }
int P(pthread_cancel)(pthread_t t) { int i = tid(t); if (i < 0) return ESRCH; g_t[i].cancelled = 1; if (g_t[i].state == BLOCKED && g_t[i].cancelable) { g_t[i].state = RUN; g_t[i].timed = 0; } return 0; }
pthread_t P(pthread_self)(void) { start(); return (pthread_t)(0x7000 + g_cur); }
int P(pthread_equal)(pthread_t a, pthread_t b) { return a == b; }
static int g_prio[NT]; int P(pthread_getschedparam)(pthread_t t, int *pol, struct sched_param *p) { int i = tid(t); if (i < 0) return ESRCH; *pol = 0; p->sched_priority = g_prio[i]; return 0; }
int P(pthread_setschedparam)(pthread_t t, int pol, const struct sched_param *p) { (void)pol; int i = tid(t); if (i < 0) return ESRCH; if (p->sched_priority < 0 || p->sched_priority > 99) return EINVAL; g_prio[i] = p->sched_priority; return 0; }
int P(pthread_attr_init)(pthread_attr_t *a) { (void)a; return 0; } int P(pthread_attr_destroy)(pthread_attr_t *a) { (void)a; return 0; }
// ---- mutexes ----
int P(pthread_mutexattr_init)(pthread_mutexattr_t *a) { *(int *)a = PTHREAD_MUTEX_DEFAULT; return 0; }
int P(pthread_mutexattr_destroy)(pthread_mutexattr_t *a) { (void)a; return 0; }
int P(pthread_mutexattr_settype)(pthread_mutexattr_t *a, int t) { *(int *)a = t; return 0; }
int P(pthread_mutex_init)(pthread_mutex_t *m, const pthread_mutexattr_t *a) { start(); drop(m); memset(m, 0, sizeof *m); O *o = obj(m, K_MUTEX); o->type = a ? *(const int *)a : PTHREAD_MUTEX_DEFAULT; return 0; }
int P(pthread_mutex_destroy)(pthread_mutex_t *m) { O *o = obj(m, K_MUTEX); touch(m, 0); if (o->count) { sx_error("sync", "locked mutex destroyed"); return EBUSY; } drop(m); touch(m, 'D'); return 0; }
static int mtx(pthread_mutex_t *m, int how, const struct timespec *ts) { // how: 0 lock, 1 try, 2 timed
  if (live(m, 'D')) sx_error("sync", "destroyed mutex used"); point(); O *o = obj(m, K_MUTEX); int me = g_cur + 1;
  if (o->count && o->owner == me) { if (o->type == PTHREAD_MUTEX_RECURSIVE) { o->count++; return 0; } if (how == 1) return EBUSY; if (o->type == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK; if (how == 0) sx_error("deadlock", "a thread locks a mutex which it already holds"); }
  while (o->count) {
    if (how == 1) return EBUSY;
    if (how == 2) { if (ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000) return EINVAL; ts_t d = {ts->tv_sec, ts->tv_nsec}; if (!tlt(g_now, d)) return ETIMEDOUT; if (block(m, &d)) return ETIMEDOUT; }
    else block(m, 0);
    touch(m, 0); o = obj(m, K_MUTEX);
  }
  o->owner = me; o->count = 1; acq(o); return 0;
}
int P(pthread_mutex_lock)(pthread_mutex_t *m) { return mtx(m, 0, 0); }
int P(pthread_mutex_trylock)(pthread_mutex_t *m) { return mtx(m, 1, 0); }
int P(pthread_mutex_timedlock)(pthread_mutex_t *m, const struct timespec *t) { return mtx(m, 2, t); }
int P(pthread_mutex_unlock)(pthread_mutex_t *m) {
  if (live(m, 'D')) sx_error("sync", "destroyed mutex used"); O *o = obj(m, K_MUTEX); if (!o->count || o->owner != g_cur + 1) { if (o->type == PTHREAD_MUTEX_RECURSIVE || o->type == PTHREAD_MUTEX_ERRORCHECK) return EPERM; sx_error("sync", "mutex unlocked by a thread which does not hold it"); }
  if (--o->count == 0) { rel(o); o->owner = 0; wake(m); point(); } return 0;
}
// ---- reader-writer locks ----
int P(pthread_rwlock_init)(pthread_rwlock_t *m, const pthread_rwlockattr_t *a) { (void)a; start(); drop(m); memset(m, 0, sizeof *m); obj(m, K_RW); return 0; }
int P(pthread_rwlock_destroy)(pthread_rwlock_t *m) { O *o = obj(m, K_RW); if (o->count || o->writer) sx_error("sync", "locked rwlock destroyed"); drop(m); touch(m, 'D'); return 0; }
static int rw(pthread_rwlock_t *m, int wr, int how, const struct timespec *ts) {
  if (live(m, 'D')) sx_error("sync", "destroyed rwlock used"); point(); O *o = obj(m, K_RW);
  for (;;) {
    if (wr ? !o->writer && !o->count : !o->writer) break;
    if (how == 1) return EBUSY;
    if (o->writer == g_cur + 1) return EDEADLK;
    if (how == 2) { if (ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000) return EINVAL; ts_t d = {ts->tv_sec, ts->tv_nsec}; if (!tlt(g_now, d)) return ETIMEDOUT; if (block(m, &d)) return ETIMEDOUT; }
    else block(m, 0);
    touch(m, 0); o = obj(m, K_RW);
  }
  if (wr) o->writer = g_cur + 1; else { o->count++; o->readers[g_cur]++; }
  acq(o); return 0;
}
int P(pthread_rwlock_rdlock)(pthread_rwlock_t *m) { return rw(m, 0, 0, 0); }
int P(pthread_rwlock_tryrdlock)(pthread_rwlock_t *m) { return rw(m, 0, 1, 0); }
int P(pthread_rwlock_timedrdlock)(pthread_rwlock_t *m, const struct timespec *t) { return rw(m, 0, 2, t); }
int P(pthread_rwlock_wrlock)(pthread_rwlock_t *m) { return rw(m, 1, 0, 0); }
int P(pthread_rwlock_trywrlock)(pthread_rwlock_t *m) { return rw(m, 1, 1, 0); }
int P(pthread_rwlock_timedwrlock)(pthread_rwlock_t *m, const struct timespec *t) { return rw(m, 1, 2, t); }
int P(pthread_rwlock_unlock)(pthread_rwlock_t *m) {
  if (live(m, 'D')) sx_error("sync", "destroyed rwlock used"); O *o = obj(m, K_RW);
  if (o->writer == g_cur + 1) { rel(o); o->writer = 0; } else if (o->readers[g_cur] > 0) { rel(o); o->readers[g_cur]--; o->count--; } else sx_error("sync", "rwlock unlocked by a thread which does not hold it");
  wake(m); point(); return 0;
}
// ---- semaphores ----
int P(sem_init)(sem_t *m, int sh, unsigned v) { (void)sh; start(); drop(m); memset(m, 0, sizeof *m); if ((int)v < 0) { errno = EINVAL; return -1; } obj(m, K_SEM)->value = v; return 0; }
int P(sem_destroy)(sem_t *m) { obj(m, K_SEM); for (int i = 0; i < g_nt; i++) if (g_t[i].state == BLOCKED && g_t[i].obj == m) sx_error("sync", "semaphore destroyed while a thread waits for it"); drop(m); touch(m, 'D'); return 0; }
int P(sem_post)(sem_t *m) { if (live(m, 'D')) sx_error("sync", "destroyed semaphore used"); point(); O *o = obj(m, K_SEM); o->value++; rel(o); wake(m); point(); return 0; }
static int sem(sem_t *m, int how, const struct timespec *ts) {
  if (live(m, 'D')) sx_error("sync", "destroyed semaphore used"); point(); if (how != 1) cancel_point(); O *o = obj(m, K_SEM);
  while (!o->value) {
    if (how == 1) { errno = EAGAIN; return -1; }
    g_t[g_cur].cancelable = 1; int f;
    if (how == 2) { if (ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000) { errno = EINVAL; return -1; } ts_t d = {ts->tv_sec, ts->tv_nsec}; f = !tlt(g_now, d) || block(m, &d); }
    else f = block(m, 0);
    g_t[g_cur].cancelable = 0; cancel_point(); if (f) { errno = ETIMEDOUT; return -1; }
    touch(m, 0); o = obj(m, K_SEM);
  }
  o->value--; acq(o); return 0;
}
static int g_semintr; void vf_sem_interrupted(int n) { g_semintr = n; } // the next n waits which block may be interrupted by a signal
int P(sem_wait)(sem_t *m) { if (g_semintr > 0) { touch(m, 0); O *o = obj(m, K_SEM); if (!o->value && sx_choose(2, "signal")) { g_semintr--; point(); errno = EINTR; return -1; } } return sem(m, 0, 0); }
int P(sem_trywait)(sem_t *m) { return sem(m, 1, 0); }
int P(sem_timedwait)(sem_t *m, const struct timespec *t) { return sem(m, 2, t); }
int P(sem_getvalue)(sem_t *m, int *v) { *v = (int)obj(m, K_SEM)->value; return 0; }
// ---- clocks ----
static void step(void) { if (g_step) { long u = g_now.n / 1000 + g_step; vf_clock_at_us(g_now.s + u / 1000000, u % 1000000); } }
int P(clock_gettime)(clockid_t c, struct timespec *t) { (void)c; start(); tick(); step(); t->tv_sec = g_now.s; t->tv_nsec = g_now.n; return 0; }
int P(gettimeofday)(struct timeval *t, void *z) { (void)z; start(); tick(); step(); t->tv_sec = g_now.s; t->tv_usec = g_un >= 0 && sx_same(g_un, g_now.n) ? g_uu : g_now.n / 1000; return 0; }
time_t P(time)(time_t *t) { start(); if (t) *t = g_now.s; return g_now.s; }
static void nap(long s, long n) {
  start(); cancel_point(); ts_t d = {g_now.s + s, g_now.n + n}; int c = d.n >= 1000000000; d.s += c; d.n = sx_ite(c, d.n - 1000000000, d.n);
  if (!g_on || g_nt == 1) { g_now = d; return; }
  g_t[g_cur].cancelable = 1; block(0, &d); g_t[g_cur].cancelable = 0; cancel_point();
}
static int g_intr; static int g_slept; void vf_sleep_interrupted(int n) { g_intr = n; } int vf_naps(void) { return g_slept; }
int P(nanosleep)(const struct timespec *t, struct timespec *r) {
  start(); g_slept++; if (t->tv_nsec < 0 || t->tv_nsec >= 1000000000 || t->tv_sec < 0) { errno = EINVAL; return -1; }
  if (g_intr > 0) { g_intr--; long s = (long)sx_sym("slept_s", 32), n = (long)sx_sym("slept_n", 32); if (g_us) { sx_assume(n >= 0 && n < 1000000); n *= 1000; } sx_assume(s >= 0 && n >= 0 && n < 1000000000 && ((s < t->tv_sec) | ((s == t->tv_sec) & (n < t->tv_nsec)))); nap(s, n); if (r) { r->tv_sec = t->tv_sec - s; r->tv_nsec = t->tv_nsec - n; if (r->tv_nsec < 0) { r->tv_nsec += 1000000000; r->tv_sec--; } } errno = EINTR; return -1; }
  nap(t->tv_sec, t->tv_nsec); return 0;
}
static void small_nap(long s, long n) { // short pauses in polling loops: others run first, time passes only if nobody can
  start(); cancel_point(); if (!g_on) { nap(s, n); return; }
  int c[NT]; if (others(c)) { rest(); cancel_point(); return; } nap(s, n);
}
int P(usleep)(useconds_t u) { small_nap(u / 1000000, (long)(u % 1000000) * 1000); return 0; }
unsigned P(sleep)(unsigned s) { small_nap(s, 0); return 0; }
int P(sched_yield)(void) { rest(); return 0; }
// ---- timers ----
static char g_fd[8]; static int g_fdopen[8]; static int g_timer_fails; void vf_timer_fails(int n) { g_timer_fails = n; }
int vf_open_fds(void) { int n = 0; for (int i = 0; i < 8; i++) n += g_fdopen[i]; return n; }
int P(timerfd_create)(int c, int f) { (void)c; (void)f; start(); if (g_timer_fails && !--g_timer_fails) { errno = EMFILE; return -1; } for (int i = 0; i < 8; i++) if (!g_fdopen[i]) { g_fdopen[i] = 1; drop(&g_fd[i]); obj(&g_fd[i], K_TIMER); return 100 + i; } errno = EMFILE; return -1; }
static O *tfd(int fd) { return fd >= 100 && fd < 108 && g_fdopen[fd - 100] ? obj(&g_fd[fd - 100], K_TIMER) : 0; }
long g_last_per_s, g_last_per_n; int g_settimes;
int P(timerfd_settime)(int fd, int fl, const struct itimerspec *n, struct itimerspec *old) {
  (void)fl; (void)old; O *o = tfd(fd); if (!o) { errno = EBADF; return -1; }
  if (n->it_value.tv_nsec < 0 || n->it_value.tv_nsec >= 1000000000 || n->it_interval.tv_nsec < 0 || n->it_interval.tv_nsec >= 1000000000 || n->it_value.tv_sec < 0 || n->it_interval.tv_sec < 0) { errno = EINVAL; return -1; }
  o->per_s = n->it_interval.tv_sec; o->per_n = n->it_interval.tv_nsec; o->armed = n->it_value.tv_sec || n->it_value.tv_nsec; g_last_per_s = o->per_s; g_last_per_n = o->per_n; g_settimes++;
  ts_t d = {g_now.s + n->it_value.tv_sec, g_now.n + n->it_value.tv_nsec}; int c = d.n >= 1000000000; d.s += c; d.n = sx_ite(c, d.n - 1000000000, d.n); o->next = d; return 0;
}
static void elapsed(O *o, unsigned long *k) { // count expirations up to now (at most 4)
  *k = 0; while (o->armed && !tlt(g_now, o->next)) { (*k)++; if (!o->per_s && !o->per_n) { o->armed = 0; break; } ts_t d = {o->next.s + o->per_s, o->next.n + o->per_n}; int c = d.n >= 1000000000; d.s += c; d.n = sx_ite(c, d.n - 1000000000, d.n); o->next = d; if (*k > 6) sx_incomplete("too many timer expirations"); }
}
static int g_eintr; void vf_read_interrupted(int n) { g_eintr = n; }
ssize_t vf_timer_read(int fd, void *b, size_t n) {
  O *o = tfd(fd); if (!o) { errno = EBADF; return -1; } if (n < 8) { errno = EINVAL; return -1; }
  if (g_eintr > 0) { g_eintr--; errno = EINTR; return -1; }
  point(); cancel_point(); unsigned long k; elapsed(o, &k);
  while (!k) { g_t[g_cur].cancelable = 1; if (o->armed) { ts_t d = o->next; if (g_nt == 1 || !g_on) g_now = d; else block(o->p, &d); } else block(o->p, 0); g_t[g_cur].cancelable = 0; cancel_point(); o = tfd(fd); if (!o) { errno = EBADF; return -1; } elapsed(o, &k); }
  memcpy(b, &k, 8); return 8;
}
int vf_timer_close(int fd) { if (fd < 100 || fd >= 108 || !g_fdopen[fd - 100]) { errno = EBADF; return -1; } g_fdopen[fd - 100] = 0; drop(&g_fd[fd - 100]); return 0; }
// sockets of the harness: descriptors 200..207; b == 0 means close
ssize_t (*vf_net)(int fd, const void *b, size_t n);
#define NET(fd) (fd >= 200 && fd < 208 && vf_net)
#ifdef VF_NATIVE
ssize_t vf_write(int fd, const void *b, size_t n) { return NET(fd) ? vf_net(fd, b, n) : write(fd, b, n); }
ssize_t vf_read(int fd, void *b, size_t n) { return fd >= 100 && fd < 108 ? vf_timer_read(fd, b, n) : read(fd, b, n); }
int vf_close(int fd) { return NET(fd) ? (int)vf_net(fd, 0, 0) : fd >= 100 && fd < 108 ? vf_timer_close(fd) : close(fd); }
#else
ssize_t read(int fd, void *b, size_t n) { if (fd >= 100 && fd < 108) return vf_timer_read(fd, b, n); sx_incomplete("read"); return -1; }
ssize_t write(int fd, const void *b, size_t n) { if (NET(fd)) return vf_net(fd, b, n); sx_incomplete("write"); return -1; }
int close(int fd) { if (NET(fd)) return (int)vf_net(fd, 0, 0); if (fd >= 100 && fd < 108) return vf_timer_close(fd); sx_incomplete("close"); return -1; }
#endif
// ---- instrumented memory accesses ----
static S *cell(const void *a) { for (int i = 0; i < g_ns; i++) if (g_s[i].a == a) return &g_s[i]; if (g_ns == 512) sx_incomplete("too many shadow cells"); S *s = &g_s[g_ns++]; memset(s, 0, sizeof *s); s->a = a; return s; }
static void access_(const void *a, size_t n, int wr) {
  if (!g_on || !g_nr) return;
  for (int i = 0; i < g_nr; i++) if ((const char *)a >= g_r[i].p && (const char *)a < g_r[i].p + g_r[i].n) {
    if (!(g_r[i].race & 2)) point();
    if (g_r[i].race & 1) {
      S *s = cell((const void *)((size_t)a & ~(size_t)7)); unsigned *v = g_t[g_cur].vc; (void)n;
      for (int t = 0; t < NT; t++) if (t != g_cur && (s->w[t] > v[t] || (wr && s->r[t] > v[t]))) sx_error("race", "two threads access the same data without synchronization, one of them writing");
      if (wr) s->w[g_cur] = v[g_cur]; else s->r[g_cur] = v[g_cur];
    }
    return;
  }
}
void __tsan_init(void) {} void __tsan_func_entry(void *p) { (void)p; } void __tsan_func_exit(void) {} void __tsan_vptr_update(void **p, void *v) { access_(p, 8, 1); (void)v; } void __tsan_vptr_read(void **p) { access_(p, 8, 0); }
#define RW(n) void __tsan_read##n(void *a) { access_(a, n, 0); } void __tsan_write##n(void *a) { access_(a, n, 1); } void __tsan_unaligned_read##n(void *a) { access_(a, n, 0); } void __tsan_unaligned_write##n(void *a) { access_(a, n, 1); } void __tsan_read_write##n(void *a) { access_(a, n, 0); access_(a, n, 1); }  void __tsan_unaligned_read_write##n(void *a) { access_(a, n, 0); access_(a, n, 1); }
RW(1) RW(2) RW(4) RW(8) RW(16)
static void spin(int failed) { static int same; if (failed) { if (++same > 64) sx_error("hang", "a busy-wait loop never ends"); int c[NT]; if (others(c)) rest(); else rest(); } else same = 0; }
#define AT(b, ty) ty __tsan_atomic##b##_load(const volatile ty *a, int m) { point(); (void)m; O *o = obj((const void *)a, K_ATOM); acq(o); return *a; } \
 void __tsan_atomic##b##_store(volatile ty *a, ty v, int m) { point(); (void)m; O *o = obj((const void *)a, K_ATOM); *a = v; rel(o); point(); } \
 ty __tsan_atomic##b##_exchange(volatile ty *a, ty v, int m) { point(); (void)m; O *o = obj((const void *)a, K_ATOM); ty x = *a; *a = v; acq(o); rel(o); if (g_on) spin(x == v); return x; } \
 ty __tsan_atomic##b##_fetch_add(volatile ty *a, ty v, int m) { point(); (void)m; O *o = obj((const void *)a, K_ATOM); ty x = *a; *a = x + v; acq(o); rel(o); return x; } \
 ty __tsan_atomic##b##_fetch_sub(volatile ty *a, ty v, int m) { point(); (void)m; O *o = obj((const void *)a, K_ATOM); ty x = *a; *a = x - v; acq(o); rel(o); return x; } \
 ty __tsan_atomic##b##_fetch_and(volatile ty *a, ty v, int m) { point(); (void)m; ty x = *a; *a = x & v; return x; } \
 ty __tsan_atomic##b##_fetch_or(volatile ty *a, ty v, int m) { point(); (void)m; ty x = *a; *a = x | v; return x; } \
 int __tsan_atomic##b##_compare_exchange_strong(volatile ty *a, ty *c, ty v, int m, int f) { point(); (void)m; (void)f; O *o = obj((const void *)a, K_ATOM); ty x = *a; acq(o); if (x == *c) { *a = v; rel(o); if (g_on) spin(0); return 1; } *c = x; if (g_on) spin(1); return 0; } \
 int __tsan_atomic##b##_compare_exchange_weak(volatile ty *a, ty *c, ty v, int m, int f) { return __tsan_atomic##b##_compare_exchange_strong(a, c, v, m, f); } \
 ty __tsan_atomic##b##_compare_exchange_val(volatile ty *a, ty c, ty v, int m, int f) { __tsan_atomic##b##_compare_exchange_strong(a, &c, v, m, f); return c; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int m) { (void)m; } void __tsan_atomic_signal_fence(int m) { (void)m; }
void *__tsan_memcpy(void *d, const void *s, size_t n) { return memcpy(d, s, n); } void *__tsan_memset(void *d, int c, size_t n) { return memset(d, c, n); } void *__tsan_memmove(void *d, const void *s, size_t n) { return memmove(d, s, n); }

#include "mt.h"
#include <icl_core/Singleton.h>
#include <icl_core/Singleton.hpp>
using namespace icl_core;
#ifdef VF_THOROUGH
static const int PRE = 4;
#else
static const int PRE = 3;
#endif
struct One { static int made, live; int v, w; One() : v(1) { ++made; ++live; sched_yield(); w = 2; } ~One() { --live; } }; int One::made, One::live; static int g_sched;
template <class T> struct AtEnd { static void scheduleDestruction(DestructionFuncPtr) { ++g_sched; } static void onDeadReference() { sx_assert(0, "a living instance is not dead"); } };
template <class T> struct Multi { static void memoryBarrier() { sched_yield(); } struct Lock { pthread_mutex_t m; Lock() { pthread_mutex_init(&m, 0); } }; struct Guard { Lock &l; Guard(Lock &x) : l(x) { pthread_mutex_lock(&l.m); } ~Guard() { pthread_mutex_unlock(&l.m); } }; };
template <template <class> class C> static void go() { typedef Singleton<One, C, AtEnd, Multi> SI; vf_threads(PRE); One *a = 0, *b = 0; int av = 0, bv = 0, aw = 0, bw = 0; auto f = [&] { a = &SI::instance(); av = a->v; aw = a->w; }; auto g = [&] { b = &SI::instance(); bv = b->v; bw = b->w; }; Worker x(f), y(g); One *c = &SI::instance(); sx_assert(c->v == 1 && c->w == 2, "an instance is handed out completely constructed"); x.join(); y.join(); sx_assert(a == b && b == c && One::made == 1 && One::live == 1, "all threads get one instance"); sx_assert(av == 1 && bv == 1 && aw == 2 && bw == 2, "an instance is handed out completely constructed"); sx_assert(g_sched == 1, "its destruction is scheduled once"); }
ENTRY singleton_threads() { go<SCPCreateUsingNew>(); } ENTRY singleton_threads_malloc() { go<SCPCreateUsingMalloc>(); }

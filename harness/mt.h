// interface of models/posix_threads.c
#ifndef MT_H
#define MT_H
#include "util.h"
#include <pthread.h>
extern "C" {
void vf_threads(int budget); void vf_clock(long s, long n); void vf_clock_ticks(int n); void vf_clock_us(void); void vf_clock_step_us(long us); void vf_clock_at_us(long s, long us); long vf_now_s(void); long vf_now_n(void);
void vf_shared(const void *p, size_t n, int race); void vf_unshared(const void *p); int vf_unjoined(void); int vf_running(void); int vf_self(void);
void vf_create_fails(int n); void vf_sleep_interrupted(int n); int vf_naps(void); void vf_timer_fails(int n); int vf_open_fds(void); void vf_read_interrupted(int n); void vf_sem_interrupted(int n);
extern ssize_t (*vf_net)(int fd, const void *b, size_t n);
extern long g_last_per_s, g_last_per_n; extern int g_settimes;

}
struct Worker { // a thread of the harness itself, running f(arg)
  unsigned long t; template <class F> static void *go(void *p) { (*(F *)p)(); return 0; }
  template <class F> explicit Worker(F &f) { pthread_create(&t, 0, go<F>, &f); }
  void join() { pthread_join(t, 0); }
};
#endif

// Native implementation of the harness API: replays recorded inputs against the natively compiled code.
#include "../harness/sx.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <dlfcn.h>
#include <unistd.h>
#include <ucontext.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <signal.h>
struct In { std::string name; unsigned bits; unsigned long long v; };
static std::vector<In> g_in; static size_t g_pos; static std::string g_obs; static bool g_free;
static int g_out = 1; // the report; the code under test prints to the error stream
static void finish(int rc) { fflush(stdout); for (size_t o = 0; o < g_obs.size();) { ssize_t k = write(g_out, g_obs.data() + o, g_obs.size() - o); if (k <= 0) break; o += k; } _exit(rc); }
static unsigned long long next(const char *n, unsigned bits) {
  if (g_pos >= g_in.size()) { if (g_free) return 0; fprintf(stderr, "SX-DESYNC: no more inputs (wanted %s)\n", n); finish(78); }
  In &i = g_in[g_pos++];
  if (i.name != n || i.bits != bits) { fprintf(stderr, "SX-DESYNC: wanted %s/%u, have %s/%u\n", n, bits, i.name.c_str(), i.bits); finish(78); }
  return i.v;
}
static int g_trk, g_ntrk; static struct { const void *p; size_t n; } g_trkd[256]; static bool g_hooked;
static void on_malloc(const volatile void *p, size_t n) { if (g_trk && g_ntrk < 256) { g_trkd[g_ntrk].p = (const void *)p; g_trkd[g_ntrk++].n = n; } }
static void on_free(const volatile void *p) { if (g_trk) for (int i = 0; i < g_ntrk; ++i) if (g_trkd[i].p == p) { g_trkd[i] = g_trkd[--g_ntrk]; break; } }
extern "C" {
int __attribute__((weak)) __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
void sx_track_new(int on) { if (!g_hooked && __sanitizer_install_malloc_and_free_hooks) { __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free); g_hooked = true; } if (on) g_ntrk = 0; g_trk = on; }
void *sx_tracked(int i) { return i < g_ntrk ? (void *)g_trkd[i].p : 0; } size_t sx_tracked_size(int i) { return i < g_ntrk ? g_trkd[i].n : 0; }
uint64_t sx_sym(const char *n, int b) { return next(n, b); }
int sx_choose(int n, const char *nm) { return n <= 1 ? 0 : (int)next(nm, 32); }
void sx_assume(int c) { if (!c) { fprintf(stderr, "SX-ASSUME violated\n"); finish(79); } }
void sx_assert(int c, const char *m) { if (!c) { fprintf(stderr, "SX-VIOLATION: %s\n", m); finish(77); } }
void sx_observe(const char *t, uint64_t v) { char b[40]; snprintf(b, sizeof b, " 0x%llx\n", (unsigned long long)v); g_obs += t; g_obs += b; }
void sx_reach(const char *) {} void sx_must_reach(const char *) {}
uint64_t sx_concretize(uint64_t v) { return v; } int sx_is_symbolic(void) { return 0; }
void sx_error(const char *k, const char *m) { fprintf(stderr, "SX-VIOLATION: %s %s\n", k, m); finish(77); }
void sx_incomplete(const char *w) { fprintf(stderr, "SX-INCOMPLETE: %s\n", w); finish(80); }
void sx_done(void) { finish(0); }
uint64_t sx_heap_live(void) { return 0; }
void sx_print(const char *s) { fputs(s, stderr); } void sx_print_val(uint64_t v) { fprintf(stderr, "val %llu\n", (unsigned long long)v); }
int sx_valid(const void *, size_t) { return 1; }
uint64_t sx_ite(int c, uint64_t a, uint64_t b) { return c ? a : b; }
int sx_is_const(uint64_t) { return 1; }
int sx_same(uint64_t a, uint64_t b) { return a == b; }
// cooperative threads
static std::vector<ucontext_t *> g_ctx(1, new ucontext_t); static int g_cur; struct Start { void (*fn)(void *); void *arg; }; static std::vector<Start> g_start(1);
static void tramp(int t) { g_start[t].fn(g_start[t].arg); fprintf(stderr, "SX-VIOLATION: thread returned\n"); finish(77); }
int sx_thread_create(void (*fn)(void *), void *arg) { ucontext_t *c = new ucontext_t; getcontext(c); c->uc_stack.ss_size = 1 << 20; c->uc_stack.ss_sp = malloc(c->uc_stack.ss_size); c->uc_link = nullptr; g_ctx.push_back(c); g_start.push_back({fn, arg}); int t = (int)g_ctx.size() - 1; makecontext(c, (void (*)())tramp, 1, t); return t; }
void sx_thread_switch(int t) { int o = g_cur; if (t == o) return; g_cur = t; swapcontext(g_ctx[o], g_ctx[t]); }
void sx_thread_finish(int t) { g_cur = t; setcontext(g_ctx[t]); }
int sx_thread_self(void) { return g_cur; }
// files live in the scratch directory the runner created
static std::string g_dir; static char pb[32][512]; static int pi;
const char *vf_path(const char *n) { char *b = pb[pi++ & 31]; snprintf(b, 512, "%s/%s", g_dir.c_str(), n); return b; }
void vf_write_file(const char *n, const char *d, size_t len) { FILE *f = fopen(n, "wb"); if (f) { if (len) fwrite(d, 1, len, f); fclose(f); } }
long vf_read_file(const char *n, char *d, size_t max) { FILE *f = fopen(n, "rb"); if (!f) return -1; size_t l = fread(d, 1, max, f); fclose(f); return (long)l; }
int vf_file_exists(const char *n) { struct stat s; return stat(n, &s) == 0; }
void vf_remove_file(const char *n) { unlink(n); }
int vf_setenv(const char *k, const char *v) { return setenv(k, v, 1); }
}
int main(int argc, char **argv) { // replay ENTRY INPUT-FILE SCRATCH-DIR
  if (argc < 4) return 2;
  g_dir = argv[3]; fflush(stdout); g_out = dup(1); dup2(2, 1);
  if (FILE *f = fopen(argv[2], "r")) { char n[256]; unsigned b; unsigned long long v; while (fscanf(f, "%255s %u %llx", n, &b, &v) == 3) g_in.push_back({n, b, v}); fclose(f); }
  auto fn = (void (*)())dlsym(RTLD_DEFAULT, argv[1]);
  if (!fn) { fprintf(stderr, "no entry\n"); return 2; }
  fn();
  finish(0);
}

// Harness API: implemented by the symbolic executor, and by native/replay.cpp for native replay.
#ifndef SX_H
#define SX_H
#include <stdint.h>
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
uint64_t sx_sym(const char *name, int bits);
void sx_assume(int c);
void sx_assert(int c, const char *msg);
int sx_choose(int n, const char *name);
void sx_observe(const char *tag, uint64_t v);
void sx_reach(const char *tag);
void sx_track_new(int on); void *sx_tracked(int i); size_t sx_tracked_size(int i); // the blocks allocated by operator new in between
void sx_must_reach(const char *tag);
uint64_t sx_concretize(uint64_t v);
int sx_is_symbolic(void);
void sx_error(const char *kind, const char *msg);
void sx_incomplete(const char *why);
void sx_done(void);
uint64_t sx_heap_live(void);
void sx_print(const char *s);
void sx_print_val(uint64_t v);
int sx_valid(const void *p, size_t n);
uint64_t sx_ite(int c, uint64_t a, uint64_t b);
int sx_same(uint64_t a, uint64_t b); /* a == b, decided on canonical forms where possible */
int sx_is_const(uint64_t v); /* the value does not depend on symbolic inputs */
int sx_thread_create(void (*fn)(void *), void *arg);
void sx_thread_switch(int t);
void sx_thread_finish(int next);
int sx_thread_self(void);
#ifdef __cplusplus
}
inline int8_t sx_i8(const char *n) { return (int8_t)sx_sym(n, 8); }
inline uint8_t sx_u8(const char *n) { return (uint8_t)sx_sym(n, 8); }
inline int16_t sx_i16(const char *n) { return (int16_t)sx_sym(n, 16); }
inline uint16_t sx_u16(const char *n) { return (uint16_t)sx_sym(n, 16); }
inline int32_t sx_i32(const char *n) { return (int32_t)sx_sym(n, 32); }
inline uint32_t sx_u32(const char *n) { return (uint32_t)sx_sym(n, 32); }
inline int64_t sx_i64(const char *n) { return (int64_t)sx_sym(n, 64); }
inline uint64_t sx_u64(const char *n) { return sx_sym(n, 64); }
inline bool sx_bool(const char *n) { return sx_sym(n, 1) != 0; }
inline double sx_f64(const char *n) { uint64_t v = sx_sym(n, 64); double d; __builtin_memcpy(&d, &v, 8); return d; }
inline uint64_t sx_range(const char *n, uint64_t lo, uint64_t hi) { uint64_t v = sx_sym(n, 32); sx_assume(v >= lo && v <= hi); return v; }
inline int64_t sx_irange(const char *n, int64_t lo, int64_t hi) { int64_t v = (int64_t)sx_sym(n, 64); sx_assume(v >= lo && v <= hi); return v; }
#endif
#endif

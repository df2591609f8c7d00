// Shared harness helpers.
#ifndef VF_UTIL_H
#define VF_UTIL_H
#include "sx.h"
#include <string>
#include <cstring>
#include <cstdlib>
extern "C" {
const char *vf_path(const char *n); void vf_write_file(const char *n, const char *d, size_t len); long vf_read_file(const char *n, char *d, size_t max);
int vf_file_exists(const char *n); void vf_remove_file(const char *n); int vf_setenv(const char *k, const char *v);
}
#define ENTRY extern "C" void
#define ARRLEN(a) (sizeof(a) / sizeof((a)[0]))
// symbolic string: concrete length, every character drawn from the given alphabet (or any non-NUL byte if 0)
inline void sx_chars(char *b, unsigned n, const char *name, const char *alphabet) {
  for (unsigned i = 0; i < n; ++i) { b[i] = (char)sx_u8(name);
    if (alphabet) { int ok = 0; for (const char *p = alphabet; *p; ++p) ok |= (b[i] == *p); sx_assume(ok); } else sx_assume(b[i] != 0); }
  b[n] = 0; }
inline std::string sx_string(unsigned n, const char *name, const char *alphabet) { char b[256]; sx_chars(b, n, name, alphabet); return std::string(b, n); }
inline bool eqs(const std::string &s, const char *e, unsigned n) { if (s.size() != n) return false; int ok = 1; for (unsigned i = 0; i < n; ++i) ok &= s[i] == e[i]; return ok; }
inline void sx_observe_str(const char *t, const std::string &s) { sx_observe(t, s.size()); for (unsigned i = 0; i < s.size() && i < 64; ++i) sx_observe(t, (unsigned char)s[i]); }
template <class T> inline uint64_t bits_of(const T &v) { uint64_t r = 0; std::memcpy(&r, &v, sizeof v); return r; }
#endif

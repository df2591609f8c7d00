#include "util.h"
#include <icl_core_crypt/Sha2.h>
using namespace icl_core::crypt;
// Reference: FIPS PUB 180-3, written from the standard.
static const uint64_t K5[80] = {
0x428a2f98d728ae22ull,0x7137449123ef65cdull,0xb5c0fbcfec4d3b2full,0xe9b5dba58189dbbcull,0x3956c25bf348b538ull,0x59f111f1b605d019ull,0x923f82a4af194f9bull,0xab1c5ed5da6d8118ull,0xd807aa98a3030242ull,0x12835b0145706fbeull,0x243185be4ee4b28cull,0x550c7dc3d5ffb4e2ull,0x72be5d74f27b896full,0x80deb1fe3b1696b1ull,0x9bdc06a725c71235ull,0xc19bf174cf692694ull,
0xe49b69c19ef14ad2ull,0xefbe4786384f25e3ull,0x0fc19dc68b8cd5b5ull,0x240ca1cc77ac9c65ull,0x2de92c6f592b0275ull,0x4a7484aa6ea6e483ull,0x5cb0a9dcbd41fbd4ull,0x76f988da831153b5ull,0x983e5152ee66dfabull,0xa831c66d2db43210ull,0xb00327c898fb213full,0xbf597fc7beef0ee4ull,0xc6e00bf33da88fc2ull,0xd5a79147930aa725ull,0x06ca6351e003826full,0x142929670a0e6e70ull,
0x27b70a8546d22ffcull,0x2e1b21385c26c926ull,0x4d2c6dfc5ac42aedull,0x53380d139d95b3dfull,0x650a73548baf63deull,0x766a0abb3c77b2a8ull,0x81c2c92e47edaee6ull,0x92722c851482353bull,0xa2bfe8a14cf10364ull,0xa81a664bbc423001ull,0xc24b8b70d0f89791ull,0xc76c51a30654be30ull,0xd192e819d6ef5218ull,0xd69906245565a910ull,0xf40e35855771202aull,0x106aa07032bbd1b8ull,
0x19a4c116b8d2d0c8ull,0x1e376c085141ab53ull,0x2748774cdf8eeb99ull,0x34b0bcb5e19b48a8ull,0x391c0cb3c5c95a63ull,0x4ed8aa4ae3418acbull,0x5b9cca4f7763e373ull,0x682e6ff3d6b2b8a3ull,0x748f82ee5defb2fcull,0x78a5636f43172f60ull,0x84c87814a1f0ab72ull,0x8cc702081a6439ecull,0x90befffa23631e28ull,0xa4506cebde82bde9ull,0xbef9a3f7b2c67915ull,0xc67178f2e372532bull,
0xca273eceea26619cull,0xd186b8c721c0c207ull,0xeada7dd6cde0eb1eull,0xf57d4f7fee6ed178ull,0x06f067aa72176fbaull,0x0a637dc5a2c898a6ull,0x113f9804bef90daeull,0x1b710b35131c471bull,0x28db77f523047d84ull,0x32caab7b40c72493ull,0x3c9ebe0a15c9bebcull,0x431d67c49c100d4cull,0x4cc5d4becb3e42b6ull,0x597f299cfc657e2aull,0x5fcb6fab3ad6faecull,0x6c44198c4a475817ull};
template <class T> static T rr(T x, unsigned n) { return (T)(x >> n) | (T)(x << (8 * sizeof(T) - n)); }
template <class T> static void ref_block(T *h, const uint8_t *b) {
  const bool big = sizeof(T) == 8; const int R = big ? 80 : 64; T w[80];
  for (int i = 0; i < 16; ++i) { T x = 0; for (unsigned k = 0; k < sizeof(T); ++k) x |= (T)b[i * sizeof(T) + k] << (8 * (sizeof(T) - 1 - k)); w[i] = x; }
  for (int i = 16; i < R; ++i) { T x = w[i - 15], y = w[i - 2]; T s0 = big ? rr(x, 1) ^ rr(x, 8) ^ (T)(x >> 7) : rr(x, 7) ^ rr(x, 18) ^ (T)(x >> 3); T s1 = big ? rr(y, 19) ^ rr(y, big ? 61 : 1) ^ (T)(y >> 6) : rr(y, 17) ^ rr(y, 19) ^ (T)(y >> 10); w[i] = w[i - 16] + (s1 + w[i - 7] + s0); }
  T a[8]; for (int i = 0; i < 8; ++i) a[i] = h[i];
  for (int i = 0; i < R; ++i) { T A = a[0], E = a[4]; T S1 = big ? rr(E, 14) ^ rr(E, 18) ^ rr(E, big ? 41 : 1) : rr(E, 6) ^ rr(E, 11) ^ rr(E, 25), S0 = big ? rr(A, 28) ^ rr(A, big ? 34 : 1) ^ rr(A, big ? 39 : 1) : rr(A, 2) ^ rr(A, 13) ^ rr(A, 22);
    T ch = (E & a[5]) ^ (~E & a[6]); T mj = (A & a[1]) ^ (A & a[2]) ^ (a[1] & a[2]);
    T k = big ? (T)K5[i] : (T)(K5[i] >> 32); T t1 = a[7] + S1 + ch + k + w[i], t2 = S0 + mj; for (int j = 7; j > 0; --j) a[j] = a[j - 1]; a[4] += t1; a[0] = t1 + t2; }
  for (int i = 0; i < 8; ++i) h[i] += a[i];
}
template <class S, class T> struct Open : S { T word(int i) const { return this->m_digest[i]; } void word(int i, T x) { this->m_digest[i] = x; } };
#ifdef VF_THOROUGH
static const unsigned P4[] = {0, 1, 3, 32, 54, 55, 56, 57, 62, 63, 64, 65, 100, 118, 119, 120, 127, 128, 129}, P8[] = {0, 1, 64, 110, 111, 112, 113, 119, 120, 121, 126, 127, 128, 129, 200, 239, 240, 241, 247, 248, 255, 256};
#else
static const unsigned P4[] = {0, 1, 55, 56, 63, 64, 65, 119, 120}, P8[] = {0, 1, 111, 112, 119, 120, 127, 128, 129, 240};
#endif
static const unsigned L4[] = {0, 4, 52, 56, 60, 64, 68, 120}, L8[] = {0, 8, 104, 112, 120, 128, 136, 240};
static uint8_t g_m[260];
static void msg(unsigned n) { for (unsigned i = 0; i < n; ++i) g_m[i] = sx_u8("m"); }
template <class T> static unsigned padded(uint8_t *p, const uint8_t *m, unsigned n) { const unsigned B = 16 * sizeof(T), F = 2 * sizeof(T); memcpy(p, m, n); unsigned e = n; p[e++] = 0x80; while (e % B != B - F) p[e++] = 0; for (unsigned i = 8; i < F; ++i) p[e++] = 0; for (int i = 7; i >= 0; --i) p[e++] = (uint8_t)(((uint64_t)n * 8) >> (8 * i)); return e; }
// every message of these lengths from every chaining state: the digest of the standard
template <class S, class T> static void standard(const T *iv, int words) {
  Open<S, T> s; if (sx_choose(2, "concrete")) { for (int i = 0; i < 8; ++i) sx_assert(s.word(i) == iv[i], "the initial state is the one of the standard"); s.process("abc"); s.finalize(); T h[8]; memcpy(h, iv, sizeof h); uint8_t p[512]; unsigned e = padded<T>(p, (const uint8_t *)"abc", 3); ref_block<T>(h, p); for (int i = 0; i < words; ++i) sx_assert(s.word(i) == h[i], "the digest is the one of the standard"); return; }
  const unsigned *L = sizeof(T) == 8 ? L8 : L4; unsigned n = L[sx_choose(sizeof(T) == 8 ? (int)ARRLEN(L8) : (int)ARRLEN(L4), "len")]; msg(n); T h[8]; for (int i = 0; i < 8; ++i) { h[i] = (T)sx_sym("state", 8 * sizeof(T)); s.word(i, h[i]); } s.process((const void *)g_m, n); s.finalize();
  uint8_t p[512]; unsigned e = padded<T>(p, g_m, n); for (unsigned i = 0; i < e; i += 16 * sizeof(T)) ref_block<T>(h, p + i); for (int i = 0; i < words; ++i) sx_assert(sx_same(s.word(i), h[i]), "the digest is the one of the standard");
}
// every message of these lengths: finalizing processes the padding of the standard
template <class S, class T> static void padding(const T *iv) {
  const unsigned *L = sizeof(T) == 8 ? P8 : P4; unsigned n = L[sx_choose(sizeof(T) == 8 ? (int)ARRLEN(P8) : (int)ARRLEN(P4), "len")]; msg(n); uint8_t p[512]; memset(p, 0, sizeof p); Open<S, T> lazy; lazy.process((const void *)p, 16 * sizeof(T)); bool eager = false; for (int i = 0; i < 8; ++i) eager |= lazy.word(i) != iv[i]; if (!eager) return; // full blocks are processed later: nothing to compare with
  unsigned e = padded<T>(p, g_m, n); Open<S, T> x, y; x.process((const void *)g_m, n); x.finalize(); y.process((const void *)p, e); for (int i = 0; i < 8; ++i) sx_assert(sx_same(x.word(i), y.word(i)), "the padding is the one of the standard");
}
static const uint32_t IV224[8] = {0xc1059ed8, 0x367cd507, 0x3070dd17, 0xf70e5939, 0xffc00b31, 0x68581511, 0x64f98fa7, 0xbefa4fa4}, IV256[8] = {0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19};
static const uint64_t IV384[8] = {0xcbbb9d5dc1059ed8ull, 0x629a292a367cd507ull, 0x9159015a3070dd17ull, 0x152fecd8f70e5939ull, 0x67332667ffc00b31ull, 0x8eb44a8768581511ull, 0xdb0c2e0d64f98fa7ull, 0x47b5481dbefa4fa4ull}, IV512[8] = {0x6a09e667f3bcc908ull, 0xbb67ae8584caa73bull, 0x3c6ef372fe94f82bull, 0xa54ff53a5f1d36f1ull, 0x510e527fade682d1ull, 0x9b05688c2b3e6c1full, 0x1f83d9abfb41bd6bull, 0x5be0cd19137e2179ull};
ENTRY sha256_padding() { padding<Sha256, uint32_t>(IV256); }
ENTRY sha512_padding() { padding<Sha512, uint64_t>(IV512); }
// a message of any length up to 2^61 bytes, in whole blocks and without its last bytes: the length in the padding is the one of the standard
template <class O> static auto setsize(O &o, uint64_t n, int) -> decltype(o.size(n), true) { o.size(n); return true; }
template <class O> static bool setsize(O &, uint64_t, ...) { return false; }
template <class S, class T> struct Long : Open<S, T> { template <class X = S> auto size(uint64_t n) -> decltype((void)(static_cast<Long<X, T> *>(this)->m_message_size = n)) { static_cast<Long<X, T> *>(this)->m_message_size = n; } };
template <class S, class T> static void longer() {
  const unsigned B = 16 * sizeof(T), F = 2 * sizeof(T); Long<S, T> s; T h[8]; int concrete = !sx_choose(2, "symbolic"); for (int i = 0; i < 8; ++i) { h[i] = concrete ? (T)(0x0102030405060708ull * (i + 1)) : (T)sx_sym("state", 8 * sizeof(T)); s.word(i, h[i]); }
  uint64_t blocks = concrete ? 1ull << (5 * sx_choose(11, "bit") + 2) | 3 : sx_sym("blocks", 64); sx_assume(blocks < (1ull << 53)); uint64_t before = blocks * B; if (!setsize(s, before, 0)) return; // the length is kept elsewhere: nothing to set
  unsigned n = 0; if (n) s.process((const void *)g_m, n); s.finalize(); sx_must_reach("t"); sx_reach("t");
  uint8_t p[256]; memset(p, 0, sizeof p); memcpy(p, g_m, n); p[n] = 0x80; uint64_t bits = (before + n) * 8; for (int i = 0; i < 8; ++i) p[B - 1 - i] = (uint8_t)(bits >> (8 * i)); (void)F; ref_block<T>(h, p); int ok = 1; for (int i = 0; i < 8; ++i) ok &= sx_same(s.word(i), h[i]); sx_assert(ok, "the length in the padding is the one of the standard");
}
ENTRY sha256_long() { longer<Sha256, uint32_t>(); }
ENTRY sha512_long() { longer<Sha512, uint64_t>(); }
ENTRY sha224_standard() { standard<Sha224, uint32_t>(IV224, 7); }
ENTRY sha256_standard() { standard<Sha256, uint32_t>(IV256, 8); }
ENTRY sha384_standard() { standard<Sha384, uint64_t>(IV384, 6); }
ENTRY sha512_standard() { standard<Sha512, uint64_t>(IV512, 8); }
template <class S, class T> static void same(const Open<S, T> &a, const Open<S, T> &b, const char *t) { for (int i = 0; i < 8; ++i) sx_assert(sx_same(a.word(i), b.word(i)), t); }
// the digest depends on the message only, not on how it is handed over
template <class S, class T> static void pieces() {
  const unsigned B = 16 * sizeof(T); static const int off[] = {-1, 0, 1}; unsigned a = sx_choose(3, "first") ? B + off[sx_choose(3, "d")] : 1, c[] = {0, 1, B - 1, B, B + 1}; unsigned b = c[sx_choose(5, "second")]; msg(a + b);
  Open<S, T> x, y; x.process((const void *)g_m, a + b); int how = sx_choose(4, "how");
  for (unsigned i = 0; i < a + b; ++i) if (how) sx_assume(g_m[i] != 0); char z1[300], z2[300]; memcpy(z1, g_m, a); z1[a] = 0; memcpy(z2, g_m + a, b); z2[b] = 0;
  if (how == 0) { y.process((const void *)g_m, a); y.process((const void *)(g_m + a), b); } else if (how == 1) { y.process(z1); y.process(z2); } else if (how == 2) { y.process((const void *)g_m, a); y.process(z2); } else { y.process(z1).process(icl_core::String(z2, b)); }
  x.finalize(); y.finalize(); same<S, T>(x, y, "the digest depends on the message only");
  y.clear(); y.process((const void *)g_m, a + b); y.finalize(); same<S, T>(x, y, "a cleared object starts anew");
}
ENTRY sha256_pieces() { pieces<Sha256, uint32_t>(); }
ENTRY sha512_pieces() { pieces<Sha512, uint64_t>(); }
template <class S, class T> static void hex(int words) { Open<S, T> s; T v[8]; for (int i = 0; i < 8; ++i) v[i] = (T)(0x0102030405060708ull * (i + 1)); int k = sx_choose(words, "word"); v[k] = (T)sx_u64("w"); for (int i = 0; i < 8; ++i) s.word(i, v[i]); std::string h = s.getHexDigest(); sx_observe_str("hex", h); const unsigned D = 2 * sizeof(T); sx_assert(h.size() == words * D, "one digit per four bits"); for (unsigned i = 0; i < words * D; ++i) { unsigned d = (unsigned)((v[i / D] >> (4 * (D - 1 - i % D))) & 15); sx_assert(h[i] == (char)sx_ite(d < 10, '0' + d, 'a' + d - 10), "the digits denote the digest"); } }
ENTRY sha224_hex() { hex<Sha224, uint32_t>(7); }
ENTRY sha256_hex() { hex<Sha256, uint32_t>(8); }
ENTRY sha384_hex() { hex<Sha384, uint64_t>(6); }
ENTRY sha512_hex() { hex<Sha512, uint64_t>(8); }

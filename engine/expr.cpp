#include "expr.h"
#include <cmath>
#include <cstring>
#include <algorithm>
#include <cfenv>

std::vector<VarInfo> g_vars;

struct Key {
  Kind k; uint16_t w; uint32_t lo; Expr *a0, *a1, *a2; u128 c;
  bool operator==(const Key &o) const { return k == o.k && w == o.w && lo == o.lo && a0 == o.a0 && a1 == o.a1 && a2 == o.a2 && c == o.c; }
};
struct KeyH {
  size_t operator()(const Key &x) const {
    uint64_t h = x.k * 0x9E3779B97F4A7C15ull + x.w;
    auto mix = [&](uint64_t v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; };
    mix(x.lo); mix((uint64_t)x.a0); mix((uint64_t)x.a1); mix((uint64_t)x.a2); mix((uint64_t)x.c); mix((uint64_t)(x.c >> 64));
    return h;
  }
};
static std::unordered_map<Key, Expr *, KeyH> g_tab;
static uint32_t g_nid = 0;
static Expr *g_small[65][256];
uint64_t exprCount() { return g_nid; }

static void known(Expr *e) {
  u128 m = maskw(e->w);
  Expr *a = e->a[0], *b = e->a[1];
  switch (e->k) {
  case K_CONST: e->ko = e->c; e->kz = ~e->c & m; break;
  case K_AND: e->kz = a->kz | b->kz; e->ko = a->ko & b->ko; break;
  case K_OR: e->kz = a->kz & b->kz; e->ko = a->ko | b->ko; break;
  case K_XOR: e->kz = (a->kz & b->kz) | (a->ko & b->ko); e->ko = (a->kz & b->ko) | (a->ko & b->kz); break;
  case K_NOT: e->kz = a->ko; e->ko = a->kz; break;
  case K_ITE: e->kz = e->a[1]->kz & e->a[2]->kz; e->ko = e->a[1]->ko & e->a[2]->ko; break;
  case K_CONCAT: e->kz = (a->kz << b->w) | b->kz; e->ko = (a->ko << b->w) | b->ko; break;
  case K_EXTRACT: e->kz = (a->kz >> e->lo) & m; e->ko = (a->ko >> e->lo) & m; break;
  case K_ZEXT: e->kz = a->kz | (m & ~maskw(a->w)); e->ko = a->ko; break;
  case K_SEXT:
    e->kz = a->kz; e->ko = a->ko;
    if (a->kz >> (a->w - 1) & 1) e->kz |= m & ~maskw(a->w);
    if (a->ko >> (a->w - 1) & 1) e->ko |= m & ~maskw(a->w);
    break;
  case K_SHL:
    if (b->isConst() && b->c < e->w) { unsigned s = (unsigned)b->c; e->kz = ((a->kz << s) | maskw(s)) & m; e->ko = (a->ko << s) & m; }
    break;
  case K_LSHR:
    if (b->isConst() && b->c < e->w) { unsigned s = (unsigned)b->c; e->kz = (a->kz >> s) | (m & ~(m >> s)); e->ko = a->ko >> s; }
    break;
  case K_ADD: {
    // trailing zeros common, and leading zero estimation
    unsigned tz = 0; while (tz < e->w && (a->kz >> tz & 1) && (b->kz >> tz & 1)) tz++;
    e->kz = maskw(tz);
    // if one operand's low tz' bits zero, low bits of the other known propagate
    u128 ma = ~a->kz & m, mb = ~b->kz & m; // max values
    if (e->w < 127) { u128 s = ma + mb; if (s <= m) { u128 hb = 0; unsigned p = e->w; while (p > 0 && !(s >> (p - 1) & 1)) p--; hb = m & ~maskw(p); e->kz |= hb; } }
    break;
  }
  case K_MUL: {
    unsigned ta = 0, tb = 0; while (ta < e->w && (a->kz >> ta & 1)) ta++; while (tb < e->w && (b->kz >> tb & 1)) tb++;
    unsigned t = std::min<unsigned>(e->w, ta + tb); e->kz = maskw(t);
    unsigned la = 0, lb = 0; while (la < e->w && (a->kz >> (e->w - 1 - la) & 1)) la++; while (lb < e->w && (b->kz >> (e->w - 1 - lb) & 1)) lb++;
    int sig = (e->w - la) + (e->w - lb); if (sig < e->w) e->kz |= m & ~maskw(sig);
    break;
  }
  case K_UDIV: { u128 ma = ~a->kz & m; unsigned p = e->w; while (p > 0 && !(ma >> (p - 1) & 1)) p--; e->kz = m & ~maskw(p); break; }
  case K_UREM: { if (b->isConst() && b->c) { u128 mx = b->c - 1; unsigned p = e->w; while (p > 0 && !(mx >> (p - 1) & 1)) p--; e->kz = m & ~maskw(p); } break; }
  default: break;
  }
}

static Expr *intern(Kind k, unsigned w, Expr *a0 = 0, Expr *a1 = 0, Expr *a2 = 0, uint32_t lo = 0, u128 c = 0) {
  Key key{k, (uint16_t)w, lo, a0, a1, a2, c};
  auto it = g_tab.find(key);
  if (it != g_tab.end()) return it->second;
  Expr *e = new Expr();
  e->k = k; e->w = w; e->lo = lo; e->c = c; e->id = g_nid++;
  e->a[0] = a0; e->a[1] = a1; e->a[2] = a2; e->n = a2 ? 3 : a1 ? 2 : a0 ? 1 : 0;
  known(e);
  g_tab.emplace(key, e);
  if (k != K_CONST && k != K_VAR && e->w <= 128 && ((e->kz | e->ko) == maskw(e->w)) && !(k >= K_FADD)) {
    // fully known: replace by constant
    Expr *r = mkConst(e->ko, w);
    g_tab[key] = r;
    return r;
  }
  return e;
}
Expr *mkConst(u128 v, unsigned w) {
  v &= maskw(w);
  if (v < 256 && w <= 64) {
    Expr *&s = g_small[w][(unsigned)v];
    if (!s) s = intern(K_CONST, w, 0, 0, 0, 0, v);
    return s;
  }
  return intern(K_CONST, w, 0, 0, 0, 0, v);
}
Expr *mkVar(const std::string &name, unsigned w, bool uninit) {
  uint32_t idx = g_vars.size();
  g_vars.push_back({name, w, uninit});
  return intern(K_VAR, w, 0, 0, 0, idx);
}

static float b2f(u128 b) { uint32_t x = (uint32_t)b; float f; memcpy(&f, &x, 4); return f; }
static double b2d(u128 b) { uint64_t x = (uint64_t)b; double f; memcpy(&f, &x, 8); return f; }
static u128 f2b(float f) { uint32_t x; memcpy(&x, &f, 4); return x; }
static u128 d2b(double f) { uint64_t x; memcpy(&x, &f, 8); return x; }

u128 foldBin(Kind k, u128 x, u128 y, unsigned w, bool &ok) {
  ok = true;
  u128 m = maskw(w);
  switch (k) {
  case K_ADD: return (x + y) & m;
  case K_SUB: return (x - y) & m;
  case K_MUL: return (x * y) & m;
  case K_UDIV: return y == 0 ? m : x / y;
  case K_UREM: return y == 0 ? x : x % y;
  case K_SDIV: { i128 a = sextw(x, w), b = sextw(y, w); if (b == 0) return a < 0 ? 1 : m; if (b == -1) return ((u128)0 - (u128)a) & m; return (u128)(a / b) & m; }
  case K_SREM: { i128 a = sextw(x, w), b = sextw(y, w); if (b == 0) return x; if (b == -1) return 0; return (u128)(a % b) & m; }
  case K_AND: return x & y;
  case K_OR: return x | y;
  case K_XOR: return x ^ y;
  case K_SHL: return y >= w ? 0 : (x << (unsigned)y) & m;
  case K_LSHR: return y >= w ? 0 : (x >> (unsigned)y);
  case K_ASHR: return (u128)(sextw(x, w) >> (y >= w ? w - 1 : (unsigned)y)) & m;
  case K_EQ: return x == y;
  case K_ULT: return x < y;
  case K_ULE: return x <= y;
  case K_SLT: return sextw(x, w) < sextw(y, w);
  case K_SLE: return sextw(x, w) <= sextw(y, w);
  case K_FADD: return w == 32 ? f2b(b2f(x) + b2f(y)) : d2b(b2d(x) + b2d(y));
  case K_FSUB: return w == 32 ? f2b(b2f(x) - b2f(y)) : d2b(b2d(x) - b2d(y));
  case K_FMUL: return w == 32 ? f2b(b2f(x) * b2f(y)) : d2b(b2d(x) * b2d(y));
  case K_FDIV: return w == 32 ? f2b(b2f(x) / b2f(y)) : d2b(b2d(x) / b2d(y));
  case K_FREM: return w == 32 ? f2b(fmodf(b2f(x), b2f(y))) : d2b(fmod(b2d(x), b2d(y)));
  case K_FEQ: return w == 32 ? b2f(x) == b2f(y) : b2d(x) == b2d(y);
  case K_FLT: return w == 32 ? b2f(x) < b2f(y) : b2d(x) < b2d(y);
  case K_FLE: return w == 32 ? b2f(x) <= b2f(y) : b2d(x) <= b2d(y);
  case K_FUNO: return w == 32 ? (std::isnan(b2f(x)) || std::isnan(b2f(y))) : (std::isnan(b2d(x)) || std::isnan(b2d(y)));
  default: ok = false; return 0;
  }
}
u128 foldFun(Kind k, u128 x, unsigned wi, unsigned wo) {
  double d = wi == 32 ? (double)b2f(x) : wi == 64 ? b2d(x) : 0;
  auto out = [&](double r) -> u128 { return wo == 32 ? f2b((float)r) : d2b(r); };
  switch (k) {
  case K_FSQRT: return wi == 32 ? f2b(sqrtf(b2f(x))) : d2b(sqrt(d));
  case K_FNEG: return x ^ ((u128)1 << (wi - 1));
  case K_FABS: return x & ~((u128)1 << (wi - 1));
  case K_FFLOOR: return out(floor(d));
  case K_FCEIL: return out(ceil(d));
  case K_FTRUNC: return out(trunc(d));
  case K_FRINT: return out(rint(d));
  case K_FROUND: return out(round(d));
  case K_FPEXT: return d2b((double)b2f(x));
  case K_FPTRUNC: return f2b((float)b2d(x));
  case K_FPTOSI: { // x86: out of range gives the minimum value
    if (!(d > -9.3e18 && d < 9.3e18) || std::isnan(d)) return ((u128)1 << (wo - 1)) & maskw(wo);
    long double t = truncl((long double)d); long double lim = ldexpl(1.0L, wo - 1);
    if (t < -lim || t >= lim) return ((u128)1 << (wo - 1)) & maskw(wo);
    return (u128)(i128)t & maskw(wo); }
  case K_FPTOUI: { long double t = truncl((long double)d); long double lim = ldexpl(1.0L, wo);
    if (std::isnan(d) || t >= lim || t < 0) { return ((u128)1 << (wo - 1)) & maskw(wo); } return (u128)t & maskw(wo); }
  case K_SITOFP: { i128 v = sextw(x, wi); return wo == 32 ? f2b((float)(int64_t)v) : d2b((double)(int64_t)v); }
  case K_UITOFP: return wo == 32 ? f2b((float)(uint64_t)x) : d2b((double)(uint64_t)x);
  default: return 0;
  }
}

static bool isCmp(Kind k) { return (k >= K_EQ && k <= K_SLE) || (k >= K_FEQ && k <= K_FUNO); }
static bool commut(Kind k) { return k == K_ADD || k == K_MUL || k == K_AND || k == K_OR || k == K_XOR || k == K_EQ; }

Expr *mkNot(Expr *a) {
  if (a->isConst()) return mkConst(~a->c, a->w);
  if (a->k == K_NOT) return a->a[0];
  if (a->w == 1) {
    if (a->k == K_ULT) return mkBin(K_ULE, a->a[1], a->a[0]);
    if (a->k == K_ULE) return mkBin(K_ULT, a->a[1], a->a[0]);
    if (a->k == K_SLT) return mkBin(K_SLE, a->a[1], a->a[0]);
    if (a->k == K_SLE) return mkBin(K_SLT, a->a[1], a->a[0]);
  }
  return intern(K_NOT, a->w, a);
}
// push an operation with a constant through an ite whose leaves are constants
static int iteDepthConst(Expr *e, int lim) {
  if (e->isConst()) return 1;
  if (e->k != K_ITE || lim <= 0) return 1000;
  int x = iteDepthConst(e->a[1], lim - 1); if (x >= 1000) return x;
  int y = iteDepthConst(e->a[2], lim - 1); return x + y;
}

Expr *mkBin(Kind k, Expr *a, Expr *b) {
  unsigned w = a->w;
  unsigned rw = isCmp(k) ? 1 : w;
  if (a->isConst() && b->isConst()) { bool ok; u128 r = foldBin(k, a->c, b->c, w, ok); if (ok) return mkConst(r, rw); }
  if (commut(k) && (a->isConst() || (!b->isConst() && a->id > b->id))) std::swap(a, b);
  u128 m = maskw(w);
  switch (k) {
  case K_ADD:
    if (b->isConst()) {
      if (b->c == 0) return a;
      if (a->k == K_ADD && a->a[1]->isConst()) return mkBin(K_ADD, a->a[0], mkConst(a->a[1]->c + b->c, w));
      if (a->k == K_ITE && iteDepthConst(a, 4) <= 16) return mkIte(a->a[0], mkBin(k, a->a[1], b), mkBin(k, a->a[2], b));
    } else {
      if (a->k == K_ADD && a->a[1]->isConst()) return mkBin(K_ADD, mkBin(K_ADD, a->a[0], b), a->a[1]);
      if (b->k == K_ADD && b->a[1]->isConst()) return mkBin(K_ADD, mkBin(K_ADD, a, b->a[0]), b->a[1]);
      if (b->k == K_SUB && b->a[1] == a) return b->a[0];
      if (a->k == K_SUB && a->a[1] == b) return a->a[0];
    }
    break;
  case K_SUB:
    if (a == b) return mkConst(0, w);
    if (b->isConst()) return mkBin(K_ADD, a, mkConst((u128)0 - b->c, w));
    if (a->k == K_ADD) { if (a->a[0] == b) return a->a[1]; if (a->a[1] == b) return a->a[0];
      if (a->a[1]->isConst()) return mkBin(K_ADD, mkBin(K_SUB, a->a[0], b), a->a[1]); }
    if (b->k == K_ADD) {
      if (b->a[0] == a) return mkBin(K_SUB, mkConst(0, w), b->a[1]);
      if (b->a[1]->isConst()) return mkBin(K_ADD, mkBin(K_SUB, a, b->a[0]), mkConst((u128)0 - b->a[1]->c, w)); }
    break;
  case K_MUL:
    if (b->isConst()) {
      if (b->c == 0) return b; if (b->c == 1) return a;
      if (w <= 128 && (b->c & (b->c - 1)) == 0) { unsigned s = 0; while (!(b->c >> s & 1)) s++; return mkBin(K_SHL, a, mkConst(s, w)); }
      if (a->k == K_MUL && a->a[1]->isConst()) return mkBin(K_MUL, a->a[0], mkConst(a->a[1]->c * b->c, w));
    }
    break;
  case K_UDIV:
    if (b->isConst()) { if (b->c == 1) return a;
      if (b->c && (b->c & (b->c - 1)) == 0) { unsigned s = 0; while (!(b->c >> s & 1)) s++; return mkBin(K_LSHR, a, mkConst(s, w)); }
      if (b->c && (~a->kz & m) < b->c) return mkConst(0, w);
      // udiv of a wide zero-extended value: narrow
    }
    break;
  case K_UREM:
    if (b->isConst()) { if (b->c == 1) return mkConst(0, w);
      if (b->c && (b->c & (b->c - 1)) == 0) return mkBin(K_AND, a, mkConst(b->c - 1, w));
      if (b->c && (~a->kz & m) < b->c) return a; }
    break;
  case K_SDIV: if (b->isConst() && b->c == 1) return a;
    if ((a->kz >> (w - 1) & 1) && (b->kz >> (w - 1) & 1)) return mkBin(K_UDIV, a, b);
    break;
  case K_SREM:
    if ((a->kz >> (w - 1) & 1) && (b->kz >> (w - 1) & 1)) return mkBin(K_UREM, a, b);
    break;
  case K_AND:
    if (a == b) return a;
    if (b->isConst()) {
      if (b->c == 0) return b; if (b->c == m) return a;
      if (((~b->c & m) & ~a->kz) == 0) return a; // mask keeps all possibly-one bits
      if (a->k == K_AND && a->a[1]->isConst()) return mkBin(K_AND, a->a[0], mkConst(a->a[1]->c & b->c, w));
      // low mask -> zext(extract)
      if ((b->c & (b->c + 1)) == 0) { unsigned nb = 0; while (b->c >> nb & 1) nb++; return mkZExt(mkExtract(a, 0, nb), w); }
      if (a->k == K_ITE && iteDepthConst(a, 4) <= 16) return mkIte(a->a[0], mkBin(k, a->a[1], b), mkBin(k, a->a[2], b));
    } else {
      if ((~a->kz & ~b->kz & m) == 0) return mkConst(0, w);
      if (a->k == K_NOT && a->a[0] == b) return mkConst(0, w);
      if (b->k == K_NOT && b->a[0] == a) return mkConst(0, w);
      if (w == 1) {
        if (b->k == K_AND && (b->a[0] == a || b->a[1] == a)) return b;
        if (a->k == K_AND && (a->a[0] == b || a->a[1] == b)) return a;
      }
    }
    break;
  case K_OR:
    if (a == b) return a;
    if (b->isConst()) {
      if (b->c == 0) return a; if (b->c == m) return b;
      if ((b->c & ~a->ko) == 0) return a;
      if (a->k == K_OR && a->a[1]->isConst()) return mkBin(K_OR, a->a[0], mkConst(a->a[1]->c | b->c, w));
    } else {
      if (w == 1) {
        if (a->k == K_NOT && a->a[0] == b) return mkTrue();
        if (b->k == K_NOT && b->a[0] == a) return mkTrue();
      }
      // disjoint shifted pieces -> concat
      auto piece = [&](Expr *hi, Expr *lo) -> Expr * {
        unsigned tz = 0; while (tz < w && (hi->kz >> tz & 1)) tz++;
        if (tz == 0 || tz >= w) return nullptr;
        if (((lo->kz | maskw(tz)) & m) != m) return nullptr; // lo has bits above tz
        return mkConcat(mkExtract(hi, tz, w - tz), mkExtract(lo, 0, tz));
      };
      if (w > 1 && (a->k == K_CONCAT || a->k == K_SHL || a->k == K_ZEXT || a->k == K_LSHR || b->k == K_CONCAT || b->k == K_SHL || b->k == K_LSHR || b->k == K_ZEXT)) {
        if (Expr *r = piece(a, b)) return r;
        if (Expr *r = piece(b, a)) return r;
      }
    }
    break;
  case K_XOR:
    if (a == b) return mkConst(0, w);
    if (b->isConst()) {
      if (b->c == 0) return a; if (b->c == m) return mkNot(a);
      if (a->k == K_XOR && a->a[1]->isConst()) return mkBin(K_XOR, a->a[0], mkConst(a->a[1]->c ^ b->c, w));
    }
    break;
  case K_SHL: case K_LSHR: case K_ASHR:
    if (b->isConst()) {
      if (b->c == 0) return a;
      if (b->c >= w) { if (k == K_ASHR) b = mkConst(w - 1, w); else return mkConst(0, w); }
      unsigned s = (unsigned)b->c;
      if (k == K_SHL) return mkConcat(mkExtract(a, 0, w - s), mkConst(0, s));
      if (k == K_LSHR) return mkZExt(mkExtract(a, s, w - s), w);
      return mkSExt(mkExtract(a, s, w - s), w);
    }
    if (a->isConst() && a->c == 0) return a;
    break;
  case K_EQ:
    if (a == b) return mkTrue();
    if (((a->kz & b->ko) | (a->ko & b->kz)) != 0) return mkFalse();
    if (b->isConst()) {
      if (w == 1) return b->c ? a : mkNot(a);
      if (a->k == K_ADD && a->a[1]->isConst()) return mkBin(K_EQ, a->a[0], mkConst(b->c - a->a[1]->c, w));
      if (a->k == K_XOR && a->a[1]->isConst()) return mkBin(K_EQ, a->a[0], mkConst(b->c ^ a->a[1]->c, w));
      if (a->k == K_NOT) return mkBin(K_EQ, a->a[0], mkConst(~b->c, w));
      if (a->k == K_SUB && a->a[0]->isConst()) return mkBin(K_EQ, a->a[1], mkConst(a->a[0]->c - b->c, w));
      if (a->k == K_SUB && b->c == 0) return mkBin(K_EQ, a->a[0], a->a[1]);
      if (a->k == K_XOR && b->c == 0) return mkBin(K_EQ, a->a[0], a->a[1]);
      if (a->k == K_ZEXT) return mkBin(K_EQ, a->a[0], mkConst(b->c, a->a[0]->w));  // upper bits checked by known bits
      if (a->k == K_SEXT) {
        u128 t = b->c & maskw(a->a[0]->w);
        if (((u128)sextw(t, a->a[0]->w) & m) != b->c) return mkFalse();
        return mkBin(K_EQ, a->a[0], mkConst(t, a->a[0]->w));
      }
      if (a->k == K_CONCAT) {
        Expr *h = a->a[0], *l = a->a[1];
        return mkBin(K_AND, mkBin(K_EQ, h, mkConst(b->c >> l->w, h->w)), mkBin(K_EQ, l, mkConst(b->c, l->w)));
      }
      if (a->k == K_ITE) {
        Expr *t = a->a[1], *f = a->a[2];
        if (t->isConst() || f->isConst() || t->k == K_ITE || f->k == K_ITE) {
          Expr *x = mkBin(K_EQ, t, b), *y = mkBin(K_EQ, f, b);
          return mkIte(a->a[0], x, y);
        }
      }
    } else {
      if (a->k == K_ZEXT && b->k == K_ZEXT && a->a[0]->w == b->a[0]->w) return mkBin(K_EQ, a->a[0], b->a[0]);
      if (a->k == K_SEXT && b->k == K_SEXT && a->a[0]->w == b->a[0]->w) return mkBin(K_EQ, a->a[0], b->a[0]);
      if (a->k == K_CONCAT && b->k == K_CONCAT && a->a[0]->w == b->a[0]->w)
        return mkBin(K_AND, mkBin(K_EQ, a->a[0], b->a[0]), mkBin(K_EQ, a->a[1], b->a[1]));
      if (a->k == K_ADD && b->k == K_ADD) {
        if (a->a[0] == b->a[0]) return mkBin(K_EQ, a->a[1], b->a[1]);
        if (a->a[1] == b->a[1]) return mkBin(K_EQ, a->a[0], b->a[0]);
      }
      if (a->k == K_ADD && (a->a[0] == b)) return mkBin(K_EQ, a->a[1], mkConst(0, w));
      if (b->k == K_ADD && (b->a[0] == a)) return mkBin(K_EQ, b->a[1], mkConst(0, w));
      if (w == 1) { if (a->k == K_NOT && a->a[0] == b) return mkFalse(); if (b->k == K_NOT && b->a[0] == a) return mkFalse(); }
    }
    break;
  case K_ULT:
    if (a == b) return mkFalse();
    if ((~a->kz & m) < b->ko) return mkTrue();       // max(a) < min(b)
    if (a->ko >= (~b->kz & m)) return mkFalse();      // min(a) >= max(b)
    if (w == 1) return mkBin(K_AND, mkNot(a), b);
    if (b->isConst() && b->c == 1) return mkBin(K_EQ, a, mkConst(0, w));
    if (a->isConst() && a->c == 0) return mkNot(mkBin(K_EQ, b, a));
    if (a->k == K_ZEXT && b->k == K_ZEXT && a->a[0]->w == b->a[0]->w) return mkBin(k, a->a[0], b->a[0]);
    if (a->k == K_ZEXT && b->isConst() && (b->c >> a->a[0]->w) == 0) return mkBin(k, a->a[0], mkConst(b->c, a->a[0]->w));
    if (b->k == K_ZEXT && a->isConst() && (a->c >> b->a[0]->w) == 0) return mkBin(k, mkConst(a->c, b->a[0]->w), b->a[0]);
    if (a->k == K_CONCAT && b->isConst() && a->a[0]->isConst() ) {
      u128 h = b->c >> a->a[1]->w; if (a->a[0]->c == h) return mkBin(k, a->a[1], mkConst(b->c, a->a[1]->w)); }
    break;
  case K_ULE:
    if (a == b) return mkTrue();
    if ((~a->kz & m) <= b->ko) return mkTrue();
    if (a->ko > (~b->kz & m)) return mkFalse();
    if (w == 1) return mkBin(K_OR, mkNot(a), b);
    if (b->isConst() && b->c == 0) return mkBin(K_EQ, a, b);
    if (b->isConst() && b->c < m) return mkBin(K_ULT, a, mkConst(b->c + 1, w));
    if (a->isConst() && a->c > 0) return mkBin(K_ULT, mkConst(a->c - 1, w), b);
    if (a->k == K_ZEXT && b->k == K_ZEXT && a->a[0]->w == b->a[0]->w) return mkBin(k, a->a[0], b->a[0]);
    break;
  case K_SLT: case K_SLE: {
    if (a == b) return mkConst(k == K_SLE, 1);
    u128 sb = (u128)1 << (w - 1);
    bool an = a->kz & sb, bn = b->kz & sb, ap = a->ko & sb, bp = b->ko & sb; // an: nonneg
    if (an && bn) return mkBin(k == K_SLT ? K_ULT : K_ULE, a, b);
    if (ap && bn) return mkTrue();
    if (an && bp) return mkFalse();
    if (ap && bp) return mkBin(k == K_SLT ? K_ULT : K_ULE, a, b);
    if (b->isConst() && k == K_SLE && sextw(b->c, w) != sextw(maskw(w) >> 1, w)) return mkBin(K_SLT, a, mkConst(b->c + 1, w));
    if (a->isConst() && k == K_SLE && a->c != sb) return mkBin(K_SLT, mkConst(a->c - 1, w), b);
    if (a->k == K_SEXT && b->k == K_SEXT && a->a[0]->w == b->a[0]->w) return mkBin(k, a->a[0], b->a[0]);
    if (a->k == K_SEXT && b->isConst()) { unsigned iw = a->a[0]->w; i128 v = sextw(b->c, w), lo = -((i128)1 << (iw - 1)), hi = ((i128)1 << (iw - 1)) - 1;
      if (v > hi) return mkTrue(); if (v < lo) return mkFalse(); if (k == K_SLT || v >= lo) return mkBin(k, a->a[0], mkConst((u128)v, iw)); }
    if (b->k == K_SEXT && a->isConst()) { unsigned iw = b->a[0]->w; i128 v = sextw(a->c, w), lo = -((i128)1 << (iw - 1)), hi = ((i128)1 << (iw - 1)) - 1;
      if (v < lo) return mkTrue(); if (v > hi) return mkFalse(); return mkBin(k, mkConst((u128)v, iw), b->a[0]); }
    break;
  }
  default: break;
  }
  if (isCmp(k) && k < K_FADD && k != K_EQ) {
    // comparison of a small constant ite with a constant
    if (b->isConst() && a->k == K_ITE && iteDepthConst(a, 5) <= 24) return mkIte(a->a[0], mkBin(k, a->a[1], b), mkBin(k, a->a[2], b));
    if (a->isConst() && b->k == K_ITE && iteDepthConst(b, 5) <= 24) return mkIte(b->a[0], mkBin(k, a, b->a[1]), mkBin(k, a, b->a[2]));
  }
  return intern(k, rw, a, b);
}
Expr *mkIte(Expr *c, Expr *t, Expr *f) {
  if (c->isConst()) return c->c ? t : f;
  if (t == f) return t;
  if (c->k == K_NOT) return mkIte(c->a[0], f, t);
  if (t->w == 1) {
    if (isTrue(t) && isFalse(f)) return c;
    if (isFalse(t) && isTrue(f)) return mkNot(c);
    if (isTrue(t)) return mkBin(K_OR, c, f);
    if (isFalse(t)) return mkBin(K_AND, mkNot(c), f);
    if (isFalse(f)) return mkBin(K_AND, c, t);
    if (isTrue(f)) return mkBin(K_OR, mkNot(c), t);
  }
  if (t->k == K_ITE && t->a[0] == c) t = t->a[1];
  if (f->k == K_ITE && f->a[0] == c) f = f->a[2];
  if (t == f) return t;
  if (t->k == K_ZEXT && f->k == K_ZEXT && t->a[0]->w == f->a[0]->w) return mkZExt(mkIte(c, t->a[0], f->a[0]), t->w);
  return intern(K_ITE, t->w, c, t, f);
}
Expr *mkConcat(Expr *hi, Expr *lo) {
  unsigned w = hi->w + lo->w;
  if (hi->isConst() && lo->isConst()) return mkConst((hi->c << lo->w) | lo->c, w);
  if (hi->isConst() && hi->c == 0) return mkZExt(lo, w);
  if (hi->k == K_EXTRACT && lo->k == K_EXTRACT && hi->a[0] == lo->a[0] && hi->lo == lo->lo + lo->w) return mkExtract(hi->a[0], lo->lo, w);
  // concat(concat(x, e1), e2) with adjacent extracts
  if (lo->k == K_CONCAT && hi->k == K_EXTRACT && lo->a[0]->k == K_EXTRACT && lo->a[0]->a[0] == hi->a[0] && hi->lo == lo->a[0]->lo + lo->a[0]->w)
    return mkConcat(mkExtract(hi->a[0], lo->a[0]->lo, hi->w + lo->a[0]->w), lo->a[1]);
  if (lo->k == K_CONCAT) { // right-assoc normal form keeps hi small; merge consts
    if (hi->isConst() && lo->a[0]->isConst()) return mkConcat(mkConcat(hi, lo->a[0]), lo->a[1]);
  }
  if (hi->k == K_CONCAT) return mkConcat(hi->a[0], mkConcat(hi->a[1], lo));
  // sign extension reassembly: high part is extract of sext
  if (hi->k == K_EXTRACT && hi->a[0]->k == K_SEXT && hi->a[0]->a[0] == lo && hi->lo == lo->w) return mkSExt(lo, w);
  if (hi->k == K_ZEXT && hi->w > hi->a[0]->w) return mkZExt(mkConcat(hi->a[0], lo), w);
  if (hi->k == K_ITE && lo->k == K_ITE && hi->a[0] == lo->a[0]) return mkIte(hi->a[0], mkConcat(hi->a[1], lo->a[1]), mkConcat(hi->a[2], lo->a[2]));
  return intern(K_CONCAT, w, hi, lo);
}
static int g_exBudget; // bounds the work of pushing one extraction through bitwise operations
static Expr *mkExtract1(Expr *a, unsigned lo, unsigned w);
Expr *mkExtract(Expr *a, unsigned lo, unsigned w) {
  static int depth; if (!depth) g_exBudget = 48; depth++; Expr *r = mkExtract1(a, lo, w); depth--; return r;
}
static Expr *mkExtract1(Expr *a, unsigned lo, unsigned w) {
  if (lo == 0 && w == a->w) return a;
  if (a->isConst()) return mkConst(a->c >> lo, w);
  switch (a->k) {
  case K_EXTRACT: return mkExtract(a->a[0], a->lo + lo, w);
  case K_CONCAT: {
    Expr *h = a->a[0], *l = a->a[1];
    if (lo + w <= l->w) return mkExtract(l, lo, w);
    if (lo >= l->w) return mkExtract(h, lo - l->w, w);
    return mkConcat(mkExtract(h, 0, lo + w - l->w), mkExtract(l, lo, l->w - lo));
  }
  case K_ZEXT:
    if (lo >= a->a[0]->w) return mkConst(0, w);
    if (lo + w <= a->a[0]->w) return mkExtract(a->a[0], lo, w);
    return mkZExt(mkExtract(a->a[0], lo, a->a[0]->w - lo), w);
  case K_SEXT:
    if (lo + w <= a->a[0]->w) return mkExtract(a->a[0], lo, w);
    if (lo < a->a[0]->w) return mkSExt(mkExtract(a->a[0], lo, a->a[0]->w - lo), w);
    return mkSExt(mkExtract(a->a[0], a->a[0]->w - 1, 1), w);
  case K_AND: case K_OR: case K_XOR:
    if (g_exBudget-- <= 0) break;
    return mkBin(a->k, mkExtract(a->a[0], lo, w), mkExtract(a->a[1], lo, w));
  case K_NOT: return mkNot(mkExtract(a->a[0], lo, w));
  case K_ITE:
    if (a->a[1]->isConst() || a->a[2]->isConst() || iteDepthConst(a, 6) < 1000) return mkIte(a->a[0], mkExtract(a->a[1], lo, w), mkExtract(a->a[2], lo, w));
    break;
  case K_ADD: case K_MUL: case K_SUB:
    if (lo == 0 && g_exBudget-- > 0) return mkBin(a->k, mkExtract(a->a[0], 0, w), mkExtract(a->a[1], 0, w));
    break;
  default: break;
  }
  return intern(K_EXTRACT, w, a, 0, 0, lo);
}
Expr *mkByteOf(Expr *a, unsigned lo) {
  if (a->isConst()) return mkConst(a->c >> lo, 8);
  static std::unordered_map<uint64_t, Expr *> tab; Expr *&r = tab[(uint64_t)a->id << 8 | lo];
  if (!r) { r = new Expr(); r->k = K_EXTRACT; r->w = 8; r->lo = lo; r->n = 1; r->a[0] = a; r->id = a->id; }
  return r;
}
Expr *mkZExt(Expr *a, unsigned w) {
  if (w == a->w) return a;
  if (a->isConst()) return mkConst(a->c, w);
  if (a->k == K_ZEXT) return mkZExt(a->a[0], w);
  if (a->k == K_ITE && iteDepthConst(a, 4) <= 16) return mkIte(a->a[0], mkZExt(a->a[1], w), mkZExt(a->a[2], w));
  return intern(K_ZEXT, w, a);
}
Expr *mkSExt(Expr *a, unsigned w) {
  if (w == a->w) return a;
  if (a->isConst()) return mkConst((u128)sextw(a->c, a->w), w);
  if (a->kz >> (a->w - 1) & 1) return mkZExt(a, w);
  if (a->k == K_SEXT) return mkSExt(a->a[0], w);
  if (a->k == K_ITE && iteDepthConst(a, 4) <= 16) return mkIte(a->a[0], mkSExt(a->a[1], w), mkSExt(a->a[2], w));
  return intern(K_SEXT, w, a);
}
Expr *mkFun(Kind k, Expr *a, unsigned w) {
  if (a->isConst()) return mkConst(foldFun(k, a->c, a->w, w), w);
  if (k == K_FNEG) return mkBin(K_XOR, a, mkConst((u128)1 << (w - 1), w));
  if (k == K_FABS) return mkBin(K_AND, a, mkConst(maskw(w - 1), w));
  if (a->k == K_ITE && iteDepthConst(a, 4) <= 16) return mkIte(a->a[0], mkFun(k, a->a[1], w), mkFun(k, a->a[2], w));
  return intern(k, w, a);
}

VarSet *varsOf(Expr *e) {
  if (e->vars) return e->vars;
  static VarSet empty;
  if (e->k == K_CONST) return e->vars = &empty;
  if (e->k == K_VAR) { e->vars = new VarSet(); e->vars->v.push_back(e->lo); return e->vars; }
  VarSet *r = nullptr;
  for (int i = 0; i < e->n; i++) {
    VarSet *s = varsOf(e->a[i]);
    if (s->v.empty()) continue;
    if (!r) { r = s; continue; }
    if (r == s) continue;
    if (std::includes(r->v.begin(), r->v.end(), s->v.begin(), s->v.end())) continue;
    if (std::includes(s->v.begin(), s->v.end(), r->v.begin(), r->v.end())) { r = s; continue; }
    VarSet *u = new VarSet();
    std::set_union(r->v.begin(), r->v.end(), s->v.begin(), s->v.end(), std::back_inserter(u->v));
    r = u;
  }
  return e->vars = r ? r : &empty;
}

static uint32_t g_epoch = 1;
static uint64_t g_lastm = 0;
uint64_t Model::next() { static uint64_t n = 0; return ++n; }
void evalReset() { g_lastm = 0; }
static u128 ev(Expr *e, const Model &m) {
  if (e->k == K_CONST) return e->c;
  if (e->k == K_VAR) return e->lo < m.v.size() ? m.v[e->lo] : 0;
  if (e->ep == g_epoch) return e->ev;
  u128 r = 0; bool ok;
  switch (e->k) {
  case K_ITE: r = ev(e->a[0], m) ? ev(e->a[1], m) : ev(e->a[2], m); break;
  case K_NOT: r = ~ev(e->a[0], m) & maskw(e->w); break;
  case K_CONCAT: r = (ev(e->a[0], m) << e->a[1]->w) | ev(e->a[1], m); break;
  case K_EXTRACT: r = (ev(e->a[0], m) >> e->lo) & maskw(e->w); break;
  case K_ZEXT: r = ev(e->a[0], m); break;
  case K_SEXT: r = (u128)sextw(ev(e->a[0], m), e->a[0]->w) & maskw(e->w); break;
  default:
    if (e->n == 1) r = foldFun(e->k, ev(e->a[0], m), e->a[0]->w, e->w);
    else r = foldBin(e->k, ev(e->a[0], m), ev(e->a[1], m), e->a[0]->w, ok);
  }
  e->ep = g_epoch; e->ev = r;
  return r;
}
u128 evalExpr(Expr *e, const Model &m) {
  if (m.serial != g_lastm) { g_epoch++; g_lastm = m.serial; }
  return ev(e, m);
}
static const char *KN[] = {"const", "var", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "not", "shl", "lshr", "ashr", "eq", "ult", "ule", "slt", "sle", "ite", "concat", "extract", "zext", "sext", "fadd", "fsub", "fmul", "fdiv", "frem", "fsqrt", "fneg", "fabs", "feq", "flt", "fle", "funo", "fptosi", "fptoui", "sitofp", "uitofp", "fpext", "fptrunc", "floor", "ceil", "trunc", "rint", "round"};
std::string exprStr(Expr *e, int d) {
  if (e->k == K_CONST) { char b[64]; if (e->c >> 64) snprintf(b, 64, "0x%llx%016llx", (unsigned long long)(e->c >> 64), (unsigned long long)e->c); else snprintf(b, 64, "%llu", (unsigned long long)e->c); return b; }
  if (e->k == K_VAR) return g_vars[e->lo].name;
  if (d == 0) return "...";
  std::string s = "(" + std::string(KN[e->k]);
  if (e->k == K_EXTRACT) s += "[" + std::to_string(e->lo) + "+" + std::to_string(e->w) + "]";
  for (int i = 0; i < e->n; i++) s += " " + exprStr(e->a[i], d - 1);
  return s + ")";
}

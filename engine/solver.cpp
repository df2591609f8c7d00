#include <sys/prctl.h>
#include <sys/wait.h>
#include <signal.h>
#include <fcntl.h>
#include <unistd.h>
// SMT back end: translates Expr to Z3 terms, slices independent constraints, caches results.
#include "expr.h"
#include <z3.h>
#include <chrono>
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <set>
#include <deque>

SolverStats g_ss;
std::string g_dumpDir; int g_dumpMax = 0;
static int g_dumped = 0;
static Z3_context ctx;
static unsigned g_timeout = 60000;
static std::vector<Z3_ast> g_zvars;

static void zerr(Z3_context c, Z3_error_code e) {
  fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e));
  abort();
}

void solverInit(unsigned timeoutMs) {
  g_timeout = timeoutMs;
  Z3_config cfg = Z3_mk_config();
  Z3_set_param_value(cfg, "model", "true");
  ctx = Z3_mk_context(cfg);
  Z3_set_error_handler(ctx, zerr);
  Z3_del_config(cfg);
}

static Z3_ast zbv(Expr *e);
static Z3_ast zbool(Expr *e);
static Z3_sort bvs(unsigned w) { return Z3_mk_bv_sort(ctx, w); }

static Z3_ast zconst(u128 v, unsigned w) {
  if (w <= 64) return Z3_mk_unsigned_int64(ctx, (uint64_t)v, bvs(w));
  Z3_ast lo = Z3_mk_unsigned_int64(ctx, (uint64_t)v, bvs(64));
  Z3_ast hi = Z3_mk_unsigned_int64(ctx, (uint64_t)(v >> 64), bvs(w - 64));
  return Z3_mk_concat(ctx, hi, lo);
}
static Z3_sort fps(unsigned w) { return w == 32 ? Z3_mk_fpa_sort_32(ctx) : Z3_mk_fpa_sort_64(ctx); }
static Z3_ast zfp(Expr *e) { return Z3_mk_fpa_to_fp_bv(ctx, zbv(e), fps(e->w)); }
static Z3_ast rne() { return Z3_mk_fpa_round_nearest_ties_to_even(ctx); }
static Z3_ast rtz() { return Z3_mk_fpa_round_toward_zero(ctx); }
static Z3_ast fromfp(Z3_ast a) { return Z3_mk_fpa_to_ieee_bv(ctx, a); }

static bool isBoolKind(Kind k) { return (k >= K_EQ && k <= K_SLE) || (k >= K_FEQ && k <= K_FUNO); }

static Z3_ast zbool(Expr *e) {
  if (e->bast) return (Z3_ast)e->bast;
  Z3_ast r;
  switch (e->k) {
  case K_CONST: r = e->c ? Z3_mk_true(ctx) : Z3_mk_false(ctx); break;
  case K_EQ:
    if (e->a[0]->w == 1) r = Z3_mk_iff(ctx, zbool(e->a[0]), zbool(e->a[1]));
    else r = Z3_mk_eq(ctx, zbv(e->a[0]), zbv(e->a[1]));
    break;
  case K_ULT: r = Z3_mk_bvult(ctx, zbv(e->a[0]), zbv(e->a[1])); break;
  case K_ULE: r = Z3_mk_bvule(ctx, zbv(e->a[0]), zbv(e->a[1])); break;
  case K_SLT: r = Z3_mk_bvslt(ctx, zbv(e->a[0]), zbv(e->a[1])); break;
  case K_SLE: r = Z3_mk_bvsle(ctx, zbv(e->a[0]), zbv(e->a[1])); break;
  case K_FEQ: r = Z3_mk_fpa_eq(ctx, zfp(e->a[0]), zfp(e->a[1])); break;
  case K_FLT: r = Z3_mk_fpa_lt(ctx, zfp(e->a[0]), zfp(e->a[1])); break;
  case K_FLE: r = Z3_mk_fpa_leq(ctx, zfp(e->a[0]), zfp(e->a[1])); break;
  case K_FUNO: { Z3_ast x[2] = {Z3_mk_fpa_is_nan(ctx, zfp(e->a[0])), Z3_mk_fpa_is_nan(ctx, zfp(e->a[1]))}; r = Z3_mk_or(ctx, 2, x); break; }
  case K_NOT: r = Z3_mk_not(ctx, zbool(e->a[0])); break;
  case K_AND: { Z3_ast x[2] = {zbool(e->a[0]), zbool(e->a[1])}; r = Z3_mk_and(ctx, 2, x); break; }
  case K_OR: { Z3_ast x[2] = {zbool(e->a[0]), zbool(e->a[1])}; r = Z3_mk_or(ctx, 2, x); break; }
  case K_XOR: r = Z3_mk_xor(ctx, zbool(e->a[0]), zbool(e->a[1])); break;
  case K_ITE: r = Z3_mk_ite(ctx, zbool(e->a[0]), zbool(e->a[1]), zbool(e->a[2])); break;
  default: r = Z3_mk_eq(ctx, zbv(e), zconst(1, 1)); break;
  }
  Z3_inc_ref(ctx, r);
  e->bast = r;
  return r;
}

static Z3_ast zbv(Expr *e) {
  if (e->ast) return (Z3_ast)e->ast;
  Z3_ast r;
  unsigned w = e->w;
  if (isBoolKind(e->k) || (w == 1 && (e->k == K_ITE || e->k == K_AND || e->k == K_OR || e->k == K_XOR || e->k == K_NOT))) {
    r = Z3_mk_ite(ctx, zbool(e), zconst(1, 1), zconst(0, 1));
  } else switch (e->k) {
  case K_CONST: r = zconst(e->c, w); break;
  case K_VAR: {
    char nm[32]; snprintf(nm, sizeof nm, "v%u", e->lo);
    r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, nm), bvs(w));
    if (g_zvars.size() <= e->lo) g_zvars.resize(e->lo + 1, nullptr);
    g_zvars[e->lo] = r;
    break; }
#define B2(K, F) case K: r = F(ctx, zbv(e->a[0]), zbv(e->a[1])); break;
  B2(K_ADD, Z3_mk_bvadd) B2(K_SUB, Z3_mk_bvsub) B2(K_MUL, Z3_mk_bvmul)
  B2(K_UDIV, Z3_mk_bvudiv) B2(K_SDIV, Z3_mk_bvsdiv) B2(K_UREM, Z3_mk_bvurem) B2(K_SREM, Z3_mk_bvsrem)
  B2(K_AND, Z3_mk_bvand) B2(K_OR, Z3_mk_bvor) B2(K_XOR, Z3_mk_bvxor)
  B2(K_SHL, Z3_mk_bvshl) B2(K_LSHR, Z3_mk_bvlshr) B2(K_ASHR, Z3_mk_bvashr)
  B2(K_CONCAT, Z3_mk_concat)
  case K_NOT: r = Z3_mk_bvnot(ctx, zbv(e->a[0])); break;
  case K_ITE: r = Z3_mk_ite(ctx, zbool(e->a[0]), zbv(e->a[1]), zbv(e->a[2])); break;
  case K_EXTRACT: r = Z3_mk_extract(ctx, e->lo + w - 1, e->lo, zbv(e->a[0])); break;
  case K_ZEXT: r = Z3_mk_zero_ext(ctx, w - e->a[0]->w, zbv(e->a[0])); break;
  case K_SEXT: r = Z3_mk_sign_ext(ctx, w - e->a[0]->w, zbv(e->a[0])); break;
  case K_FADD: r = fromfp(Z3_mk_fpa_add(ctx, rne(), zfp(e->a[0]), zfp(e->a[1]))); break;
  case K_FSUB: r = fromfp(Z3_mk_fpa_sub(ctx, rne(), zfp(e->a[0]), zfp(e->a[1]))); break;
  case K_FMUL: r = fromfp(Z3_mk_fpa_mul(ctx, rne(), zfp(e->a[0]), zfp(e->a[1]))); break;
  case K_FDIV: r = fromfp(Z3_mk_fpa_div(ctx, rne(), zfp(e->a[0]), zfp(e->a[1]))); break;
  case K_FREM: { // fmod: x - y*trunc(x/y) is not exact in general; leave unconstrained result
    char nm[32]; snprintf(nm, sizeof nm, "fmod%u", e->id);
    r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, nm), bvs(w)); break; }
  case K_FSQRT: r = fromfp(Z3_mk_fpa_sqrt(ctx, rne(), zfp(e->a[0]))); break;
  case K_FFLOOR: r = fromfp(Z3_mk_fpa_round_to_integral(ctx, Z3_mk_fpa_round_toward_negative(ctx), zfp(e->a[0]))); break;
  case K_FCEIL: r = fromfp(Z3_mk_fpa_round_to_integral(ctx, Z3_mk_fpa_round_toward_positive(ctx), zfp(e->a[0]))); break;
  case K_FTRUNC: r = fromfp(Z3_mk_fpa_round_to_integral(ctx, rtz(), zfp(e->a[0]))); break;
  case K_FRINT: r = fromfp(Z3_mk_fpa_round_to_integral(ctx, rne(), zfp(e->a[0]))); break;
  case K_FROUND: r = fromfp(Z3_mk_fpa_round_to_integral(ctx, Z3_mk_fpa_round_nearest_ties_to_away(ctx), zfp(e->a[0]))); break;
  case K_FPEXT: case K_FPTRUNC: r = fromfp(Z3_mk_fpa_to_fp_float(ctx, rne(), zfp(e->a[0]), fps(w))); break;
  case K_SITOFP: r = fromfp(Z3_mk_fpa_to_fp_signed(ctx, rne(), zbv(e->a[0]), fps(w))); break;
  case K_UITOFP: r = fromfp(Z3_mk_fpa_to_fp_unsigned(ctx, rne(), zbv(e->a[0]), fps(w))); break;
  case K_FPTOSI: { // out of range: x86 "integer indefinite" value
    Z3_ast f = zfp(e->a[0]);
    unsigned fw = e->a[0]->w;
    double lim = std::ldexp(1.0, (int)w - 1);
    Z3_ast hi = Z3_mk_fpa_numeral_double(ctx, lim, fps(fw));
    Z3_ast inr[2] = {Z3_mk_fpa_lt(ctx, f, hi),
      (fw == 32 || w == 64) ? Z3_mk_fpa_geq(ctx, f, Z3_mk_fpa_numeral_double(ctx, -lim, fps(fw)))
                            : Z3_mk_fpa_gt(ctx, f, Z3_mk_fpa_numeral_double(ctx, -lim - 1, fps(fw)))};
    r = Z3_mk_ite(ctx, Z3_mk_and(ctx, 2, inr), Z3_mk_fpa_to_sbv(ctx, rtz(), f, w), zconst((u128)1 << (w - 1), w));
    break; }
  case K_FPTOUI: r = Z3_mk_fpa_to_ubv(ctx, rtz(), zfp(e->a[0]), w); break;
  default: fprintf(stderr, "zbv: kind %d\n", e->k); abort();
  }
  Z3_inc_ref(ctx, r);
  e->ast = r;
  return r;
}

static bool hasFp(Expr *e, std::set<uint32_t> &seen) {
  if (e->k >= K_FADD) return true;
  if (e->k == K_CONST || e->k == K_VAR) return false;
  if (!seen.insert(e->id).second) return false;
  for (int i = 0; i < e->n; i++) if (hasFp(e->a[i], seen)) return true;
  return false;
}

static bool hasDiv1(Expr *e, std::set<uint32_t> &seen) {
  if (e->k >= K_UDIV && e->k <= K_SREM) return true;
  if (e->k == K_CONST || e->k == K_VAR || !seen.insert(e->id).second) return false;
  for (int i = 0; i < e->n; i++) if (hasDiv1(e->a[i], seen)) return true;
  return false;
}
static bool hasDiv(Expr *q, const std::vector<Expr *> &cs) { std::set<uint32_t> seen; if (hasDiv1(q, seen)) return true; for (Expr *c : cs) if (hasDiv1(c, seen)) return true; return false; }

struct KeyHash { size_t operator()(const std::vector<uint32_t> &v) const { size_t h = 1469598103934665603ull; for (uint32_t x : v) h = (h ^ x) * 1099511628211ull; return h; } };
struct CacheEnt { bool sat; std::vector<std::pair<uint32_t, u128>> m; };
static std::unordered_map<std::vector<uint32_t>, CacheEnt, KeyHash> g_cache;
static std::deque<ModelP> g_recent;

// Integer encoding for div/rem-by-constant kernels.  Every bit-vector term becomes a linear integer form over atoms
// congruent to it modulo 2^w, together with an interval; a modulus is only applied where the interval shows it could
// matter, and divisions are split into the part divisible by the divisor and a remainder.
struct IntEnc {
  typedef std::vector<std::pair<int, i128>> Lin;
  struct T { Lin t; i128 k = 0, lo = 0, hi = 0; };
  struct Atom { std::string name; i128 lo, hi; };
  std::vector<Atom> atoms; std::unordered_map<std::string, int> atomOf;
  std::unordered_map<Expr *, T> memo; std::unordered_map<Expr *, std::string> bmemo;
  std::string defs; bool fail = false; int n = 0; std::unordered_map<uint32_t, int> varAtom;
  static constexpr int CAP = 110;
  static i128 absv(i128 v) { return v < 0 ? -v : v; }
  static std::string num(i128 v) { if (v < 0) return "(- " + num(-v) + ")"; std::string r; do { r.insert(r.begin(), char('0' + (int)(v % 10))); v /= 10; } while (v); return r; }
  T bad() { fail = true; return T(); }
  T konst(i128 v) { T r; r.k = r.lo = r.hi = v; return r; }
  T fin(T r) { // interval of the linear form
    r.lo = r.hi = r.k;
    for (auto &p : r.t) { Atom &a = atoms[p.first]; if (absv(a.lo) > ((i128)1 << CAP) / absv(p.second) || absv(a.hi) > ((i128)1 << CAP) / absv(p.second)) return bad(); i128 x = a.lo * p.second, y = a.hi * p.second; r.lo += std::min(x, y); r.hi += std::max(x, y); }
    if (r.lo < -((i128)1 << CAP) || r.hi > ((i128)1 << CAP)) return bad();
    if (r.lo == r.hi) { r.t.clear(); r.k = r.lo; }
    return r;
  }
  T add(const T &a, const T &b, i128 f) {
    T r; r.k = a.k + f * b.k; size_t i = 0, j = 0;
    while (i < a.t.size() || j < b.t.size()) {
      if (j == b.t.size() || (i < a.t.size() && a.t[i].first < b.t[j].first)) r.t.push_back(a.t[i++]);
      else if (i == a.t.size() || b.t[j].first < a.t[i].first) { r.t.push_back({b.t[j].first, f * b.t[j].second}); j++; }
      else { i128 c = a.t[i].second + f * b.t[j].second; if (c) r.t.push_back({a.t[i].first, c}); i++; j++; }
    }
    return fin(r);
  }
  T mul(const T &a, i128 f) { if (!f) return konst(0); i128 m = std::max(absv(a.lo), absv(a.hi)); for (auto &p : a.t) m = std::max(m, absv(p.second)); m = std::max(m, absv(a.k)); if (m > ((i128)1 << CAP) / absv(f)) return bad(); T r = a; r.k *= f; for (auto &p : r.t) p.second *= f; return fin(r); }
  T plus(const T &a, i128 c) { T r = a; r.k += c; r.lo += c; r.hi += c; return r; }
  std::string str(const T &a) { if (a.t.empty()) return num(a.k); std::string r; int cnt = 0; for (auto &p : a.t) { r += " " + (p.second == 1 ? atoms[p.first].name : "(* " + num(p.second) + " " + atoms[p.first].name + ")"); cnt++; } if (a.k) { r += " " + num(a.k); cnt++; } return cnt == 1 ? r.substr(1) : "(+" + r + ")"; }
  T atom(const std::string &body, i128 lo, i128 hi) {
    if (fail) return T(); if (lo == hi) return konst(lo);
    auto it = atomOf.find(body); int id;
    if (it != atomOf.end()) id = it->second;
    else { id = atoms.size(); std::string nm = "i" + std::to_string(n++); atoms.push_back({nm, lo, hi}); atomOf[body] = id; defs += "(define-fun " + nm + " () Int " + body + ")\n"; }
    T r; r.t = {{id, 1}}; return fin(r);
  }
  static i128 fdiv(i128 a, i128 b) { i128 q = a / b; return (a % b != 0 && a < 0) ? q - 1 : q; }
  // floor division and non-negative remainder by c > 0
  void divmod(const T &a, i128 c, T *q, T *m) {
    T A, R; for (auto &p : a.t) { i128 d = fdiv(p.second, c), r = p.second - d * c; if (r * 2 > c) { r -= c; d++; } if (r == 0) A.t.push_back({p.first, d}); else R.t.push_back(p); }
    A.k = fdiv(a.k, c); R.k = a.k - A.k * c; A = fin(A); R = fin(R); if (fail) return;
    i128 l = fdiv(R.lo, c), h = fdiv(R.hi, c);
    if (l == h) { if (q) *q = plus(A, l); if (m) *m = plus(R, -l * c); return; }
    std::string s = str(R);
    if (q) { T d = atom("(div " + s + " " + num(c) + ")", l, h); *q = add(A, d, 1); }
    if (m) *m = atom("(mod " + s + " " + num(c) + ")", 0, c - 1);
  }
  T ite(const std::string &c, const T &a, const T &b) { if (c == "true") return a; if (c == "false") return b; T d = add(a, b, -1); if (!fail && d.t.empty() && d.k == 0) return a; return atom("(ite " + c + " " + str(a) + " " + str(b) + ")", std::min(a.lo, b.lo), std::max(a.hi, b.hi)); }
  std::string lt(const T &a, const T &b, bool strict) { // a < b or a <= b
    if (fail) return "false";
    T d = add(a, b, -1); if (fail) return "false"; if (strict ? d.hi < 0 : d.hi <= 0) return "true"; if (strict ? d.lo >= 0 : d.lo > 0) return "false";
    return std::string(strict ? "(< " : "(<= ") + str(d) + " 0)";
  }
  void refine(Expr *c, bool neg) { // intervals of variables and atoms from an asserted comparison
    if (fail) return;
    if (c->k == K_NOT) return refine(c->a[0], !neg);
    if (c->k == K_AND && !neg && c->w == 1) { refine(c->a[0], false); refine(c->a[1], false); return; }
    if (c->k == K_OR && neg && c->w == 1) { refine(c->a[0], true); refine(c->a[1], true); return; }
    if (c->k == K_ULT || c->k == K_ULE) { // range test (x + c) < k
      Expr *l = c->a[0], *r = c->a[1]; bool strict = c->k == K_ULT; if (neg) { std::swap(l, r); strict = !strict; }
      if (r->k == K_CONST && l->k == K_ADD && l->w <= 64 && l->w > 1) {
        Expr *x = l->a[0], *k = l->a[1]; if (x->k == K_CONST) std::swap(x, k); while (x->k == K_SEXT) x = x->a[0];
        if (x->k == K_VAR && k->k == K_CONST && !varAtom.count(x->lo)) { i128 lo = -sextw(k->c, l->w), hi = lo + (i128)r->c - strict, H = (i128)1 << (x->w - 1), HL = (i128)1 << (l->w - 1); if (lo >= -HL && hi < HL && (x->w == l->w || (lo >= -H && hi < H))) { auto &b = get(sb, x, true); b.first = std::max(b.first, lo); b.second = std::min(b.second, hi); } return; }
      }
    }
    if (c->k != K_SLT && c->k != K_SLE && c->k != K_ULT && c->k != K_ULE) return;
    Expr *l = c->a[0], *r = c->a[1]; bool strict = c->k == K_SLT || c->k == K_ULT, sg = c->k == K_SLT || c->k == K_SLE;
    if (neg) { std::swap(l, r); strict = !strict; }
    if (phase == 0) {
      while (l->k == K_SEXT && sg && r->k == K_CONST) { i128 v = sextw(r->c, r->w); if (v != sextw((u128)v, l->a[0]->w)) return; l = l->a[0]; r = mkConst((u128)v, l->w); }
      while (r->k == K_SEXT && sg && l->k == K_CONST) { i128 v = sextw(l->c, l->w); if (v != sextw((u128)v, r->a[0]->w)) return; r = r->a[0]; l = mkConst((u128)v, r->w); }
      auto val = [&](Expr *e) -> i128 { return sg ? sextw(e->c, e->w) : (i128)e->c; };
      auto &m = sg ? sb : ub;
      if (l->k == K_VAR && r->k == K_CONST && l->w <= 64) { auto &b = get(m, l, sg); b.second = std::min(b.second, val(r) - strict); }
      else if (r->k == K_VAR && l->k == K_CONST && r->w <= 64) { auto &b = get(m, r, sg); b.first = std::max(b.first, val(l) + strict); }
      return;
    }
    T a = sg ? S(l) : U(l), b = sg ? S(r) : U(r); if (fail) return; T d = add(a, b, -1); if (fail) return;
    if (d.t.size() != 1) return; // c*x + k (<|<=) 0
    i128 cf = d.t[0].second, lim = -d.k - (strict ? 1 : 0); Atom &x = atoms[d.t[0].first];
    i128 lo = x.lo, hi = x.hi; if (cf > 0) hi = std::min(hi, fdiv(lim, cf)); else lo = std::max(lo, -fdiv(lim, -cf));
    if (lo == x.lo && hi == x.hi) return;
    if (lo > hi) { defs += "(assert false)\n"; return; }
    x.lo = lo; x.hi = hi; changed = true; defs += "(assert (and (<= " + num(lo) + " " + x.name + ") (<= " + x.name + " " + num(hi) + ")))\n"; // the bound replaces the comparison
  }
  bool changed = false;
  int phase = 0;
  std::unordered_map<uint32_t, std::pair<i128, i128>> sb, ub;
  std::pair<i128, i128> &get(std::unordered_map<uint32_t, std::pair<i128, i128>> &m, Expr *v, bool sg) {
    auto it = m.find(v->lo); if (it != m.end()) return it->second;
    unsigned w = v->w; return m[v->lo] = sg ? std::make_pair(-((i128)1 << (w - 1)), ((i128)1 << (w - 1)) - 1) : std::make_pair((i128)0, ((i128)1 << w) - 1);
  }
  T U(Expr *e) { T t = I(e); if (fail) return t; i128 M = (i128)1 << e->w; T m; 
    if (fdiv(t.lo, M) + 1 == fdiv(t.hi, M)) { i128 q = fdiv(t.hi, M), cut = q * M; return ite(lt(t, konst(cut), true), plus(t, M - cut), plus(t, -cut)); }
    divmod(t, M, nullptr, &m); return m; }
  T S(Expr *e) { T t = I(e); if (fail) return t; i128 M = (i128)1 << e->w, H = M / 2; if (t.lo >= -H && t.hi < H) return t;
    i128 l = fdiv(t.lo + H, M), h = fdiv(t.hi + H, M); if (l + 1 == h) { i128 cut = h * M - H; return ite(lt(t, konst(cut), true), plus(t, -l * M), plus(t, -h * M)); }
    T m; divmod(plus(t, H), M, nullptr, &m); if (fail) return m; return plus(m, -H); }
  T I(Expr *e) {
    if (fail) return T();
    auto it = memo.find(e); if (it != memo.end()) return it->second;
    T r = I0(e); memo[e] = r; return r;
  }
  T I0(Expr *e) {
    unsigned w = e->w; if (w > 100) return bad();
    if (e->k == K_CONST) return konst(w == 1 ? (i128)e->c : sextw(e->c, w));
    if (e->k == K_VAR) {
      if (w > 64) return bad();
      auto it = varAtom.find(e->lo); if (it != varAtom.end()) { T r; r.t = {{it->second, 1}}; return fin(r); }
      auto s = get(sb, e, true), u = get(ub, e, false); bool useS = w > 1 && s.second - s.first <= u.second - u.first; auto b = useS ? s : u; if (b.first > b.second) return bad();
      std::string nm = "v" + std::to_string(e->lo); defs += "(declare-const " + nm + " Int)\n(assert (and (<= " + num(b.first) + " " + nm + ") (<= " + nm + " " + num(b.second) + ")))\n";
      varAtom[e->lo] = atoms.size(); atoms.push_back({nm, b.first, b.second}); T r; r.t = {{(int)atoms.size() - 1, 1}}; return fin(r);
    }
    if (w == 1) return ite(B(e), konst(1), konst(0));
    switch (e->k) {
    case K_ADD: return add(I(e->a[0]), I(e->a[1]), 1);
    case K_SUB: return add(I(e->a[0]), I(e->a[1]), -1);
    case K_NOT: { T a = I(e->a[0]); return add(konst(-1), a, -1); }
    case K_MUL: case K_SHL: {
      Expr *x = e->a[0], *c = e->a[1]; if (e->k == K_MUL && x->isConst()) std::swap(x, c); if (!c->isConst()) break;
      i128 k; if (e->k == K_SHL) { if (c->c >= w) return konst(0); k = (i128)1 << (int)c->c; } else k = sextw(c->c, w);
      T a = I(x); if (fail) return a; if (k && std::max(absv(a.hi), absv(a.lo)) > ((i128)1 << (CAP - 2)) / absv(k)) a = S(x); return mul(a, k); }
    case K_UDIV: case K_UREM: { if (!e->a[1]->isConst() || !e->a[1]->c || e->a[1]->c >> 64) break; T a = U(e->a[0]), r; if (fail) return a; divmod(a, (i128)e->a[1]->c, e->k == K_UDIV ? &r : nullptr, e->k == K_UREM ? &r : nullptr); return r; }
    case K_SDIV: case K_SREM: { if (!e->a[1]->isConst()) break; i128 c = sextw(e->a[1]->c, w); bool flip = false, d = e->k == K_SDIV; if (c < 0 && c != -((i128)1 << (w - 1))) { c = -c; flip = d; } if (c <= 0) break; T a = S(e->a[0]); if (fail) return a;
      T p, q; auto dm = [&](const T &x, T &r) { divmod(x, c, d ? &r : nullptr, d ? nullptr : &r); };
      if (a.lo >= 0) dm(a, p); else if (a.hi <= 0) { dm(mul(a, -1), q); p = mul(q, -1); }
      else if (a.lo > -c && a.hi < c) p = d ? konst(0) : a;
      else { dm(a, p); dm(mul(a, -1), q); if (fail) return p; i128 lo = d ? a.lo / c : -(c - 1), hi = d ? a.hi / c : c - 1; std::string cn = lt(a, konst(0), true); p = atom("(ite " + cn + " " + str(mul(q, -1)) + " " + str(p) + ")", lo, hi); }
      return flip ? mul(p, -1) : p; }
    case K_LSHR: { if (!e->a[1]->isConst()) break; if (e->a[1]->c >= w) return konst(0); T a = U(e->a[0]), r; if (fail) return a; divmod(a, (i128)1 << (int)e->a[1]->c, &r, nullptr); return r; }
    case K_ASHR: { if (!e->a[1]->isConst()) break; T a = S(e->a[0]), r; if (fail) return a; divmod(a, (i128)1 << (int)std::min<u128>(e->a[1]->c, w - 1), &r, nullptr); return r; }
    case K_AND: { Expr *x = e->a[0], *c = e->a[1]; if (x->isConst()) std::swap(x, c); if (!c->isConst()) break;
      u128 m = c->c; unsigned lo = 0; while (lo < w && !(m >> lo & 1)) lo++; unsigned hi = lo; while (hi < w && m >> hi & 1) hi++; if (hi < w && m >> hi) break; if (lo == w) return konst(0);
      T a = I(x), r; if (fail) return a; divmod(a, (i128)1 << hi, nullptr, &r); if (fail) return r; if (lo) { T q; divmod(r, (i128)1 << lo, &q, nullptr); r = mul(q, (i128)1 << lo); } return r; }
    case K_OR: case K_XOR: { if (((e->a[0]->kz | e->a[1]->kz) & maskw(w)) != maskw(w)) break; T a = U(e->a[0]), b = U(e->a[1]); if (fail) return a; return add(a, b, 1); }
    case K_ITE: { std::string c = B(e->a[0]); if (c == "true") return I(e->a[1]); if (c == "false") return I(e->a[2]); return ite(c, I(e->a[1]), I(e->a[2])); }
    case K_CONCAT: { T b = U(e->a[1]), a = I(e->a[0]); if (fail) return a; return add(mul(a, (i128)1 << e->a[1]->w), b, 1); }
    case K_EXTRACT: { T a = I(e->a[0]), r; if (fail || e->lo == 0) return a; a = U(e->a[0]); if (fail) return a; divmod(a, (i128)1 << e->lo, &r, nullptr); return r; }
    case K_ZEXT: return U(e->a[0]);
    case K_SEXT: return S(e->a[0]);
    default: break;
    }
    return bad();
  }
  std::string B(Expr *e) {
    if (fail) return "false";
    auto it = bmemo.find(e); if (it != bmemo.end()) return it->second;
    std::string r = B0(e); if (r.size() > 24 && !fail) { std::string nm = "b" + std::to_string(n++); defs += "(define-fun " + nm + " () Bool " + r + ")\n"; r = nm; }
    bmemo[e] = r; return r;
  }
  std::string B0(Expr *e) {
    auto neg = [](const std::string &x) -> std::string { return x == "true" ? "false" : x == "false" ? "true" : "(not " + x + ")"; };
    switch (e->k) {
    case K_CONST: return e->c ? "true" : "false";
    case K_EQ: { if (e->a[0]->w == 1) { std::string x = B(e->a[0]), y = B(e->a[1]); if (x == "true") return y; if (y == "true") return x; if (x == "false") return neg(y); if (y == "false") return neg(x); return "(= " + x + " " + y + ")"; }
      T a = I(e->a[0]), b = I(e->a[1]); if (fail) return "false"; i128 M = (i128)1 << e->a[0]->w; T d = add(a, b, -1); if (fail) return "false";
      if (d.t.empty()) return d.k % M == 0 ? "true" : "false";
      i128 l = -fdiv(-d.lo, M), h = fdiv(d.hi, M); if (l > h) return "false"; // multiples of 2^w in range
      if (l == h) return "(= " + str(d) + " " + num(l * M) + ")"; T m; divmod(d, M, nullptr, &m); return "(= " + str(m) + " 0)"; }
    case K_ULT: return lt(U(e->a[0]), U(e->a[1]), true);
    case K_ULE: return lt(U(e->a[0]), U(e->a[1]), false);
    case K_SLT: return lt(S(e->a[0]), S(e->a[1]), true);
    case K_SLE: return lt(S(e->a[0]), S(e->a[1]), false);
    case K_NOT: return neg(B(e->a[0]));
    case K_AND: { std::string x = B(e->a[0]), y = B(e->a[1]); if (x == "false" || y == "false") return "false"; if (x == "true") return y; if (y == "true") return x; return "(and " + x + " " + y + ")"; }
    case K_OR: { std::string x = B(e->a[0]), y = B(e->a[1]); if (x == "true" || y == "true") return "true"; if (x == "false") return y; if (y == "false") return x; return "(or " + x + " " + y + ")"; }
    case K_XOR: return "(xor " + B(e->a[0]) + " " + B(e->a[1]) + ")";
    case K_ITE: { std::string c = B(e->a[0]); if (c == "true") return B(e->a[1]); if (c == "false") return B(e->a[2]); return "(ite " + c + " " + B(e->a[1]) + " " + B(e->a[2]) + ")"; }
    case K_EXTRACT: { T a = U(e->a[0]), q, m; if (fail) return "false"; divmod(a, (i128)1 << e->lo, &q, nullptr); if (fail) return "false"; divmod(q, 2, nullptr, &m); return "(= 1 " + str(m) + ")"; }
    case K_VAR: { T a = I(e); return "(= " + str(a) + " 1)"; }
    default: fail = true; return "false";
    }
  }
  // text of the conjunction, empty if it cannot be encoded
  std::string encode(const std::vector<Expr *> &cs, Expr *q) {
    for (phase = 0; phase < 4 && !fail; phase++) { changed = false; for (Expr *c : cs) refine(c, false); refine(q, false); if (phase) { memo.clear(); bmemo.clear(); if (!changed) break; } }
    std::string as;
    for (size_t i = 0; i <= cs.size() && !fail; i++) { Expr *c = i < cs.size() ? cs[i] : q; std::string b = B(c); as += "(assert " + b + ")\n"; }
    return fail ? "" : defs + as;
  }
};

// Fallback portfolio for queries the in-process solver does not decide quickly: the same query in SMT-LIB text
// goes to cvc5 (bit-vectors as integers / bit-blasted) and a newer z3; the first definite answer is used.
static int g_pf;
static SolveResult portfolio(const std::string &text, const std::string &itext, bool fp, const std::vector<uint32_t> &vs, std::unordered_map<uint32_t, u128> &mm, unsigned timeoutMs) {
  char base[128]; snprintf(base, sizeof base, "/tmp/sxq.%d.%d", (int)getpid(), g_pf++);
  std::string in = std::string(base) + ".smt2";
  FILE *f = fopen(in.c_str(), "w"); if (!f) return S_UNKNOWN;
  fprintf(f, "(set-option :produce-models true)\n(set-logic %s)\n%s\n(check-sat)\n", fp ? "QF_BVFP" : "QF_BV", text.c_str());
  for (uint32_t v : vs) if (v < g_zvars.size() && g_zvars[v]) fprintf(f, "(get-value (%s))\n", Z3_ast_to_string(ctx, g_zvars[v]));
  fclose(f);
  std::string in2 = std::string(base) + ".i.smt2";
  if (!itext.empty()) { f = fopen(in2.c_str(), "w"); if (!f) return S_UNKNOWN; fprintf(f, "(set-option :produce-models true)\n(set-logic QF_LIA)\n%s(check-sat)\n", itext.c_str());
    for (uint32_t v : vs) if (v < g_zvars.size() && g_zvars[v]) fprintf(f, "(get-value (v%u))\n", v); fclose(f); }
  char to1[64], to2[64]; snprintf(to1, sizeof to1, "--tlimit=%u", timeoutMs); snprintf(to2, sizeof to2, "-T:%u", timeoutMs / 1000 + 1);
  struct P { pid_t pid; std::string out; bool done; }; std::vector<P> ps;
  std::vector<std::vector<const char *>> cmds;
  if (!itext.empty()) { cmds.push_back({"z3-new", to2, in2.c_str(), nullptr}); cmds.push_back({"cvc5", to1, in2.c_str(), nullptr}); }
  if (!fp) { cmds.push_back({"cvc5", to1, "--solve-bv-as-int=sum", in.c_str(), nullptr}); cmds.push_back({"cvc5", to1, in.c_str(), nullptr}); }
  cmds.push_back({"z3-new", to2, in.c_str(), nullptr});
  if (fp) cmds.push_back({"z3", to2, in.c_str(), nullptr});
  for (size_t i = 0; i < cmds.size(); i++) {
    P p; p.out = std::string(base) + ".o" + std::to_string(i); p.done = false;
    p.pid = fork();
    if (p.pid == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); int fd = open(p.out.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); dup2(fd, 1); dup2(fd, 2); execvp(cmds[i][0], (char *const *)cmds[i].data()); _exit(127); }
    ps.push_back(p);
  }
  SolveResult res = S_UNKNOWN; size_t left = ps.size(); auto t0 = std::chrono::steady_clock::now();
  while (left && res == S_UNKNOWN) {
    bool any = false;
    for (P &p : ps) { if (p.done) continue; int st; if (waitpid(p.pid, &st, WNOHANG) != p.pid) continue;
      p.done = true; left--; any = true;
      std::string t; { FILE *o = fopen(p.out.c_str(), "r"); char b[4096]; size_t n; if (o) { while ((n = fread(b, 1, sizeof b, o)) > 0) t.append(b, n); fclose(o); } }
      if (t.compare(0, 5, "unsat") == 0) { res = S_UNSAT; break; }
      if (t.compare(0, 4, "sat\n") == 0) {
        size_t pos = 4; mm.clear(); bool ok = true;
        for (uint32_t v : vs) if (v < g_zvars.size() && g_zvars[v]) {
          size_t e = t.find("))", pos); if (e == std::string::npos) { ok = false; break; }
          if (&p - &ps[0] < 2 && !itext.empty()) { // integer value, possibly (- n)
            size_t h = t.rfind(' ', e - 1); bool ng = false; while (h != std::string::npos && h > pos && t[h - 1] == '-') { ng = true; break; }
            if (h == std::string::npos || h < pos) { ok = false; break; }
            u128 val = 0; for (size_t k = h + 1; k < e && t[k] >= '0' && t[k] <= '9'; k++) val = val * 10 + (t[k] - '0');
            mm[v] = (ng ? (u128)0 - val : val) & maskw(g_vars[v].w); pos = e + 2; if (ng) while (pos < t.size() && t[pos] == ')') pos++; continue;
          }
          size_t h = t.rfind('#', e); if (h == std::string::npos || h < pos) { ok = false; break; }
          u128 val = 0; for (size_t k = h + 2; k < e; k++) { char c = t[k]; unsigned d = c <= '9' ? c - '0' : (c | 32) - 'a' + 10; val = t[h + 1] == 'x' ? val << 4 | d : val << 1 | d; }
          mm[v] = val; pos = e + 2;
        }
        if (ok) { res = S_SAT; break; }
      }
    }
    if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() * 1000 > timeoutMs + 2000.0) break;
    if (!any && res == S_UNKNOWN) usleep(3000);
  }
  for (P &p : ps) { if (!p.done) { kill(p.pid, SIGKILL); int st; waitpid(p.pid, &st, 0); } unlink(p.out.c_str()); }
  unlink(in.c_str()); if (!itext.empty()) unlink(in2.c_str());
  return res;
}

SolveResult solve(const std::vector<Expr *> &cs, Expr *q, const ModelP &base, ModelP &out) {
  if (isFalse(q)) return S_UNSAT;
  // independence slice
  std::vector<Expr *> slice;
  std::vector<uint32_t> vs;
  if (base) {
    std::vector<char> in(g_vars.size(), 0);
    for (uint32_t v : varsOf(q)->v) { in[v] = 1; vs.push_back(v); }
    std::vector<char> taken(cs.size(), 0);
    bool ch = true;
    while (ch) {
      ch = false;
      for (size_t i = 0; i < cs.size(); i++) if (!taken[i]) {
        VarSet *s = varsOf(cs[i]);
        bool hit = false;
        for (uint32_t v : s->v) if (in[v]) { hit = true; break; }
        if (hit) { taken[i] = 1; ch = true; slice.push_back(cs[i]); for (uint32_t v : s->v) if (!in[v]) { in[v] = 1; vs.push_back(v); } }
      }
    }
  } else {
    slice = cs;
    std::set<uint32_t> s;
    for (Expr *c : cs) for (uint32_t v : varsOf(c)->v) s.insert(v);
    for (uint32_t v : varsOf(q)->v) s.insert(v);
    vs.assign(s.begin(), s.end());
  }
  std::vector<uint32_t> key;
  for (Expr *c : slice) key.push_back(c->id);
  key.push_back(q->id);
  std::sort(key.begin(), key.end());
  key.erase(std::unique(key.begin(), key.end()), key.end());
  auto mk = [&](auto get) {
    ModelP m = std::make_shared<Model>();
    if (base) m->v = base->v;
    if (m->v.size() < g_vars.size()) m->v.resize(g_vars.size(), 0);
    for (uint32_t v : vs) m->v[v] = get(v);
    out = m;
  };
  auto it = g_cache.find(key);
  if (it != g_cache.end()) {
    g_ss.cacheHits++;
    if (!it->second.sat) return S_UNSAT;
    std::unordered_map<uint32_t, u128> mm(it->second.m.begin(), it->second.m.end());
    mk([&](uint32_t v) { auto f = mm.find(v); return f == mm.end() ? (u128)0 : f->second; });
    return S_SAT;
  }
  // recent models
  for (auto &rm : g_recent) {
    bool ok = evalExpr(q, *rm) == 1;
    for (size_t i = 0; ok && i < slice.size(); i++) ok = evalExpr(slice[i], *rm) == 1;
    if (ok) {
      g_ss.modelHits++;
      ModelP r = rm;
      mk([&](uint32_t v) { return v < r->v.size() ? r->v[v] : (u128)0; });
      return S_SAT;
    }
  }
  // a few arbitrary assignments: a cheap way to a model of large, weakly constrained queries (the verdict "unsat" always needs the solver)
  if (slice.size() <= 3) for (int k = 0; k < 2; k++) {
    static uint64_t rs = 0x9e3779b97f4a7c15ull; auto rnd = [&]() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; };
    ModelP m = std::make_shared<Model>(); if (base) m->v = base->v; if (m->v.size() < g_vars.size()) m->v.resize(g_vars.size(), 0);
    for (uint32_t v : vs) m->v[v] = ((u128)rnd() << 64 | rnd()) & maskw(g_vars[v].w);
    bool ok = evalExpr(q, *m) == 1;
    for (size_t i = 0; ok && i < slice.size(); i++) ok = evalExpr(slice[i], *m) == 1;
    if (ok) { g_ss.modelHits++; out = m; g_recent.push_front(out); if (g_recent.size() > 6) g_recent.pop_back(); return S_SAT; }
  }
  auto t0 = std::chrono::steady_clock::now();
  std::set<uint32_t> seen;
  bool fp = hasFp(q, seen);
  for (size_t i = 0; !fp && i < slice.size(); i++) fp = hasFp(slice[i], seen);
  SolveResult res = S_UNKNOWN;
  g_ss.queries++;
  std::unordered_map<uint32_t, u128> mm; std::string text, itext; bool dv = !fp && hasDiv(q, slice);
  auto encodeInt = [&]() {
    IntEnc ie; itext = ie.encode(slice, q);
    std::string as; for (Expr *c : slice) { std::string b = ie.B(c); as += "(assert " + b + ")\n"; } as += "(assert " + ie.B(q) + ")\n"; if (!ie.fail) itext = ie.defs + as;
  };
  if (dv) { // division kernels: integer encoding first
    encodeInt();
    if (!itext.empty()) {
      auto t1 = std::chrono::steady_clock::now();
      Z3_solver s = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_LIA")); Z3_solver_inc_ref(ctx, s);
      Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p); Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), std::min(g_timeout, 500u)); Z3_solver_set_params(ctx, s, p); Z3_params_dec_ref(ctx, p);
      Z3_solver_from_string(ctx, s, itext.c_str());
      Z3_lbool r = Z3_solver_check(ctx, s);
      if (r == Z3_L_FALSE) res = S_UNSAT;
      else if (r == Z3_L_TRUE) {
        Z3_model m = Z3_solver_get_model(ctx, s); Z3_model_inc_ref(ctx, m); res = S_SAT;
        for (uint32_t v : vs) {
          char nm[32]; snprintf(nm, sizeof nm, "v%u", v); Z3_ast o, vc = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, nm), Z3_mk_int_sort(ctx));
          if (!Z3_model_eval(ctx, m, vc, true, &o)) { res = S_UNKNOWN; break; }
          std::string t = Z3_get_numeral_string(ctx, o); bool ng = t[0] == '-'; u128 x = 0; for (char ch : t) if (ch >= '0' && ch <= '9') x = x * 10 + (ch - '0');
          mm[v] = (ng ? (u128)0 - x : x) & maskw(g_vars[v].w);
        }
        Z3_model_dec_ref(ctx, m);
      }
      Z3_solver_dec_ref(ctx, s);
      if (getenv("SXE_IDBG") && res == S_UNKNOWN) { static int k; char fn[99]; snprintf(fn, 99, "/tmp/iq%d.smt2", k++); FILE *f = fopen(fn, "w"); fprintf(f, "%s(check-sat)\n", itext.c_str()); fclose(f); }
      if (getenv("SXE_IDBG")) fprintf(stderr, "int z3: %d %.3fs\n", res, std::chrono::duration<double>(std::chrono::steady_clock::now() - t1).count());
      if (res != S_UNKNOWN) g_ss.intq++;
    }
  }
  if (res == S_UNKNOWN || (!g_dumpDir.empty() && g_dumped < g_dumpMax && !dv)) {
    Z3_solver s = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, fp ? "QF_FPBV" : "QF_BV"));
    Z3_solver_inc_ref(ctx, s);
    Z3_params p = Z3_mk_params(ctx);
    Z3_params_inc_ref(ctx, p);
    Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), std::min(g_timeout, fp ? 4000u : (dv ? 150u : 700u)));
    Z3_solver_set_params(ctx, s, p);
    Z3_params_dec_ref(ctx, p);
    for (Expr *c : slice) Z3_solver_assert(ctx, s, zbool(c));
    Z3_solver_assert(ctx, s, zbool(q));
    Z3_lbool r = Z3_solver_check(ctx, s);
    if (r == Z3_L_TRUE) {
      res = S_SAT;
      Z3_model m = Z3_solver_get_model(ctx, s);
      Z3_model_inc_ref(ctx, m);
      for (uint32_t v : vs) {
        u128 val = 0;
        if (v < g_zvars.size() && g_zvars[v]) {
          Z3_ast o;
          unsigned w = g_vars[v].w;
          auto get = [&](Z3_ast t) -> uint64_t { if (!Z3_model_eval(ctx, m, t, true, &o)) return 0; uint64_t x = 0; Z3_get_numeral_uint64(ctx, o, &x); return x; };
          if (w <= 64) val = get(g_zvars[v]);
          else val = (u128)get(Z3_mk_extract(ctx, 63, 0, g_zvars[v])) | (u128)get(Z3_mk_extract(ctx, w - 1, 64, g_zvars[v])) << 64;
        }
        mm[v] = val;
      }
      Z3_model_dec_ref(ctx, m);
    } else if (r == Z3_L_FALSE) res = S_UNSAT;
    bool dump = !g_dumpDir.empty() && g_dumped < g_dumpMax;
    if (res == S_UNKNOWN || dump) text = Z3_solver_to_string(ctx, s);
    if (dump && res != S_UNKNOWN) {
      char fn[512]; snprintf(fn, sizeof fn, "%s/q%04d_%s.smt2", g_dumpDir.c_str(), g_dumped++, res == S_SAT ? "sat" : "unsat");
      if (FILE *f = fopen(fn, "w")) { fprintf(f, "(set-logic %s)\n%s\n(check-sat)\n", fp ? "QF_BVFP" : "QF_BV", text.c_str()); fclose(f); }
    }
    Z3_solver_dec_ref(ctx, s);
  }
  if (res == S_UNKNOWN) { g_ss.portfolio++; 
    if (!fp && !dv) encodeInt();
    res = portfolio(text, itext, fp, vs, mm, g_timeout); }
  if (res == S_SAT) {
    mk([&](uint32_t v) { auto f = mm.find(v); return f == mm.end() ? (u128)0 : f->second; });
    bool ok = evalExpr(q, *out) == 1; // the model must satisfy the query under our own evaluator
    for (Expr *c : slice) if (evalExpr(c, *out) != 1) ok = false;
    if (!ok) { fprintf(stderr, "sxe: solver model does not satisfy the query under the evaluator (fp=%d)\n", fp); res = S_UNKNOWN; }
    else { g_ss.sat++; CacheEnt ce; ce.sat = true; for (auto &p : mm) ce.m.push_back(p); g_cache[key] = std::move(ce); g_recent.push_front(out); if (g_recent.size() > 6) g_recent.pop_back(); }
  } else if (res == S_UNSAT) { g_ss.unsat++; g_cache[key] = CacheEnt{false, {}}; }
  if (res == S_UNKNOWN) g_ss.unknown++;
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  g_ss.time += dt; if (dt > g_ss.maxq) g_ss.maxq = dt;
  return res;
}

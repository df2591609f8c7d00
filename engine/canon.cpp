// Canonical forms of word-level terms: sums as linear forms modulo 2^w, bitwise operations as XORs of masked ANDs, shifts and rotations as
// lists of slices.  Two terms with the same canonical form are equal for every assignment; used to decide equalities between
// large mixing networks (hash functions), which are out of reach for bit-blasting.
#include "sxe.h"
#include <algorithm>
#include <iterator>
#include <map>
#include <set>
typedef uint32_t Id;
struct Slice { Id id; unsigned lo, w; bool operator<(const Slice &o) const { return std::tie(id, lo, w) < std::tie(o.id, o.lo, o.w); } };
struct CN { enum T { CONST, ATOM, SUM, BIT, CAT } t; unsigned w; u128 c = 0; std::map<Id, u128> sum; std::map<std::vector<Id>, u128> bit; std::vector<Slice> cat; };
static std::vector<CN> g_cn; static std::map<std::string, Id> g_ci; static std::unordered_map<Expr *, Id> g_cm; static std::map<std::tuple<Id, unsigned, unsigned>, Id> g_xm;
static void put(std::string &s, uint64_t v) { s.append((char *)&v, 8); }
static Id reg(std::string key, CN n) { auto it = g_ci.find(key); if (it != g_ci.end()) return it->second; g_cn.push_back(std::move(n)); return g_ci[key] = (Id)g_cn.size() - 1; }
static Id cConst(u128 c, unsigned w) { c &= maskw(w); std::string k = "c"; put(k, w); put(k, (uint64_t)c); put(k, (uint64_t)(c >> 64)); CN n; n.t = CN::CONST; n.w = w; n.c = c; return reg(k, n); }
static Id cAtom(const std::string &k, unsigned w) { CN n; n.t = CN::ATOM; n.w = w; return reg(k, n); }
static Id cSum(std::map<Id, u128> m, u128 c, unsigned w) {
  for (auto it = m.begin(); it != m.end();) { it->second &= maskw(w); if (!it->second) it = m.erase(it); else ++it; } c &= maskw(w);
  if (m.empty()) return cConst(c, w); if (m.size() == 1 && !c && m.begin()->second == 1) return m.begin()->first;
  std::string k = "s"; put(k, w); put(k, (uint64_t)c); put(k, (uint64_t)(c >> 64)); for (auto &p : m) { put(k, p.first); put(k, (uint64_t)p.second); put(k, (uint64_t)(p.second >> 64)); }
  CN n; n.t = CN::SUM; n.w = w; n.c = c; n.sum = std::move(m); return reg(k, std::move(n)); }
static void addTo(std::map<Id, u128> &m, u128 &c, Id x, u128 f) { const CN &n = g_cn[x]; if (n.t == CN::CONST) c += n.c * f; else if (n.t == CN::SUM) { c += n.c * f; for (auto &p : n.sum) m[p.first] += p.second * f; } else m[x] += f; }
typedef std::map<std::vector<Id>, u128> Anf; // product of terms -> mask of the bits it contributes to
static void flip(Anf &a, const std::vector<Id> &m, u128 mask) { if (!mask) return; u128 &c = a[m]; c ^= mask; if (!c) a.erase(m); }
static Anf anf(Id x) { const CN &n = g_cn[x]; if (n.t == CN::BIT) return n.bit; Anf a; if (n.t == CN::CONST) flip(a, {}, n.c); else flip(a, {x}, maskw(n.w)); return a; }
static Id cBit(const Anf &a, unsigned w) {
  if (a.empty()) return cConst(0, w); if (a.size() == 1) { auto &p = *a.begin(); if (p.first.empty()) return cConst(p.second, w); if (p.first.size() == 1 && p.second == maskw(w)) return p.first[0]; }
  std::string k = "b"; put(k, w); for (auto &m : a) { put(k, m.first.size() | 1ull << 40); put(k, (uint64_t)m.second); put(k, (uint64_t)(m.second >> 64)); for (Id i : m.first) put(k, i); } CN n; n.t = CN::BIT; n.w = w; n.bit = a; return reg(k, std::move(n)); }
static Anf mulAnf(const Anf &x, const Anf &y) { Anf r; for (auto &a : x) for (auto &b : y) { std::vector<Id> m; std::set_union(a.first.begin(), a.first.end(), b.first.begin(), b.first.end(), std::back_inserter(m)); flip(r, m, a.second & b.second); } return r; }
static Id cExtract(Id x, unsigned lo, unsigned w);
static Id cCat(std::vector<Slice> v) { // low to high
  std::vector<Slice> r; unsigned w = 0;
  for (Slice s : v) { w += s.w; if (!r.empty()) { Slice &b = r.back(); if (b.id == s.id && b.lo + b.w == s.lo) { b.w += s.w; continue; } if (g_cn[b.id].t == CN::CONST && g_cn[s.id].t == CN::CONST && b.w + s.w <= 128) { u128 c = (g_cn[b.id].c >> b.lo & maskw(b.w)) | (g_cn[s.id].c >> s.lo & maskw(s.w)) << b.w; b = Slice{cConst(c, b.w + s.w), 0, b.w + s.w}; continue; } } r.push_back(s); }
  if (r.size() == 1 && r[0].lo == 0 && r[0].w == g_cn[r[0].id].w) return r[0].id;
  if (r.size() == 1 && g_cn[r[0].id].t == CN::CONST) return cConst(g_cn[r[0].id].c >> r[0].lo, r[0].w);
  std::string k = "k"; for (auto &s : r) { put(k, s.id); put(k, s.lo); put(k, s.w); } CN n; n.t = CN::CAT; n.w = w; n.cat = r; return reg(k, std::move(n)); }
static void slices(Id x, std::vector<Slice> &v) { const CN &n = g_cn[x]; if (n.t == CN::CAT) v.insert(v.end(), n.cat.begin(), n.cat.end()); else v.push_back(Slice{x, 0, n.w}); }
static Id cExtract(Id x, unsigned lo, unsigned w) {
  if (!lo && w == g_cn[x].w) return x; auto key = std::make_tuple(x, lo, w); auto f = g_xm.find(key); if (f != g_xm.end()) return f->second; CN n = g_cn[x]; Id r;
  if (n.t == CN::CONST) r = cConst(n.c >> lo, w);
  else if (n.t == CN::CAT) { std::vector<Slice> v; unsigned p = 0; for (auto &s : n.cat) { unsigned a = std::max(p, lo), b = std::min(p + s.w, lo + w); if (a < b) { Id q = cExtract(s.id, s.lo + a - p, b - a); slices(q, v); } p += s.w; } r = cCat(v); }
  else if (n.t == CN::BIT) { Anf a; for (auto &m : n.bit) { Anf t; flip(t, {}, m.second >> lo & maskw(w)); for (Id i : m.first) t = mulAnf(t, anf(cExtract(i, lo, w))); for (auto &q : t) flip(a, q.first, q.second); } r = cBit(a, w); }
  else if (n.t == CN::SUM && lo == 0) { std::map<Id, u128> m; u128 c = n.c; for (auto &p : n.sum) addTo(m, c, cExtract(p.first, 0, w), p.second); r = cSum(m, c, w); }
  else r = cCat({Slice{x, lo, w}});
  return g_xm[key] = r; }
static Id canon(Expr *e) {
  auto it = g_cm.find(e); if (it != g_cm.end()) return it->second; Id r, x[3] = {0, 0, 0}; for (int i = 0; i < e->n; i++) x[i] = canon(e->a[i]);
  switch (e->k) {
  case K_CONST: r = cConst(e->c, e->w); break;
  case K_ADD: case K_SUB: { std::map<Id, u128> m; u128 c = 0; addTo(m, c, x[0], 1); addTo(m, c, x[1], e->k == K_ADD ? (u128)1 : ~(u128)0); r = cSum(m, c, e->w); break; }
  case K_NOT: { Anf a = anf(x[0]); flip(a, {}, maskw(e->w)); r = cBit(a, e->w); break; }
  case K_XOR: { Anf a = anf(x[0]); for (auto &m : anf(x[1])) flip(a, m.first, m.second); r = cBit(a, e->w); break; }
  case K_AND: case K_OR: { Anf a = anf(x[0]), b = anf(x[1]); if (a.size() * b.size() <= 64) { Anf p = mulAnf(a, b); if (e->k == K_OR) { for (auto &m : a) flip(p, m.first, m.second); for (auto &m : b) flip(p, m.first, m.second); } r = cBit(p, e->w); break; } } // fall through
  default: {
    if (e->k == K_EXTRACT) { r = cExtract(x[0], e->lo, e->w); break; }
    if (e->k == K_CONCAT) { std::vector<Slice> v; slices(x[1], v); slices(x[0], v); r = cCat(v); break; }
    if (e->k == K_ZEXT) { std::vector<Slice> v; slices(x[0], v); slices(cConst(0, e->w - e->a[0]->w), v); r = cCat(v); break; }
    std::string k = "o"; put(k, e->k); put(k, e->w); put(k, e->lo); for (int i = 0; i < e->n; i++) put(k, x[i]); if (e->k == K_VAR) put(k, e->id); r = cAtom(k, e->w); } }
  return g_cm[e] = r;
}
bool canonEqual(Expr *a, Expr *b) { return a == b || canon(a) == canon(b); }

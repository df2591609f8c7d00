// 2-D array, union-find, z-buffer, searchable stack, set relation, bit fields, finalizable, scope guard
#include "util.h"
#include <icl_core/Array2D.h>
#include <icl_core/UnionFind.h>
#include <icl_core/SearchableStack.h>
#include <icl_core/SetHelper.h>
#include <icl_core/BitfieldHelper.h>
#include <icl_core/Finalizable.h>
#include <icl_core/AtScopeEnd.h>
#include <icl_core/ExpectedType.h>
#include <icl_core/Convert.h>
using namespace icl_core;
typedef Array2D<uint32_t> A2;
#ifdef VF_THOROUGH
static const unsigned AMAX = 6, UFN = 5, UFOPS = 4, SETU = 4;
#else
static const unsigned AMAX = 4, UFN = 4, UFOPS = 3, SETU = 3;
#endif
// any width/height: the flat index and the coordinates are inverse bijections
ENTRY array2d_index() {
  unsigned w = 1 + sx_choose(AMAX, "w"), h = 1 + sx_choose(AMAX, "h"); uint32_t v = sx_u32("v"); A2 a(w, h, v); const A2 &ca = a;
  sx_assert(a.width() == w && a.height() == h && a.size() == (size_t)w * h && !a.empty(), "dimensions");
  uint64_t i = sx_range("i", 0, w * h - 1); size_t c = 99, r = 99; a.indexTo2D(i, c, r);
  sx_assert(c < w && r < h, "index maps into the array"); sx_assert(a.index1D(c, r) == i, "2D -> 1D inverts 1D -> 2D");
  uint64_t x = sx_range("x", 0, w - 1), y = sx_range("y", 0, h - 1); size_t k = a.index1D(x, y); sx_assert(k < a.size(), "coordinates map into storage"); size_t c2, r2; a.indexTo2D(k, c2, r2); sx_assert(c2 == x && r2 == y, "1D -> 2D inverts 2D -> 1D");
  unsigned cx = sx_choose(w, "cx"), cy = sx_choose(h, "cy"); uint32_t nv = sx_u32("nv");
  int how = sx_choose(4, "how"); if (how == 0) a(cx, cy) = nv; else if (how == 1) a.at(cx, cy) = nv; else if (how == 2) a[a.index1D(cx, cy)] = nv; else a.at(a.index1D(cx, cy)) = nv;
  for (unsigned q = 0; q < h; ++q) for (unsigned p = 0; p < w; ++p) { uint32_t e = (p == cx && q == cy) ? nv : v; sx_observe("c", a(p, q));
    sx_assert(a(p, q) == e && ca(p, q) == e && a.at(p, q) == e && ca.at(p, q) == e && a[q * w + p] == e && ca[q * w + p] == e && a.at(q * w + p) == e && ca.at(q * w + p) == e, "a write changes exactly one cell, in row-major order"); }
}
ENTRY array2d_shape() {
  unsigned w = sx_choose(3, "w"), h = sx_choose(3, "h"), w2 = sx_choose(4, "w2"), h2 = sx_choose(4, "h2"); uint32_t v = sx_u32("v"), u = sx_u32("u"); A2 a(w, h, v);
  int op = sx_choose(8, "op"); uint32_t e = u; unsigned ew = w2, eh = h2; size_t keep = 0;
  switch (op) {
  case 0: a.resize(w2, h2); e = 0; keep = (size_t)w * h; break;
  case 1: a.resize(w2, h2, u); keep = (size_t)w * h; break;
  case 2: a.assign(w2, h2); e = 0; break;
  case 3: a.assign(w2, h2, u); break;
  case 4: a.reset(); e = 0; ew = w; eh = h; break;
  case 5: a.set(u); ew = w; eh = h; break;
  case 6: { A2 b(w2, h2, u); a.swap(b); sx_assert(b.width() == w && b.height() == h && b.size() == (size_t)w * h, "swap exchanges the shape"); for (size_t i = 0; i < b.size(); ++i) sx_assert(b[i] == v, "swap exchanges the content"); break; }
  case 7: { A2 b(w2, h2, u); a = b; A2 c(b); sx_assert(c.width() == w2 && c.height() == h2 && c.size() == b.size(), "copy shape"); if (b.size()) { b[0] = u + 1; sx_assert(a[0] == u && c[0] == u, "copies are independent"); } break; } }
  sx_assert(a.width() == ew && a.height() == eh && a.size() == (size_t)ew * eh && a.empty() == (ew * eh == 0), "shape after the operation");
  unsigned n = 0; for (A2::iterator it = a.begin(); it != a.end(); ++it, ++n) sx_assert(*it == (n < keep ? v : e), "content after the operation"); sx_assert(n == ew * eh, "iteration covers the array");
}
// union-find: find() is the canonical representative of the closure of all merges
ENTRY unionfind_eq() { sx_must_reach("uf");
  unsigned n = 1 + sx_choose(UFN, "n"); UnionFind uf(n); unsigned cls[16]; for (unsigned i = 0; i < n; ++i) cls[i] = i; sx_assert(uf.size() == n, "size");
  for (unsigned s = 0; s < UFOPS; ++s) {
    unsigned op = sx_choose(3, "op");
    if (op == 0) { unsigned x = sx_choose(n, "x"), y = sx_choose(n, "y"); uf.merge(x, y); unsigned a = cls[x], b = cls[y]; for (unsigned i = 0; i < n; ++i) if (cls[i] == a) cls[i] = b; }
    else if (op == 1) { unsigned x = sx_choose(n, "x"); uf.find(x); }
    else { static const unsigned GR[] = {1, 2, 4, 3}; unsigned k = GR[sx_choose(4, "grow")]; if (n + k > 12) return; uf.grow(k); for (unsigned i = 0; i < k; ++i) cls[n + i] = n + i; n += k; sx_assert(uf.size() == n, "grow adds elements"); }
  }
  for (unsigned i = 0; i < n; ++i) { size_t r = uf.find(i); sx_assert(r < n, "representative in range"); sx_assert(uf.find(r) == r, "representative is its own representative"); sx_assert(cls[r] == cls[i], "representative belongs to the class"); for (unsigned j = 0; j < n; ++j) sx_assert((uf.find(j) == r) == (cls[i] == cls[j]), "same representative exactly when connected by merges"); }
  sx_reach("uf");
}
ENTRY unionfind_range() {
  unsigned n = sx_choose(4, "n"); UnionFind uf(n); uint64_t x = sx_u64("x"), y = sx_u64("y"); bool t = false;
  try { uf.find(x); } catch (std::out_of_range &) { t = true; } sx_assert(t == (x >= n), "find throws exactly for elements outside the set");
  t = false; try { uf.merge(x, y); } catch (std::out_of_range &) { t = true; } sx_assert(t == (x >= n || y >= n), "merge throws exactly for elements outside the set");
}
// every sequence of merges joining different classes, up to renaming of elements not used before
ENTRY unionfind_forest() { sx_must_reach("uf-forest");
#ifdef VF_THOROUGH
  const unsigned N = 7, M = 6;
#else
  const unsigned N = 6, M = 5;
#endif
  UnionFind uf(N); unsigned cls[N], used = 0; for (unsigned i = 0; i < N; ++i) cls[i] = i;
  for (unsigned s = 0; s < M; ++s) {
    unsigned x = sx_choose(used + (used < N), "x"); if (x == used) ++used; unsigned y = sx_choose(used + (used < N), "y"); if (y == used) ++used;
    if (cls[x] == cls[y]) sx_done();
    uf.merge(x, y); unsigned a = cls[x], b = cls[y]; for (unsigned i = 0; i < N; ++i) if (cls[i] == a) cls[i] = b;
  }
  size_t rep[N]; for (unsigned i = 0; i < N; ++i) { rep[i] = uf.find(i); sx_assert(rep[i] < N && cls[rep[i]] == cls[i], "representative belongs to the class"); }
  for (unsigned i = 0; i < N; ++i) for (unsigned j = 0; j < i; ++j) sx_assert((rep[i] == rep[j]) == (cls[i] == cls[j]), "same representative exactly when connected by merges");
  sx_reach("uf-forest");
}
// long chains built rank by rank: path compression keeps the answer, for arbitrary query
ENTRY unionfind_chain() {
  UnionFind uf(16); for (unsigned step = 1; step < 16; step *= 2) for (unsigned i = 0; i < 16; i += 2 * step) uf.merge(i + (step == 2 ? sx_choose(2, "side") : 0), i + step + (step == 4 ? sx_choose(4, "side2") : 0));
  size_t r = uf.find(0); uint64_t q = sx_range("q", 0, 15); sx_assert(uf.find(sx_concretize(q)) == r, "all merged elements share the representative");
}
ENTRY stack_ops() {
  SearchableStack<uint32_t> s; uint32_t m[8]; unsigned n = 0; const SearchableStack<uint32_t> &cs = s;
  for (int k = 0; k < 4; ++k) { int op = sx_choose(4, "op"); if (op == 0 && n) { s.pop(); --n; } else if (op == 1 && n) { m[n - 1] = sx_u32("t"); s.top() = m[n - 1]; } else if (op == 2 && k == 2) { s.clear(); n = 0; } else { m[n] = sx_u32("e"); s.push(m[n]); ++n; } 
    sx_assert(s.size() == n && s.empty() == (n == 0), "size"); if (n) sx_assert(s.top() == m[n - 1] && cs.top() == m[n - 1], "top is the last element"); }
  unsigned i = 0; for (SearchableStack<uint32_t>::const_iterator it = s.begin(); it != s.end(); ++it) sx_assert(*it == m[i++], "iterates bottom to top"); sx_assert(i == n, "iterates all");
  for (SearchableStack<uint32_t>::const_reverse_iterator it = s.rbegin(); it != s.rend(); ++it) sx_assert(*it == m[--i], "reverse iterates top to bottom"); sx_assert(i == 0, "reverse iterates all");
  uint32_t q = sx_u32("q"); SearchableStack<uint32_t>::const_iterator f = s.find(q); unsigned e = n; for (unsigned j = n; j-- > 0;) if (m[j] == q) e = j;
  sx_assert(f - s.begin() == (long)e, "find returns the lowest matching element or end");
}
static SetRelation oracle(unsigned a, unsigned b) { if (a == b) return eSR_EQUAL; if ((a & b) == b) return eSR_PROPER_SUPERSET; if ((a & b) == a) return eSR_PROPER_SUBSET; if (a & b) return eSR_INTERSECTION_NONEMPTY; return eSR_DISJUNCT; }
// sets over a universe of symbolic, strictly ordered values
template <class C> static void setrel() {
  unsigned a = sx_choose(1 << SETU, "a"), b = sx_choose(1 << SETU, "b"); int32_t u[8]; for (unsigned i = 0; i < SETU; ++i) { u[i] = sx_i32("u"); if (i) sx_assume(u[i - 1] < u[i]); }
  std::set<int32_t, C> s1, s2; for (unsigned i = 0; i < SETU; ++i) { if (a >> i & 1) s1.insert(u[i]); if (b >> i & 1) s2.insert(u[i]); }
  SetRelation r = setRelation(s1, s2); sx_observe("rel", r); sx_assert(r == oracle(a, b), "set relation agrees with set theory");
}
ENTRY set_relation() { setrel<std::less<int32_t> >(); }
ENTRY set_relation_desc() { setrel<std::greater<int32_t> >(); }
template <class T> static void bitf(const char *) {
  T v = (T)sx_sym("field", sizeof(T) * 8); int32_t bits = sx_i32("bits"); T o = v; T m = (T)bits;
  setBits<T>(bits, v); sx_assert(v == (T)(o | m), "setBits sets exactly the given bits and keeps all others"); sx_observe("set", (uint64_t)v);
  v = o; clearBits<T>(bits, v); sx_assert(v == (T)(o & (T)~m), "clearBits clears exactly the given bits and keeps all others");
  int b = sx_choose((int)sizeof(T) * 8 < 31 ? (int)sizeof(T) * 8 : 31, "bit"); sx_assert(isBitSet<T>(1 << b, o) == ((o >> b & 1) != 0), "isBitSet reports the bit");
}
ENTRY bits_u8() { bitf<uint8_t>(""); } ENTRY bits_u16() { bitf<uint16_t>(""); } ENTRY bits_u32() { bitf<uint32_t>(""); } ENTRY bits_i32() { bitf<int32_t>(""); }
ENTRY bits_u64() { uint64_t v = sx_u64("field"), o = v; int32_t bits = sx_i32("bits"); sx_assume(bits >= 0); setBits<uint64_t>(bits, v); sx_assert(v == (o | (uint64_t)bits), "setBits keeps all other bits of a 64 bit field"); v = o; clearBits<uint64_t>(bits, v); sx_assert(v == (o & ~(uint64_t)bits), "clearBits keeps all other bits of a 64 bit field"); }
ENTRY finalizable() {
  uint32_t a = sx_u32("a"), b = sx_u32("b"), c = sx_u32("c"); Finalizable<uint32_t> f(a); bool fin = sx_choose(2, "fin"), how = sx_choose(2, "how"); if (sx_choose(2, "pre")) { f = b; a = b; }
  sx_assert(!f.isFinal(), "not final initially"); if (fin) f.finalize(); Finalizable<uint32_t> g(f); sx_assert(g.isFinal() == fin && (uint32_t)g == a, "copy carries value and finality");
  bool t = false; try { if (how) f = c; else { Finalizable<uint32_t> o(c); f = o; } } catch (std::logic_error &) { t = true; }
  sx_assert(t == fin, "assignment throws exactly when final"); sx_assert((uint32_t)f == (fin ? a : c), "a final object keeps its value"); sx_assert(f.isFinal() == fin, "assignment does not change finality");
}
static int g_count; static void bump() { ++g_count; }
ENTRY scope_end() {
  g_count = 0; unsigned n = sx_choose(4, "n"); bool on = true; bool thr = sx_choose(2, "thr");
  try { AtScopeEnd g(bump); for (unsigned i = 0; i < n; ++i) { on = sx_choose(2, "on"); if (on) g.enable(); else g.disable(); sx_assert(g_count == 0, "not run early"); } if (thr) throw 1; } catch (int) { }
  sx_assert(g_count == (on ? 1 : 0), "runs exactly once at scope end unless disabled");
}
ENTRY expected_type() {
  ExpectedTypeIs<int> i, i2; ExpectedTypeIs<double> d; const ExpectedType &ei = i, &ei2 = i2, &ed = d;
  sx_assert(ei.is<int>() && !ei.is<double>() && !ei.is<unsigned>() && ed.is<double>() && !ed.is<int>(), "is<T> exactly for the expected type"); sx_assert(ei == ei2 && !(ei == ed) && ei != ed && !(ei != ei2) && !(ed == ei), "equality exactly for equal types");
  int32_t x = sx_i32("x"); sx_assert(convert<int64_t>(x) == (int64_t)x && convert<uint8_t>(x) == (uint8_t)x, "convert is a static cast");
}

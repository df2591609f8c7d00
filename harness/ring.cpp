// Ring buffer against a bounded FIFO reference.
#include "util.h"
#include <icl_core/RingBuffer.h>
#include <stdexcept>
using icl_core::RingBuffer;
typedef RingBuffer<uint32_t> RB;
struct Ref { uint32_t v[12]; unsigned n, cap;
  void push(uint32_t x) { v[n++] = x; } void pop() { for (unsigned i = 1; i < n; ++i) v[i - 1] = v[i]; --n; }
  void drop(unsigned k) { while (k-- && n) pop(); } };
// every reachable internal rotation: rotate by r single writes/reads, then fill n fresh symbolic elements
static void setup(RB &b, Ref &m, unsigned cap) {
  m.n = 0; m.cap = cap;
  unsigned rot = sx_choose(cap + 1, "rot"), n = sx_choose(cap + 1, "fill");
  for (unsigned i = 0; i < rot; ++i) { b.write(0xdead0000u + i); sx_assert(b.read() == 0xdead0000u + i, "read returns the only element"); }
  for (unsigned i = 0; i < n; ++i) { uint32_t x = sx_u32("elem"); b.write(x); m.push(x); }
}
static void compare(const RB &cb, RB &b, const Ref &m) {
  sx_assert(b.capacity() == m.cap, "capacity"); sx_assert(b.size() == m.n, "size"); sx_assert(b.reserve() == m.cap - m.n, "reserve");
  sx_assert(b.empty() == (m.n == 0), "empty"); sx_assert(b.full() == (m.n == m.cap), "full");
  for (unsigned i = 0; i < m.n; ++i) { sx_assert(b.at(i) == m.v[i], "at(i) is the i-th oldest element"); sx_assert(cb.at(i) == m.v[i], "const at(i)"); sx_observe("at", b.at(i)); }
  if (m.n) { sx_assert(b.front() == m.v[0] && cb.front() == m.v[0], "front is the oldest element"); }
}
ENTRY ring_ops() { sx_must_reach("ring-ops");
  unsigned cap = 1 + sx_choose(4, "cap"); RB b(cap); Ref m; setup(b, m, cap); compare(b, b, m);
#ifdef VF_THOROUGH
  const int steps = 3;
#else
  const int steps = 2;
#endif
  for (int step = 0; step < steps; ++step) {
    bool threw = false; int op = sx_choose(7, "op"); sx_observe("op", op);
    switch (op) {
    case 0: { uint32_t x = sx_u32("x"); try { b.write(x); } catch (std::out_of_range &) { threw = true; } sx_assert(threw == (m.n == cap), "write throws exactly when full"); if (!threw) m.push(x); break; }
    case 1: { uint32_t x = sx_u32("x"); try { b.write(x, true); } catch (std::exception &) { threw = true; } sx_assert(!threw, "overwriting write never throws"); if (m.n == cap) m.pop(); m.push(x); break; }
    case 2: { uint32_t x = 0; try { x = b.read(); } catch (std::out_of_range &) { threw = true; } sx_assert(threw == (m.n == 0), "read throws exactly when empty"); if (!threw) { sx_assert(x == m.v[0], "read returns the oldest element"); m.pop(); } break; }
    case 3: { try { b.skip(); } catch (std::out_of_range &) { threw = true; } sx_assert(threw == (m.n == 0), "skip throws exactly when empty"); if (!threw) m.pop(); break; }
    case 4: { unsigned k = sx_choose(cap + 2, "k"); b.skip(k); m.drop(k); break; }
    case 5: b.clear(); m.n = 0; break;
    case 6: { uint64_t p = sx_u64("pos"); try { b.at(p); } catch (std::out_of_range &) { threw = true; } sx_assert(threw == (p >= m.n), "at throws exactly when out of range");
      threw = false; try { static_cast<const RB &>(b).at(p); } catch (std::out_of_range &) { threw = true; } sx_assert(threw == (p >= m.n), "const at throws exactly when out of range"); break; }
    }
    compare(b, b, m);
  }
  sx_reach("ring-ops");
}
ENTRY ring_huge_skip() { // any 64-bit count
  unsigned cap = 1 + sx_choose(3, "cap"); RB b(cap); Ref m; setup(b, m, cap);
  uint64_t k = sx_u64("k"); b.skip(k); unsigned left = k >= m.n ? 0 : (unsigned)(m.n - k);
  sx_assert(b.size() == left, "skip(n) removes min(n,size) elements"); m.drop((unsigned)sx_concretize(m.n - left)); compare(b, b, m);
}
ENTRY ring_capacity() {
  unsigned cap = 1 + sx_choose(4, "cap"); RB b(cap); Ref m; setup(b, m, cap);
  unsigned nc = sx_choose(6, "newcap"); b.setCapacity(nc); if (m.n > nc) m.drop(m.n - nc); m.cap = nc; compare(b, b, m);
  if (nc) { for (unsigned i = 0; i <= nc; ++i) { uint32_t x = sx_u32("x"); b.write(x, true); if (m.n == m.cap) m.pop(); m.push(x); } compare(b, b, m); }
}
ENTRY ring_copy() { // copies are equal and independent
  unsigned cap = 1 + sx_choose(3, "cap"); RB b(cap); Ref m; setup(b, m, cap);
  RB c(b); RB d(1); d.write(7); d = b; compare(c, c, m); compare(d, d, m);
  b.write(sx_u32("x"), true); compare(c, c, m); compare(d, d, m);
  Ref mc = m; c.clear(); mc.n = 0; compare(c, c, mc); compare(d, d, m);
}
ENTRY ring_default() { RB b; sx_assert(b.capacity() == 32 && b.empty() && !b.full() && b.reserve() == 32, "default capacity is 32"); uint32_t x = sx_u32("x"); for (unsigned i = 0; i < 32; ++i) b.write(x + i); sx_assert(b.full(), "full after capacity writes"); bool t = false; try { b.write(0); } catch (std::out_of_range &) { t = true; } sx_assert(t, "33rd write throws"); for (unsigned i = 0; i < 32; ++i) sx_assert(b.read() == x + i, "fifo order"); sx_assert(b.empty(), "drained"); }
// ---- array ranges and iterators ----
template <class R, class B> static void ranges(B &b, const Ref &m, R one, R two) {
  sx_assert(one.second + two.second == m.n, "filled ranges cover exactly the elements");
  for (unsigned i = 0; i < m.n; ++i) { uint32_t v = i < one.second ? one.first[i] : two.first[i - one.second]; sx_assert(v == m.v[i], "filled ranges list the elements in order"); sx_observe("rng", v); }
}
ENTRY ring_ranges() {
  unsigned cap = 1 + sx_choose(4, "cap"); RB b(cap); Ref m; setup(b, m, cap); const RB &cb = b;
  ranges(b, m, b.arrayOne(), b.arrayTwo()); ranges(cb, m, cb.arrayOne(), cb.arrayTwo());
  RB::array_range e1 = b.emptyArrayOne(), e2 = b.emptyArrayTwo(); RB::const_array_range c1 = cb.emptyArrayOne(), c2 = cb.emptyArrayTwo();
  sx_assert(e1.second + e2.second == cap - m.n, "empty ranges cover exactly the free space");
  sx_assert(c1.first == e1.first && c1.second == e1.second && c2.second == e2.second && (c2.first == e2.first), "const and mutable empty ranges agree");
  // fill through the raw pointers, then publish k of them
  unsigned room = cap - m.n; uint32_t x[8]; for (unsigned i = 0; i < room; ++i) { x[i] = sx_u32("raw"); if (i < e1.second) e1.first[i] = x[i]; else e2.first[i - e1.second] = x[i]; }
  compare(b, b, m); // writing raw data does not change the content
  uint64_t k = sx_u64("k"); uint64_t kk = k > room ? room : k; b.fakeWrite(k); sx_assert(b.size() == m.n + kk, "fakeWrite grows by min(n, reserve)");
  unsigned c = (unsigned)sx_concretize(kk); for (unsigned i = 0; i < c; ++i) m.push(x[i]); compare(b, b, m);
  ranges(b, m, b.arrayOne(), b.arrayTwo());
}
ENTRY ring_iter() {
  unsigned cap = 1 + sx_choose(4, "cap"); RB b(cap); Ref m; setup(b, m, cap); const RB &cb = b;
  unsigned i = 0; for (RB::iterator it = b.begin(); it != b.end(); ++it, ++i) { sx_assert(i < m.n, "forward iteration ends"); sx_assert(*it == m.v[i], "forward iteration in order"); } sx_assert(i == m.n, "forward iteration visits all");
  i = 0; for (RB::const_iterator it = cb.begin(); it != cb.end(); it++, ++i) { sx_assert(i < m.n, "const forward iteration ends"); sx_assert(*it == m.v[i], "const forward iteration in order"); } sx_assert(i == m.n, "const forward iteration visits all");
  i = m.n; for (RB::const_iterator it = cb.end(); it != cb.begin();) { sx_assert(i > 0, "backward iteration ends"); --it; --i; sx_assert(*it == m.v[i], "backward iteration in order"); } sx_assert(i == 0, "backward iteration visits all");
  sx_assert(cb.end() - cb.begin() == (long)m.n && cb.begin() - cb.end() == -(long)m.n, "iterator distance is the size");
  for (unsigned a = 0; a <= m.n; ++a) for (unsigned c = 0; c <= m.n; ++c) {
    RB::const_iterator ia = cb.begin() + a, ic = cb.begin() + c;
    sx_assert(ic - ia == (long)c - (long)a, "iterator difference"); sx_assert((ia == ic) == (a == c), "iterator equality"); sx_assert((ia != ic) == (a != c), "iterator inequality");
    ia += (long)c - (long)a; sx_assert(ia == ic, "it + (jt - it) == jt"); if (c < m.n) { sx_assert(*ia == m.v[c], "advanced iterator points at its element"); sx_assert(ia.operator->() == &cb.at(c), "arrow"); }
    RB::const_iterator im = cb.end() - (long)(m.n - c); sx_assert(im == ic, "end - k"); im -= (long)c; sx_assert(im == cb.begin(), "-= k"); }
  if (m.n) { uint32_t x = sx_u32("x"); unsigned k = sx_choose(m.n, "k"); RB::iterator it = b.begin(); for (unsigned j = 0; j < k; ++j) it++; *it = x; m.v[k] = x; compare(b, b, m); RB::iterator jt(it); RB::const_iterator old = jt--; sx_assert(old == it, "post-decrement returns the old position"); }
}

#include "util.h"
#include <icl_core/ZBuffer.h>
using namespace icl_core;
template <class C> static void run(bool (*less)(int32_t, int32_t)) {
  unsigned n = 1 + sx_choose(3, "n"); ZBuffer<int32_t, C> z(n); bool have[4] = {0}; int32_t v[4] = {0}; sx_assert(z.size() == n, "size");
  for (int s = 0; s < 4; ++s) { unsigned p = sx_choose(n, "p"); int32_t x = sx_i32("x"); bool rep = z.update(p, x); bool e = !have[p] || less(x, v[p]); sx_assert(rep == e, "update reports a replacement exactly when empty or better"); if (e) { have[p] = true; v[p] = x; }
    for (unsigned i = 0; i < n; ++i) { sx_assert(bool(z[i]) == have[i] && bool(z.at(i)) == have[i] && bool(z.buffer()[i]) == have[i], "cell occupancy"); if (have[i]) { sx_assert(*z.at(i) == v[i] && *z[i] == v[i], "cell holds the best value offered"); sx_observe("v", (uint32_t)*z[i]); } } }
  z.reset(); sx_assert(z.size() == n, "reset keeps the size"); for (unsigned i = 0; i < n; ++i) sx_assert(!z[i], "reset empties every cell");
}
static bool lt(int32_t a, int32_t b) { return a < b; } static bool gt(int32_t a, int32_t b) { return a > b; }
ENTRY zbuf_less() { run<std::less<int32_t> >(lt); }
ENTRY zbuf_greater() { run<std::greater<int32_t> >(gt); }

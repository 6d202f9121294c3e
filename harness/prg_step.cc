// one request from every reachable counter value (the state is set directly)
#include <cstring>
#include <memory>
#include <stdexcept>
#include <vector>
#include <wmmintrin.h>
#define private public
#include "scl/prg.h"
#undef private
#define main_entries
#include "prg.cc"
// the state is reached by name; without a member of that name there is nothing to set
template <typename G>
static auto jump(G& g, std::uint64_t c, int) -> decltype((void)(g.mCounter = 1), std::uint64_t()) {
  g.mCounter = (decltype(g.mCounter))c;
  return c;
}
template <typename G>
static std::uint64_t jump(G&, std::uint64_t, long) { return 0; }
extern "C" void h_step() {
  u8 seed[16];
  sym_mem(seed, 16, "seed");
  __m128i w[11];
  keys(seed, w);
  scl::PRG g(seed);
  std::uint64_t c = sym_u64("counter");
  sym_assume(c < (std::uint64_t)1 << 62);
  c = jump(g, c, 0);
  unsigned n = size("n", 70);
  auto v = g.Next(n);
  check_bytes(v.data(), n, w, c, "output is the counter mode stream of the seed");
  sym_assert((std::uint64_t)g.Counter() == c + (n + 15) / 16, "the counter advances by the blocks used");
  sym_reach("end");
}

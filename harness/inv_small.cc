// The inversion algorithm of the prime fields instantiated at a small prime:
// every element of the field.
#include <cstring>
#include <stdexcept>
#include "sym.h"
#include "scl/math/ff.h"
#include "scl/math/fields/details.h"
#ifndef PRIME
#define PRIME 31
#endif
#ifndef PB
#define PB 5
#endif
using T = std::uint16_t;
using S = std::int16_t;
extern "C" void h_inv_all() {
  T v = (T)sym_uint(PB, "v");
  sym_assume(v > 0 && v < PRIME);
  T t = v, in = v;
  scl::details::InverseModPrimeSimpleType<T, S>(t, in, (T)PRIME);
  sym_assert(t < PRIME, "inverse is canonical");
  sym_assert((std::uint32_t)((std::uint32_t)t * v) % PRIME == 1, "x * inverse(x) == 1");
  sym_reach("end");
}

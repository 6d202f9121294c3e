// API a harness uses to talk to the symbolic executor (irsym) or, when the
// same harness is compiled natively, to the counterexample replayer
// (native.cc).  Nothing in here depends on the code under test.
#ifndef VERIF_SYM_H
#define VERIF_SYM_H
#include <cstddef>
#include <cstdint>
extern "C" {
// fresh symbolic unsigned value of `bits` (<= 64) bits
std::uint64_t sym_uint(unsigned bits, const char* name);
// make n bytes at p symbolic
void sym_mem(void* p, std::size_t n, const char* name);
// constrain the inputs (path is dropped if infeasible)
void sym_assume(bool c);
// the property: decided by the solver for every value on this path
void sym_assert(bool c, const char* what);
// reachability witness: must be hit by at least one feasible path
void sym_reach(const char* tag);
// identity the optimizer cannot see through
std::uint64_t sym_opaque(std::uint64_t v);
// fork until v is concrete
std::uint64_t sym_concrete(std::uint64_t v);
// executor only: assert stays in force as an assumption afterwards
// scheduling primitives used by the runtime model (rt.cc)
void __sym_spawn(void (*fn)(void*), void* arg);
void __sym_yield();
void __sym_wait(const void* addr);
void __sym_wake(const void* addr, int all);
int __sym_self();
int __sym_finished(int tid);
}
static inline std::uint8_t sym_u8(const char* n) { return (std::uint8_t)sym_uint(8, n); }
static inline std::uint16_t sym_u16(const char* n) { return (std::uint16_t)sym_uint(16, n); }
static inline std::uint32_t sym_u32(const char* n) { return (std::uint32_t)sym_uint(32, n); }
static inline std::uint64_t sym_u64(const char* n) { return sym_uint(64, n); }
static inline __uint128_t sym_u128(const char* n) {
  __uint128_t hi = sym_uint(64, n);
  __uint128_t lo = sym_uint(64, n);
  return (hi << 64) | lo;
}
#endif

// SHA3 through the public Hash<B> API.
#include <cstring>
#include <string>
#include "sym.h"
#include "scl/hash.h"
#ifndef DBITS
#define DBITS 256
#endif
#ifndef LEN
#define LEN 9
#endif
using u64 = std::uint64_t;
using H = scl::details::Hash<DBITS>;
static constexpr unsigned RATE = 200 - DBITS / 4;
// FIPS 202: lanes are a[x + 5y]
static void permutation(u64 a[25]) {
  auto rot = [](u64 v, unsigned n) { return n % 64 ? (v << n) | (v >> (64 - n)) : v; };
  unsigned lfsr = 1;
  for (int round = 0; round < 24; round++) {
    u64 c[5], b[25];
    for (int x = 0; x < 5; x++) c[x] = a[x] ^ a[x + 5] ^ a[x + 10] ^ a[x + 15] ^ a[x + 20];
    for (int x = 0; x < 5; x++)
      for (int y = 0; y < 5; y++) a[x + 5 * y] ^= c[(x + 4) % 5] ^ rot(c[(x + 1) % 5], 1);
    b[0] = a[0];
    int x = 1, y = 0;
    for (int t = 0; t < 24; t++) {
      int nx = y, ny = (2 * x + 3 * y) % 5;
      b[nx + 5 * ny] = rot(a[x + 5 * y], (t + 1) * (t + 2) / 2 % 64);
      x = nx;
      y = ny;
    }
    for (x = 0; x < 5; x++)
      for (y = 0; y < 5; y++) a[x + 5 * y] = b[x + 5 * y] ^ (~b[(x + 1) % 5 + 5 * y] & b[(x + 2) % 5 + 5 * y]);
    for (int j = 0; j < 7; j++) {
      if (lfsr & 1) a[0] ^= (u64)1 << ((1 << j) - 1);
      lfsr = (lfsr << 1) ^ ((lfsr >> 7) * 0x171);
    }
  }
}
template <class P> static void sponge(const unsigned char* m, unsigned n, unsigned char* out, P perm) {
  unsigned total = (n / RATE + 1) * RATE;
  u64 a[25] = {0};
  for (unsigned i = 0; i < total; i += 8) {
    u64 w = 0;
    for (unsigned j = 8; j-- > 0;) {
      unsigned char c = i + j < n ? m[i + j] : i + j == n ? 0x06 : 0;
      if (i + j == total - 1) c |= 0x80;
      w = (w << 8) | c;
    }
    a[i % RATE / 8] ^= w;
    if (i % RATE == RATE - 8) perm(a);
  }
  for (unsigned i = 0; i < DBITS / 8; i++) out[i] = (unsigned char)(a[i / 8] >> (8 * (i % 8)));
}
extern "C" {
// the permutation of the code under test is that of the standard, on every state
void h_permutation() {
  u64 a[25], b[25];
  for (int i = 0; i < 25; i++) a[i] = b[i] = sym_u64("lane");
  scl::details::Keccakf(a);
  permutation(b);
  for (int i = 0; i < 25; i++) sym_assert(a[i] == b[i], "the permutation is that of the standard");
  sym_reach("end");
}
// every message of length LEN, split in every way over three updates
void h_split() {
  unsigned char m[LEN + 1], want[DBITS / 8];
  for (unsigned i = 0; i < LEN; i++) m[i] = sym_u8("m");
  sponge(m, LEN, want, [](u64* a) { scl::details::Keccakf(a); });
  unsigned s1 = sym_u8("s1"), s2 = sym_u8("s2");
  sym_assume(s1 <= s2 && s2 <= LEN);
#ifdef NEAR
  sym_assume((s1 < 3 || (s1 >= RATE - 9 && s1 <= RATE + 1)) && (s2 == LEN || (s2 >= RATE - 9 && s2 <= RATE + 9)));
#endif
  s1 = (unsigned)sym_concrete(s1);
  s2 = (unsigned)sym_concrete(s2);
  H h;
  h.Update(m, s1).Update(m + s1, s2 - s1);
  h.Update(std::vector<unsigned char>(m + s2, m + LEN));
  auto d = h.Finalize();
  sym_assert(d.size() == DBITS / 8, "digest size");
  for (unsigned i = 0; i < DBITS / 8; i++) sym_assert(d[i] == want[i], "the digest is SHA3 of the concatenated bytes");
  sym_reach("end");
}
// two updates split near a block boundary
void h_edge() {
  unsigned char m[LEN + 1], want[DBITS / 8];
  for (unsigned i = 0; i < LEN; i++) m[i] = sym_u8("m");
  sponge(m, LEN, want, [](u64* a) { scl::details::Keccakf(a); });
  unsigned s1 = sym_u8("s1");
  sym_assume(s1 + 9 >= RATE && s1 <= LEN);
  s1 = (unsigned)sym_concrete(s1);
  H h;
  h.Update(m, s1).Update(std::vector<unsigned char>(m + s1, m + LEN));
  auto d = h.Finalize();
  for (unsigned i = 0; i < DBITS / 8; i++) sym_assert(d[i] == want[i], "the digest is SHA3 of the concatenated bytes");
  sym_reach("end");
}
// one update per byte
void h_bytes() {
  unsigned char m[LEN + 1], want[DBITS / 8];
  for (unsigned i = 0; i < LEN; i++) m[i] = sym_u8("m");
  sponge(m, LEN, want, [](u64* a) { scl::details::Keccakf(a); });
  H h;
  for (unsigned i = 0; i < LEN; i++) h.Update(m + i, 1);
  auto d = h.Finalize();
  for (unsigned i = 0; i < DBITS / 8; i++) sym_assert(d[i] == want[i], "the digest is SHA3 of the concatenated bytes");
  sym_reach("end");
}
// concrete messages against the standard permutation
void h_fixed() {
  unsigned char m[300], want[DBITS / 8];
  for (unsigned i = 0; i < 300; i++) m[i] = (unsigned char)(i * 37 + 11);
  const unsigned ns[] = {0, 1, 7, 8, 9, RATE - 1, RATE, RATE + 1, 299};
  for (unsigned n : ns) {
    sponge(m, n, want, permutation);
    auto d = H().Update(m, n).Finalize();
    for (unsigned i = 0; i < DBITS / 8; i++) sym_assert(d[i] == want[i], "the digest is SHA3 of the concatenated bytes");
  }
  sym_reach("end");
}
}

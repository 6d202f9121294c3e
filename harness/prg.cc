// The generator through its public interface.  The cipher is AES-128: its
// single instructions are uninterpreted for symbolic data (and exact for
// concrete data); the reference below follows FIPS 197.
#include <cstring>
#include <memory>
#include <stdexcept>
#include <vector>
#include <wmmintrin.h>
#include <emmintrin.h>
#include <smmintrin.h>
#include "sym.h"
#include "scl/prg.h"
#ifndef NREQ
#define NREQ 3
#endif
#ifndef HOW
#define HOW 0
#endif
#ifndef MAXN
#define MAXN 20
#endif
using u8 = unsigned char;
using u32 = std::uint32_t;
// AES-128 with the processor's round function
static void keys(const u8* seed, __m128i k[11]) {
  k[0] = _mm_loadu_si128((const __m128i*)seed);
  for (int i = 0; i < 10; i++) {
    __m128i p = k[i], q;
    switch (i) {
#define R(k, c) case k: q = _mm_aeskeygenassist_si128(p, c); break;
      R(0, 0x01) R(1, 0x02) R(2, 0x04) R(3, 0x08) R(4, 0x10) R(5, 0x20) R(6, 0x40) R(7, 0x80) R(8, 0x1b)
      default: q = _mm_aeskeygenassist_si128(p, 0x36);
    }
    // running sums of the four words
    for (int j = 0; j < 3; j++) p = _mm_xor_si128(p, _mm_slli_si128(p, 4));
    k[i + 1] = _mm_xor_si128(p, _mm_shuffle_epi32(q, 0xff));
  }
}
static void block(const __m128i* w, std::uint64_t ctr, u8 out[16]) {
  std::uint64_t pt[2] = {ctr, PRG_NONCE};
  auto k = [&](int i) { return w[i]; };
  __m128i m = _mm_xor_si128(_mm_loadu_si128((const __m128i*)pt), k(0));
  for (int i = 1; i < 10; i++) m = _mm_aesenc_si128(m, k(i));
  _mm_storeu_si128((__m128i*)out, _mm_aesenclast_si128(m, k(10)));
}
// AES-128 from the byte-wise definition (concrete keys only)
static u8 xt(u8 a) { return (u8)((a << 1) ^ ((a >> 7) * 0x1b)); }
static u8 gmul(u8 a, u8 b) {
  u8 r = 0;
  for (; b; b >>= 1, a = xt(a))
    if (b & 1) r ^= a;
  return r;
}
static u8 SB[256];
static void sbox() {
  for (int i = 0; i < 256; i++) {
    u8 v = 0, x = (u8)i;
    if (x) {
      v = 1;
      for (int k = 0; k < 254; k++) v = gmul(v, x);
    }
    u8 r = v;
    for (int k = 1; k < 5; k++) r ^= (u8)((v << k) | (v >> (8 - k)));
    SB[i] = r ^ 0x63;
  }
}
static void fips(const u8 key[16], const u8 in[16], u8 out[16]) {
  u8 w[176], s[16], t[16], rc = 1;
  std::memcpy(w, key, 16);
  for (int i = 16; i < 176; i += 4) {
    u8 x[4] = {w[i - 4], w[i - 3], w[i - 2], w[i - 1]};
    if (i % 16 == 0) {
      u8 y = x[0];
      x[0] = SB[x[1]] ^ rc; x[1] = SB[x[2]]; x[2] = SB[x[3]]; x[3] = SB[y];
      rc = xt(rc);
    }
    for (int j = 0; j < 4; j++) w[i + j] = w[i - 16 + j] ^ x[j];
  }
  for (int i = 0; i < 16; i++) s[i] = in[i] ^ w[i];
  for (int r = 1; r <= 10; r++) {
    for (int c = 0; c < 4; c++)
      for (int i = 0; i < 4; i++) t[4 * c + i] = SB[s[4 * ((c + i) % 4) + i]];
    for (int c = 0; c < 4; c++)
      for (int i = 0; i < 4; i++) {
        u8* a = t + 4 * c;
        s[4 * c + i] = r == 10 ? a[i] : (u8)(gmul(a[i], 2) ^ gmul(a[(i + 1) % 4], 3) ^ a[(i + 2) % 4] ^ a[(i + 3) % 4]);
      }
    for (int i = 0; i < 16; i++) s[i] ^= w[16 * r + i];
  }
  std::memcpy(out, s, 16);
}
static void check_bytes(const u8* got, unsigned n, const __m128i* w, std::uint64_t first, const char* what) {
  for (unsigned b = 0; b * 16 < n; b++) {
    u8 want[16];
    block(w, first + b, want);
    for (unsigned j = 0; j < 16 && b * 16 + j < n; j++) sym_assert(got[b * 16 + j] == want[j], what);
  }
}
static unsigned size(const char* nm, unsigned mx) {
  unsigned n = sym_u8(nm);
  sym_assume(n <= mx);
  return (unsigned)sym_concrete(n);
}
extern "C" {
// every seed, every sequence of NREQ request sizes, alternating between the interfaces; then a reset
void h_stream() {
  std::unique_ptr<u8[]> seed(new u8[16]);
  sym_mem(seed.get(), 16, "seed");
  __m128i w[11];
  keys(seed.get(), w);
  scl::PRG g(seed.get());
  for (int i = 0; i < 16; i++) sym_assert(g.Seed()[i] == seed[i], "the seed is the one given");
  seed.reset();
  std::uint64_t c = 0;
  for (int r = 0; r < NREQ; r++) {
    unsigned n = size("n", MAXN), how = (HOW + r) % 4;
#ifdef EDGES
    n = n < 6 ? (n % 3) + 15 + 16 * (n / 3) : n - 6;
#endif
    sym_assert((std::uint64_t)g.Counter() == c, "the counter is the number of blocks used");
    std::vector<u8> v;
    if (how == 0) {
      std::unique_ptr<u8[]> p(new u8[n]);
      g.Next(p.get(), n);
      v.assign(p.get(), p.get() + n);
    } else if (how == 1) v = g.Next(n);
    else if (how == 2) {
      v.resize(n);
      g.Next(v);
    } else {
      v.assign(n + 2, 0xA5);
      g.Next(v, n);
      sym_assert(v[n] == 0xA5 && v[n + 1] == 0xA5, "exactly the requested bytes are written");
      v.resize(n);
    }
    sym_assert(v.size() == n, "as many bytes as requested");
    check_bytes(v.data(), n, w, c, "output is the counter mode stream of the seed");
    c += (n + 15) / 16;
  }
  scl::PRG copy(g);
  auto x = copy.Next(3);
  check_bytes(x.data(), 3, w, c, "a copied generator continues the stream");
  x = g.Next(3);
  check_bytes(x.data(), 3, w, c, "copies are independent");
  g.Reset();
  x = g.Next(17);
  check_bytes(x.data(), 17, w, 0, "reset starts the stream over");
  sym_reach("end");
}
// long requests
void h_long() {
  u8 seed[16];
  sym_mem(seed, 16, "seed");
  __m128i w[11];
  keys(seed, w);
  scl::PRG g(seed);
  for (unsigned n : {1000u, 16u, 4096u, 33u}) {
    std::uint64_t c = (std::uint64_t)g.Counter();
    auto v = g.Next(n);
    check_bytes(v.data(), n, w, c, "output is the counter mode stream of the seed");
    sym_assert((std::uint64_t)g.Counter() == c + (n + 15) / 16, "the counter advances by the blocks used");
  }
  sym_reach("end");
}
// asking for more than the destination holds is refused and changes nothing
void h_refuse() {
  scl::PRG g;
  unsigned sz = size("sz", 4), n = size("n", 6);
  std::vector<u8> v(sz, 0x5A);
  bool thrown = false;
  try {
    g.Next(v, n);
  } catch (const std::invalid_argument&) {
    thrown = true;
  }
  sym_assert(thrown == (n > sz), "refused exactly when the destination is too small");
  if (thrown) {
    for (unsigned i = 0; i < sz; i++) sym_assert(v[i] == 0x5A, "a refused request writes nothing");
    sym_assert(g.Counter() == 0, "a refused request uses no block");
    sym_reach("refused");
  } else sym_reach("accepted");
}
// concrete keys against the byte-wise definition of the cipher, the default seed among them
void h_known() {
  sbox();
  for (int k = 0; k < 6; k++) {
    u8 seed[16], want[16];
    std::uint64_t pt[2] = {0, PRG_NONCE};
    for (int i = 0; i < 16; i++) seed[i] = k ? (u8)(i * 37 * k + 91 * k + (i * i) * k) : 0;
    if (k == 1) for (int i = 0; i < 16; i++) seed[i] = (u8)i;
    scl::PRG g = k ? scl::PRG(seed) : scl::PRG();
    for (int b = 0; b < 3; b++) {
      pt[0] = b;
      fips(seed, (const u8*)pt, want);
      auto v = g.Next(16);
      for (int i = 0; i < 16; i++) sym_assert(v[i] == want[i], "blocks are AES-128 of nonce and counter");
    }
  }
  sym_reach("end");
}
}

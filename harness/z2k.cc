// Integers modulo 2^K through the public Z2k<K> API.
#include <cstring>
#include <stdexcept>
#include "sym.h"
#include "scl/math/z2k.h"
#ifndef KBITS
#define KBITS 32
#endif
using Z = scl::Z2k<KBITS>;
using u128 = __uint128_t;
using W = Z::ValueType;
static constexpr std::size_t NB = Z::ByteSize();
static constexpr unsigned WB = sizeof(W) * 8;
static const W MASK = (W)(~(W)0) >> (WB - KBITS);
static W sym_w(const char* n) {
  if constexpr (sizeof(W) == 8) return sym_u64(n); else return sym_u128(n);
}
static W op(W v) {
  if constexpr (sizeof(W) == 8) return sym_opaque(v);
  else return ((W)sym_opaque((std::uint64_t)(v >> 64)) << 64) | sym_opaque((std::uint64_t)v);
}
// value of an element as serialized: buffers have exactly ByteSize() bytes
static W val(const Z& z) {
  unsigned char* b = new unsigned char[NB];
  z.Write(b);
  W w = 0;
  std::memcpy(&w, b, NB);
  delete[] b;
  return w;
}
static Z rd(W w) {
  unsigned char* b = new unsigned char[NB];
  std::memcpy(b, &w, NB);
  Z z = Z::Read(b);
  delete[] b;
  return z;
}
extern "C" {
void h_layout() {
  sym_assert(NB == (KBITS + 7) / 8, "byte size is the number of bytes needed for K bits");
  sym_assert(Z::BitSize() == KBITS, "bit size is K");
  sym_reach("end");
}
void h_ring() {
  // elements built from arbitrary (also non normalized) raw values
  W a = sym_w("a"), b = sym_w("b");
  Z x(a), y(b);
  sym_assert(val(x) == (a & MASK), "value constructor is reduction mod 2^K");
  sym_assert(val(x + y) == ((a + b) & MASK), "sum");
  sym_assert(val(x - y) == ((a - b) & MASK), "difference");
  sym_assert(val(-x) == ((W)(0 - a) & MASK), "negation");
  sym_assert((x == y) == (((a ^ b) & MASK) == 0), "equality is congruence mod 2^K");
  sym_assert((x != y) == (((a ^ b) & MASK) != 0), "inequality");
  sym_assert(x.Lsb() == (unsigned)(a & 1), "least significant bit");
  Z z = x;
  sym_assert(val(z.Negated()) == ((W)(0 - a) & MASK), "negated copy");
  sym_assert(val(z) == (a & MASK), "Negated leaves the operand");
  z += y; sym_assert(val(z) == ((a + b) & MASK), "in-place sum");
  z = x; z -= y; sym_assert(val(z) == ((a - b) & MASK), "in-place difference");
  z = x; z.Negate(); sym_assert(val(z) == ((W)(0 - a) & MASK), "in-place negation");
  z = x; z += z; sym_assert(val(z) == ((a + a) & MASK), "aliased sum");
  z = x; z -= z; sym_assert(val(z) == 0, "aliased difference");
  sym_assert(val(Z()) == 0, "default is zero");
  sym_reach("end");
}
void h_mul() {
  W a = sym_w("a"), b = sym_w("b");
  Z x(a), y(b);
  W oa = op(a), ob = op(b);
  sym_assert(val(x * y) == ((oa * ob) & MASK), "product");
  Z z = x; z *= y;
  sym_assert(val(z) == ((oa * ob) & MASK), "in-place product");
  sym_assert(val(x) == (a & MASK), "product leaves left operand");
  sym_assert(val(y) == (b & MASK), "product leaves right operand");
  sym_reach("end");
}
#ifndef INVBITS
#define INVBITS KBITS
#endif
// inverse of a unit; at most INVBITS symbolic bits from position INVPOS
#ifndef INVPOS
#define INVPOS 0
#endif
void h_inv() {
  W a = sym_w("a");
#if INVBITS < KBITS
  a = ((a & (((W)1 << INVBITS) - 1)) << INVPOS);
#endif
  a |= 1;
  Z x(a);
  Z r = x.Inverse();
  sym_assert(val(r * x) == ((W)1 & MASK), "x * x^-1 == 1");
  sym_assert(val(x) == (a & MASK), "Inverse leaves the operand");
  sym_reach("end");
}
void h_div() {
  W a = sym_w("a"), b = sym_w("b");
  b |= 1;
  Z x(a), y(b);
  Z q = x / y;
  sym_assert(val(q) == val(x * y.Inverse()), "division is multiplication by the inverse");
  Z w = x; w /= y;
  sym_assert(val(w) == val(q), "in-place division");
  Z i = y; i.Invert();
  sym_assert(val(i) == val(y.Inverse()), "in-place inverse");
  sym_reach("end");
}
void h_inv_even() {
  W a = sym_w("a");
  a &= ~(W)1;
  Z x(a), y(sym_w("b"));
  bool t1 = false, t2 = false, t3 = false;
  try { x.Inverse(); } catch (const std::invalid_argument&) { t1 = true; }
  try { y / x; } catch (const std::invalid_argument&) { t2 = true; }
  try { x.Invert(); } catch (const std::invalid_argument&) { t3 = true; }
  sym_assert(t1, "inverse of a non-unit throws");
  sym_assert(t2, "division by a non-unit throws");
  sym_assert(t3, "in-place inverse of a non-unit throws");
  sym_assert(val(x) == (a & MASK), "failed inversion leaves the element");
  sym_reach("end");
}
// exactly ByteSize() bytes are read and written, canonical encoding
void h_serial() {
  unsigned char* src = new unsigned char[NB];
  sym_mem(src, NB, "src");
  W v = 0;
  std::memcpy(&v, src, NB);
  Z x = Z::Read(src);
  unsigned char* dst = new unsigned char[NB + 2];
  dst[NB] = 0xA5; dst[NB + 1] = 0x5A;
  x.Write(dst);
  W w = 0;
  std::memcpy(&w, dst, NB);
  sym_assert(w == (v & MASK), "write(read(b)) is b reduced mod 2^K");
  sym_assert(dst[NB] == 0xA5 && dst[NB + 1] == 0x5A, "write touches exactly ByteSize() bytes");
  Z y = Z::Read(dst);
  sym_assert(x == y, "read(write(x)) == x");
  delete[] src; delete[] dst;
  sym_reach("end");
}
// elements that are not normalized internally serialize canonically
void h_serial_nonnorm() {
  W a = sym_w("a"), b = sym_w("b");
  Z x(a), y(b);
  Z s = x - y;
  unsigned char* p = new unsigned char[NB]; unsigned char* q = new unsigned char[NB];
  s.Write(p);
  Z t = Z::Read(p);
  sym_assert(s == t, "round trip of a computed element");
  Z u(a & MASK), v(b & MASK);
  (u - v).Write(q);
  bool same = true;
  for (std::size_t i = 0; i < NB; i++) same = same & (p[i] == q[i]);
  sym_assert(same, "congruent elements have the same encoding");
  delete[] p; delete[] q;
  sym_reach("end");
}
// adjacent elements in one buffer do not influence each other
void h_serial_adjacent() {
  unsigned char* b = new unsigned char[3 * NB];
  W a[3];
  for (int i = 0; i < 3; i++) a[i] = sym_w("a");
  for (int i = 2; i >= 0; i--) Z(a[i]).Write(b + i * NB);
  bool ok = true;
  for (int i = 0; i < 3; i++) ok = ok & (val(Z::Read(b + i * NB)) == (a[i] & MASK));
  sym_assert(ok, "three adjacent elements survive a round trip");
  delete[] b;
  sym_reach("end");
}
void h_random() {
  unsigned char seed[16] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16};
  scl::PRG p(seed), q(seed);
  Z x = Z::Random(p);
  unsigned char* b = new unsigned char[NB];
  q.Next(b, NB);
  W w = 0;
  std::memcpy(&w, b, NB);
  sym_assert(val(x) == (w & MASK), "random element is the next ByteSize() bytes of the generator");
  delete[] b;
  sym_reach("end");
}
}

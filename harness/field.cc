// Mersenne prime fields, through the public FF<Bits> API only.
#include <cstring>
#include <string>
#include <stdexcept>
#include "sym.h"
#include "scl/math/ff.h"
#ifndef BITS
#define BITS 61
#endif
using F = scl::FF<BITS>;
using u128 = __uint128_t;
#if BITS == 61
using W = std::uint64_t;
static W sym_w(const char* n) { return sym_u64(n); }
#else
using W = u128;
static W sym_w(const char* n) { return sym_u128(n); }
#endif
static W opaque(W v) {
#if BITS == 61
  return sym_opaque(v);
#else
  return ((W)sym_opaque((std::uint64_t)(v >> 64)) << 64) | sym_opaque((std::uint64_t)v);
#endif
}
static constexpr std::size_t NB = F::ByteSize();
static const W P = (((W)1 << BITS) - 1);

static F rd(const W& w) {
  unsigned char b[sizeof(W)];
  std::memcpy(b, &w, sizeof(W));
  return F::Read(b);
}
static W val(const F& f) {  // serialized value
  unsigned char b[NB];
  f.Write(b);
  W w = 0;
  std::memcpy(&w, b, NB);
  return w;
}
// canonical symbolic element
static F elem(const char* n, W& v) {
  v = sym_w(n);
  sym_assume(v < P);
  F f = rd(v);
  return f;
}

extern "C" {
void h_layout() {
  sym_assert(NB * 8 >= BITS && NB == sizeof(W), "byte size holds a canonical element");
  sym_assert(F::BitSize() == BITS, "bit size");
  sym_reach("end");
}
// Write(Read(x)) = x for canonical x; Equal <=> same value
void h_roundtrip() {
  W a, b;
  F x = elem("a", a), y = elem("b", b);
  sym_assert(val(x) == a, "write(read(x)) == x");
  sym_assert((x == y) == (a == b), "equality is equality of values");
  sym_assert((x != y) == (a != b), "inequality is inequality of values");
  sym_reach("end");
}
// Read reduces every byte pattern to the canonical representative
void h_read_any() {
  W a = sym_w("a");
  W r = val(rd(a));
  sym_assert(r < P, "read yields a canonical element");
  bool ok = false;
  constexpr unsigned K = (unsigned)(sizeof(W) * 8 - BITS);
  for (unsigned q = 0; q <= (1u << K); q++) {
    // a == q*P + r without wrap
    W qp = (W)q * P;
    bool wraps = (W)(qp / P) != (W)q;
    if (!wraps) ok = ok | ((a >= qp) & (a - qp == r));
  }
  sym_assert(ok, "read is reduction modulo p");
  sym_reach("end");
}
void h_from_int() {
  int v = (int)sym_u32("v");
  W r = val(F(v));
  W e = v < 0 ? P - (W)(-(long long)v) : (W)v;
  sym_assert(r == e, "FF(int) is the integer modulo p");
  sym_reach("end");
}
void h_add() {
  W a, b;
  F x = elem("a", a), y = elem("b", b);
  W s = a + b;  // < 2^62 / 2^128: no wrap
  W e = s >= P ? s - P : s;
  sym_assert(val(x + y) == e, "addition");
  F z = x;
  z += y;
  sym_assert(val(z) == e, "compound addition");
  sym_assert(val(y) == b, "operand unchanged");
  sym_reach("end");
}
void h_sub() {
  W a, b;
  F x = elem("a", a), y = elem("b", b);
  W e = a >= b ? a - b : P - (b - a);
  sym_assert(val(x - y) == e, "subtraction");
  sym_reach("end");
}
void h_neg() {
  W a;
  F x = elem("a", a);
  W e = a == 0 ? 0 : P - a;
  sym_assert(val(-x) == e, "negation");
  sym_assert(val(x.Negated()) == e, "negated copy");
  sym_assert(val(x) == a, "operand unchanged");
  F y = x;
  y.Negate();
  sym_assert(val(y) == e, "in-place negation");
  sym_reach("end");
}
// aliased operands
void h_alias() {
  W a;
  F x = elem("a", a);
  F y = x;
  y += y;
  W s = a + a;
  sym_assert(val(y) == (s >= P ? s - P : s), "x += x");
  F z = x;
  z -= z;
  sym_assert(val(z) == 0, "x -= x");
  sym_reach("end");
}
// Products.  The code's own 64x64->128 partial products and the ones below
// are the same abstract term (uninterpreted multiplication), so what is
// decided is the splitting, carrying and reduction; the assumed bound on the
// full product z <= (p-1)^2 is a fact of arithmetic for canonical operands.
// With z = hi*2^BITS + lo and 2^BITS = p + 1: z = hi*p + (hi + lo), and
// hi + lo < 2p for z <= (p-1)^2, so the residue is hi + lo or hi + lo - p.
#if BITS == 61
using Z = u128;
static Z full(W a, W b) { return (u128)a * b; }
#else
using Z = unsigned _BitInt(320);
static Z full(W a, W b) {
  std::uint64_t ah = a >> 64, al = a, bh = b >> 64, bl = b;
  return ((Z)((u128)ah * bh) << 128) + (((Z)((u128)ah * bl) + (Z)((u128)al * bh)) << 64) + (Z)((u128)al * bl);
}
#endif
static bool residue(const Z& z, const W& r) {
  Z hi = z >> BITS, lo = z & (Z)P;
  Z s = hi + lo;
  if (s >= (Z)P) s -= (Z)P;
  return s == (Z)r;
}
// (p-1)^2 = 2^(2B) - 2^(B+2) + 4 for p = 2^B - 1
static Z maxProd() { return ((Z)1 << (2 * BITS)) - ((Z)1 << (BITS + 2)) + (Z)4; }
void h_mul() {
  W a, b;
  F x = elem("a", a), y = elem("b", b);
  Z z = full(a, b);
  sym_assume(z <= maxProd());
  W r = val(x * y);
  sym_assert(r < P, "product is canonical");
  sym_assert(residue(z, r), "product is the residue of a*b");
  sym_assert(val(x) == a && val(y) == b, "operands unchanged");
  sym_reach("end");
}
// the same with one operand a chosen constant (exact multiplication)
#ifndef MULK
#define MULK 0
#endif
void h_mulconst() {
  static const W ks[] = {0, 1, 2, 3, (W)1 << 32, (W)1 << (BITS - 1), ((W)1 << (BITS - 1)) + 1};
  W b = ks[MULK];
  W a;
  F x = elem("a", a);
  F y = rd(opaque(b));
  Z z = full(opaque(a), opaque(b));
  W r = val(x * y), r2 = val(y * x);
  sym_assert(r < P && r2 < P, "product with a constant is canonical");
  sym_assert(residue(z, r), "product with a constant is the residue of a*k");
  sym_assert(r == r2, "product with a constant commutes");
  sym_reach("end");
}
void h_mul_alias() {
  W a;
  F x = elem("a", a);
  Z z = full(a, opaque(a));
  sym_assume(z <= maxProd());
  x *= x;
  W r = val(x);
  sym_assert(r < P, "square is canonical");
  sym_assert(residue(z, r), "x *= x is the residue of x*x");
  sym_reach("end");
}
// Inversion, bounded: elements within 2^INVBITS of 0 or of p.
#ifndef INVBITS
#define INVBITS 6
#endif
static void inv_case(W a) {
  F x = rd(a);
  F y = x.Inverse();
  W r = val(y);
  sym_assert(r < P, "inverse is canonical");
  sym_assert(val(x * y) == 1, "x * inverse(x) == 1");
}
void h_inv_low() {
  W a = sym_uint(INVBITS, "a");
  sym_assume(a != 0);
  inv_case(a);
  sym_reach("end");
}
void h_inv_high() {
  W a = sym_uint(INVBITS, "a");
  sym_assume(a != 0);
  inv_case(P - a);
  sym_reach("end");
}
// division is multiplication by the inverse
void h_div() {
  W a;
  F x = elem("a", a);
  const W ys[] = {1, 2, 3, 5, P - 1, P - 2, (P >> 1) + 1, P / 3 + 7};
#ifndef DIV
#define DIV 2
#endif
  {
    W yv = ys[DIV];
    F y = rd(yv);
    F i = y.Inverse(), j = y;
    j.Invert();
    sym_assert(val(i) == val(j) && val(y) == yv, "both forms of inversion agree");
    sym_assert(val(i * y) == 1, "x * inverse(x) == 1");
    W want = val(x * i);
    sym_assert(val(x / y) == want, "division is multiplication by the inverse");
    F z = x;
    z /= y;
    sym_assert(val(z) == want && val(y) == yv, "division is multiplication by the inverse");
  }
  bool threw = false;
  try { F z = x; z /= F(0); } catch (std::logic_error&) { threw = true; }
  sym_assert(threw, "division by zero is rejected");
  sym_reach("end");
}
void h_inv_zero() {
  bool threw = false;
  try {
    F x(0);
    x.Invert();
  } catch (std::logic_error&) {
    threw = true;
  }
  sym_assert(threw, "inverting zero is rejected");
  sym_reach("end");
}
}

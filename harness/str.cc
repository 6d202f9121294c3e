// Numeric string parsing, through FromString of the public number types.
#include <cstring>
#include <stdexcept>
#include <string>
#include "sym.h"
#include "scl/math/ff.h"
#include "scl/math/z2k.h"
#ifndef TYPE
#define TYPE 0
#endif
#if TYPE == 0
using N = scl::FF<61>;
using W = std::uint64_t;
static const W M = ((W)1 << 61) - 1;
static W red(W w) { return w % M; }
#elif TYPE == 1
using N = scl::FF<127>;
using W = __uint128_t;
static const W M = ((W)1 << 127) - 1;
static W red(W w) { return w % M; }
#elif TYPE == 2
using N = scl::Z2k<32>;
using W = std::uint64_t;
static W red(W w) { return w & 0xffffffffull; }
#elif TYPE == 3
using N = scl::Z2k<64>;
using W = std::uint64_t;
static W red(W w) { return w; }
#elif TYPE == 4
using N = scl::Z2k<100>;
using W = __uint128_t;
static W red(W w) { return w & (((W)1 << 100) - 1); }
#endif
#ifndef LEN
#define LEN 3
#endif
#ifndef PREFIX
#define PREFIX 0
#endif
static constexpr std::size_t NB = N::ByteSize();
static W val(const N& f) {
  unsigned char b[NB];
  f.Write(b);
  W w = 0;
  std::memcpy(&w, b, NB);
  return w;
}
// LEN symbolic characters (any byte), optionally after PREFIX valid digits
static std::string str(const char* prefix) {
  std::string s(prefix);
  unsigned n = 0;
#ifdef FIXLEN
  n = LEN;
#else
  n = (unsigned)sym_uint(8, "len");
  sym_assume(n <= LEN);
  n = (unsigned)sym_concrete(n);
#endif
  for (unsigned i = 0; i < n; i++) s.push_back((char)sym_u8("c"));
  return s;
}
static bool isdig(unsigned c, unsigned lo, unsigned hi) { return (c >= lo) & (c <= hi); }
// returns true and the value iff s is a well formed number
static bool ref_simple(const std::string& s, unsigned base, W& out) {
  bool ok = true;
  W v = 0;
  for (std::size_t i = 0; i < s.size(); i++) {
    unsigned c = (unsigned char)s[i];
    ok = ok & isdig(c, '0', base == 2 ? '1' : '9');
    v = v * base + (W)((c - '0') & 0xf);
  }
  out = v;
  return ok;
}
static bool hexd(unsigned c, unsigned& d) {
  bool a = isdig(c, '0', '9'), b = isdig(c, 'a', 'f'), e = isdig(c, 'A', 'F');
  d = a ? c - '0' : b ? c - 'a' + 10 : c - 'A' + 10;
  d &= 0xf;
  return a | b | e;
}
static bool ref_hex(const std::string& s, W& out) {
  bool ok = s.size() % 2 == 0;
  W v = 0;
  for (std::size_t i = 0; i < s.size(); i++) {
    unsigned d;
    ok = ok & hexd((unsigned char)s[i], d);
    v = (v << 4) + d;
  }
  out = v;
  return ok;
}
static bool b64d(unsigned c, unsigned& d) {
  bool u = isdig(c, 'A', 'Z'), l = isdig(c, 'a', 'z'), n = isdig(c, '0', '9'), p = c == '+', q = c == '/';
  d = u ? c - 'A' : l ? c - 'a' + 26 : n ? c - '0' + 52 : p ? 62 : 63;
  d &= 0x3f;
  return u | l | n | p | q;
}
// RFC 4648 with padding; big endian value of the decoded bytes
static bool ref_b64(const std::string& s, W& out) {
  std::size_t n = s.size();
  out = 0;
  if (n % 4) return false;
  if (n == 0) return true;
  bool ok = true;
  W v = 0;
  unsigned d0, d1, d2, d3;
  for (std::size_t i = 0; i + 4 < n; i += 4) {
    ok = ok & b64d((unsigned char)s[i], d0) & b64d((unsigned char)s[i + 1], d1) & b64d((unsigned char)s[i + 2], d2) & b64d((unsigned char)s[i + 3], d3);
    v = (v << 24) + ((W)(d0 << 18 | d1 << 12 | d2 << 6 | d3));
  }
  unsigned char c2 = s[n - 2], c3 = s[n - 1];
  bool p3 = c3 == '=', p2 = p3 & (c2 == '=');
  ok = ok & b64d((unsigned char)s[n - 4], d0) & b64d((unsigned char)s[n - 3], d1);
  bool k2 = b64d(c2, d2), k3 = b64d(c3, d3);
  ok = ok & (p2 | k2) & (p3 | k3);
  W full = (v << 24) + (W)(d0 << 18 | d1 << 12 | d2 << 6 | d3);
  W two = (v << 16) + (W)((d0 << 12 | d1 << 6 | d2) >> 2);
  W one = (v << 8) + (W)((d0 << 6 | d1) >> 4);
  out = p2 ? one : p3 ? two : full;
  return ok;
}
static void run(scl::NumberBase base, const char* prefix) {
  std::string s = str(prefix);
  W e = 0;
  bool ok = base == scl::NumberBase::BINARY ? ref_simple(s, 2, e) : base == scl::NumberBase::DECIMAL ? ref_simple(s, 10, e)
            : base == scl::NumberBase::HEX ? ref_hex(s, e) : ref_b64(s, e);
  bool threw = false, other = false;
  W r = 0;
  try {
    r = val(N::FromString(s, base));
  } catch (const std::invalid_argument&) {
    threw = true;
  } catch (...) {
    other = true;
  }
  sym_assert(!other, "a malformed number raises invalid_argument");
  if (threw) {
    sym_assert(!ok, "a well formed number is accepted");
    sym_reach("rejected");
  } else {
    sym_assert(ok, "a malformed number is rejected");
    sym_assert(r == red(e), "the parsed element is the number reduced");
    sym_reach("accepted");
  }
}
extern "C" {
void h_bin() { run(scl::NumberBase::BINARY, PREFIX ? "1011011" : ""); }
void h_dec() { run(scl::NumberBase::DECIMAL, PREFIX ? (sizeof(W) == 8 ? "18446744073709551" : "170141183460469231731687303715884") : ""); }
void h_hex() { run(scl::NumberBase::HEX, PREFIX ? (sizeof(W) == 8 ? "fFfFfFfFAbCd" : "ffffffffffffffffffffffffffff") : ""); }
void h_b64() { run(scl::NumberBase::BASE64, PREFIX ? "zZ9+" : ""); }
void h_default_base() {
  std::string s = str("");
  W e;
  bool ok = ref_simple(s, 10, e);
  sym_assume(ok);
  sym_assert(val(N::FromString(s)) == red(e), "the default base is decimal");
  sym_reach("end");
}
}

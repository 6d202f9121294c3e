// Typed messages over a byte channel, with a well behaved and a hostile peer.
#include <cstdlib>
#include <cstring>
#include <new>
#include <memory>
#include <stdexcept>
#include <vector>
#include "sym.h"
#include "scl/math.h"
#include "scl/net/channel.h"
#ifndef ELT
#define ELT 0
#endif
using u8 = unsigned char;
#if ELT == 0
using T = scl::FF<61>;
#elif ELT == 1
using T = scl::FF<127>;
#elif ELT == 2
using T = scl::Z2k<32>;
#elif ELT == 3
using T = scl::Z2k<13>;
#else
using T = scl::Z2k<100>;
#endif
static unsigned pick(const char* nm, unsigned mx) {
  unsigned v = sym_u8(nm);
  sym_assume(v <= mx);
  return (unsigned)sym_concrete(v);
}
static bool watch = false;
struct Short : std::runtime_error {
  Short() : std::runtime_error("short") {}
};
// bytes sent come back in order
struct Loop final : scl::Channel {
  std::vector<u8> b;
  std::size_t pos = 0;
  void Close() override {}
  void Send(const u8* s, std::size_t n) override { for (std::size_t i = 0; i < n; i++) b.push_back(s[i]); }
  void Recv(u8* d, std::size_t n) override {
    sym_assert(n <= b.size() - pos, "no more is received than was sent");
    if (n > b.size() - pos) throw Short();
    for (std::size_t i = 0; i < n; i++) d[i] = b[pos++];
  }
  void done() { sym_assert(pos == b.size(), "everything sent was received"); }
};
// two announced sizes, then `have` arbitrary bytes, then the end of the connection
struct Hostile final : scl::Channel {
  u8 head[8];
  unsigned nhead = 0, pos = 0;
  std::vector<u8> body;
  std::size_t bpos = 0, asked = 0;
  bool watchSizes = false;
  unsigned long long announced = 0;
  void put(std::uint32_t v) {
    std::memcpy(head + nhead, &v, 4);
    nhead += 4;
  }
  void Close() override {}
  void Send(const u8*, std::size_t) override {}
  void Recv(u8* d, std::size_t n) override {
    if (pos < nhead) {
      sym_assert(n == 4, "sizes are 32 bit numbers");
      std::memcpy(d, head + pos, 4);
      pos += 4;
      if (pos == nhead) watch = watchSizes;
      return;
    }
    sym_assert(asked + n <= announced * T::ByteSize(), "no more is received than was announced");
    asked += n;
    if (n > body.size() - bpos) throw Short();
    std::memcpy(d, body.data() + bpos, n);
    bpos += n;
  }
};
static T elem() {
  u8 b[32];
  sym_mem(b, T::ByteSize(), "e");
  return T::Read(b);
}
static scl::Vec<T> vec(unsigned n) {
  std::vector<T> v;
  for (unsigned i = 0; i < n; i++) v.push_back(elem());
  return scl::Vec<T>(v);
}
struct Plain {
  std::uint32_t a;
  u8 b[3];
  std::uint64_t c;
};
// what the receiver asks the allocator for once the announced sizes are known
static std::size_t room = 0;
struct Allocated {};
static void* get(std::size_t n) {
  if (watch) {
    watch = false;
    room = n;
    throw Allocated();
  }
  void* p = std::malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  return p;
}
#ifdef WATCH
void* operator new(std::size_t n) { return get(n); }
void* operator new[](std::size_t n) { return get(n); }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete[](void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
void operator delete[](void* p, std::size_t) noexcept { std::free(p); }
#endif
extern "C" {
void h_plain() {
  Loop l;
  scl::Channel& c = l;
  std::uint64_t x = sym_u64("x"), x2 = 1;
  int y = (int)sym_u32("y"), y2 = 0;
  bool f = sym_u8("f") & 1, f2 = false;
  Plain p{sym_u32("a"), {sym_u8("b"), sym_u8("b"), sym_u8("b")}, sym_u64("c")}, p2{};
  T e = elem(), e2;
  std::vector<std::uint16_t> v{sym_u16("v"), sym_u16("v"), sym_u16("v")}, v2(3), none, none2;
  std::vector<T> w{elem(), elem()}, w2(2);
  c.Send(x);
  c.Send(none);
  c.Send(y);
  c.Send(f);
  c.Send(p);
  c.Send(e);
  c.Send(v);
  c.Send(w);
  c.Recv(x2);
  c.Recv(none2);
  c.Recv(y2);
  c.Recv(f2);
  c.Recv(p2);
  c.Recv(e2);
  c.Recv(v2);
  c.Recv(w2);
  l.done();
  sym_assert(x == x2 && y == y2 && f == f2, "numbers arrive as sent");
  sym_assert(p.a == p2.a && !std::memcmp(p.b, p2.b, 3) && p.c == p2.c, "a structure arrives as sent");
  sym_assert(e == e2, "an element arrives as sent");
  sym_assert(v[0] == v2[0] && v[1] == v2[1] && v[2] == v2[2], "a list arrives as sent");
  sym_assert(w[0] == w2[0] && w[1] == w2[1], "a list of elements arrives as sent");
  sym_reach("end");
}
void h_vec() {
  Loop l;
  scl::Channel& c = l;
  unsigned n = pick("n", 3), m = pick("m", 2);
  auto a = vec(n), b = vec(m);
  c.Send(a);
  c.Send(b);
  scl::Vec<T> a2 = vec(pick("old", 1)), b2;
  c.Recv(a2);
  c.Recv(b2);
  l.done();
  sym_assert(a2.Size() == n && b2.Size() == m, "the size arrives");
  for (unsigned i = 0; i < n; i++) sym_assert(a2[i] == a[i], "the vector arrives as sent");
  for (unsigned i = 0; i < m; i++) sym_assert(b2[i] == b[i], "the vector arrives as sent");
  sym_reach("end");
}
void h_mat() {
  Loop l;
  scl::Channel& c = l;
  unsigned n = 1 + pick("n", 2), m = 1 + pick("m", 2);
  scl::Mat<T> a(n, m), b(1, 2), a2, b2(3, 1);
  for (unsigned i = 0; i < n; i++) for (unsigned j = 0; j < m; j++) a(i, j) = elem();
  b(0, 0) = elem();
  b(0, 1) = elem();
  c.Send(a);
  c.Send(b);
  c.Recv(a2);
  c.Recv(b2);
  l.done();
  sym_assert(a2.Rows() == n && a2.Cols() == m && b2.Rows() == 1 && b2.Cols() == 2, "the shape arrives");
  for (unsigned i = 0; i < n; i++) for (unsigned j = 0; j < m; j++) sym_assert(a2(i, j) == a(i, j), "the matrix arrives as sent");
  sym_assert(b2(0, 0) == b(0, 0) && b2(0, 1) == b(0, 1), "the matrix arrives as sent");
  sym_reach("end");
}
// announced sizes beyond the limit are refused before anything is allocated or read
void h_vec_big() {
  Hostile h;
  std::uint32_t n = sym_u32("n");
  sym_assume(n > MAX_VEC_READ_SIZE);
  h.put(n);
  h.announced = ~0ull >> 8;
  scl::Channel& c = h;
  scl::Vec<T> v;
  bool thrown = false;
  try {
    c.Recv(v);
  } catch (const std::exception&) {
    thrown = true;
  }
  sym_assert(thrown, "a vector beyond the limit is refused");
  sym_reach("end");
}
void h_mat_big() {
  Hostile h;
  std::uint32_t n = sym_u32("n"), m = sym_u32("m");
  unsigned long long total = (unsigned long long)n * m;
  sym_assume(total > MAX_MAT_READ_SIZE);
  h.put(n);
  h.put(m);
  h.announced = total;
  scl::Channel& c = h;
  scl::Mat<T> v(1, 1);
  bool thrown = false;
  try {
    c.Recv(v);
  } catch (const std::exception&) {
    thrown = true;
  }
  sym_assert(thrown, "a matrix beyond the limit is refused");
  sym_reach("end");
}
// sizes up to the limit: the receiver makes room for exactly what was announced or more
void h_vec_room() {
  Hostile h;
  std::uint32_t n = sym_u32("n");
  sym_assume(n <= MAX_VEC_READ_SIZE && n >= 16);
  h.put(n);
  h.announced = n;
  h.watchSizes = true;
  scl::Channel& c = h;
  scl::Vec<T> v;
  bool seen = false;
  try {
    c.Recv(v);
  } catch (const Allocated&) {
    seen = true;
  }
  sym_assert(seen, "a size within the limit is accepted");
  sym_assert(room >= h.announced * T::ByteSize(), "there is room for the announced elements");
  sym_reach("end");
}
void h_mat_room() {
  Hostile h;
  std::uint32_t n = sym_u32("n"), m = sym_u32("m");
  unsigned long long total = (unsigned long long)n * m;
  sym_assume(total <= MAX_MAT_READ_SIZE && total >= 16);
  h.put(n);
  h.put(m);
  h.announced = total;
  h.watchSizes = true;
  scl::Channel& c = h;
  scl::Mat<T> v(1, 1);
  bool seen = false;
  try {
    c.Recv(v);
  } catch (const Allocated&) {
    seen = true;
  }
  sym_assert(seen, "a size within the limit is accepted");
  sym_assert(room >= h.announced * T::ByteSize(), "there is room for the announced elements");
  sym_reach("end");
}
// small announced sizes, any content, possibly cut short
void h_hostile() {
  Hostile h;
  bool mat = pick("mat", 1);
  unsigned n = pick("n", 3), m = mat ? pick("m", 3) : 1, have = pick("have", 3);
  sym_assume(!mat || n * m <= 4);
  h.put(n);
  if (mat) h.put(m);
  h.announced = n * m;
  std::size_t bytes = have == 3 ? n * m * T::ByteSize() : have * T::ByteSize() / 2;
  h.body.resize(bytes);
  if (bytes) sym_mem(h.body.data(), bytes, "body");
  scl::Channel& c = h;
  scl::Vec<T> v;
  scl::Mat<T> a(1, 1);
  bool thrown = false;
  try {
    if (mat) c.Recv(a); else c.Recv(v);
  } catch (const std::exception&) {
    thrown = true;
  }
  if (!thrown) {
    sym_assert(mat ? a.Rows() == n && a.Cols() == m : v.Size() == n, "the object has the announced size");
    for (unsigned i = 0; i < n * m; i++) {
      T e = T::Read(h.body.data() + i * T::ByteSize());
      sym_assert((mat ? a(i / m, i % m) : v[i]) == e, "contents are those received");
    }
    sym_reach("accepted");
  } else {
    sym_assert(bytes < n * m * T::ByteSize(), "well formed messages are accepted");
    sym_reach("short");
  }
}
}

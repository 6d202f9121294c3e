// In-memory channels: an exact byte stream in each direction.
#include <memory>
#include <thread>
#include <vector>
#include "sym.h"
#include "scl/net/mem_channel.h"
#ifndef STEPS
#define STEPS 4
#endif
#ifndef MAXN
#define MAXN 2
#endif
using u8 = unsigned char;
static unsigned pick(const char* nm, unsigned mx) {
  unsigned v = sym_u8(nm);
  sym_assume(v <= mx);
  return (unsigned)sym_concrete(v);
}
struct Dir {
  u8 sent[64];
  unsigned in = 0, out = 0;
};
static void send(scl::Channel& c, Dir& d, unsigned n) {
  std::unique_ptr<u8[]> b(new u8[n]);
  for (unsigned i = 0; i < n; i++) d.sent[d.in++] = b[i] = sym_u8("b");
  c.Send(b.get(), n);
  for (unsigned i = 0; i < n; i++) b[i] = 0;  // the channel keeps its own copy
}
static void recv(scl::Channel& c, Dir& d, unsigned n) {
  std::unique_ptr<u8[]> b(new u8[n]);
  c.Recv(b.get(), n);
  for (unsigned i = 0; i < n; i++) sym_assert(b[i] == d.sent[d.out + i], "the bytes received are the bytes sent, in order");
  d.out += n;
}
extern "C" {
// every sequence of sends and receives at both ends
void h_history() {
  auto p = scl::InMemoryChannel::CreatePaired();
  Dir d[2];
  for (int s = 0; s < STEPS; s++) {
    unsigned end = pick("end", 1);
    if (pick("op", 1) == 0) send(*p[end], d[end], pick("n", MAXN));
    else {
      unsigned avail = d[1 - end].in - d[1 - end].out;
      unsigned n = pick("n", MAXN + 1);
      sym_assume(n <= avail);
      recv(*p[end], d[1 - end], n);
    }
  }
  for (int e = 0; e < 2; e++) recv(*p[1 - e], d[e], d[e].in - d[e].out);
  send(*p[0], d[0], 3);
  recv(*p[1], d[0], 3);
  sym_reach("end");
}
// one direction: every split of TOTAL bytes into sends, every split into receives
void h_splits() {
  auto p = scl::InMemoryChannel::CreatePaired();
  Dir d;
  const unsigned T = MAXN;
  while (d.in < T) {
    unsigned n = pick("s", T);
    sym_assume(n >= 1 && d.in + n <= T);
    send(*p[0], d, n);
  }
  while (d.out < T) {
    unsigned n = pick("r", T);
    sym_assume(n >= 1 && d.out + n <= T);
    recv(*p[1], d, n);
  }
  send(*p[0], d, 2);
  recv(*p[1], d, 2);
  sym_reach("end");
}
void h_self() {
  auto c = scl::InMemoryChannel::CreateSelfConnecting();
  Dir d;
  for (int s = 0; s < STEPS; s++) {
    if (pick("op", 1) == 0) send(*c, d, pick("n", MAXN));
    else {
      unsigned n = pick("n", MAXN + 1);
      sym_assume(n <= d.in - d.out);
      recv(*c, d, n);
    }
  }
  recv(*c, d, d.in - d.out);
  sym_reach("end");
}
// flushing discards what was not yet received at that end and nothing else
void h_flush() {
  auto p = scl::InMemoryChannel::CreatePaired();
  Dir a, b;
  send(*p[1], b, 2);
  for (int round = 0; round < 2; round++) {
    unsigned k = pick("sends", 3);
    for (unsigned i = 0; i < k; i++) send(*p[0], a, i == 1 ? 1 : 2);
    unsigned n = pick("n", 5);
    sym_assume(n <= a.in - a.out);
    recv(*p[1], a, n);
    if (!pick("flush", 1)) continue;
    p[1]->Flush();
    a.out = a.in;
  }
  send(*p[0], a, 2);
  recv(*p[1], a, a.in - a.out);
  recv(*p[0], b, 2);
  sym_reach("end");
}
void h_flush_self() {
  auto c = scl::InMemoryChannel::CreateSelfConnecting();
  Dir d;
  for (int round = 0; round < 2; round++) {
    unsigned k = pick("sends", 2);
    for (unsigned i = 0; i < k; i++) send(*c, d, 2);
    unsigned n = pick("n", 4);
    sym_assume(n <= d.in - d.out);
    recv(*c, d, n);
    if (!pick("flush", 1)) continue;
    c->Flush();
    d.out = d.in;
  }
  send(*c, d, 1);
  recv(*c, d, d.in - d.out);
  sym_reach("end");
}
// closing in memory does not disturb what is under way
void h_close() {
  auto p = scl::InMemoryChannel::CreatePaired();
  Dir a;
  send(*p[0], a, 2);
  p[0]->Close();
  recv(*p[1], a, 2);
  p[1]->Close();
  sym_reach("end");
}
// two threads, both directions, blocking receives
void h_threads() {
  auto p = scl::InMemoryChannel::CreatePaired();
  Dir a, b;
  unsigned s = pick("split", 3), r = pick("recv", 3);
  std::thread t([&] {
    recv(*p[1], a, r);
    send(*p[1], b, 2);
    recv(*p[1], a, 3 - r);
  });
  send(*p[0], a, s);
  send(*p[0], a, 3 - s);
  recv(*p[0], b, 2);
  t.join();
  sym_reach("end");
}
}

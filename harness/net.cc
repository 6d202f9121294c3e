// Networks of channels: who is connected to whom.
#include <cstring>
#include <memory>
#include <stdexcept>
#include <thread>
#include <vector>
#ifdef SOCKETS
#include "netmodel.h"
#endif
#include "sym.h"
#include "scl/net/network.h"
#include "scl/net/tcp_utils.h"
using u8 = unsigned char;
#ifndef N
#define N 4
#endif
static unsigned pick(const char* nm, unsigned mx) {
  unsigned v = sym_u8(nm);
  sym_assume(v <= mx);
  return (unsigned)sym_concrete(v);
}
struct Counted final : scl::Channel {
  unsigned closed = 0;
  void Close() override { closed++; }
  void Send(const u8*, std::size_t) override {}
  void Recv(u8*, std::size_t) override {}
};
static void put(scl::Channel* c, u8 v) { c->Send(&v, 1); }
static u8 get(scl::Channel* c) {
  u8 v = 0;
  c->Recv(&v, 1);
  return v;
}
extern "C" {
#ifndef SOCKETS
// every ordered pair, self included, in both orders of sending and receiving
void h_full() {
  unsigned n = 1 + pick("n", N - 1);
  bool back = pick("back", 1);
  auto nets = scl::Network::CreateFullInMemory(n);
  sym_assert(nets.size() == n, "one network per party");
  u8 m[N][N][2];
  for (unsigned r = 0; r < 2; r++)
    for (unsigned i = 0; i < n; i++) {
      sym_assert(nets[i].Size() == n, "every party is in the network");
      for (unsigned j = 0; j < n; j++) put(nets[i].Party(j), m[i][j][r] = sym_u8("m"));
    }
  for (unsigned r = 0; r < 2; r++)
    for (unsigned a = 0; a < n; a++)
      for (unsigned b = 0; b < n; b++) {
        unsigned i = back ? n - 1 - b : a, j = back ? n - 1 - a : b;
        sym_assert(get(nets[j].Party(i)) == m[i][j][r], "what i sends to j is what j receives from i");
      }
  sym_reach("end");
}
void h_mock() {
  unsigned n = 1 + pick("n", N - 1), id = pick("id", N - 1);
  sym_assume(id < n);
  auto p = scl::Network::CreateMock(id, n);
  sym_assert(p.first.Size() == n && p.second.size() == n, "every party is in the network");
  u8 out[N], in[N];
  for (unsigned i = 0; i < n; i++) {
    put(p.first.Party(i), out[i] = sym_u8("out"));
    if (i == id) sym_assert(!p.second[i], "the party itself has no remote end");
    else put(p.second[i].get(), in[i] = sym_u8("in"));
  }
  for (unsigned k = n; k-- > 0;) {
    if (k == id) sym_assert(get(p.first.Party(k)) == out[k], "a party can send to itself");
    else {
      sym_assert(get(p.second[k].get()) == out[k], "the remote end receives what was sent to it");
      sym_assert(get(p.first.Party(k)) == in[k], "what the remote end sends is received from it");
    }
  }
  sym_reach("end");
}
// networks over given channels
void h_close() {
  unsigned n = pick("n", N);
  std::vector<std::shared_ptr<Counted>> c;
  std::vector<std::shared_ptr<scl::Channel>> b;
  for (unsigned i = 0; i < n; i++) {
    c.push_back(std::make_shared<Counted>());
    b.push_back(c[i]);
  }
  scl::Network net(b);
  sym_assert(net.Size() == n, "every channel is kept");
  for (unsigned i = 0; i < n; i++) sym_assert(net.Party(i) == c[i].get(), "a party is reached over its own channel");
  net.Close();
  for (unsigned i = 0; i < n; i++) sym_assert(c[i]->closed == 1, "closing closes every channel once");
  sym_reach("end");
}
#else
#ifdef THREADED
static scl::Network connect_all(const scl::NetworkConfig& c) { return scl::Network::CreateThreadedSenders(c); }
#else
static scl::Network connect_all(const scl::NetworkConfig& c) { return scl::Network::Create(c); }
#endif
// all parties connect over sockets; the configuration lists them in any order
void h_tcp() {
  const unsigned n = N;
  std::vector<scl::Party> ps;
  unsigned first = pick("first", n - 1);
  for (unsigned i = 0; i < n; i++) {
    unsigned id = (first + i) % n;
    ps.push_back(scl::Party{id, "127.0.0.1", (int)(5000 + id)});
  }
  u8 m[N][N], got[N][N];
  for (unsigned i = 0; i < n; i++) for (unsigned j = 0; j < n; j++) m[i][j] = sym_u8("m");
  auto party = [&](unsigned i) {
    scl::NetworkConfig c(i, ps);
    auto net = connect_all(c);
    sym_assert(net.Size() == n, "every party is in the network");
    for (unsigned j = 0; j < n; j++) put(net.Party(j), m[i][j]);
    for (unsigned j = 0; j < n; j++) got[j][i] = get(net.Party(j));
    net.Close();
  };
  std::vector<std::thread> th;
  for (unsigned i = 1; i < n; i++) th.emplace_back([&, i] { party(i); });
  party(0);
  for (auto& t : th) t.join();
  for (unsigned i = 0; i < n; i++) for (unsigned j = 0; j < n; j++) sym_assert(got[i][j] == m[i][j], "what i sends to j is what j receives from i");
  sym_reach("end");
}
// peers that announce arbitrary identifiers
void h_hostile() {
  const unsigned n = 3;
  auto c = scl::NetworkConfig::Localhost(0, n, 5000);
  unsigned id[2];
  for (auto& v : id) {
    v = sym_u32("id");
    if (v < n) v = (unsigned)sym_concrete(v);  // told apart early
  }
  u8 mark[2] = {sym_u8("mark"), sym_u8("mark")};
  std::thread t([&] {
    int fd[2];
    for (int& f : fd) f = scl::details::ConnectAsClient("127.0.0.1", 5000);
    for (int k = 0; k < 2; k++) {
      scl::details::WriteToSocket(fd[k], (const u8*)&id[k], 4);
      scl::details::WriteToSocket(fd[k], &mark[k], 1);
    }
  });
  bool ok = true;
  try {
    auto net = connect_all(c);
    for (int k = 0; k < 2; k++) if (id[k] == 1 || id[k] == 2) sym_assert(get(net.Party(id[k])) == mark[k], "a connection is filed under the identifier it announced");
  } catch (const std::exception&) {
    ok = false;
  }
  t.join();
  bool good = (id[0] == 1 && id[1] == 2) || (id[0] == 2 && id[1] == 1);
  sym_assert(ok == good, "connections are accepted exactly when each expected party announces itself once");
  if (ok) sym_reach("accepted");
  else sym_reach("rejected");
}
#endif
}

// Discovery: the server collects identifiers and ports and tells everybody.
#include <cstring>
#include <memory>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>
#ifdef SOCKETS
#include "netmodel.h"
#endif
#include "sym.h"
#include "scl/net/discovery/client.h"
#include "scl/net/discovery/server.h"
#ifndef N
#define N 3
#endif
static unsigned pick(const char* nm, unsigned mx) {
  unsigned v = sym_u8(nm);
  sym_assume(v <= mx);
  return (unsigned)sym_concrete(v);
}
// any identifier; the ones in range are told apart early
static unsigned ident(unsigned n) {
  unsigned v = sym_u32("id");
  return v < n ? (unsigned)sym_concrete(v) : v;
}
static void same(const scl::NetworkConfig& a, const scl::NetworkConfig& b, const char* what) {
  sym_assert(a.NetworkSize() == b.NetworkSize(), what);
  for (unsigned i = 0; i < a.NetworkSize(); i++) {
    auto x = a.GetParty(i), y = b.GetParty(i);
    sym_assert(x.id == y.id && x.port == y.port && x.hostname == y.hostname, what);
  }
}
extern "C" {
#ifndef SOCKETS
// the server's two steps with peers that announce anything
void h_collect() {
  unsigned n = 1 + pick("n", N - 1), me = pick("me", N - 1);
  sym_assume(me < n);
  static const char* host[4] = {"10.0.0.1", "h", "", "some.longer.host.name"};
  std::vector<std::string> hosts(host, host + n);
  auto mock = scl::Network::CreateMock(me, n);
  auto& rem = mock.second;
  unsigned id[N], slot[N];
  int port[N];
  for (unsigned i = 0; i < n; i++) {
    id[i] = me;
    port[i] = (int)sym_u32("port");
    if (i == me) continue;
    id[i] = ident(n);
    rem[i]->Channel::Send(id[i]);
    rem[i]->Channel::Send(port[i]);
  }
  bool good = true;
  for (unsigned i = 0; i < n; i++) {
    good = good & (id[i] < n);
    for (unsigned j = 0; j < i; j++) good = good & (id[i] != id[j]);
  }
  scl::DiscoveryServer::CollectIdsAndPorts first(hosts);
  scl::DiscoveryServer::Ctx ctx{scl::Party{me, hosts[me], port[me]}, mock.first};
  bool ok = true;
  try {
    auto second = first.Run(ctx);
    auto cfg = second.Finalize(ctx);
    sym_assert(cfg.Id() == me && cfg.NetworkSize() == n, "the server knows itself and everybody");
    bool ordered = true;
    for (unsigned i = 0; i < n; i++) ordered = ordered && id[i] == i;
    for (unsigned i = 0; i < n; i++) {
      auto p = cfg.GetParty(id[i]);
      sym_assert(p.id == id[i] && p.port == port[i], "every party is listed under its identifier with the port it announced");
      if (ordered) sym_assert(p.hostname == hosts[i], "every party is listed with its address");
    }
    for (unsigned i = 0; i < n; i++) {
      if (i == me) continue;
      std::shared_ptr<scl::Channel> c = rem[i];
      scl::DiscoveryClient::ReceiveNetworkConfig last(id[i]);
      auto got = last.Finalize(c);
      sym_assert(got.Id() == id[i], "a client knows itself");
      same(got, cfg, "every party holds the same configuration");
    }
  } catch (const std::exception&) {
    ok = false;
  }
  sym_assert(ok == good, "accepted exactly when the identifiers are the remaining ones, once each");
  if (ok) sym_reach("accepted");
  else sym_reach("rejected");
}
// a server that does not belong to the network
void h_bad_server() {
  unsigned n = 1 + pick("n", 1), me = sym_u32("me");
  sym_assume(me >= n);
  std::vector<std::string> hosts(n, "h");
  auto mock = scl::Network::CreateMock(me, n);
  for (unsigned i = 0; i < n; i++) {
    mock.second[i]->Channel::Send(i);
    mock.second[i]->Channel::Send((int)i);
  }
  scl::DiscoveryServer::CollectIdsAndPorts first(hosts);
  scl::DiscoveryServer::Ctx ctx{scl::Party{me, "h", 1}, mock.first};
  bool ok = true;
  try {
    first.Run(ctx);
  } catch (const std::exception&) {
    ok = false;
  }
  sym_assert(!ok, "a server outside the network is refused");
  sym_reach("end");
}
// a client told anything by the server
void h_client() {
  auto ch = scl::InMemoryChannel::CreatePaired();
  unsigned n = pick("n", N), me = ident(n);
  unsigned id[N];
  int port[N];
  std::string host[N];
  ch[1]->Channel::Send((std::size_t)n);
  for (unsigned i = 0; i < n; i++) {
    id[i] = ident(n);
    port[i] = (int)sym_u32("port");
    host[i] = std::string(i == 0 ? pick("len", 2) : i, (char)sym_u8("c"));
    ch[1]->Channel::Send(id[i]);
    ch[1]->Channel::Send(port[i]);
    ch[1]->Channel::Send((std::size_t)host[i].size());
    ch[1]->Send((const unsigned char*)host[i].data(), host[i].size());
  }
  bool good = me < n;
  for (unsigned i = 0; i < n; i++) {
    good = good & (id[i] < n);
    for (unsigned j = 0; j < i; j++) good = good & (id[i] != id[j]);
  }
  bool ok = true;
  std::shared_ptr<scl::Channel> c = ch[0];
  try {
    scl::DiscoveryClient::ReceiveNetworkConfig last(me);
    auto cfg = last.Finalize(c);
    sym_assert(cfg.Id() == me && cfg.NetworkSize() == n, "the client knows itself and everybody");
    for (unsigned i = 0; i < n; i++) {
      auto p = cfg.GetParty(id[i]);
      sym_assert(p.id == id[i] && p.port == port[i] && p.hostname == host[i], "a party is known as the server described it");
    }
  } catch (const std::exception&) {
    ok = false;
  }
  sym_assert(ok == good, "a configuration is accepted exactly when it is consistent");
  if (ok) sym_reach("accepted");
  else sym_reach("rejected");
}
// sizes nobody could mean
void h_client_sizes() {
  auto ch = scl::InMemoryChannel::CreatePaired();
  bool which = pick("which", 1);
  std::size_t big = sym_u64("big");
  sym_assume(big >> 44 != 0);
  ch[1]->Channel::Send(which ? (std::size_t)1 : big);
  if (which) {
    ch[1]->Channel::Send(0u);
    ch[1]->Channel::Send(1);
    ch[1]->Channel::Send(big);
  }
  bool ok = true;
  std::shared_ptr<scl::Channel> c = ch[0];
  try {
    scl::DiscoveryClient::ReceiveNetworkConfig last(0);
    last.Finalize(c);
  } catch (const std::exception&) {
    ok = false;
  }
  sym_assert(!ok, "absurd sizes raise an error");
  sym_reach("end");
}
void h_client_sends() {
  auto ch = scl::InMemoryChannel::CreatePaired();
  unsigned me = sym_u32("me"), id = 0;
  int port = (int)sym_u32("port"), p = 0;
  std::shared_ptr<scl::Channel> c = ch[0];
  scl::DiscoveryClient::SendIdAndPort first(me, port);
  first.Run(c);
  ch[1]->Channel::Recv(id);
  ch[1]->Channel::Recv(p);
  sym_assert(id == me && p == port, "a client announces its identifier and its port");
  sym_reach("end");
}
#else
// everybody at once, over sockets, from different addresses
void h_run() {
  const unsigned n = N;
  unsigned srv = pick("server", n - 1);
  scl::NetworkConfig got[N];
  int port[N];
  for (unsigned i = 0; i < n; i++) port[i] = (int)sym_u16("port");
  std::vector<std::thread> th;
  for (unsigned i = 0; i < n; i++) {
    if (i == srv) continue;
    nm::addrOf[th.size() + 1] = 0x0a000000 + i;
    th.emplace_back([&, i] {
      scl::DiscoveryClient c("127.0.0.1", 9999);
      got[i] = c.Run(i, port[i]);
    });
  }
  scl::DiscoveryServer s(9999, n);
  got[srv] = s.Run(scl::Party{srv, "10.0.0." + std::string(1, (char)('0' + srv)), port[srv]});
  for (auto& t : th) t.join();
  bool ordered = true;
  for (unsigned k = 1; k < n - 1; k++) ordered = ordered && nm::from[k - 1] < nm::from[k];
  for (unsigned i = 0; i < n; i++) {
    sym_assert(got[i].Id() == i && got[i].NetworkSize() == n, "a party knows itself and everybody");
    same(got[i], got[srv], "every party holds the same configuration");
    auto p = got[srv].GetParty(i);
    sym_assert(p.id == i && p.port == port[i], "every party is listed under its identifier with the port it announced");
    bool at = p.hostname == "10.0.0." + std::string(1, (char)('0' + i));
    if (ordered) sym_assert(at, "parties that connect in the order of their identifiers are listed with the addresses they connect from");
    else sym_assert(at, "parties that connect in another order are listed with the addresses they connect from");
  }
  sym_reach(ordered ? "ordered" : "unordered");
}
#endif
}

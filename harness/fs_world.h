// Lockstep simulation of n parties over in-memory channels that record
// traffic: a receive without a matching send is a deadlock, leftovers are
// reported, messages to corrupted parties form the adversary's view.
#ifndef FS_WORLD_H
#define FS_WORLD_H
#include "fs.h"
#include <cstdlib>
#include <ucontext.h>
#include <cstring>
#include <deque>
#include <functional>
#include <exception>
#include <memory>
#include <stdexcept>
#include <vector>
#include "scl/networking.h"
#include "tp/circuits.h"
#include "tp/dn07.h"
using F = fs::F;
static std::vector<int>* cfg_now = nullptr;
static std::vector<int> cfg() {
  if (cfg_now) return *cfg_now;
  std::vector<int> r;
  const char* s = getenv("FS_CFG");
  if (!s) s = "0";
  while (*s) { char* e; r.push_back((int)strtol(s, &e, 10)); s = *e ? e + 1 : e; }
  return r;
}
// cfg: first, end, rest...  runs the entry for every circuit in [first, end)
inline void many(void (*f)()) {
  auto g = cfg();
  for (int c = g[0]; c < g[1]; c++) {
    std::vector<int> h(g.begin() + 1, g.end());
    h[0] = c;
    cfg_now = &h;
    f();
    cfg_now = nullptr;
  }
}
struct Deadlock : std::runtime_error { Deadlock() : std::runtime_error("a party waits for a message nobody sent") {} };
struct World;
struct Chan : scl::Channel {
  World* w;
  int me, peer;
  Chan(World* w, int me, int peer) : w(w), me(me), peer(peer) {}
  void Close() override {}
  void Send(const unsigned char* src, std::size_t n) override;
  void Recv(unsigned char* dst, std::size_t n) override;
  using scl::Channel::Send;
  using scl::Channel::Recv;
};
struct World {
  int n;
  bool reverse = false;
  std::size_t sent = 0;
  struct Sent { int from, to; std::size_t size; bool operator==(const Sent& o) const { return from == o.from && to == o.to && size == o.size; } };
  std::vector<Sent> log;  // shape of the traffic, in order of sending
  std::vector<bool> bad;
  std::vector<std::vector<std::deque<std::vector<unsigned char>>>> q;  // [from][to]
  std::vector<std::shared_ptr<scl::Network>> nets;
  explicit World(int n, bool rev = false) : n(n), reverse(rev), bad(n), q(n, std::vector<std::deque<std::vector<unsigned char>>>(n)) {
    for (int i = 0; i < n; i++) {
      std::vector<std::shared_ptr<scl::Channel>> c;
      for (int j = 0; j < n; j++) c.push_back(std::make_shared<Chan>(this, i, j));
      nets.push_back(std::make_shared<scl::Network>(c));
    }
  }
  void corrupt(const std::vector<int>& c) { for (int i : c) bad[i] = true; fs::corrupt(c); }
  void each(const std::function<void(int)>& f) {
    for (int k = 0; k < n; k++) { int i = reverse ? n - 1 - k : k; fs::party(i); f(i); }
    fs::party(-1);
  }
  // every party runs its whole program; a party waits where a message has not
  // been sent yet.  Schedules: 0 lowest party first, 1 highest first, 2 the
  // party that ran longest ago.  All parties waiting is a deadlock.
  struct Fiber { ucontext_t c; std::vector<char> stack; bool done = false, waiting = false; int from = -1; long last = 0; };
  std::vector<std::unique_ptr<Fiber>> fib;
  ucontext_t main_c;
  int cur = -1;
  std::function<void(int)> prog;
  std::exception_ptr failed;
  static World*& inst() { static World* w; return w; }
  static void tramp() {
    World* w = inst();
    try { w->prog(w->cur); } catch (...) { if (!w->failed) w->failed = std::current_exception(); }
    w->fib[w->cur]->done = true;
    swapcontext(&w->fib[w->cur]->c, &w->main_c);
  }
  void concurrently(int schedule, const std::function<void(int)>& f) {
    inst() = this;
    prog = f;
    fib.clear();
    for (int i = 0; i < n; i++) {
      fib.push_back(std::make_unique<Fiber>());
      auto& x = *fib[i];
      x.stack.resize(1 << 20);
      getcontext(&x.c);
      x.c.uc_stack.ss_sp = x.stack.data();
      x.c.uc_stack.ss_size = x.stack.size();
      x.c.uc_link = nullptr;
      makecontext(&x.c, (void (*)())tramp, 0);
    }
    for (long step = 1;; step++) {
      int pick = -1;
      bool left = false;
      for (int k = 0; k < n; k++) {
        int i = schedule == 1 ? n - 1 - k : k;
        if (fib[i]->done) continue;
        left = true;
        if (fib[i]->waiting && q[fib[i]->from][i].empty()) continue;
        if (pick < 0 || (schedule == 2 && fib[i]->last < fib[pick]->last)) pick = i;
      }
      if (pick < 0) { cur = -1; if (left) throw Deadlock(); break; }
      cur = pick;
      fib[pick]->waiting = false;
      fib[pick]->last = step;
      fs::party(pick);
      swapcontext(&main_c, &fib[pick]->c);
      if (failed) { cur = -1; std::rethrow_exception(failed); }
    }
    fs::party(-1);
  }
  // a receive in a fiber waits (schedule 2: also when it need not)
  void wait(int me, int from) {
    if (cur < 0) return;
    while (q[from][me].empty()) {
      fib[me]->waiting = true;
      fib[me]->from = from;
      swapcontext(&fib[me]->c, &main_c);
    }
  }
  // every message sent has been received
  bool drained() const { for (auto& a : q) for (auto& b : a) if (!b.empty()) return false; return true; }
};
inline void Chan::Send(const unsigned char* src, std::size_t k) {
  w->q[me][peer].emplace_back(src, src + k);
  w->sent++;
  w->log.push_back({me, peer, k});
  if (w->bad[peer] && !w->bad[me]) for (std::size_t o = 0; o + 8 <= k; o += 8) fs::view(F::Read(src + o));
}
inline void Chan::Recv(unsigned char* dst, std::size_t k) {
  w->wait(me, peer);
  auto& d = w->q[peer][me];
  if (d.empty()) throw Deadlock();
  if (d.front().size() != k) throw std::runtime_error("message of unexpected size");
  std::memcpy(dst, d.front().data(), k);
  d.pop_front();
}
// ------------------------------------------------------- circuits under test
struct Op { char k; int a, b; };  // i owner | a l r | m l r | L | o owner wire
struct Spec {
  std::vector<Op> ops;
  int nin(int owner) const { int c = 0; for (auto& o : ops) if (o.k == 'i' && o.a == owner) c++; return c; }
  int count(char k) const { int c = 0; for (auto& o : ops) if (o.k == k) c++; return c; }
};
// circuits over n clients; wires are numbered in order of i/a/m operations
inline Spec circuit_spec(int id, int n) {
  Spec s;
  auto& o = s.ops;
  int L = n - 1;
  if (id >= 200 && id < 281) {  // every pair of products of three wires
    int c = id - 200;
    o = {{'i', 0, 0}, {'i', 1, 0}, {'i', 0, 0}};
    for (int g = 0; g < 2; g++) {
      o.push_back({'m', c % 3, c / 3 % 3});
      c /= 9;
    }
    o.push_back({'o', 0, 3});
    o.push_back({'o', L, 4});
    return s;
  }
  if (id >= 1000) {  // assorted larger circuits
    unsigned st = (unsigned)id * 2654435761u;
    auto rnd = [&](int m) {
      st = st * 1664525u + 1013904223u;
      return (int)((st >> 16) % (unsigned)m);
    };
    int wires = 0, inputs = 2 + rnd(5), layers = 1 + rnd(3);
    for (int i = 0; i < inputs; i++) o.push_back({'i', rnd(n), 0}), wires++;
    for (int l = 0; l < layers; l++) {
      if (l) o.push_back({'L', 0, 0});
      int before = wires;
      for (int i = rnd(3); i > 0; i--) o.push_back({'a', rnd(wires), rnd(wires)}), wires++, before++;
      int m = 1 + rnd(6), made = 0;
      for (int i = 0; i < m; i++) o.push_back({'m', rnd(before), rnd(before)}), made++;
      wires += made;
    }
    for (int i = rnd(3); i > 0; i--) o.push_back({'a', rnd(wires), rnd(wires)}), wires++;
    for (int i = 1 + rnd(6); i > 0; i--) o.push_back({'o', rnd(n), rnd(wires)});
    return s;
  }
  switch (id) {
    case 1:  // one product of two parties' inputs
      o = {{'i', 0, 0}, {'i', 1, 0}, {'m', 0, 1}, {'o', 0, 2}, {'o', L, 2}};
      break;
    case 2:  // reuse of wires, sums of sums, padding, inputs and sums as outputs
      o = {{'i', 0, 0}, {'i', 0, 0}, {'i', 0, 0}, {'i', 2, 0},  // 0 1 2 | 3
           {'a', 0, 3}, {'a', 4, 4},                             // 4 5
           {'m', 5, 1}, {'m', 2, 2}, {'m', 0, 3},                // 6 7 8
           {'L', 0, 0},
           {'a', 6, 7}, {'a', 9, 2},                             // 9 10
           {'m', 9, 10}, {'m', 8, 0},                            // 11 12
           {'o', 1, 11}, {'o', 1, 12}, {'o', 0, 10}, {'o', L, 0}, {'o', L, 6}, {'o', 1, 9}};
      break;
    case 3:  // depth: repeated squaring, single gate per layer
      o = {{'i', L, 0}, {'m', 0, 0}, {'L', 0, 0}, {'m', 1, 1}, {'L', 0, 0}, {'m', 2, 0}, {'o', 1, 3}, {'o', L, 2}};
      break;
    case 4:  // no products
      o = {{'i', 1, 0}, {'i', 2, 0}, {'a', 0, 1}, {'a', 2, 0}, {'o', 0, 3}, {'o', 2, 2}, {'o', 1, 1}};
      break;
    case 5:  // several full batches in one layer, product of products
      o = {{'i', 0, 0}, {'i', 1, 0}, {'i', 1, 0}, {'i', L, 0},
           {'m', 0, 1}, {'m', 2, 3}, {'m', 1, 3}, {'m', 0, 2}, {'m', 3, 0},  // 4..8
           {'L', 0, 0}, {'m', 4, 5}, {'m', 6, 8}, {'a', 4, 7}, {'o', 0, 9}, {'o', 1, 10}, {'o', 2, 11}};
      break;
    case 6:  // smallest two layer circuit
      o = {{'i', 1, 0}, {'i', 2, 0}, {'m', 0, 1}, {'L', 0, 0}, {'m', 2, 0}, {'o', L, 3}};
      break;
  }
  return s;
}
inline tp::Circuit build(const Spec& s, int clients, int k) {
  tp::Circuit c(clients, k);
  std::vector<std::shared_ptr<tp::Gate>> w;
  bool closed = false;
  for (auto& o : s.ops) {
    if (o.k != 'i' && !closed) { c.CloseInputs(); closed = true; }
    if (o.k == 'i') w.push_back(c.Input(o.a));
    if (o.k == 'a') w.push_back(c.Add(w[o.a], w[o.b]));
    if (o.k == 'm') w.push_back(c.Mult(w[o.a], w[o.b]));
    if (o.k == 'L') c.NewLayer();
  }
  c.LastLayer();
  for (auto& o : s.ops) if (o.k == 'o') c.Output(o.a, w[o.b]);
  c.CloseOutputs();
  return c;
}
// inputs[owner][idx] -> outputs[owner][idx] straight from the description
inline std::vector<std::vector<F>> evaluate(const Spec& s, const std::vector<std::vector<F>>& in) {
  std::vector<std::vector<F>> out(in.size());
  std::vector<std::size_t> pos(in.size());
  std::vector<F> w;
  for (auto& o : s.ops) {
    if (o.k == 'i') w.push_back(in[o.a][pos[o.a]++]);
    if (o.k == 'a') w.push_back(w[o.a] + w[o.b]);
    if (o.k == 'm') w.push_back(w[o.a] * w[o.b]);
    if (o.k == 'o') out[o.a].push_back(w[o.b]);
  }
  return out;
}
inline std::vector<std::vector<F>> fresh_inputs(const Spec& s, int n, const std::vector<bool>& bad) {
  std::vector<std::vector<F>> in(n);
  for (int i = 0; i < n; i++)
    for (int j = 0; j < s.nin(i); j++) in[i].push_back(fs::var("x" + std::to_string(i) + "_" + std::to_string(j), bad[i] ? fs::KNOWN : fs::SECRET));
  return in;
}
// field elements sent over each channel from position `start` of the log on
inline std::vector<std::vector<std::size_t>> elements_sent(const World& w, std::size_t start) {
  std::vector<std::vector<std::size_t>> m(w.n, std::vector<std::size_t>(w.n));
  for (std::size_t i = start; i < w.log.size(); i++) {
    fs::check(w.log[i].size % F::ByteSize() == 0, "messages consist of field elements");
    m[w.log[i].from][w.log[i].to] += w.log[i].size / F::ByteSize();
  }
  return m;
}
inline int threshold(int n, int k) { return n - 2 * (k - 1) - 1; }
#endif

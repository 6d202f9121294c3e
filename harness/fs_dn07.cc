// The DN07 baseline protocol, all parties' code.  cfg: circuit n t reverse [corrupted...]
#include "fs_world.h"
static std::size_t layers_of(const Spec& s) { return s.count('L') + 1; }
static std::vector<tp::DN07> setup(World& w, const Spec& s, int n, int t) {
  std::vector<tp::DN07> d;
  for (int i = 0; i < n; i++) {
    fs::party(i);
    auto c = build(s, n, 2);
    c.SetNetwork(w.nets[i], i);
    d.emplace_back(n, t);
    d[i].SetCircuit(c);
  }
  fs::party(-1);
  return d;
}
static void online(World& w, std::vector<tp::DN07>& d, const Spec& s, const std::vector<std::vector<F>>& in);
static void run(World& w, std::vector<tp::DN07>& d, const Spec& s, const std::vector<std::vector<F>>& in) {
  w.each([&](int i) { d[i].FDMapPrepToGates(); });
  w.each([&](int i) { d[i].FDMultPartiesSendP1(); });
  w.each([&](int i) { d[i].FDMultP1Receives(); });
  online(w, d, s, in);
}
static void online(World& w, std::vector<tp::DN07>& d, const Spec& s, const std::vector<std::vector<F>>& in) {
  w.each([&](int i) { d[i].SetInputs(in[i]); });
  w.each([&](int i) { d[i].InputPartiesSendOwners(); });
  w.each([&](int i) { d[i].InputOwnersReceiveAndSendParties(); });
  w.each([&](int i) { d[i].InputPartiesReceive(); });
  for (std::size_t l = 0; l < layers_of(s); l++) {
    w.each([&](int i) { d[i].MultPartiesSendP1(l); });
    w.each([&](int i) { d[i].MultP1Receives(l); });
    w.each([&](int i) { d[i].MultP1SendsParties(l); });
    w.each([&](int i) { d[i].MultPartiesReceive(l); });
  }
  w.each([&](int i) { d[i].OutputPartiesSendOwners(); });
  w.each([&](int i) { d[i].OutputOwnersReceive(); });
}
static void prep(World& w, std::vector<tp::DN07>& d) {
  w.each([&](int i) { d[i].PrepPartiesSend(); });
  w.each([&](int i) { d[i].PrepPartiesReceive(); });
}
static void outputs_ok(World& w, std::vector<tp::DN07>& d, const Spec& s, const std::vector<std::vector<F>>& in) {
  auto want = evaluate(s, in);
  for (int i = 0; i < w.n; i++)
    for (std::size_t j = 0; j < want[i].size(); j++) fs::eq(d[i].GetOutput(i, j), want[i][j], "outputs equal the circuit on the inputs");
  fs::check(w.drained(), "no message is left over");
}
extern "C" void h_dummy() {
  auto g = cfg();
  int n = g[1], t = g[2];
  Spec s = circuit_spec(g[0], n);
  World w(n, g[3]);
  auto in = fresh_inputs(s, n, w.bad);
  auto d = setup(w, s, n, t);
  F p = fs::var("prep");
  w.each([&](int i) { d[i].DummyPrep(p); });
  run(w, d, s, in);
  outputs_ok(w, d, s, in);
  fs::reach("end");
}
extern "C" void h_full() {
  auto g = cfg();
  int n = g[1], t = g[2];
  Spec s = circuit_spec(g[0], n);
  World w(n, g[3]);
  auto in = fresh_inputs(s, n, w.bad);
  auto d = setup(w, s, n, t);
  prep(w, d);
  fs::check(w.drained(), "no message is left over");
  run(w, d, s, in);
  outputs_ok(w, d, s, in);
  fs::reach("end");
}
extern "C" void h_private() {
  fs::generic_randomness(true);
  auto g = cfg();
  int n = g[1], t = g[2];
  Spec s = circuit_spec(g[0], n);
  World w(n, g[3]);
  w.corrupt(std::vector<int>(g.begin() + 4, g.end()));
  auto in = fresh_inputs(s, n, w.bad);
  auto d = setup(w, s, n, t);
  prep(w, d);
  run(w, d, s, in);
  auto out = evaluate(s, in);
  for (int i = 0; i < n; i++) if (w.bad[i]) for (auto& v : out[i]) fs::entitled(v);
  fs::decide_private("the view of the corrupted parties depends on their inputs and outputs only");
  fs::reach("end");
}
// the constructor accepts exactly n > 2t
extern "C" void h_refuse() {
  for (int n = 1; n < 12; n++)
    for (int t = 0; t < 8; t++) {
      bool ok = true;
      try { tp::DN07 d(n, t); } catch (const std::invalid_argument&) { ok = false; }
      fs::check(ok == (n > 2 * t), "exactly n > 2t is accepted");
    }
  fs::reach("end");
}

// the shape of all traffic is the same for any two executions; the online
// traffic is that of the statement
extern "C" void h_traffic() {
  auto g = cfg();
  int n = g[1], t = g[2];
  Spec s = circuit_spec(g[0], n);
  std::vector<World::Sent> first;
  for (int run = 0; run < 2; run++) {
    World w(n, g[3]);
    std::vector<std::vector<F>> in(n);
    for (int i = 0; i < n; i++)
      for (int j = 0; j < s.nin(i); j++) in[i].push_back(fs::var("x" + std::to_string(run) + "_" + std::to_string(i) + "_" + std::to_string(j)));
    auto d = setup(w, s, n, t);
    prep(w, d);
    // products of the last t parties are sent ahead of the online phase
    w.each([&](int i) { d[i].FDMapPrepToGates(); });
    std::size_t ahead = w.log.size();
    w.each([&](int i) { d[i].FDMultPartiesSendP1(); });
    auto a = elements_sent(w, ahead);
    w.each([&](int i) { d[i].FDMultP1Receives(); });
    std::size_t start = w.log.size();
    online(w, d, s, in);
    auto m = elements_sent(w, start);
    std::size_t muls = s.count('m');
    std::vector<std::size_t> outs(n);
    for (auto& o : s.ops) if (o.k == 'o') outs[o.a]++;
    for (int i = 0; i < n; i++)
      for (int j = 0; j < n; j++) {
        std::size_t want = 0;
        if (i <= t) want += s.nin(j) + outs[j];  // masks of inputs, shares of outputs
        if (j <= t) want += s.nin(i);            // masked inputs
        if (i <= t && j == 0) want += muls;
        if (i == 0 && j <= t) want += muls;
        fs::check(m[i][j] == want, "online traffic: t+1 parties exchange two elements per product, two per party for an input, one for an output");
        fs::check(a[i][j] == (j == 0 && i > t && i <= 2 * t ? muls : 0), "before the inputs are known, t parties send one element per product");
      }
    if (run == 0) first = w.log;
    else fs::check(first == w.log, "the shape of the traffic does not depend on inputs or randomness");
  }
  fs::reach("end");
}

// The TurboPack protocol, all parties' code, over symbolic inputs and masks.
#include "fs_world.h"
static std::size_t layers_of(const Spec& s) { return s.count('L') + 1; }
static void online(World& w, std::vector<tp::Circuit>& c, const Spec& s, const std::vector<std::vector<F>>& in) {
  w.each([&](int i) { c[i].SetInputs(in[i]); });
  w.each([&](int i) { c[i].InputOwnerSendsP1(); });
  w.each([&](int i) { c[i].InputP1Receives(); });
  for (std::size_t l = 0; l < layers_of(s); l++) {
    w.each([&](int i) { c[i].MultP1Sends(l); });
    w.each([&](int i) { c[i].MultPartiesReceive(l); });
    w.each([&](int i) { c[i].MultPartiesSend(l); });
    w.each([&](int i) { c[i].MultP1Receives(l); });
  }
  w.each([&](int i) { c[i].OutputP1SendsMu(); });
  w.each([&](int i) { c[i].OutputOwnerReceivesMu(); });
}
static void fi_prep(World& w, std::vector<tp::Circuit>& c) {
  w.each([&](int i) { c[i].FIPrepSend(); });
  w.each([&](int i) { c[i].FIPrepRecv(); });
  w.each([&](int i) { c[i].GenProdPartiesSendP1(); });
  w.each([&](int i) { c[i].GenProdP1ReceivesAndSends(); });
  w.each([&](int i) { c[i].GenProdPartiesReceive(); });
}
static void fd_prep(World& w, std::vector<tp::Circuit>& c) {
  w.each([&](int i) { c[i].MapCorrToCircuit(); });
  w.each([&](int i) { c[i].PrepMultPartiesSendP1(); });
  w.each([&](int i) { c[i].PrepMultP1ReceivesAndSends(); });
  w.each([&](int i) { c[i].PrepMultPartiesReceive(); });
  w.each([&](int i) { c[i].PrepIOPartiesSendOwner(); });
  w.each([&](int i) { c[i].PrepIOOwnerReceives(); });
}
static std::vector<tp::Circuit> setup(World& w, const Spec& s, int n, int k) {
  std::vector<tp::Circuit> c;
  for (int i = 0; i < n; i++) {
    fs::party(i);
    c.push_back(build(s, n, k));
    c[i].SetNetwork(w.nets[i], i);
    c[i].GenCorrelator();
    c[i].SetThreshold(threshold(n, k));
  }
  fs::party(-1);
  return c;
}
static void outputs_ok(World& w, std::vector<tp::Circuit>& c, const Spec& s, const std::vector<std::vector<F>>& in) {
  auto want = evaluate(s, in);
  for (int i = 0; i < w.n; i++) {
    auto got = c[i].GetOutputs();
    fs::check(got.size() == want[i].size(), "every party gets its outputs");
    for (std::size_t j = 0; j < want[i].size() && j < got.size(); j++) fs::eq(got[j], want[i][j], "outputs equal the circuit on the inputs");
  }
  fs::check(w.drained(), "no message is left over");
}
// cfg: circuit, n, k, reverse
extern "C" void h_clear() {
  auto g = cfg();
  int n = g[1], k = g[2];
  Spec s = circuit_spec(g[0], n);
  auto in = fresh_inputs(s, n, std::vector<bool>(n));
  auto want = evaluate(s, in);
  auto c = build(s, n, k);
  c.SetClearInputs(in);
  auto got = c.GetClearOutputs();
  fs::check(got.size() == (std::size_t)n, "one output list per client");
  for (int i = 0; i < n; i++) {
    fs::check(got[i].size() == want[i].size(), "every client gets its outputs");
    for (std::size_t j = 0; j < want[i].size() && j < got[i].size(); j++) fs::eq(got[i][j], want[i][j], "cleartext evaluation");
  }
  // flat interface: inputs ordered by client, outputs in order of creation
  auto c2 = build(s, n, k);
  std::vector<F> flat;
  for (auto& v : in) for (auto& x : v) flat.push_back(x);
  c2.SetClearInputsFlat(flat);
  auto fl = c2.GetClearOutputsFlat();
  std::vector<std::size_t> pos(n);
  std::size_t at = 0;
  for (auto& o : s.ops) if (o.k == 'o') { fs::check(at < fl.size(), "flat outputs"); if (at < fl.size()) fs::eq(fl[at], want[o.a][pos[o.a]], "flat cleartext evaluation"); pos[o.a]++; at++; }
  fs::check(at == fl.size(), "flat outputs");
  // reading again gives the same
  auto again = c.GetClearOutputs();
  for (int i = 0; i < n; i++) for (std::size_t j = 0; j < want[i].size(); j++) fs::eq(again[i][j], want[i][j], "evaluation is repeatable");
  // wrong input counts
  auto refuse_flat = [&](std::vector<F> v) { auto d = build(s, n, k); try { d.SetClearInputsFlat(v); } catch (const std::invalid_argument&) { return true; } return false; };
  { auto v = flat; v.push_back(F(1)); fs::check(refuse_flat(v), "wrong number of inputs is refused"); if (flat.size()) { v = flat; v.pop_back(); fs::check(refuse_flat(v), "wrong number of inputs is refused"); fs::check(refuse_flat({}), "wrong number of inputs is refused"); } fs::check(!refuse_flat(flat), "the right number of inputs is accepted"); }
  auto refuse = [&](std::vector<std::vector<F>> v) { auto d = build(s, n, k); try { d.SetClearInputs(v); } catch (const std::invalid_argument&) { return true; } return false; };
  auto bad = in; bad.pop_back();
  fs::check(refuse(bad), "wrong number of clients is refused");
  bad = in; bad.push_back({});
  fs::check(refuse(bad), "wrong number of clients is refused");
  for (int i = 0; i < n; i++) { bad = in; bad[i].push_back(F(1)); fs::check(refuse(bad), "wrong number of inputs is refused"); if (in[i].size()) { bad = in; bad[i].pop_back(); fs::check(refuse(bad), "wrong number of inputs is refused"); } }
  fs::reach("end");
}
extern "C" void h_clear_config() {  // width, depth, batch, n, inputs of party 0, of last; outputs
  auto g = cfg();
  tp::CircuitConfig cf;
  int n = g[3];
  cf.width = g[0]; cf.depth = g[1]; cf.batch_size = g[2]; cf.n_parties = n;
  cf.inp_gates.assign(n, 0); cf.out_gates.assign(n, 0);
  cf.inp_gates[0] = g[4]; cf.inp_gates[n - 1] += g[5];
  cf.out_gates[0] = g[6]; cf.out_gates[n - 1] += g[7];
  std::size_t ni = g[4] + g[5], W = g[0];
  auto c = tp::Circuit::FromConfig(cf);
  fs::check(c.GetNInputs() == ni && c.GetNOutputs() == (std::size_t)(g[6] + g[7]) && c.GetDepth() == cf.depth && c.GetWidth() == W && c.GetSize() == W * cf.depth, "shape of the configured circuit");
  auto batches = [&](std::size_t x) { return x == 0 ? 1 : (x + cf.batch_size - 1) / cf.batch_size; };
  std::size_t ib = 0, ob = 0;
  for (int i = 0; i < n; i++) { ib += batches(cf.inp_gates[i]); ob += batches(cf.out_gates[i]); }
  fs::check(c.GetNInputBatches() == ib && c.GetNOutputBatches() == ob && c.GetNMultBatches() == cf.depth * batches(W), "gates are packed into full batches");
  std::vector<F> in;
  for (std::size_t i = 0; i < ni; i++) in.push_back(fs::var("x" + std::to_string(i)));
  c.SetClearInputsFlat(in);
  std::vector<F> w = in;
  for (int d = 0; d < g[1]; d++) {
    std::vector<F> v;
    for (std::size_t i = 0; i < W / 2; i++) { F x = w[(2 * i) % w.size()], y = w[(2 * i + 1) % w.size()]; v.push_back(x * (x + y)); v.push_back(y * (x + y)); }
    w = v;
    for (std::size_t i = 0; i < W; i++) fs::eq(c.GetMultGate(d, i)->GetClear(), w[i], "layer of the configured circuit");
  }
  auto out = c.GetClearOutputs();
  std::size_t at = 0;
  for (int i = 0; i < n; i++) {
    fs::check(out[i].size() == cf.out_gates[i], "outputs per party");
    for (auto& o : out[i]) fs::eq(o, w[at++ % W], "configured outputs");
  }
  auto fl = c.GetClearOutputsFlat();
  fs::check(fl.size() == at, "flat outputs");
  for (std::size_t j = 0; j < fl.size(); j++) fs::eq(fl[j], w[j % W], "configured outputs");
  fs::reach("end");
}
static Spec spec_of(const std::vector<int>& g) { return circuit_spec(g[0], g[1]); }
// online phase from correct preprocessing given by dummy lambdas
extern "C" void h_online_const() {  // one symbolic mask everywhere
  auto g = cfg();
  int n = g[1], k = g[2];
  Spec s = spec_of(g);
  World w(n, g[3]);
  auto in = fresh_inputs(s, n, w.bad);
  auto c = setup(w, s, n, k);
  F l = fs::var("lambda");
  w.each([&](int i) { c[i]._DummyPrep(l); });
  online(w, c, s, in);
  outputs_ok(w, c, s, in);
  fs::reach("end");
}
static void set_lambdas(tp::Circuit& c, const Spec& s) {
  // independent mask on every input and product wire, same for all parties
  std::size_t nin = s.count('i');
  for (std::size_t j = 0; j < nin; j++) c.GetInputGate(j)->SetLambda(fs::var("li" + std::to_string(j)));
  std::size_t l = 0, j = 0;
  for (auto& o : s.ops) {
    if (o.k == 'L') { l++; j = 0; }
    if (o.k == 'm') { c.GetMultGate(l, j)->SetDummyLambda(fs::var("lm" + std::to_string(l) + "_" + std::to_string(j))); j++; }
  }
}
extern "C" void h_online_lambdas() {
  auto g = cfg();
  int n = g[1], k = g[2];
  Spec s = spec_of(g);
  World w(n, g[3]);
  auto in = fresh_inputs(s, n, w.bad);
  auto c = setup(w, s, n, k);
  w.each([&](int i) { set_lambdas(c[i], s); c[i].PopulateDummyLambdas(); c[i].PrepFromDummyLambdas(); });
  online(w, c, s, in);
  outputs_ok(w, c, s, in);
  fs::reach("end");
}
// preprocessing from constant function independent data
extern "C" void h_online_fd() {
  auto g = cfg();
  int n = g[1], k = g[2];
  Spec s = spec_of(g);
  World w(n, g[3]);
  auto in = fresh_inputs(s, n, w.bad);
  auto c = setup(w, s, n, k);
  w.each([&](int i) { c[i].PopulateDummyCorrelator(fs::var("l")); });
  fd_prep(w, c);
  online(w, c, s, in);
  outputs_ok(w, c, s, in);
  fs::reach("end");
}
// cfg[3] is the schedule
static void whole(bool run_protocol) {
  auto g = cfg();
  int n = g[1], k = g[2];
  Spec s = spec_of(g);
  World w(n);
  auto in = fresh_inputs(s, n, w.bad);
  auto c = setup(w, s, n, k);
  w.concurrently(g[3], [&](int i) {
    auto& x = c[i];
    x.GenIndShrsPartiesSend(); x.GenIndShrsPartiesReceive();
    x.GenUnpackedShrPartiesSend(); x.GenUnpackedShrPartiesReceive();
    x.GenZeroPartiesSend(); x.GenZeroPartiesReceive();
    x.GenZeroForProdPartiesSend(); x.GenZeroForProdPartiesReceive();
    x.GenProdPartiesSendP1(); x.GenProdP1ReceivesAndSends(); x.GenProdPartiesReceive();
    x.MapCorrToCircuit();
    x.PrepMultPartiesSendP1(); x.PrepMultP1ReceivesAndSends(); x.PrepMultPartiesReceive();
    x.PrepIOPartiesSendOwner(); x.PrepIOOwnerReceives();
    x.SetInputs(in[i]);
    if (run_protocol) x.RunProtocol();
    else {
      x.RunInput();
      for (std::size_t l = 0; l < layers_of(s); l++) x.RunMult(l);
      x.RunOutput();
    }
  });
  outputs_ok(w, c, s, in);
  fs::reach("end");
}
extern "C" void h_concurrent() { whole(true); }
extern "C" void h_concurrent_layers() { whole(false); }
// values derived by sums and outputs from their operands
extern "C" void h_gates() {
  auto a = std::make_shared<tp::InputGate>(0), b = std::make_shared<tp::InputGate>(1);
  auto m = std::make_shared<tp::MultGate>(a, b);
  F la = fs::var("la"), lb = fs::var("lb"), lm = fs::var("lm"), sa = fs::var("sa"), sb = fs::var("sb"), sm = fs::var("sm"), da = fs::var("da"), db = fs::var("db"), dm = fs::var("dm"), ma = fs::var("ma"), mb = fs::var("mb"), mm = fs::var("mm"), ca = fs::var("ca"), cb = fs::var("cb");
  auto add = std::make_shared<tp::AddGate>(a, m);
  auto add2 = std::make_shared<tp::AddGate>(add, add);
  auto out = std::make_shared<tp::OutputGate>(2, add2);
  auto throws = [](const std::function<void()>& f) { try { f(); } catch (const std::invalid_argument&) { return true; } return false; };
  for (std::shared_ptr<tp::Gate> g : {(std::shared_ptr<tp::Gate>)a, (std::shared_ptr<tp::Gate>)m, (std::shared_ptr<tp::Gate>)add2, (std::shared_ptr<tp::Gate>)out}) {
    fs::check(throws([&] { g->GetMu(); }) && throws([&] { g->GetDummyLambda(); }) && throws([&] { g->GetIndvShrLambda(); }) && throws([&] { g->GetDn07Share(); }) && throws([&] { g->GetClear(); }), "values are refused before they are known");
    fs::check(!g->IsLearned() && !g->IsEvaluated(), "values are refused before they are known");
  }
  a->SetLambda(la); b->SetLambda(lb); m->SetDummyLambda(lm);
  a->SetIndvShrLambda(sa); b->SetIndvShrLambda(sb); m->SetIndvShrLambda(sm);
  a->SetDn07Share(da); b->SetDn07Share(db); m->SetDn07Share(dm);
  a->_SetDummyMu(ma); b->_SetDummyMu(mb); m->_SetDummyMu(mm);
  a->ClearInput(ca); b->ClearInput(cb);
  F two(2);
  for (int round = 0; round < 2; round++) {
    fs::eq(out->GetDummyLambda(), two * (la + lm), "mask of a sum");
    fs::eq(out->GetIndvShrLambda(), two * (sa + sm), "mask share of a sum");
    fs::eq(out->GetDn07Share(), two * (da + dm), "share of a sum");
    fs::eq(out->GetMu(), two * (ma + mm), "masked value of a sum");
    fs::eq(out->GetClear(), two * (ca + ca * cb), "value of a sum");
    fs::eq(add->GetDummyLambda(), la + lm, "mask of a sum");
    fs::eq(add->GetIndvShrLambda(), sa + sm, "mask share of a sum");
    fs::eq(add->GetMu(), ma + mm, "masked value of a sum");
  }
  fs::check(out->GetOwner() == 2 && a->GetOwner() == 0 && b->GetOwner() == 1, "owners");
  fs::reach("end");
}
// batches: owners, sizes, padding that contributes zero
extern "C" void h_batches() {
  for (int k = 1; k < 5; k++) {
    tp::InputBatch ib(1, k);
    tp::OutputBatch ob(1, k);
    tp::MultBatch mb(k);
    auto in = [] (int o) { return std::make_shared<tp::InputGate>(o); };
    auto refuse = [](const std::function<void()>& f) { try { f(); } catch (const std::invalid_argument&) { return true; } return false; };
    auto g = in(1);
    fs::check(refuse([&] { ib.Append(in(0)); }) && refuse([&] { ob.Append(std::make_shared<tp::OutputGate>(2, g)); }), "gates of another owner are refused");
    for (int i = 0; i < k; i++) {
      fs::check(ib.HasRoom() && ob.HasRoom() && mb.HasRoom(), "room until full");
      if (k > 1 && i == 0) fs::check(refuse([&] { mb._DummyPrep(); }) && refuse([&] { ib._DummyPrep(); }) && refuse([&] { ob._DummyPrep(); }), "a partial batch is refused");
      auto x = in(1);
      ib.Append(x);
      auto o = std::make_shared<tp::OutputGate>(1, x);
      ob.Append(o);
      auto m = std::make_shared<tp::MultGate>(x, x);
      mb.Append(m);
      fs::check(ib.GetInputGate(i) == x && ob.GetOutputGate(i) == o && mb.GetMultGate(i) == m, "gates keep their order");
    }
    fs::check(!ib.HasRoom() && !ob.HasRoom() && !mb.HasRoom(), "room until full");
    fs::check(refuse([&] { ib.Append(in(1)); }) && refuse([&] { ob.Append(std::make_shared<tp::OutputGate>(1, g)); }) && refuse([&] { mb.Append(std::make_shared<tp::MultGate>(g, g)); }), "a full batch is refused");
    // layers pack any number of gates into full batches
    for (int c = 0; c < 2 * k + 2; c++) {
      tp::InputLayer il(3, k);
      tp::OutputLayer ol(3, k);
      tp::MultLayer ml(k);
      std::vector<std::shared_ptr<tp::InputGate>> gs;
      std::vector<std::shared_ptr<tp::OutputGate>> os;
      std::vector<std::shared_ptr<tp::MultGate>> ms;
      for (int i = 0; i < c; i++) { gs.push_back(in(3)); il.Append(gs[i]); os.push_back(std::make_shared<tp::OutputGate>(3, gs[i])); ol.Append(os[i]); ms.push_back(std::make_shared<tp::MultGate>(gs[i], gs[i])); ml.Append(ms[i]); }
      il.Close(); ol.Close(); ml.Close();
      std::size_t want = c == 0 ? 1 : (c + k - 1) / k;
      fs::check(il.GetSize() == want && ol.GetSize() == want && ml.GetSize() == want, "number of batches");
      for (std::size_t i = 0; i < want * k; i++) {
        auto b = il.GetInputBatch(i / k); auto o = ol.GetOutputBatch(i / k); auto m = ml.GetMultBatch(i / k);
        fs::check(!b->HasRoom() && !o->HasRoom() && !m->HasRoom() && b->GetOwner() == 3 && o->GetOwner() == 3, "closed layers have full batches");
        auto x = b->GetInputGate(i % k); auto y = o->GetOutputGate(i % k); auto z = m->GetMultGate(i % k);
        if ((int)i < c) fs::check(x == gs[i] && y == os[i] && z == ms[i], "gates keep their order");
        else {
          fs::check(x->IsPadding() && y->IsPadding() && z->IsPadding() && x->GetOwner() == 3 && y->GetOwner() == 3, "padding");
          fs::eq(x->GetMu(), F(0), "padding is zero"); fs::eq(y->GetMu(), F(0), "padding is zero"); fs::eq(z->GetMu(), F(0), "padding is zero");
          fs::eq(x->GetDummyLambda(), F(0), "padding is zero"); fs::eq(y->GetDummyLambda(), F(0), "padding is zero"); fs::eq(z->GetDummyLambda(), F(0), "padding is zero");
          fs::eq(z->GetLeft()->GetMu(), F(0), "padding is zero"); fs::eq(z->GetRight()->GetMu(), F(0), "padding is zero");
        }
      }
    }
  }
  fs::reach("end");
}
// order of construction steps, sizes, refused set up
extern "C" void h_shape() {
  auto g = cfg();
  int n = g[1], k = g[2];
  Spec s = spec_of(g);
  auto c = build(s, n, k);
  std::size_t width = 0, cur = 0, depth = 1, nm = 0, mb = 0, ib = 0, ob = 0;
  auto nb = [&](std::size_t x) { return x == 0 ? (std::size_t)1 : (x + k - 1) / k; };
  for (auto& o : s.ops) {
    if (o.k == 'm') { cur++; nm++; width = std::max(width, cur); }
    if (o.k == 'L') { mb += nb(cur); cur = 0; depth++; }
  }
  mb += nb(cur);
  for (int i = 0; i < n; i++) { ib += nb(s.nin(i)); std::size_t no = 0; for (auto& o : s.ops) if (o.k == 'o' && o.a == i) no++; ob += nb(no); }
  fs::check(c.GetDepth() == depth && c.GetWidth() == width && c.GetSize() == nm && c.GetNInputs() == (std::size_t)s.count('i') && c.GetNOutputs() == (std::size_t)s.count('o'), "metrics of the circuit");
  fs::check(c.GetNMultBatches() == mb && c.GetNInputBatches() == ib && c.GetNOutputBatches() == ob, "number of batches");
  World w(n);
  auto refuse = [](const std::function<void()>& f) { try { f(); } catch (const std::invalid_argument&) { return true; } return false; };
  { tp::Circuit o(n, k); o.Input(0); fs::check(refuse([&] { o.SetNetwork(w.nets[0], 0); }), "an open circuit is refused a network"); }
  { auto o = build(s, n, k); fs::check(refuse([&] { o.GenCorrelator(); }), "preprocessing is refused without a network"); }
  for (int i = 0; i < n; i++) {
    auto o = build(s, n, k);
    o.SetNetwork(w.nets[i], i);
    std::size_t ni = s.nin(i);
    fs::check(refuse([&] { o.SetInputs(std::vector<F>(ni + 1, F(1))); }), "a wrong number of inputs is refused");
    if (ni) fs::check(refuse([&] { o.SetInputs(std::vector<F>(ni - 1, F(1))); }), "a wrong number of inputs is refused");
    o.SetInputs(std::vector<F>(ni, F(1)));
  }
  fs::reach("end");
}
// every configuration with small entries is either refused or built as described
extern "C" void h_config_refuse() {
  auto refuse = [](tp::CircuitConfig cf) { try { tp::Circuit::FromConfig(cf); } catch (const std::invalid_argument&) { return true; } return false; };
  for (std::size_t wd = 0; wd < 7; wd++)
    for (std::size_t dp = 0; dp < 3; dp++)
      for (std::size_t ni = 0; ni < 7; ni++)
        for (std::size_t dn = 0; dn < 3; dn++) {
          tp::CircuitConfig cf;
          cf.width = wd; cf.depth = dp; cf.batch_size = 2; cf.n_parties = 2;
          cf.inp_gates = {ni / 2, ni - ni / 2};
          cf.out_gates = {1, 2};
          if (dn == 1) cf.inp_gates.push_back(0);
          if (dn == 2) cf.out_gates.pop_back();
          bool good = dn == 0 && ni > 0 && wd > 0 && dp > 0 && wd % ni == 0 && ni % 2 == 0;
          fs::check(refuse(cf) == !good, "exactly the consistent configurations are accepted");
        }
  fs::reach("end");
}
// ------------------------------------------------ function independent data
static F lagrange(const std::vector<F>& ys, const F& x, std::size_t m) {
  F z;
  for (std::size_t j = 0; j < m; j++) {
    F num(1), den(1);
    for (std::size_t i = 0; i < m; i++) if (i != j) { num *= x - F((int)i + 1); den *= F((int)j - (int)i); }
    z += ys[j] * num * den.Inverse();
  }
  return z;
}
static void degree_at_most(const std::vector<F>& ys, std::size_t d, const std::string& what) {
  for (std::size_t i = d + 1; i < ys.size(); i++) fs::eq(lagrange(ys, F((int)i + 1), d + 1), ys[i], what);
}
extern "C" void h_fi_prep() {
  auto g = cfg();
  int n = g[1], k = g[2], t = threshold(n, k);
  Spec s = spec_of(g);
  World w(n, g[3]);
  auto c = setup(w, s, n, k);
  fi_prep(w, c);
  fs::check(w.drained(), "no message is left over");
  w.each([&](int i) { c[i].MapCorrToCircuit(); });
  std::vector<tp::Correlator> co;
  for (int i = 0; i < n; i++) co.push_back(c[i].GetCorrelator());
  // individual masks: one value in every slot, degree n-k
  std::vector<std::vector<std::shared_ptr<tp::Gate>>> gates(n);
  for (int i = 0; i < n; i++) {
    for (int j = 0; j < s.count('i'); j++) gates[i].push_back(c[i].GetInputGate(j));
    std::size_t l = 0, j = 0;
    for (auto& o : s.ops) { if (o.k == 'L') { l++; j = 0; } if (o.k == 'm') gates[i].push_back(c[i].GetMultGate(l, j++)); }
  }
  std::vector<F> masks;
  for (std::size_t x = 0; x < gates[0].size(); x++) {
    std::vector<F> sh;
    for (int i = 0; i < n; i++) sh.push_back(co[i].mMapIndShrs[gates[i][x]]);
    degree_at_most(sh, n - k, "mask sharings have degree n-k");
    F v = lagrange(sh, F(0), n);
    for (int a = 1; a < k; a++) fs::eq(lagrange(sh, F(-a), n), v, "a mask fills every slot");
    for (auto& o : masks) fs::differs(v, o, "masks are distinct");
    masks.push_back(v);
  }
  // multiplication triples and zero sharings (the maps are keyed by batch; any
  // order works as long as it is the same for all parties)
  std::size_t l = 0, nm = 0;
  std::vector<F> zeros_seen;
  auto bundle = [&](const std::function<F(int)>& f) { std::vector<F> r; for (int i = 0; i < n; i++) r.push_back(f(i)); return r; };
  (void)l; (void)nm;
  auto zero_ok = [&](const std::vector<F>& z) {
    for (int a = 0; a < k; a++) fs::eq(lagrange(z, F(-a), n), F(0), "zero sharings share zeros");
    for (auto& o : zeros_seen) fs::differs(z[0], o, "zero sharings are fresh");
    zeros_seen.push_back(z[0]);
    if (fs::symbolic()) fs::check(fs::has_random(z[0]), "zero sharings are random");
  };
  // batches in circuit order, identified through the preprocessing of each party
  std::vector<std::vector<std::shared_ptr<tp::MultBatch>>> mb(n);
  for (int i = 0; i < n; i++) for (auto& e : co[i].mMapMultBatch) mb[i].push_back(e.first);
  fs::check(mb[0].size() == c[0].GetNMultBatches(), "one triple per batch");
  for (auto& b0 : mb[0]) {
    // the same batch at the other parties: match by the first gate's position
    auto where = [&](int i, std::shared_ptr<tp::MultBatch> b) { std::size_t l = 0, j = 0; for (auto& o : s.ops) { if (o.k == 'L') { l++; j = 0; } if (o.k == 'm') { if (c[i].GetMultGate(l, j) == b->GetMultGate(0)) return (int)(l * 1000 + j); j++; } } return -1; };
    int at = where(0, b0);
    if (at < 0) continue;  // batch of padding only
    std::vector<tp::MultBatchFIPrep> d;
    for (int i = 0; i < n; i++) for (auto& b : mb[i]) if (where(i, b) == at) d.push_back(co[i].mMapMultBatch[b]);
    fs::check(d.size() == (std::size_t)n, "the batch exists at every party");
    if (d.size() != (std::size_t)n) continue;
    auto A = bundle([&](int i) { return d[i].mShrA; }), B = bundle([&](int i) { return d[i].mShrB; }), C = bundle([&](int i) { return d[i].mShrC; });
    degree_at_most(A, n - k, "triple factors have degree n-k");
    degree_at_most(B, n - k, "triple factors have degree n-k");
    degree_at_most(C, n - k, "triple products have degree n-k");
    for (int a = 0; a < k; a++) {
      F x = lagrange(A, F(-a), n), y = lagrange(B, F(-a), n);
      fs::eq(lagrange(C, F(-a), n), x * y, "triples multiply");
      fs::differs(x, y, "triple factors are distinct");
    }
    zero_ok(bundle([&](int i) { return d[i].mShrO1; }));
    zero_ok(bundle([&](int i) { return d[i].mShrO2; }));
    zero_ok(bundle([&](int i) { return d[i].mShrO3; }));
  }
  auto io = [&](auto& map0, auto get) { for (auto& e : map0) { (void)e; } (void)get; };
  (void)io; (void)t;
  // input and output batches: identified by owner and first gate
  for (int owner = 0; owner < n; owner++) {
    auto inb = [&](int i) { std::vector<F> r; for (int j = 0; j < s.nin(owner); j += k) for (auto& e : co[i].mMapInputBatch) if (e.first->GetOwner() == (std::size_t)owner && e.first->GetInputGate(0) == c[i].GetInputGate(owner, j)) r.push_back(e.second.mShrO); return r; };
    auto outn = [&] { int r = 0; for (auto& o : s.ops) if (o.k == 'o' && o.a == owner) r++; return r; }();
    auto outb = [&](int i) { std::vector<F> r; for (int j = 0; j < outn; j += k) for (auto& e : co[i].mMapOutputBatch) if (e.first->GetOwner() == (std::size_t)owner && e.first->GetOutputGate(0) == c[i].GetOutputGate(owner, j)) r.push_back(e.second.mShrO); return r; };
    for (int which = 0; which < 2; which++) {
      std::vector<std::vector<F>> all;
      for (int i = 0; i < n; i++) all.push_back(which ? outb(i) : inb(i));
      for (std::size_t b = 0; b < all[0].size(); b++) { bool ok = true; for (int i = 0; i < n; i++) ok = ok && b < all[i].size(); fs::check(ok, "the batch exists at every party"); if (ok) zero_ok(bundle([&](int i) { return all[i][b]; })); }
    }
  }
  fs::reach("end");
}
extern "C" void h_full() {
  auto g = cfg();
  int n = g[1], k = g[2];
  Spec s = spec_of(g);
  World w(n, g[3]);
  auto in = fresh_inputs(s, n, w.bad);
  auto c = setup(w, s, n, k);
  fi_prep(w, c);
  fs::check(w.drained(), "no message is left over");
  fd_prep(w, c);
  fs::check(w.drained(), "no message is left over");
  online(w, c, s, in);
  outputs_ok(w, c, s, in);
  fs::reach("end");
}
// cfg: circuit n k reverse corrupted...
extern "C" void h_private() {
  fs::generic_randomness(true);
  auto g = cfg();
  int n = g[1], k = g[2];
  Spec s = spec_of(g);
  World w(n, g[3]);
  w.corrupt(std::vector<int>(g.begin() + 4, g.end()));
  auto in = fresh_inputs(s, n, w.bad);
  auto c = setup(w, s, n, k);
  fi_prep(w, c);
  fd_prep(w, c);
  online(w, c, s, in);
  auto out = evaluate(s, in);
  for (int i = 0; i < n; i++) if (w.bad[i]) for (auto& v : out[i]) fs::entitled(v);
  fs::decide_private("the view of the corrupted parties depends on their inputs and outputs only");
  fs::reach("end");
}
#define MANY(e) extern "C" void e##_many() { many(e); }
MANY(h_clear) MANY(h_online_const) MANY(h_online_lambdas) MANY(h_online_fd) MANY(h_fi_prep) MANY(h_full) MANY(h_private) MANY(h_concurrent) MANY(h_concurrent_layers) MANY(h_shape)

// the shape of all traffic is the same for any two executions; the online
// traffic is that of the statement.  cfg: circuit, n, k, order
extern "C" void h_traffic() {
  auto g = cfg();
  int n = g[1], k = g[2];
  Spec s = spec_of(g);
  std::vector<World::Sent> first;
  for (int run = 0; run < 2; run++) {
    World w(n, g[3]);
    std::vector<std::vector<F>> in(n);
    for (int i = 0; i < n; i++)
      for (int j = 0; j < s.nin(i); j++) in[i].push_back(fs::var("x" + std::to_string(run) + "_" + std::to_string(i) + "_" + std::to_string(j)));
    auto c = setup(w, s, n, k);
    fi_prep(w, c);
    fd_prep(w, c);
    std::size_t start = w.log.size();
    online(w, c, s, in);
    auto m = elements_sent(w, start);
    std::size_t batches = 0, here = 0;
    std::vector<std::size_t> outs(n);
    for (auto& o : s.ops) {
      if (o.k == 'm') here++;
      if (o.k == 'L') { batches += here ? (here + k - 1) / k : 1; here = 0; }
      if (o.k == 'o') outs[o.a]++;
    }
    batches += here ? (here + k - 1) / k : 1;
    for (int i = 0; i < n; i++)
      for (int j = 0; j < n; j++) {
        std::size_t want = 0;
        if (j == 0) want += s.nin(i) + batches;
        if (i == 0) want += 2 * batches + outs[j];
        fs::check(m[i][j] == want, "online traffic: one element per input and output, three per party and batch of products");
      }
    if (run == 0) first = w.log;
    else fs::check(first == w.log, "the shape of the traffic does not depend on inputs or randomness");
  }
  fs::reach("end");
}
extern "C" void h_traffic_many() { many(h_traffic); }

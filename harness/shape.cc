// Circuit construction, batching and parameter validation over symbolic sizes.
#include <memory>
#include <stdexcept>
#include <vector>
#include "sym.h"
#include "scl/networking.h"
#include "tp/circuits.h"
#include "tp/dn07.h"
using F = tp::FF;
using Z = std::size_t;
static Z pick(Z max, const char* n) {
  Z v = sym_uint(32, n);
  sym_assume(v <= max);
  return sym_concrete(v);
}
static Z range(Z max, const char* n) {  // not split into cases
  Z v = sym_uint(32, n);
  sym_assume(v <= max);
  return v;
}
template <class Fn> static bool refused(Fn f) {
  try { f(); } catch (const std::invalid_argument&) { return true; }
  return false;
}
static std::shared_ptr<scl::Network> net(Z n) {
  std::vector<std::shared_ptr<scl::Channel>> c(n);
  return std::make_shared<scl::Network>(c);
}
#ifndef NMAX
#define NMAX 9
#endif
// n parties, every threshold and batch size below 2^32
extern "C" void h_threshold() {
  Z n = pick(NMAX, "n");
  Z t = sym_uint(32, "t"), k = sym_uint(32, "k");
  sym_assume(k >= 1);
  tp::Correlator c(0, 0, 0, k);
  c.SetNetwork(net(n), 0);
  bool r = refused([&] { c.SetThreshold(t); });
  sym_assert(r == !(n == t + 2 * (k - 1) + 1 && n > 2 * t), "a threshold is accepted exactly when n = t + 2(k-1) + 1 and t < n/2");
  sym_reach(r ? "refused" : "accepted");
}
extern "C" void h_dn_threshold() {
  Z n = pick(NMAX, "n");
  Z t = sym_uint(32, "t");
  bool ok = n > 2 * t;
  if (ok) t = sym_concrete(t);
  bool r = refused([&] { tp::DN07 d(n, t); });
  sym_assert(r == !ok, "a threshold is accepted exactly when t < n/2");
  sym_reach(r ? "refused" : "accepted");
}
// any number of gates in batches of any size
extern "C" void h_layers() {
  Z k = pick(4, "k"), c = pick(9, "c");
  sym_assume(k >= 1);
  tp::InputLayer il(3, k);
  tp::OutputLayer ol(3, k);
  tp::MultLayer ml(k);
  std::vector<std::shared_ptr<tp::InputGate>> gs;
  std::vector<std::shared_ptr<tp::OutputGate>> os;
  std::vector<std::shared_ptr<tp::MultGate>> ms;
  for (Z i = 0; i < c; i++) {
    gs.push_back(std::make_shared<tp::InputGate>(3));
    il.Append(gs[i]);
    os.push_back(std::make_shared<tp::OutputGate>(3, gs[i]));
    ol.Append(os[i]);
    ms.push_back(std::make_shared<tp::MultGate>(gs[i], gs[i]));
    ml.Append(ms[i]);
  }
  il.Close();
  ol.Close();
  ml.Close();
  Z want = c == 0 ? 1 : (c + k - 1) / k;
  sym_assert(il.GetSize() == want && ol.GetSize() == want && ml.GetSize() == want, "number of batches");
  Z i = sym_uint(32, "i");
  sym_assume(i < want * k);
  i = sym_concrete(i);
  auto b = il.GetInputBatch(i / k);
  auto o = ol.GetOutputBatch(i / k);
  auto m = ml.GetMultBatch(i / k);
  sym_assert(!b->HasRoom() && !o->HasRoom() && !m->HasRoom() && b->GetOwner() == 3 && o->GetOwner() == 3, "closed layers have full batches");
  auto x = b->GetInputGate(i % k);
  auto y = o->GetOutputGate(i % k);
  auto z = m->GetMultGate(i % k);
  if (i < c) {
    sym_assert(x == gs[i] && y == os[i] && z == ms[i], "gates keep their order");
    sym_reach("gate");
  } else {
    sym_assert(x->IsPadding() && y->IsPadding() && z->IsPadding() && x->GetOwner() == 3 && y->GetOwner() == 3, "padding");
    sym_assert(x->GetMu() == F(0) && y->GetMu() == F(0) && z->GetMu() == F(0) && z->GetLeft()->GetMu() == F(0) && z->GetRight()->GetMu() == F(0), "padding is zero");
    sym_assert(x->GetDummyLambda() == F(0) && y->GetDummyLambda() == F(0) && z->GetDummyLambda() == F(0), "padding is zero");
    sym_reach("padding");
  }
}
extern "C" void h_batch_refuse() {
  Z k = pick(4, "k"), c = pick(6, "c"), o = sym_uint(32, "owner"), p = sym_uint(32, "other");
  sym_assume(k >= 1);
  tp::InputBatch ib(o, k);
  tp::OutputBatch ob(o, k);
  tp::MultBatch mb(k);
  for (Z i = 0; i < c; i++) {
    auto x = std::make_shared<tp::InputGate>(o);
    bool full = i >= k;
    sym_assert(ib.HasRoom() == !full && ob.HasRoom() == !full && mb.HasRoom() == !full, "room until full");
    bool a = refused([&] { ib.Append(x); }), b = refused([&] { ob.Append(std::make_shared<tp::OutputGate>(o, x)); }), d = refused([&] { mb.Append(std::make_shared<tp::MultGate>(x, x)); });
    sym_assert(a == full && b == full && d == full, "a full batch is refused");
    if (full) sym_reach("full");
  }
  tp::InputBatch ib2(o, k);
  tp::OutputBatch ob2(o, k);
  auto y = std::make_shared<tp::InputGate>(p);
  bool a = refused([&] { ib2.Append(y); }), b = refused([&] { ob2.Append(std::make_shared<tp::OutputGate>(p, y)); });
  sym_assert(a == (o != p) && b == (o != p), "gates of another owner are refused");
  sym_reach(a ? "other" : "same");
}
#ifndef BATCH
#define BATCH 2
#endif
#ifndef WMAX
#define WMAX 4
#endif
static void config(tp::CircuitConfig& cf, Z ni, bool good) {
  tp::Circuit c;
  bool r = refused([&] { c = tp::Circuit::FromConfig(cf); });
  sym_assert(r == !good, "exactly the consistent configurations are accepted");
  if (r) { sym_reach("refused"); return; }
  Z no = 0, ib = 0, ob = 0;
  for (Z x : cf.out_gates) no += x;
  sym_assert(c.GetNInputs() == ni && c.GetNOutputs() == no && c.GetDepth() == cf.depth && c.GetWidth() == cf.width && c.GetSize() == cf.width * cf.depth, "the circuit has the configured size");
  auto nb = [&](Z x) { return x == 0 ? (Z)1 : (x + cf.batch_size - 1) / cf.batch_size; };
  for (Z i = 0; i < cf.n_parties; i++) { ib += nb(cf.inp_gates[i]); ob += nb(cf.out_gates[i]); }
  sym_assert(c.GetNInputBatches() == ib && c.GetNOutputBatches() == ob && c.GetNMultBatches() == cf.depth * nb(cf.width), "number of batches");
  sym_reach("accepted");
}
extern "C" void h_config() {
  tp::CircuitConfig cf;
  cf.n_parties = 2;
  cf.batch_size = BATCH;
  cf.width = pick(WMAX, "width");
  cf.depth = pick(2, "depth");
  Z a = pick(2, "in"), b = pick(2, "in");
  cf.inp_gates = {a, b};
  bool good = a + b > 0 && (a + b) % 2 == 0 && cf.width > 0 && cf.depth > 0 && cf.width % (a + b) == 0;
  cf.out_gates = {good ? pick(2, "out") : 1, 1};
  config(cf, a + b, good);
}
extern "C" void h_config_lists() {
  tp::CircuitConfig cf;
  cf.batch_size = 2;
  cf.width = 2;
  cf.depth = 1;
  cf.n_parties = sym_uint(32, "parties");
  Z li = pick(3, "listed_in"), lo = pick(3, "listed_out");
  for (Z i = 0; i < li; i++) cf.inp_gates.push_back(i == 0 ? 2 : 0);
  for (Z i = 0; i < lo; i++) cf.out_gates.push_back(1);
  sym_assume(li > 0);
  bool good = li == cf.n_parties && lo == cf.n_parties;
  if (good) cf.n_parties = sym_concrete(cf.n_parties);
  config(cf, 2, good);
}
// sequences of construction steps chosen symbolically
#ifndef BATCH
#define BATCH 2
#endif
#ifndef STEPS
#define STEPS 5
#endif
extern "C" void h_build() {
  Z k = pick(3, "k");
  sym_assume(k >= 1);
  tp::Circuit c(2, k);
  std::vector<Z> in(2), out(2), layer(1);
  std::vector<std::shared_ptr<tp::Gate>> w;
  std::vector<std::vector<std::shared_ptr<tp::InputGate>>> ig(2);
  std::vector<std::shared_ptr<tp::MultGate>> mg;
  for (int o = 0; o < 2; o++) { Z m = pick(2, "inputs"); for (Z j = 0; j < m; j++) { ig[o].push_back(c.Input(o)); w.push_back(ig[o].back()); in[o]++; } }
  sym_assume(in[0] + in[1] > 0);
  c.CloseInputs();
  Z total = 0;
  for (int s = 0; s < STEPS; s++) {
    Z op = pick(2, "step");
    if (op == 0) { mg.push_back(c.Mult(w[0], w.back())); w.push_back(mg.back()); layer.back()++; total++; }
    else if (op == 1) w.push_back(c.Add(w.back(), w[0]));
    else { c.NewLayer(); layer.push_back(0); }
  }
  c.LastLayer();
  Z mo = pick(2, "outputs");
  for (Z j = 0; j < mo; j++) c.Output(1, w.back());
  out[1] = mo;
  bool r = refused([&] { c.SetNetwork(net(2), 0); });
  sym_assert(r, "an open circuit is refused a network");
  bool r2 = refused([&] { c.GenCorrelator(); });
  sym_assert(r2, "preprocessing is refused without a network");
  c.CloseOutputs();
  Z width = 0, mb = 0;
  auto nb = [&](Z x) { return x == 0 ? (Z)1 : (x + k - 1) / k; };
  for (Z l : layer) { width = l > width ? l : width; mb += nb(l); }
  sym_assert(c.GetDepth() == layer.size() && c.GetWidth() == width && c.GetSize() == total && c.GetNInputs() == in[0] + in[1] && c.GetNOutputs() == mo, "metrics of the circuit");
  sym_assert(c.GetNMultBatches() == mb && c.GetNInputBatches() == nb(in[0]) + nb(in[1]) && c.GetNOutputBatches() == nb(0) + nb(mo), "number of batches");
  for (int o = 0; o < 2; o++) for (Z j = 0; j < in[o]; j++) sym_assert(c.GetInputGate(o, j) == ig[o][j] && c.GetInputGate(o == 0 ? j : in[0] + j) == ig[o][j], "input gates by owner and position");
  Z at = 0;
  for (Z l = 0; l < layer.size(); l++) for (Z j = 0; j < layer[l]; j++) { sym_assert(c.GetMultGate(l, j) == mg[at], "products by layer and position"); at++; }
  for (Z j = 0; j < mo; j++) sym_assert(c.GetOutputGate(1, j)->GetLeft() == w.back() && c.GetOutputGate(j) == c.GetOutputGate(1, j), "output gates by owner and position");
  sym_reach("end");
}
// number of inputs handed to a party
extern "C" void h_set_inputs() {
  Z k = 2;
  tp::Circuit c(2, k);
  Z m0 = pick(3, "in0"), m1 = pick(3, "in1");
  for (Z i = 0; i < m0; i++) c.Input(0);
  for (Z i = 0; i < m1; i++) c.Input(1);
  c.CloseInputs();
  c.LastLayer();
  c.CloseOutputs();
  Z me = pick(1, "me"), give = pick(4, "given");
  c.SetNetwork(net(2), me);
  bool r = refused([&] { c.SetInputs(std::vector<F>(give, F(1))); });
  sym_assert(r == (give != (me ? m1 : m0)), "a wrong number of inputs is refused");
  sym_reach(r ? "refused" : "accepted");
}
extern "C" void h_clear_inputs() {
  tp::Circuit c(2, 2);
  Z m0 = pick(2, "in0"), m1 = pick(2, "in1");
  for (Z i = 0; i < m0; i++) c.Input(0);
  for (Z i = 0; i < m1; i++) c.Input(1);
  c.CloseInputs();
  Z g0 = pick(3, "given0"), g1 = pick(3, "given1"), cl = pick(3, "clients");
  std::vector<std::vector<F>> v;
  if (cl > 0) v.push_back(std::vector<F>(g0, F(1)));
  if (cl > 1) v.push_back(std::vector<F>(g1, F(1)));
  if (cl > 2) v.push_back({});
  bool r2 = refused([&] { c.SetClearInputs(v); });
  sym_assert(r2 == !(cl == 2 && g0 == m0 && g1 == m1), "a wrong number of inputs is refused");
  bool r3 = refused([&] { c.SetClearInputsFlat(std::vector<F>(g0 + g1, F(1))); });
  sym_assert(r3 == (g0 + g1 != m0 + m1), "a wrong number of inputs is refused");
  sym_reach(r2 ? "refused" : "accepted");
}

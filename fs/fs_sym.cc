#include "fs.h"
#include <dlfcn.h>
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <csignal>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <unordered_map>
#include <z3++.h>
using u64 = std::uint64_t;
using u128 = __uint128_t;
#define NOINST __attribute__((no_instrument_function))
static const u64 P = 0x1FFFFFFFFFFFFFFFull;
static const u64 TAG = 0xFE5Aull << 48;
static inline bool tagged(u64 v) { return (v >> 48) == 0xFE5A; }
static u64 addm(u64 a, u64 b) { u64 s = a + b; return s >= P ? s - P : s; }
static u64 subm(u64 a, u64 b) { return a >= b ? a - b : a + P - b; }
static u64 mulm(u64 a, u64 b) { return (u64)((u128)a * b % P); }
static u64 powm(u64 a, u64 e) { u64 r = 1; while (e) { if (e & 1) r = mulm(r, a); a = mulm(a, a); e >>= 1; } return r; }
static u64 invm(u64 a) { return powm(a, P - 2); }
// ------------------------------------------------------------- monomials
using Mono = std::vector<std::uint32_t>;
static std::vector<Mono> monos{{}};
static std::map<Mono, std::uint32_t> mono_ids{{{}, 0}};
static std::uint32_t mono_id(const Mono& m) {
  auto it = mono_ids.find(m);
  if (it != mono_ids.end()) return it->second;
  std::uint32_t id = monos.size();
  monos.push_back(m);
  mono_ids[m] = id;
  return id;
}
// variables that are known to be nonzero and whose inverse has been taken:
// x and its inverse are each other's partner and cancel in a monomial
using Uni = std::vector<u64>;  // univariate, coefficients from the constant up
static std::vector<std::uint32_t> partner;
static std::uint32_t partner_of(std::uint32_t v) { return v < partner.size() ? partner[v] : ~0u; }
static void cancel(Mono& m) {
  for (size_t i = 0; i < m.size();) {
    auto q = partner_of(m[i]);
    auto it = q == ~0u ? m.end() : std::lower_bound(m.begin(), m.end(), q);
    if (it != m.end() && *it == q) {
      size_t j = it - m.begin();
      m.erase(m.begin() + std::max(i, j));
      m.erase(m.begin() + std::min(i, j));
      i = 0;
    } else i++;
  }
}
static std::unordered_map<u64, std::uint32_t> mono_mul_cache;
static std::uint32_t mono_mul(std::uint32_t a, std::uint32_t b) {
  if (!a) return b;
  if (!b) return a;
  if (a > b) std::swap(a, b);
  u64 k = ((u64)a << 32) | b;
  auto it = mono_mul_cache.find(k);
  if (it != mono_mul_cache.end()) return it->second;
  Mono m(monos[a].size() + monos[b].size());
  std::merge(monos[a].begin(), monos[a].end(), monos[b].begin(), monos[b].end(), m.begin());
  if (!partner.empty()) cancel(m);
  return mono_mul_cache[k] = mono_id(m);
}
// ------------------------------------------------------------ polynomials
using Poly = std::vector<std::pair<std::uint32_t, u64>>;  // sorted by monomial id, no zero
static Poly p_const(u64 c) { return c ? Poly{{0, c}} : Poly{}; }
static Poly p_lin(const Poly& a, const Poly& b, u64 kb) {
  Poly r;
  r.reserve(a.size() + b.size());
  size_t i = 0, j = 0;
  while (i < a.size() || j < b.size()) {
    if (j == b.size() || (i < a.size() && a[i].first < b[j].first)) r.push_back(a[i++]);
    else if (i == a.size() || b[j].first < a[i].first) { u64 c = mulm(b[j].second, kb); if (c) r.push_back({b[j].first, c}); j++; }
    else { u64 c = addm(a[i].second, mulm(b[j].second, kb)); if (c) r.push_back({a[i].first, c}); i++; j++; }
  }
  return r;
}
static Poly p_add(const Poly& a, const Poly& b) { return p_lin(a, b, 1); }
static Poly p_sub(const Poly& a, const Poly& b) { return p_lin(a, b, P - 1); }
static Poly p_scale(const Poly& a, u64 k) {
  Poly r;
  if (!k) return r;
  r = a;
  for (auto& t : r) t.second = mulm(t.second, k);
  return r;
}
struct Unsupported { std::string what; };
static Poly p_mul(const Poly& a, const Poly& b) {
  if (a.empty() || b.empty()) return {};
  if (a.size() == 1 && a[0].first == 0) return p_scale(b, a[0].second);
  if (b.size() == 1 && b[0].first == 0) return p_scale(a, b[0].second);
  if ((u64)a.size() * b.size() > 40000000ull) throw Unsupported{"polynomial too large"};
  std::unordered_map<std::uint32_t, u64> acc;
  acc.reserve(a.size() * b.size());
  for (auto& x : a)
    for (auto& y : b) {
      u64& c = acc[mono_mul(x.first, y.first)];
      c = addm(c, mulm(x.second, y.second));
    }
  Poly r;
  r.reserve(acc.size());
  for (auto& t : acc) if (t.second) r.push_back(t);
  std::sort(r.begin(), r.end());
  return r;
}
// ---------------------------------------------------------------- variables
struct Var { std::string name; fs::Class cls; int party; };
static std::vector<Var> vars;
static std::map<std::string, std::uint32_t> var_by_name;
static std::vector<Poly> pool;
static std::unordered_map<u64, std::vector<std::uint32_t>> pool_idx;
static u64 n_ops = 0;
static u64 hash_poly(const Poly& p) {
  u64 h = 1469598103934665603ull;
  for (auto& t : p) { h = (h ^ t.first) * 1099511628211ull; h = (h ^ t.second) * 1099511628211ull; h ^= h >> 29; }
  return h;
}
static Poly canon(const Poly& d);
static u64 handle(const Poly& p0) {
  const Poly p = canon(p0);
  if (p.empty()) return 0;
  if (p.size() == 1 && p[0].first == 0) return p[0].second;
  auto& v = pool_idx[hash_poly(p)];
  for (auto i : v) if (pool[i] == p) return TAG | i;
  pool.push_back(p);
  v.push_back(pool.size() - 1);
  return TAG | (pool.size() - 1);
}
// substitutions introduced by equality branches: var -> polynomial
static std::vector<std::pair<std::uint32_t, Poly>> subst;
static std::vector<Poly> nonzero;
static bool mono_has(std::uint32_t m, std::uint32_t v) { return std::binary_search(monos[m].begin(), monos[m].end(), v); }
static bool poly_has(const Poly& p, std::uint32_t v) {
  for (auto& t : p) if (mono_has(t.first, v)) return true;
  return false;
}
static Poly p_subst(const Poly& p, std::uint32_t v, const Poly& by) {
  if (!poly_has(p, v)) return p;
  // group by power of v
  std::map<unsigned, Poly> g;
  for (auto& t : p) {
    Mono m = monos[t.first];
    unsigned k = 0;
    Mono n;
    for (auto x : m) if (x == v) k++; else n.push_back(x);
    g[k].push_back({mono_id(n), t.second});
  }
  Poly r, pw = p_const(1);
  unsigned cur = 0;
  for (auto& e : g) {
    while (cur < e.first) { pw = p_mul(pw, by); cur++; }
    std::sort(e.second.begin(), e.second.end());
    r = p_add(r, p_mul(e.second, pw));
  }
  return r;
}
// Denominators: polynomials known to be nonzero on this path whose inverse has
// been taken; the inverse is a variable of its own.
struct Fac { Poly f; std::uint32_t inv; bool active, single; };
static std::vector<Fac> base;
static std::vector<int> fac_of;  // inverse variable -> factor
static size_t poly_factors = 0;
static int fac_index(std::uint32_t v) { return v < fac_of.size() ? fac_of[v] : -1; }
static int isinv(std::uint32_t v) { int k = fac_index(v); return k < 0 ? 0 : base[k].active ? 1 : 2; }
static const Poly& inverse_of(std::uint32_t v) { return base[fac_of[v]].f; }
// graded lexicographic
static bool mono_less(std::uint32_t a, std::uint32_t b) {
  auto &x = monos[a], &y = monos[b];
  if (x.size() != y.size()) return x.size() < y.size();
  return y < x;
}
static std::uint32_t lead(const Poly& p) {
  auto m = p[0].first;
  for (auto& t : p) if (mono_less(m, t.first)) m = t.first;
  return m;
}
// p = q * f exactly ?
static bool divide(const Poly& p, const Poly& f, Poly& q) {
  auto less = [](std::uint32_t a, std::uint32_t b) { return mono_less(b, a); };
  std::map<std::uint32_t, u64, decltype(less)> r(less);
  for (auto& t : p) r[t.first] = t.second;
  auto lf = lead(f);
  u64 ilf = 0;
  for (auto& t : f) if (t.first == lf) ilf = invm(t.second);
  q.clear();
  while (!r.empty()) {
    auto top = *r.begin();
    auto &a = monos[top.first], &b = monos[lf];
    if (!std::includes(a.begin(), a.end(), b.begin(), b.end())) return false;
    Mono m;
    std::set_difference(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(m));
    auto id = mono_id(m);
    u64 k = mulm(top.second, ilf);
    q.push_back({id, k});
    for (auto& t : f) {
      auto w = mono_mul(id, t.first);
      u64& c = r[w];
      c = subm(c, mulm(k, t.second));
      if (!c) r.erase(w);
    }
  }
  std::sort(q.begin(), q.end());
  return true;
}
// d = numerator / product of f_k ^ e_k, no f_k left that divides the numerator
static Poly numerator(const Poly& d, std::map<int, unsigned>* exps = nullptr) {
  std::map<int, unsigned> mx;
  for (auto& t : d) {
    std::map<int, unsigned> e;
    for (auto v : monos[t.first]) if (fac_index(v) >= 0) e[fac_of[v]]++;
    for (auto& x : e) mx[x.first] = std::max(mx[x.first], x.second);
  }
  if (mx.empty()) { if (exps) exps->clear(); return d; }
  Poly n;
  std::map<std::vector<unsigned>, Poly> cof;
  for (auto& t : d) {
    std::map<int, unsigned> e;
    Mono m;
    for (auto v : monos[t.first]) if (fac_index(v) >= 0) e[fac_of[v]]++; else m.push_back(v);
    std::vector<unsigned> need;
    for (auto& x : mx) need.push_back(x.second - (e.count(x.first) ? e[x.first] : 0));
    cof[need].push_back({mono_id(m), t.second});
  }
  for (auto& g : cof) {
    Poly q = g.second;
    std::sort(q.begin(), q.end());
    size_t i = 0;
    for (auto& x : mx) { for (unsigned k = 0; k < g.first[i]; k++) q = p_mul(q, base[x.first].f); i++; }
    n = p_add(n, q);
  }
  if (n.empty()) { if (exps) exps->clear(); return n; }
  for (auto& x : mx) {
    Poly q;
    while (x.second && divide(n, base[x.first].f, q)) { n = q; x.second--; }
  }
  if (exps) *exps = mx;
  return n;
}
// Zero sets that have no parametrization at hand: u^n + ... = 0, used as a
// rewrite rule for u^n.
struct Rule { std::uint32_t u; size_t n; Poly full; };
static std::vector<Rule> rules;
static Poly reduce(Poly p) {
  bool again = !rules.empty();
  while (again) {
    again = false;
    for (auto& r : rules) {
      Poly cut;
      for (auto& t : p) {
        auto& m = monos[t.first];
        if ((size_t)std::count(m.begin(), m.end(), r.u) < r.n) continue;
        Mono q;
        size_t k = 0;
        for (auto v : m) if (v == r.u && k < r.n) k++; else q.push_back(v);
        cut.push_back({mono_id(q), t.second});
      }
      if (cut.empty()) continue;
      std::sort(cut.begin(), cut.end());
      p = p_sub(p, p_mul(cut, r.full));
      again = true;
    }
  }
  return p;
}
static Poly canon(const Poly& d) {
  if (!rules.empty()) {
    std::map<int, unsigned> e;
    Poly n = reduce(numerator(d, &e)), den = p_const(1);
    for (auto& x : e) for (unsigned k = 0; k < x.second; k++) den = p_mul(den, Poly{{mono_id({base[x.first].inv}), 1}});
    return p_mul(n, den);
  }
  if (!poly_factors) return d;
  bool any = false;
  for (auto& t : d) for (auto v : monos[t.first]) if (fac_index(v) >= 0 && !base[fac_of[v]].single) any = true;
  if (!any) return d;
  std::map<int, unsigned> e;
  Poly n = numerator(d, &e);
  Poly den = p_const(1);
  for (auto& x : e) for (unsigned k = 0; k < x.second; k++) den = p_mul(den, Poly{{mono_id({base[x.first].inv}), 1}});
  return p_mul(n, den);
}
static size_t norm_done = 0;
static Poly norm(const Poly& p) {
  Poly r = p;
  for (auto& s : subst) r = p_subst(r, s.first, s.second);
  return canon(r);
}
static Poly get(u64 v) {
  if (!tagged(v)) return p_const(v % P);
  u64 id = v & ((1ull << 48) - 1);
  if (id >= pool.size()) throw Unsupported{"corrupted symbolic value"};
  return subst.empty() ? pool[id] : norm(pool[id]);
}
static std::uint32_t new_var(const std::string& name, fs::Class c, int party) {
  auto it = var_by_name.find(name);
  if (it != var_by_name.end()) return it->second;
  std::uint32_t id = vars.size();
  vars.push_back({name, c, party});
  var_by_name[name] = id;
  return id;
}
static u64 var_handle(std::uint32_t v) { return handle(Poly{{mono_id({v}), 1}}); }
// ------------------------------------------------------------ results
static std::vector<bool> prefix, trace;
static std::vector<size_t> alts;
struct Viol { std::string kind, what, replay; };
static std::vector<Viol> viols;
static std::vector<std::string> incomplete;
static std::map<std::string, u64> reached, asserts;
static u64 queries = 0, a_checked = 0, a_solver = 0, a_folded = 0, a_unknown = 0;
static double solver_s = 0, max_q = 0;
static std::string replay_dir = "/tmp", entry_name;
static int path_no = 0;
static std::map<std::string, unsigned> decided;  // on this path
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static u64 rng_state = 88172645463325252ull;
static u64 rnd() { rng_state ^= rng_state << 13; rng_state ^= rng_state >> 7; rng_state ^= rng_state << 17; return rng_state % P; }
static u64 eval(const Poly& p, const std::vector<u64>& val) {
  u64 r = 0;
  for (auto& t : p) {
    u64 c = t.second;
    for (auto v : monos[t.first]) c = mulm(c, val[v]);
    r = addm(r, c);
  }
  return r;
}
static Uni u_of(const Poly& p, std::uint32_t u, const std::vector<u64>& val);
static std::vector<u64> u_roots(Uni f);
static bool rules_ok(const std::vector<u64>& val) {
  for (auto& r : rules) if (eval(r.full, val)) return false;
  return true;
}
static void apply_subst_vals(std::vector<u64>& val) {
  for (auto& r : rules) {
    auto roots = u_roots(u_of(r.full, r.u, val));
    if (!roots.empty()) val[r.u] = roots[rnd() % roots.size()];
  }
  for (size_t v = 0; v < val.size(); v++)
    if (isinv(v) == 1) val[v] = invm(eval(inverse_of(v), val));
  for (size_t i = subst.size(); i-- > 0;) val[subst[i].first] = eval(subst[i].second, val);
}
static bool find_vals(const std::function<bool(const std::vector<u64>&)>& good, std::vector<u64>& val, int tries = 400) {
  for (int k = 0; k < tries; k++) {
    val.assign(vars.size(), 0);
    for (auto& v : val) v = k < 100 ? rnd() % 16 : rnd();
    apply_subst_vals(val);
    bool ok = rules_ok(val);
    for (auto& q : nonzero) if (!eval(q, val)) ok = false;
    if (ok && good(val)) return true;
  }
  return false;
}
static std::string write_replay(const std::vector<u64>& val, const std::vector<std::string>& extra = {}) {
  std::string f = replay_dir + "/" + entry_name + ".p" + std::to_string(path_no) + ".v" + std::to_string(viols.size()) + ".txt";
  std::ofstream o(f);
  for (size_t i = 0; i < vars.size(); i++) o << "v " << vars[i].name << " " << val[i] << "\n";
  for (auto& e : extra) o << e << "\n";
  return f;
}
static bool same_viol(const std::string& k, const std::string& w) {
  for (auto& v : viols) if (v.kind == k && v.what == w) return true;
  return false;
}
// ------------------------------------------------------------ solver
static z3::context& zc() { static z3::context c; return c; }
static std::map<std::uint32_t, z3::expr>& zmono() { static std::map<std::uint32_t, z3::expr> m; return m; }
static z3::expr zpoly(const Poly& p) {
  auto& c = zc();
  z3::expr_vector ts(c);
  for (auto& t : p) {
    z3::expr k = c.int_val((std::uint64_t)t.second);
    if (t.first == 0) { ts.push_back(k); continue; }
    auto it = zmono().find(t.first);
    if (it == zmono().end()) it = zmono().emplace(t.first, c.int_const(("m" + std::to_string(t.first)).c_str())).first;
    ts.push_back(k * it->second);
  }
  if (ts.empty()) return c.int_val(0);
  return z3::sum(ts);
}
// is there an assignment of the monomials (in [0,p)) with some lhs != rhs mod p ?
static z3::check_result zdiffer(const std::vector<std::pair<Poly, Poly>>& ps) {
  auto& c = zc();
  z3::solver s(c, "QF_LIA");
  z3::params pr(c);
  pr.set("timeout", 60000u);
  s.set(pr);
  z3::expr mod = c.int_val((std::uint64_t)P);
  z3::expr_vector ds(c);
  std::set<std::uint32_t> used;
  for (auto& e : ps) {
    for (auto& t : e.first) if (t.first) used.insert(t.first);
    for (auto& t : e.second) if (t.first) used.insert(t.first);
    ds.push_back(z3::mod(zpoly(e.first) - zpoly(e.second), mod) != 0);
  }
  for (auto m : used) { zpoly(Poly{{m, 1}}); auto& x = zmono().at(m); s.add(x >= 0 && x < mod); }
  s.add(z3::mk_or(ds));
  double t0 = now();
  auto r = s.check();
  double d = now() - t0;
  solver_s += d;
  max_q = std::max(max_q, d);
  queries++;
  return r;
}
// satisfiability of the path condition together with d == 0 / d != 0
static bool zfeasible(const Poly& d, bool zero) {
  if (!zero) {
    // values that satisfy this side, if they are easy to come by
    std::vector<u64> val;
    if (find_vals([&](const std::vector<u64>& v) { return eval(d, v) != 0; }, val, 20)) return true;
  }
  auto& c = zc();
  z3::solver s(c, "QF_LIA");
  z3::params pr(c);
  pr.set("timeout", base.empty() ? 5000u : 200u);
  s.set(pr);
  z3::expr mod = c.int_val((std::uint64_t)P);
  std::set<std::uint32_t> used;
  auto use = [&](const Poly& p) { for (auto& t : p) if (t.first) used.insert(t.first); };
  use(d);
  for (auto& q : nonzero) use(q);
  z3::expr e = zpoly(d);
  if (zero) s.add(e == mod * c.int_const("kq")); else s.add(z3::mod(e, mod) != 0);
  for (auto& q : nonzero) s.add(z3::mod(zpoly(q), mod) != 0);
  for (auto m : used) { zpoly(Poly{{m, 1}}); auto& x = zmono().at(m); s.add(x >= 0 && x < mod); }
  double t0 = now();
  auto r = s.check();
  double dt = now() - t0;
  solver_s += dt;
  max_q = std::max(max_q, dt);
  queries++;
  return r != z3::unsat;
}
struct Ob { Poly a, b; std::string what; };
static std::vector<Ob> obs;
static void flush_obs() {
  std::vector<Ob> todo;
  todo.swap(obs);
  for (size_t i = 0; i < todo.size(); i += 64) {
    size_t e = std::min(todo.size(), i + 64);
    std::vector<std::pair<Poly, Poly>> ps;
    // obligations that differ syntactically are decided one by one
    std::vector<size_t> single;
    for (size_t k = i; k < e; k++) {
      todo[k].a = norm(todo[k].a); todo[k].b = norm(todo[k].b);
      if (todo[k].a == todo[k].b) ps.push_back({todo[k].a, todo[k].b}); else single.push_back(k);
    }
    if (!ps.empty()) {
      auto r = zdiffer(ps);
      if (r == z3::unsat) a_solver += ps.size(); else { a_unknown += ps.size(); incomplete.push_back("solver undecided on an identity"); }
    }
    for (size_t k : single) {
      auto& o = todo[k];
      if (same_viol("assert", o.what)) continue;
      auto r = zdiffer({{o.a, o.b}});
      if (r == z3::unsat) { a_solver++; continue; }
      Poly d = p_sub(o.a, o.b);
      if (poly_factors || !rules.empty()) {
        // the numerator of the difference decides
        d = canon(d);
        if (zdiffer({{d, {}}}) == z3::unsat) { a_solver++; continue; }
      }
      std::vector<u64> val;
      if (find_vals([&](const std::vector<u64>& v) { return eval(d, v) != 0; }, val)) {
        Viol v{"assert", o.what, ""};
        v.replay = write_replay(val);
        viols.push_back(v);
      } else { a_unknown++; incomplete.push_back("no concrete values found for: " + o.what); }
    }
  }
}
// decide a symbolic equality; forks
static bool generic = false;
static u64 generic_cut = 0;
static void substitute(std::uint32_t x, const Poly& by);
static void assign(std::uint32_t x, const Poly& by);
static std::uint32_t linear_var(const Poly& d, Poly& c, Poly& r);
static Poly inverse(const Poly& d);
static bool quadratic(const Poly& d);
static bool split_linear(const Poly& d);
static bool implicit(const Poly& d);
static int linear_rank = 0;
static bool no_rename = false;
static bool branch_zero(const Poly& d0) {
  Poly d = d0;
  if (d.empty()) return true;
  if (d.size() == 1 && d[0].first == 0) return false;
  if (generic)
    for (auto& t : d) for (auto v : monos[t.first]) if (vars[v].cls == fs::RANDOM) { generic_cut++; return false; }
  if (!base.empty() || !rules.empty()) {
    d = reduce(numerator(d));
    if (d.empty()) return true;
    // factors that are known to be nonzero do not matter
    bool again = true;
    while (again && !(d.size() == 1 && d[0].first == 0)) {
      again = false;
      for (auto& k : base) {
        Poly q;
        if (k.active && divide(d, k.f, q)) { d = q; again = true; }
      }
      for (auto& k : nonzero) {
        Poly q;
        if (k.size() > 1 && divide(d, k, q)) { d = q; again = true; }
      }
    }
    if (d.size() == 1 && d[0].first == 0) return false;
  }
  // decided on this path already?
  for (auto& q : nonzero) {
    if (q.size() == d.size() && q[0].first == d[0].first) {
      u64 k = mulm(d[0].second, invm(q[0].second));
      if (p_scale(q, k) == d) return false;
    }
  }
  // a common monomial: zero iff one of its variables or the cofactor is
  if (d[0].first != 0) {
    Mono common = monos[d[0].first];
    for (auto& t : d) {
      Mono c;
      std::set_intersection(common.begin(), common.end(), monos[t.first].begin(), monos[t.first].end(), std::back_inserter(c));
      common.swap(c);
      if (common.empty()) break;
    }
    if (!common.empty() && !(d.size() == 1 && common.size() == 1)) {
      Poly rest;
      for (auto& t : d) {
        Mono m;
        std::set_difference(monos[t.first].begin(), monos[t.first].end(), common.begin(), common.end(), std::back_inserter(m));
        rest.push_back({mono_id(m), t.second});
      }
      std::sort(rest.begin(), rest.end());
      auto vs = common;
      vs.erase(std::unique(vs.begin(), vs.end()), vs.end());
      for (auto v : vs) if (branch_zero(Poly{{mono_id({v}), 1}})) return true;
      return branch_zero(rest);
    }
  }
  // can it be zero: find a variable that occurs only linearly
  std::uint32_t x = ~0u;
  u64 cx = 0;
  for (auto& t : d)
    if (monos[t.first].size() == 1) {
      auto v = monos[t.first][0];
      auto q = partner_of(v);
      if (q != ~0u && x != ~0u) continue;
      int occ = 0;
      for (auto& s : d) if (mono_has(s.first, v)) occ++;
      if (occ == 1) { x = v; cx = t.second; if (q == ~0u) break; }
    }
  size_t i = trace.size();
  bool take;
  if (i < prefix.size()) take = prefix[i];
  else {
    // the solver decides which sides of the branch exist
    bool t = zfeasible(d, true), f = zfeasible(d, false);
    take = t && !f;
    if (t && f) alts.push_back(i);
    if (!t && !f) throw Unsupported{"INFEASIBLE"};
  }
  trace.push_back(take);
  if (!take) { nonzero.push_back(d); return false; }
  if (x == ~0u) {
    // x occurs to the first power with a coefficient that is no constant
    Poly c, r;
    x = linear_var(d, c, r);
    if (x == ~0u && split_linear(d)) return true;
    if (x == ~0u && quadratic(d)) return true;
    if (x == ~0u && implicit(d)) return true;
    if (x == ~0u) {
      if (getenv("FS_DEBUG")) {
        for (auto& t : d) { fprintf(stderr, " + %lld", t.second > P / 2 ? -(long long)(P - t.second) : (long long)t.second); for (auto v : monos[t.first]) fprintf(stderr, "*%s", vars[v].name.c_str()); }
        fprintf(stderr, "\n");
      }
      throw Unsupported{"equality branch on a nonlinear polynomial"};
    }
    if (branch_zero(c)) {
      if (!branch_zero(norm(r))) throw Unsupported{"INFEASIBLE"};
      return true;
    }
    Poly ic = inverse(c);
    assign(x, canon(norm(p_scale(p_mul(norm(r), ic), P - 1))));
    return true;
  }
  Poly rest;
  for (auto& t : d) if (!mono_has(t.first, x)) rest.push_back(t);
  assign(x, p_scale(rest, subm(0, invm(cx))));
  return true;
}
// roots of a univariate polynomial
static Uni u_of(const Poly& p, std::uint32_t u, const std::vector<u64>& val) {
  Uni f;
  for (auto& t : p) {
    u64 c = t.second;
    size_t k = 0;
    for (auto v : monos[t.first]) if (v == u) k++; else c = mulm(c, val[v]);
    if (f.size() <= k) f.resize(k + 1, 0);
    f[k] = addm(f[k], c);
  }
  return f;
}
static void u_trim(Uni& a) { while (!a.empty() && !a.back()) a.pop_back(); }
static Uni u_mod(Uni a, const Uni& f, Uni* quo = nullptr) {
  u_trim(a);
  u64 il = invm(f.back());
  if (quo) quo->assign(a.size() >= f.size() ? a.size() - f.size() + 1 : 0, 0);
  while (a.size() >= f.size()) {
    u64 k = mulm(a.back(), il);
    size_t o = a.size() - f.size();
    if (quo) (*quo)[o] = k;
    for (size_t i = 0; i < f.size(); i++) a[o + i] = subm(a[o + i], mulm(k, f[i]));
    u_trim(a);
  }
  return a;
}
static Uni u_mulmod(const Uni& a, const Uni& b, const Uni& f) {
  if (a.empty() || b.empty()) return {};
  Uni r(a.size() + b.size() - 1, 0);
  for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < b.size(); j++) r[i + j] = addm(r[i + j], mulm(a[i], b[j]));
  return u_mod(r, f);
}
static Uni u_pow(Uni a, u64 e, const Uni& f) {
  Uni r{1};
  r = u_mod(r, f);
  while (e) { if (e & 1) r = u_mulmod(r, a, f); a = u_mulmod(a, a, f); e >>= 1; }
  return r;
}
static Uni u_gcd(Uni a, Uni b) { u_trim(a); u_trim(b); while (!b.empty()) { Uni r = u_mod(a, b); a = b; b = r; } return a; }
static void u_split(const Uni& f, std::vector<u64>& roots) {
  if (f.size() < 2) return;
  if (f.size() == 2) { roots.push_back(mulm(subm(0, f[0]), invm(f[1]))); return; }
  for (u64 k = 1;; k++) {
    Uni h = u_pow(Uni{mulm(k, 7919), 1}, (P - 1) / 2, f);
    if (h.empty()) h = {0};
    h[0] = subm(h[0], 1);
    Uni g = u_gcd(f, h);
    if (g.size() < 2 || g.size() == f.size()) continue;
    Uni q;
    u_mod(f, g, &q);
    u_split(g, roots);
    u_split(q, roots);
    return;
  }
}
static std::vector<u64> u_roots(Uni f) {
  std::vector<u64> r;
  u_trim(f);
  if (f.size() < 2) return r;
  if (f.size() == 2) { u_split(f, r); return r; }
  Uni x = u_pow(Uni{0, 1}, P, f);  // x^p - x has every element as a simple root
  x.resize(std::max<size_t>(x.size(), 2), 0);
  x[1] = subm(x[1], 1);
  u_trim(x);
  u_split(x.empty() ? f : u_gcd(f, x), r);
  return r;
}
// make the homogeneous polynomial d zero: one of its linear factors or the
// cofactor is
static bool split_linear(const Poly& d) {
  std::set<std::uint32_t> vs;
  size_t deg = monos[d[0].first].size();
  for (auto& t : d) {
    if (monos[t.first].size() != deg) return false;
    for (auto v : monos[t.first]) vs.insert(v);
  }
  if (deg < 2 || vs.size() < 2 || vs.size() > 4) return false;
  for (auto u : vs) {
    auto pure = mono_id(Mono(deg, u));
    bool has = false;
    for (auto& t : d) has |= t.first == pure;
    if (!has) continue;
    // candidates for the factor u - sum of k_v v
    std::vector<Poly> cand{Poly{{mono_id({u}), 1}}};
    for (auto v : vs) {
      if (v == u) continue;
      Uni f(deg + 1, 0);
      for (auto& t : d) {
        size_t nu = 0, nv = 0;
        for (auto w : monos[t.first]) if (w == u) nu++; else if (w == v) nv++;
        if (nu + nv == deg) f[nu] = t.second;
      }
      auto rs = u_roots(f);
      std::sort(rs.begin(), rs.end());
      rs.erase(std::unique(rs.begin(), rs.end()), rs.end());
      std::vector<Poly> next;
      for (auto& c : cand) for (auto k : rs) next.push_back(p_add(c, p_scale(Poly{{mono_id({v}), 1}}, subm(0, k))));
      cand.swap(next);
    }
    for (auto& c : cand) {
      Poly q;
      if (!divide(d, c, q)) continue;
      if (branch_zero(c)) return true;
      if (!branch_zero(norm(q))) throw Unsupported{"INFEASIBLE"};
      return true;
    }
    if (vs.size() == 2) {
      // no linear factor: only the trivial zero
      for (auto v : vs) if (!branch_zero(norm(Poly{{mono_id({v}), 1}}))) throw Unsupported{"INFEASIBLE"};
      return true;
    }
    return false;
  }
  return false;
}
static bool implicit(const Poly& d) {
  std::set<std::uint32_t> vs;
  for (auto& t : d) for (auto v : monos[t.first]) vs.insert(v);
  for (auto u : vs) {
    size_t n = 0;
    bool main = false;
    for (auto& r : rules) main |= r.u == u;
    if (main) continue;
    for (auto& t : d) n = std::max<size_t>(n, std::count(monos[t.first].begin(), monos[t.first].end(), u));
    u64 c = 0;
    bool pure = true;
    for (auto& t : d)
      if ((size_t)std::count(monos[t.first].begin(), monos[t.first].end(), u) == n) { if (monos[t.first].size() == n) c = t.second; else pure = false; }
    if (!pure || !c) continue;
    rules.push_back({u, n, p_scale(d, invm(c))});
    for (auto& q : nonzero) { q = reduce(numerator(q)); if (q.empty()) throw Unsupported{"INFEASIBLE"}; }
    for (auto& s : subst) s.second = canon(s.second);
    return true;
  }
  return false;
}
// make the quadratic d zero: rotate until one of its variables is linear
static bool quadratic(const Poly& d) {
  std::set<std::uint32_t> vs;
  for (auto& t : d) {
    if (monos[t.first].size() > 2) return false;
    for (auto v : monos[t.first]) vs.insert(v);
  }
  auto coef = [&](std::uint32_t a, std::uint32_t b) -> u64 {
    auto id = mono_id(a < b ? Mono{a, b} : Mono{b, a});
    for (auto& t : d) if (t.first == id) return t.second;
    return 0;
  };
  for (auto u : vs)
    for (auto w : vs) {
      if (u >= w) continue;
      u64 a = coef(u, u), b = coef(u, w), c = coef(w, w);
      u64 disc = subm(mulm(b, b), mulm(4, mulm(a, c)));
      u64 root = powm(disc, (P + 1) / 4);
      if (!a || mulm(root, root) != disc) continue;
      u64 rho = mulm(subm(root, b), invm(mulm(2, a)));
      auto y = new_var("q#" + std::to_string(vars.size()), vars[u].cls, vars[u].party);
      assign(u, p_add(Poly{{mono_id({y}), 1}}, Poly{{mono_id({w}), rho}}));
      if (!branch_zero(norm(d))) throw Unsupported{"INFEASIBLE"};
      return true;
    }
  return false;
}
static void substitute(std::uint32_t x, const Poly& by) {
  for (auto& s : subst) s.second = canon(p_subst(s.second, x, by));
  subst.push_back({x, by});
  for (auto& q : nonzero) { q = p_subst(q, x, by); if (!base.empty()) q = reduce(numerator(q)); if (q.empty()) throw Unsupported{"INFEASIBLE"}; }
}
static void assign(std::uint32_t x, const Poly& by) {
  struct NoRename { bool old = no_rename; NoRename() { no_rename = true; } ~NoRename() { no_rename = old; } } nr;
  // the denominators that contain x
  std::vector<std::pair<std::uint32_t, Poly>> change;
  for (auto& k : base)
    if (k.active && poly_has(k.f, x)) { change.push_back({k.inv, k.f}); k.active = false; }
  std::vector<Poly> again;
  for (size_t i = 0; i < rules.size();)
    if (poly_has(rules[i].full, x)) { again.push_back(rules[i].full); rules.erase(rules.begin() + i); } else i++;
  substitute(x, by);
  for (auto& c : change) {
    Poly f = norm(c.second);
    if (f.empty()) throw Unsupported{"INFEASIBLE"};
    substitute(c.first, norm(inverse(f)));
  }
  for (auto& r : again) if (!branch_zero(norm(r))) throw Unsupported{"INFEASIBLE"};
}
static std::uint32_t linear_var(const Poly& d, Poly& c, Poly& r) {
  std::set<std::uint32_t> cand;
  for (auto& t : d) for (auto v : monos[t.first]) cand.insert(v);
  std::uint32_t best = ~0u;
  size_t best_terms = 0;
  int best_rank = 9;
  for (auto v : cand) {
    bool ok = true, known = true, used = false;
    size_t n = 0;
    for (auto& t : d) {
      auto k = std::count(monos[t.first].begin(), monos[t.first].end(), v);
      if (k > 1) ok = false;
      if (!k) continue;
      n++;
      for (auto w : monos[t.first]) if (w != v && partner_of(w) == ~0u) known = false;
    }
    if (!ok) continue;
    for (auto& k : base) if (k.active && poly_has(k.f, v)) used = true;
    // best: the coefficient is a monomial in variables that are not zero
    int rank = (n == 1 && known ? 0 : 2) + (used ? 1 : 0);
    if (best == ~0u || std::make_pair(rank, n) < std::make_pair(best_rank, best_terms)) { best = v; best_terms = n; best_rank = rank; }
  }
  linear_rank = best_rank;
  if (best == ~0u) return best;
  c.clear(); r.clear();
  for (auto& t : d) {
    if (!mono_has(t.first, best)) { r.push_back(t); continue; }
    Mono m = monos[t.first];
    m.erase(std::find(m.begin(), m.end(), best));
    c.push_back({mono_id(m), t.second});
  }
  std::sort(c.begin(), c.end());
  return best;
}
static Poly new_factor(const Poly& f) {
  auto i = new_var("1/#" + std::to_string(vars.size()), fs::KNOWN, -1);
  bool single = f.size() == 1;
  fac_of.resize(vars.size(), -1);
  fac_of[i] = base.size();
  base.push_back({f, i, true, single});
  if (single) {
    auto v = monos[f[0].first][0];
    partner.resize(vars.size(), ~0u);
    partner[v] = i;
    partner[i] = v;
  } else poly_factors++;
  return Poly{{mono_id({i}), 1}};
}
// the inverse of a polynomial that is not zero on this path
static Poly inverse(const Poly& d0) {
  Poly d = norm(d0);
  if (d.empty()) throw Unsupported{"INFEASIBLE"};
  std::map<int, unsigned> e;
  d = numerator(d, &e);
  Poly r = p_const(1);
  for (auto& x : e) for (unsigned k = 0; k < x.second; k++) r = p_mul(r, base[x.first].f);
  for (size_t k = 0; k < base.size(); k++) {
    Poly q;
    while (base[k].active && divide(d, base[k].f, q)) {
      d = q;
      r = p_mul(r, Poly{{mono_id({base[k].inv}), 1}});
    }
  }
  // single variables
  Mono common = monos[d[0].first];
  for (auto& t : d) {
    Mono c;
    std::set_intersection(common.begin(), common.end(), monos[t.first].begin(), monos[t.first].end(), std::back_inserter(c));
    common.swap(c);
  }
  for (auto v : common) {
    Poly pv{{mono_id({v}), 1}}, q;
    if (!divide(d, pv, q)) throw Unsupported{"internal: division"};
    d = q;
    r = p_mul(r, partner_of(v) != ~0u ? Poly{{mono_id({partner_of(v)}), 1}} : new_factor(pv));
  }
  u64 lc = 0;
  auto ld = lead(d);
  for (auto& t : d) if (t.first == ld) lc = t.second;
  d = p_scale(d, invm(lc));
  r = p_scale(r, invm(lc));
  if (d.size() == 1 && d[0].first == 0) return canon(r);
  // a free variable with an invertible coefficient: rename d
  Poly c, rest;
  auto x = linear_var(d, c, rest);
  if (x != ~0u && linear_rank == 0 && !no_rename) {
    Poly ic = inverse(c);
    auto y = new_var("u#" + std::to_string(vars.size()), vars[x].cls, vars[x].party);
    Poly py{{mono_id({y}), 1}};
    Poly iy = new_factor(py);
    assign(x, canon(p_mul(p_sub(py, rest), ic)));
    return canon(norm(p_mul(r, iy)));
  }
  return canon(p_mul(r, new_factor(d)));
}
// ------------------------------------------------------------ link seam
// a path that takes too long is a candidate for one that never ends; the native
// replay of its values decides
struct Hang {};
static volatile sig_atomic_t time_up = 0;
static void tick() { if (++n_ops > 20000000 || time_up) { n_ops = 0; throw Hang{}; } }
using M61 = scl::details::FiniteField<scl::details::NamedField::Mersenne61>;
u64 M61::FromInt(int v) { return v < 0 ? v + P : v; }
void M61::Add(u64& t, const u64& v) {
  tick();
  if (!tagged(t) && !tagged(v)) t = addm(t, v); else t = handle(p_add(get(t), get(v)));
}
void M61::Subtract(u64& t, const u64& v) {
  tick();
  if (!tagged(t) && !tagged(v)) t = subm(t, v); else t = handle(p_sub(get(t), get(v)));
}
void M61::Multiply(u64& t, const u64& v) {
  tick();
  if (!tagged(t) && !tagged(v)) t = mulm(t, v); else t = handle(p_mul(get(t), get(v)));
}
void M61::Negate(u64& t) { tick(); if (!tagged(t)) t = subm(0, t); else t = handle(p_scale(get(t), P - 1)); }
void M61::Invert(u64& t) {
  tick();
  Poly p = get(t);
  if (p.empty() || (!(p.size() == 1 && p[0].first == 0) && branch_zero(p))) throw std::logic_error("0 not invertible modulo prime");
  if (p.size() == 1 && p[0].first == 0) { t = invm(p[0].second); return; }
  t = handle(inverse(p));
}
bool M61::Equal(const u64& a, const u64& b) {
  tick();
  if (a == b) return true;
  if (!tagged(a) && !tagged(b)) return false;
  return branch_zero(p_sub(get(a), get(b)));
}
void M61::ToBytes(unsigned char* dest, const u64& src) { std::memcpy(dest, &src, 8); }
void M61::FromBytes(u64& dest, const unsigned char* src) {
  u64 v;
  std::memcpy(&v, src, 8);
  dest = tagged(v) && (v & ((1ull << 48) - 1)) < pool.size() ? v : v % P;
}
void M61::FromString(u64& dest, const std::string& s, enum scl::NumberBase b) {
  scl::details::FromStringSimpleType(dest, s, b);
  dest %= P;
}
std::string M61::ToString(const u64& v) { return tagged(v) ? "<symbolic>" : std::to_string(v); }
// ------------------------------------------------------------ API
static int cur_party = -1;
static std::set<int> corrupted;
static std::vector<Poly> views, outs;
static std::vector<u64> view_handles;
static std::set<std::string> drawn;
static fs::F mk(u64 v) {
  unsigned char b[8];
  std::memcpy(b, &v, 8);
  return fs::F::Read(b);
}
static u64 raw(const fs::F& f) {
  unsigned char b[8];
  f.Write(b);
  u64 v;
  std::memcpy(&v, b, 8);
  return v;
}
namespace fs {
void draw(unsigned char* dst, const unsigned char* seed, long block, std::size_t word, std::size_t n) {
  char nm[96];
  char* q = nm + sprintf(nm, "r");
  for (int i = 0; i < 16; i++) q += sprintf(q, "%02x", seed[i]);
  sprintf(q, ":%ld:%zu", block, word);
  drawn.insert(nm);
  if (n == 8) {
    u64 h = var_handle(new_var(nm, RANDOM, cur_party));
    std::memcpy(dst, &h, 8);
  } else {
    for (std::size_t i = 0; i < n; i++) dst[i] = (unsigned char)(block * 31 + word * 7 + i + seed[8]);
  }
}
static std::string var_prefix;
void prefix(const std::string& p) { var_prefix = p; }
F var(const std::string& name, Class c) { return mk(var_handle(new_var(var_prefix + name, c, cur_party))); }
void eq(const F& a, const F& b, const std::string& what) {
  a_checked++;
  asserts[what]++;
  obs.push_back({get(raw(a)), get(raw(b)), what});
}
void differs(const F& a, const F& b, const std::string& what) {
  a_checked++;
  asserts[what]++;
  Poly d = p_sub(get(raw(a)), get(raw(b)));
  auto r = zdiffer({{d, Poly{}}});
  a_solver++;
  if (r == z3::sat) return;
  if (r == z3::unsat) {
    if (same_viol("assert", what)) return;
    std::vector<u64> val;
    find_vals([](const std::vector<u64>&) { return true; }, val);
    Viol v{"assert", what, ""};
    v.replay = write_replay(val);
    viols.push_back(v);
  } else incomplete.push_back("solver undecided: " + what);
}
void check(bool c, const std::string& what) {
  a_checked++;
  a_folded++;
  asserts[what]++;
  if (c || same_viol("assert", what)) return;
  std::vector<u64> val;
  if (find_vals([](const std::vector<u64>&) { return true; }, val)) {
    Viol v{"assert", what, ""};
    v.replay = write_replay(val);
    viols.push_back(v);
  } else incomplete.push_back("no concrete values found for: " + what);
}
void reach(const std::string& t) { reached[t]++; }
void generic_randomness(bool on) { generic = on; }
void party(int p) { cur_party = p; }
void corrupt(const std::vector<int>& ps) { corrupted = std::set<int>(ps.begin(), ps.end()); }
void view(const F& v) { views.push_back(get(raw(v))); view_handles.push_back(raw(v)); }
void entitled(const F& v) { outs.push_back(get(raw(v))); }
std::size_t draws() { return drawn.size(); }
bool symbolic() { return true; }
bool is_const(const F& v, u64* out) {
  Poly p = get(raw(v));
  if (p.empty()) { if (out) *out = 0; return true; }
  if (p.size() == 1 && p[0].first == 0) { if (out) *out = p[0].second; return true; }
  return false;
}
static Class cls(std::uint32_t v) {
  if (vars[v].cls == RANDOM && vars[v].party >= 0 && corrupted.count(vars[v].party)) return KNOWN;
  return vars[v].cls;
}
bool has_random(const F& f) {
  for (auto& t : get(raw(f))) for (auto v : monos[t.first]) if (cls(v) == RANDOM) return true;
  return false;
}
static bool poly_has_class(const Poly& p, Class c) {
  for (auto& t : p) for (auto v : monos[t.first]) if (cls(v) == c) return true;
  return false;
}
// remove, by scalar combinations of the entitled outputs, monomials with secrets
static Poly reduce_by_outputs(Poly row, const std::vector<Poly>& os) {
  // Gaussian elimination over the secret-dependent monomials of the outputs
  std::vector<Poly> basis;
  std::vector<std::uint32_t> lead;
  auto leadof = [&](const Poly& p) -> std::uint32_t {
    for (auto it = p.rbegin(); it != p.rend(); ++it)
      for (auto v : monos[it->first]) if (cls(v) == SECRET) return it->first;
    return ~0u;
  };
  auto coef = [](const Poly& p, std::uint32_t m) -> u64 {
    auto it = std::lower_bound(p.begin(), p.end(), std::make_pair(m, (u64)0));
    return it != p.end() && it->first == m ? it->second : 0;
  };
  for (auto o : os) {
    for (size_t i = 0; i < basis.size(); i++) { u64 c = coef(o, lead[i]); if (c) o = p_lin(o, basis[i], subm(0, c)); }
    auto l = leadof(o);
    if (l == ~0u) continue;
    o = p_scale(o, invm(coef(o, l)));
    for (auto& b : basis) { u64 c = coef(b, l); if (c) b = p_lin(b, o, subm(0, c)); }
    basis.push_back(o);
    lead.push_back(l);
  }
  for (size_t i = 0; i < basis.size(); i++) { u64 c = coef(row, lead[i]); if (c) row = p_lin(row, basis[i], subm(0, c)); }
  return row;
}
void decide_private(const std::string& what) {
  a_checked++;
  asserts[what]++;
  const unsigned occ = decided[what]++;
  std::vector<Poly> rows;
  for (auto& v : views) rows.push_back(norm(v));
  std::vector<Poly> os;
  for (auto& o : outs) os.push_back(norm(o));
  size_t m = rows.size();
  std::vector<bool> done(m, false);
  std::vector<std::uint32_t> kvar(m, ~0u), pivot(m, ~0u);
  std::vector<Poly> pivby(m);
  // step 1: a row with an honest uniform variable that occurs in it only
  // linearly is a fresh uniform value K; substitute the variable everywhere
  while (true) {
    // occurrences
    std::unordered_map<std::uint32_t, unsigned> nonlin, lin;
    for (size_t j = 0; j < m; j++) if (!done[j]) for (auto& t : rows[j]) {
      auto& mm = monos[t.first];
      if (mm.size() == 1) lin[mm[0]]++;
      else for (auto v : mm) nonlin[v]++;
    }
    size_t bj = ~0ul;
    std::uint32_t bx = 0;
    u64 bc = 0;
    std::tuple<unsigned, size_t, unsigned> best{~0u, ~0ul, ~0u};
    for (size_t j = 0; j < m; j++) if (!done[j]) {
      std::unordered_map<std::uint32_t, unsigned> here;
      for (auto& t : rows[j]) { auto& mm = monos[t.first]; if (mm.size() > 1) for (auto v : mm) here[v]++; }
      for (auto& t : rows[j]) {
        auto& mm = monos[t.first];
        if (mm.size() != 1 || cls(mm[0]) != RANDOM || here.count(mm[0])) continue;
        std::tuple<unsigned, size_t, unsigned> sc{nonlin[mm[0]] * (unsigned)(rows[j].size() - 1), rows[j].size(), lin[mm[0]]};
        if (sc < best) { best = sc; bj = j; bx = mm[0]; bc = t.second; }
      }
    }
    if (bj == ~0ul) break;
    std::uint32_t k = new_var("K" + std::to_string(path_no) + "_" + std::to_string(bj) + "_" + std::to_string(vars.size()), KNOWN, -1);
    // K = rows[bj]  =>  x := (K - rest)/c
    Poly rest;
    for (auto& t : rows[bj]) if (!(monos[t.first].size() == 1 && monos[t.first][0] == bx)) rest.push_back(t);
    Poly by = p_scale(p_sub(Poly{{mono_id({k}), 1}}, rest), invm(bc));
    Poly chk = p_subst(rows[bj], bx, by);
    // solver: the change of variables maps the observed row to K
    auto r = zdiffer({{chk, Poly{{mono_id({k}), 1}}}});
    if (r != z3::unsat) { incomplete.push_back("privacy certificate rejected by the solver: " + what); views.clear(); view_handles.clear(); outs.clear(); return; }
    for (size_t j = 0; j < m; j++) if (j != bj) { rows[j] = p_subst(rows[j], bx, by); }
    for (auto& o : os) o = p_subst(o, bx, by);
    rows[bj] = Poly{{mono_id({k}), 1}};
    done[bj] = true;
    kvar[bj] = k;
  }
  // step 2: the remaining rows must not depend on the secrets (beyond the
  // entitled outputs): same value for s and for a second copy s'
  std::map<std::uint32_t, std::uint32_t> prime;
  for (size_t j = 0; j < m; j++) {
    if (done[j]) continue;
    Poly row = reduce_by_outputs(rows[j], os);
    Poly other = row;
    std::set<std::uint32_t> sv;
    for (auto& t : row) for (auto v : monos[t.first]) if (cls(v) == SECRET) sv.insert(v);
    for (auto v : sv) {
      auto pv = new_var(vars[v].name + "'", KNOWN, -1);
      other = p_subst(other, v, Poly{{mono_id({pv}), 1}});
    }
    auto r = zdiffer({{row, other}});
    if (r == z3::unsat) { a_solver++; continue; }
    if (r != z3::sat) { a_unknown++; incomplete.push_back("solver undecided: " + what); continue; }
    // row depends on the secrets.  When it has no honest randomness left (for
    // some choice of the secrets) the adversary distinguishes.
    Poly zeroed = row;
    for (auto v : sv) zeroed = p_subst(zeroed, v, Poly{});
    if (!poly_has_class(row, RANDOM) || !poly_has_class(zeroed, RANDOM)) {
      // two sets of secrets with the same entitled outputs that the row tells
      // apart: zero everywhere, against arbitrary values on a subset of them
      std::vector<std::uint32_t> sl(sv.begin(), sv.end()), pick;
      std::vector<Poly> os0;
      for (auto o : os) { for (auto v : sl) o = p_subst(o, v, Poly{}); os0.push_back(o); }
      for (std::uint32_t mask = (1u << std::min<size_t>(sl.size(), 10)) - 1; mask && pick.empty(); mask--) {
        auto cut = [&](Poly q) { for (size_t i = 0; i < sl.size(); i++) if (i >= 10 || !(mask >> i & 1)) q = p_subst(q, sl[i], Poly{}); return q; };
        if (cut(row) == zeroed) continue;
        bool same = true;
        for (size_t i = 0; same && i < os.size(); i++) same = cut(os[i]) == os0[i];
        if (same) for (size_t i = 0; i < sl.size() && i < 10; i++) if (mask >> i & 1) pick.push_back(sl[i]);
      }
      if (pick.empty()) { incomplete.push_back("privacy not certified: " + what); continue; }
      if (same_viol("privacy", what)) continue;
      // distinguishing test: under secrets 0 the j-th observed value equals
      // g = row(secrets := 0) over the other observed values
      Poly full = rows[j];
      for (auto v : sv) full = p_subst(full, v, Poly{});
      std::ostringstream g;
      // K variables are view rows; KNOWN variables named
      g << "test " << j << " " << full.size() << "\nocc " << occ << "\n";
      std::map<std::uint32_t, size_t> krow;
      for (size_t i = 0; i < m; i++) if (kvar[i] != ~0u) krow[kvar[i]] = i;
      for (auto& t : full) {
        g << "t " << t.second << " " << monos[t.first].size();
        for (auto v : monos[t.first]) { auto it = krow.find(v); if (it != krow.end()) g << " V" << it->second; else g << " " << vars[v].name; }
        g << "\n";
      }
      for (auto v : sv) g << (std::count(pick.begin(), pick.end(), v) ? "secret " : "zero ") << vars[v].name << "\n";
      std::vector<u64> val(vars.size());
      for (auto& x : val) x = rnd();
      apply_subst_vals(val);
      Viol vi{"privacy", what, ""};
      vi.replay = write_replay(val, {g.str()});
      viols.push_back(vi);
    } else {
      incomplete.push_back("privacy not certified: " + what);
      if (getenv("FS_DEBUG")) {
        fprintf(stderr, "not certified %s: row %zu: ", what.c_str(), j);
        for (auto& t : row) { fprintf(stderr, " +%llu", (unsigned long long)t.second); for (auto v : monos[t.first]) fprintf(stderr, "*%s", vars[v].name.c_str()); }
        fprintf(stderr, "\n");
      }
    }
  }
  a_solver++;
  views.clear();
  view_handles.clear();
  outs.clear();
}
}  // namespace fs
// ------------------------------------------------------------ function log
static std::set<void*>* fnset = nullptr;
extern "C" {
NOINST void __cyg_profile_func_enter(void* f, void*) {
  static thread_local bool in = false;
  if (!fnset || in) return;
  in = true;
  fnset->insert(f);
  in = false;
}
NOINST void __cyg_profile_func_exit(void*, void*) {}
}
// ------------------------------------------------------------ driver
static std::string esc(const std::string& s) {
  std::string r;
  for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if ((unsigned char)c < 32) r += ' '; else r += c; }
  return r;
}
static void run_child(int fd, void (*fn)()) {
  std::string status = "ok";
  try {
    fn();
    flush_obs();
  } catch (Hang&) {
    time_up = 0;
    incomplete.push_back("time limit");
    std::vector<u64> val;
    if (find_vals([](const std::vector<u64>&) { return true; }, val)) {
      Viol v{"hang", "execution ends", ""};
      v.replay = write_replay(val);
      viols.push_back(v);
    }
  } catch (Unsupported& u) {
    if (u.what == "INFEASIBLE") status = "infeasible";
    else { incomplete.push_back("unsupported: " + u.what); try { flush_obs(); } catch (...) {} }
  } catch (std::exception& e) {
    try { flush_obs(); } catch (...) {}
    std::vector<u64> val;
    if (find_vals([](const std::vector<u64>&) { return true; }, val)) {
      Viol v{"exception", std::string("uncaught exception: ") + e.what(), ""};
      v.replay = write_replay(val);
      viols.push_back(v);
    } else incomplete.push_back(std::string("uncaught exception: ") + e.what());
  }
  std::ostringstream o;
  auto fl = [](std::string s) { for (auto& c : s) if (c == '\n' || c == '\t') c = ' '; return s; };
  o << "status\t" << status << "\n";
  o << "trace\t";
  for (bool b : trace) o << (b ? '1' : '0');
  o << "\n";
  for (auto a : alts) o << "alt\t" << a << "\n";
  if (status == "ok") {
    for (auto& v : viols) o << "viol\t" << v.kind << "\t" << fl(v.what) << "\t" << v.replay << "\n";
    for (auto& i : incomplete) o << "inc\t" << fl(i) << "\n";
    for (auto& r : reached) o << "reach\t" << r.first << "\t" << r.second << "\n";
    for (auto& r : asserts) o << "assert\t" << fl(r.first) << "\t" << r.second << "\n";
  }
  o << "num\t" << queries << "\t" << a_checked << "\t" << a_solver << "\t" << a_folded << "\t" << a_unknown << "\t" << solver_s << "\t" << max_q << "\t" << n_ops << "\t" << vars.size() << "\t" << pool.size() << "\t" << generic_cut << "\n";
  if (fnset) {
    std::set<std::string> names;
    auto s = *fnset;
    fnset = nullptr;
    for (void* f : s) { Dl_info di; if (dladdr(f, &di) && di.dli_sname) names.insert(di.dli_sname); }
    for (auto& n : names) if (n.find("scl") != std::string::npos || n.find("2tp") != std::string::npos) o << "fn\t" << n << "\n";
  }
  std::string s = o.str();
  size_t off = 0;
  while (off < s.size()) { ssize_t w = write(fd, s.data() + off, s.size() - off); if (w <= 0) break; off += w; }
  _exit(0);
}
int main(int argc, char** argv) {
  std::string out;
  double limit = 200;
  long maxpaths = 200000;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--entry") entry_name = argv[++i];
    else if (a == "--out") out = argv[++i];
    else if (a == "--replay-dir") replay_dir = argv[++i];
    else if (a == "--time") limit = atof(argv[++i]);
    else if (a == "--max-paths") maxpaths = atol(argv[++i]);
    else if (a == "--cfg") setenv("FS_CFG", argv[++i], 1);
  }
  auto fn = (void (*)())dlsym(RTLD_DEFAULT, entry_name.c_str());
  if (!fn) { fprintf(stderr, "no entry %s\n", entry_name.c_str()); return 3; }
  fnset = new std::set<void*>;
  double t0 = now();
  std::vector<std::vector<bool>> work{{}};
  std::vector<Viol> V;
  std::set<std::string> I, FN;
  std::map<std::string, u64> R, A;
  u64 paths = 0, N[6] = {0}, steps = 0, forks = 0, cut = 0, nvars = 0, npolys = 0, gcut = 0;
  double ss = 0, mq = 0;
  while (!work.empty()) {
    if (now() - t0 > limit) { I.insert("time limit"); break; }
    if ((long)paths >= maxpaths) { I.insert("path limit"); break; }
    prefix = work.back();
    work.pop_back();
    path_no++;
    decided.clear();
    views.clear();
    view_handles.clear();
    outs.clear();
    int pp[2];
    if (pipe(pp)) return 3;
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) { close(pp[0]); signal(SIGALRM, [](int) { time_up = 1; signal(SIGALRM, SIG_DFL); alarm(40); }); alarm((unsigned)(limit - (now() - t0)) + 5); run_child(pp[1], fn); }
    close(pp[1]);
    std::string buf;
    char tmp[65536];
    ssize_t r;
    while ((r = read(pp[0], tmp, sizeof tmp)) > 0) buf.append(tmp, r);
    close(pp[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    paths++;
    if (!WIFEXITED(st) || WEXITSTATUS(st) != 0 || buf.empty()) {
      if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) { I.insert("time limit"); continue; }
      std::string f = replay_dir + "/" + entry_name + ".p" + std::to_string(path_no) + ".crash.txt";
      std::ofstream o(f);
      o << "# crash under symbolic execution\n";
      V.push_back({"crash", "abnormal termination (signal " + std::to_string(WIFSIGNALED(st) ? WTERMSIG(st) : -WEXITSTATUS(st)) + ")", f});
      continue;
    }
    std::istringstream is(buf);
    std::string l, tr;
    std::vector<size_t> al;
    while (std::getline(is, l)) {
      std::vector<std::string> c;
      std::string t;
      std::istringstream ls(l);
      while (std::getline(ls, t, '\t')) c.push_back(t);
      if (c.empty()) continue;
      if (c[0] == "status" && c[1] != "ok") cut++;
      else if (c[0] == "trace") tr = c.size() > 1 ? c[1] : "";
      else if (c[0] == "alt") al.push_back(std::stoul(c[1]));
      else if (c[0] == "viol") { bool dup = false; for (auto& v : V) if (v.what == c[2]) dup = true; if (!dup) V.push_back({c[1], c[2], c[3]}); }
      else if (c[0] == "inc") I.insert(c[1]);
      else if (c[0] == "reach") R[c[1]] += std::stoull(c[2]);
      else if (c[0] == "assert") A[c[1]] += std::stoull(c[2]);
      else if (c[0] == "fn") FN.insert(c[1]);
      else if (c[0] == "num") {
        for (int k = 0; k < 5; k++) N[k] += std::stoull(c[1 + k]);
        ss += std::stod(c[6]); mq = std::max(mq, std::stod(c[7])); steps += std::stoull(c[8]);
        nvars = std::max<u64>(nvars, std::stoull(c[9])); npolys = std::max<u64>(npolys, std::stoull(c[10])); gcut += std::stoull(c[11]);
      }
    }
    for (auto a : al) {
      std::vector<bool> p;
      for (size_t k = 0; k < a; k++) p.push_back(tr[k] == '1');
      p.push_back(true);
      work.push_back(p);
      forks++;
    }
  }
  std::ostringstream o;
  o << "{\"paths\":" << paths << ",\"assume_cut\":" << cut << ",\"steps\":" << steps << ",\"forks\":" << forks << ",\n\"queries\":" << N[0] << ",\"assert_sites_checked\":" << N[1]
    << ",\"assert_solver\":" << N[2] << ",\"assert_folded\":" << N[3] << ",\"unknown\":" << N[4] << ",\"solver_s\":" << ss << ",\"max_query_s\":" << mq << ",\"wall_s\":" << now() - t0
    << ",\"variables\":" << nvars << ",\"polynomials\":" << npolys << ",\"generic_randomness_branches\":" << gcut << ",\n\"reach\":{";
  bool first = true;
  for (auto& e : R) { o << (first ? "" : ",") << "\"" << esc(e.first) << "\":" << e.second; first = false; }
  o << "},\n\"asserts\":{";
  first = true;
  for (auto& e : A) { o << (first ? "" : ",") << "\"" << esc(e.first) << "\":" << e.second; first = false; }
  o << "},\n\"functions\":[";
  first = true;
  for (auto& e : FN) { o << (first ? "" : ",") << "\"" << esc(e) << "\""; first = false; }
  o << "],\n\"incomplete\":[";
  first = true;
  for (auto& e : I) { o << (first ? "" : ",") << "\"" << esc(e) << "\""; first = false; }
  o << "],\n\"violations\":[";
  first = true;
  for (auto& e : V) { o << (first ? "" : ",") << "{\"kind\":\"" << e.kind << "\",\"what\":\"" << esc(e.what) << "\",\"where\":\"\",\"replay\":\"" << esc(e.replay) << "\"}"; first = false; }
  o << "]}\n";
  if (out.empty()) fputs(o.str().c_str(), stdout);
  else { std::ofstream f(out); f << o.str(); }
  return 0;
}

// Packed, Shamir and additive secret sharing over symbolic field elements.
#include "fs.h"
#include <sys/resource.h>
#include <cstdlib>
#include <stdexcept>
#include "scl/math.h"
#include "scl/prg.h"
#include "scl/ss/additive.h"
#include "scl/ss/packed.h"
#include "scl/ss/shamir.h"
using F = fs::F;
using V = scl::Vec<F>;
namespace D = scl::details;
static const char* seq_cfg = nullptr;
static std::vector<int> cfg() {
  std::vector<int> r;
  const char* s = seq_cfg ? seq_cfg : getenv("FS_CFG");
  if (!s) s = "3";
  while (*s) { char* e; r.push_back((int)strtol(s, &e, 10)); s = *e ? e + 1 : e; }
  return r;
}
static std::vector<F> fresh(const std::string& n, std::size_t k) {
  std::vector<F> r;
  for (std::size_t i = 0; i < k; i++) r.push_back(fs::var(n + std::to_string(i)));
  return r;
}
template <class X> static void eqs(const X& got, const std::vector<F>& want, const std::string& what) {
  fs::check(got.Size() == want.size(), what + ": size");
  if (got.Size() != want.size()) return;
  for (std::size_t i = 0; i < want.size(); i++) fs::eq(got[i], want[i], what);
}
template <class Fn> static bool invalid(Fn f) {
  try { f(); } catch (const std::invalid_argument&) { return true; } catch (...) {}
  return false;
}
static std::vector<std::vector<int>> subsets(int n, int k) {
  std::vector<std::vector<int>> r;
  for (int m = 0; m < (1 << n); m++) if (__builtin_popcount(m) == k) { std::vector<int> s; for (int i = 0; i < n; i++) if (m >> i & 1) s.push_back(i); r.push_back(s); }
  return r;
}
static V xsecrets(int k) { V x; for (int i = 0; i < k; i++) x.Emplace(F(-i)); return x; }
// evaluation of the polynomial through (xs, ys) at x, straight from the definition
static F lagrange(const std::vector<F>& xs, const std::vector<F>& ys, const F& x) {
  F z;
  for (std::size_t j = 0; j < xs.size(); j++) {
    F num(1), den(1);
    for (std::size_t m = 0; m < xs.size(); m++) if (m != j) { num *= x - xs[m]; den *= xs[j] - xs[m]; }
    z += ys[j] * num * den.Inverse();
  }
  return z;
}
// ------------------------------------------------------------------- packed
extern "C" void h_packed() {  // cfg: k secrets, degree d, n shares
  auto c = cfg();
  int k = c[0], d = c[1], n = c[2];
  auto s = fresh("s", k), s2 = fresh("u", k);
  scl::PRG g;
  auto poly = D::EvPolyFromSecretsAndDegree(V(s), d, g);
  auto sh = D::SharesFromEvPoly(poly, n);
  fs::check(sh.Size() == (std::size_t)n, "number of shares");
  for (int i = 0; i < k; i++) fs::eq(poly.Evaluate(F(-i)), s[i], "secrets sit at 0,-1,...");
  // any d+1 shares determine the polynomial
  auto subs = subsets(n, d + 1);
  for (auto& q : subs) {
    std::vector<F> xs, ys;
    for (int i : q) { xs.push_back(F(i + 1)); ys.push_back(sh[i]); }
    D::EvPolynomial<F> p{V(xs), V(ys)};
    for (int i = 0; i < k; i++) { fs::eq(p.Evaluate(F(-i)), s[i], "any degree+1 shares reconstruct"); fs::eq(lagrange(xs, ys, F(-i)), s[i], "shares lie on one polynomial of the requested degree"); }
  }
  for (int m = d + 1; m <= n; m++) {
    V part(sh.begin(), sh.begin() + m);
    eqs(D::SecretsFromSharesAndLength(part, k), s, "reconstruct from the first shares");
    eqs(D::SecretsFromPointsAndShares(xsecrets(k), part), s, "reconstruct at points");
    fs::eq(D::SecretFromShares(part), s[0], "reconstruct first secret");
    fs::eq(D::SecretFromPointAndShares(F(-(k - 1)), part), s[k - 1], "reconstruct at a point");
    eqs(D::EvPolyFromShares(part).GetY(), std::vector<F>(sh.begin(), sh.begin() + m), "polynomial from shares");
  }
  auto poly2 = D::EvPolyFromSecretsAndDegree(V(s2), d, g);
  auto sh2 = D::SharesFromEvPoly(poly2, n);
  std::vector<F> sum, prod;
  for (int i = 0; i < k; i++) { sum.push_back(s[i] + s2[i]); prod.push_back(s[i] * s2[i]); }
  eqs(D::SecretsFromSharesAndLength(sh.Add(sh2), k), sum, "sum of sharings shares the sum");
  if (n >= 2 * d + 1) eqs(D::SecretsFromSharesAndLength(sh.MultiplyEntryWise(sh2), k), prod, "product of sharings shares the product at twice the degree");
  fs::reach("end");
}
extern "C" void h_packed_points() {  // arbitrary secret points
  auto c = cfg();
  int k = c[0], d = c[1], n = c[2], x0 = c[3];
  auto s = fresh("s", k);
  scl::PRG g;
  V pts;
  for (int i = 0; i <= d; i++) pts.Emplace(F(x0 - 3 * i));
  auto poly = D::EvPolyFromSecretsAndPoints(V(s), pts, g);
  for (int i = 0; i < k; i++) fs::eq(poly.Evaluate(F(x0 - 3 * i)), s[i], "secrets sit at the requested points");
  if (fs::symbolic()) for (int i = k; i <= d; i++) fs::check(fs::has_random(poly[i]), "other points are random");
  auto sh = D::SharesFromEvPoly(poly, n);
  V sp; for (int i = 0; i < k; i++) sp.Emplace(F(x0 - 3 * i));
  eqs(D::SecretsFromPointsAndShares(sp, sh), s, "reconstruct at the requested points");
  F v = fs::var("v");
  for (int dd = 1; dd < n; dd++) {
    auto p1 = D::EvPolyFromSecretAndPointAndDegree(v, F(x0), dd, g);
    V s1 = D::SharesFromEvPoly(p1, n);
    fs::eq(D::SecretFromPointAndShares(F(x0), s1), v, "single secret at a point");
    auto p2 = D::EvPolyFromSecretAndDegree(v, dd, g);
    V s2 = D::SharesFromEvPoly(p2, n);
    fs::eq(D::SecretFromShares(s2), v, "single secret");
    fs::eq(D::SecretFromShares(V(s2.begin(), s2.begin() + dd + 1)), v, "single secret from degree+1 shares");
  }
  fs::check(invalid([&] { D::EvPolyFromSecretsAndPoints(V(fresh("w", d + 2)), pts, g); }), "more secrets than points are refused");
  fs::reach("end");
}
extern "C" void h_packed_refuse() {  // degree too small for the secrets
  rlimit l{3ull << 30, 3ull << 30};
  if (fs::symbolic()) setrlimit(RLIMIT_AS, &l);
  scl::PRG g;
  for (int k = 2; k <= 4; k++)
    for (int d = 0; d < k - 1; d++) {
      bool r = false;
      try { D::EvPolyFromSecretsAndDegree(V(fresh("s", k)), d, g); } catch (const std::invalid_argument&) { r = true; } catch (const std::exception&) {}
      fs::check(r, "more secrets than the degree can hold are refused");
    }
  fs::reach("end");
}
extern "C" void h_packed_privacy() {  // every set of d+1-k shares
  fs::generic_randomness(true);
  auto c = cfg();
  int k = c[0], d = c[1], n = c[2];
  for (auto& q : subsets(n, d + 1 - k)) {
    auto s = fresh("s", k);
    scl::PRG g;
    auto sh = D::SharesFromEvPoly(D::EvPolyFromSecretsAndDegree(V(s), d, g), n);
    for (int i : q) fs::view(sh[i]);
    fs::decide_private("shares reveal nothing");
  }
  // two sharings of related secrets from one generator are jointly private
  for (auto& q : subsets(n, d + 1 - k)) {
    auto s = fresh("s", k);
    scl::PRG g;
    auto a = D::SharesFromEvPoly(D::EvPolyFromSecretsAndDegree(V(s), d, g), n);
    auto b = D::SharesFromEvPoly(D::EvPolyFromSecretsAndDegree(V(s), d, g), n);
    for (int i : q) { fs::view(a[i]); fs::view(b[i]); }
    fs::decide_private("two sharings from one generator are jointly private");
  }
  fs::reach("end");
}
extern "C" void h_single_privacy() {  // threshold d sharing of one secret
  fs::generic_randomness(true);
  auto c = cfg();
  int d = c[0], n = c[1];
  for (int x0 : {0, -2})
    for (auto& q : subsets(n, d)) {
      F v = fs::var("v");
      scl::PRG g;
      auto sh = D::SharesFromEvPoly(x0 ? D::EvPolyFromSecretAndPointAndDegree(v, F(x0), d, g) : D::EvPolyFromSecretAndDegree(v, d, g), n);
      for (int i : q) fs::view(sh[i]);
      fs::decide_private("shares reveal nothing");
    }
  fs::reach("end");
}
// ------------------------------------------------------------------- Shamir
extern "C" void h_shamir() {  // cfg: n, t
  auto c = cfg();
  int n = c[0], t = c[1];
  F s = fs::var("s");
  scl::PRG g;
  V sh = scl::CreateShamirShares(s, n, t, g);
  fs::check(sh.Size() == (std::size_t)n, "number of shares");
  eqs(scl::CanonicalAlphas<F>(n), [&] { std::vector<F> r; for (int i = 0; i < n; i++) r.push_back(F(i + 1)); return r; }(), "canonical points");
  for (auto& q : subsets(n, t + 1)) {
    std::vector<F> xs, ys;
    for (int i : q) { xs.push_back(F(i + 1)); ys.push_back(sh[i]); }
    fs::eq(lagrange(xs, ys, F(0)), s, "any t+1 shares determine the secret");
    fs::eq(scl::ReconstructShamirPassive(V(ys), V(xs), F(0), t), s, "any t+1 shares reconstruct");
    std::vector<F> rx(xs.rbegin(), xs.rend()), ry(ys.rbegin(), ys.rend());
    fs::eq(scl::ReconstructShamirPassive(V(ry), V(rx), F(0), t), s, "any t+1 shares reconstruct in any order");
  }
  for (auto& q : subsets(n, 2 * t + 1)) {
    std::vector<F> xs, ys;
    for (int i : q) { xs.push_back(F(i + 1)); ys.push_back(sh[i]); }
    fs::eq(scl::ReconstructShamir(V(ys), V(xs), F(0), t), s, "honest shares pass error detection");
  }
  fs::eq(scl::ReconstructShamirPassive(sh, t), s, "passive reconstruction");
  if (n >= 2 * t + 1) fs::eq(scl::ReconstructShamir(sh, t), s, "reconstruction with error detection");
  // another point of the same polynomial
  F x = fs::var("x");
  std::vector<F> xs, ys;
  for (int i = 0; i <= t; i++) { xs.push_back(F(i + 1)); ys.push_back(sh[i]); }
  fs::eq(scl::ReconstructShamirPassive(sh, scl::CanonicalAlphas<F>(n), x, t), lagrange(xs, ys, x), "reconstruction at any point");
  fs::eq(scl::ReconstructShamirPassive(sh, scl::CanonicalAlphas<F>(n), F(n), t), sh[n - 1], "reconstruction at a share's point");
  V few(sh.begin(), sh.begin() + t), less(sh.begin(), sh.begin() + std::min(n, 2 * t));
  fs::check(invalid([&] { scl::ReconstructShamirPassive(few, t); }) && invalid([&] { scl::ReconstructShamirPassive(few, scl::CanonicalAlphas<F>(n), F(0), t); }) &&
                invalid([&] { scl::ReconstructShamirPassive(sh, scl::CanonicalAlphas<F>(t), F(0), t); }), "too few shares are refused");
  fs::check(invalid([&] { scl::ReconstructShamir(less, t); }) && invalid([&] { scl::ReconstructShamir(sh, scl::CanonicalAlphas<F>(2 * t), F(0), t); }), "too few shares for error detection are refused");
  fs::check(invalid([&] { scl::CreateShamirShares(s, n, 0, g); }), "threshold 0 is refused");
  V custom;
  for (int i = 0; i < n; i++) custom.Emplace(F(10 * i + 7));
  auto poly = D::CreateShamirSharePolynomial(s, t, g);
  V sc = scl::CreateShamirShares(poly, custom);
  fs::eq(scl::ReconstructShamirPassive(sc, custom, F(0), t), s, "custom points");
  fs::reach("end");
}
extern "C" void h_shamir_detect() {  // cfg: t, wrong shares bitmask over 2t+1, kind of points (1: unordered, secret elsewhere, one share more)
  auto c = cfg();
  int t = c[0], mask = c[1], n = 2 * t + 1, kind = c.size() > 2 ? c[2] : 0;
  auto co = fresh("c", t + 1);
  auto pt = [&](int i) { return kind ? F(i % 2 ? -5 * i : 100 - 3 * i) : F(i + 1); };
  auto f = [&](const F& x) { F y, pw(1); for (auto& e : co) { y += e * pw; pw *= x; } return y; };
  std::vector<F> sh, er, xs;
  for (int i = 0; i < n + (kind ? 1 : 0); i++) {
    F e = mask >> i & 1 ? fs::var("e" + std::to_string(i)) : F(0);
    if (i < n) er.push_back(e);
    xs.push_back(pt(i));
    sh.push_back(f(pt(i)) + e);
  }
  bool caught = false;
  F r, pos = kind ? fs::var("pos") : F(0);
  try { r = kind ? scl::ReconstructShamir(V(sh), V(xs), pos, t) : scl::ReconstructShamir(V(sh), t); } catch (const std::logic_error&) { caught = true; }
  bool clean = true;
  for (auto& e : er) clean = (e == F(0)) && clean;
  fs::check(caught == !clean, "up to t wrong shares are detected, correct shares are accepted");
  if (!caught) fs::eq(r, f(pos), "accepted shares give the secret");
  fs::reach(caught ? "detected" : "accepted");
}
extern "C" void h_shamir_privacy() {
  fs::generic_randomness(true);
  auto c = cfg();
  int n = c[0], t = c[1];
  for (auto& q : subsets(n, t)) {
    F s = fs::var("s");
    scl::PRG g;
    V sh = scl::CreateShamirShares(s, n, t, g);
    for (int i : q) fs::view(sh[i]);
    fs::decide_private("t shares reveal nothing");
  }
  fs::reach("end");
}
// ----------------------------------------------------------------- additive
extern "C" void h_additive() {
  for (int n : cfg()) {
    F s = fs::var("s"), u = fs::var("u");
    scl::PRG g;
    V a = scl::CreateAdditiveShares(s, n, g), b = scl::CreateAdditiveShares(u, n, g);
    fs::check(a.Size() == (std::size_t)n, "number of shares");
    F sum;
    for (auto& e : a) sum += e;
    fs::eq(sum, s, "shares sum to the secret");
    fs::eq(scl::ReconstructAdditive(a), s, "reconstruction");
    fs::eq(scl::ReconstructAdditive(a.Add(b)), s + u, "sharings add");
  }
  fs::reach("end");
}
extern "C" void h_additive_privacy() {
  fs::generic_randomness(true);
  for (int n : cfg())
    for (auto& q : subsets(n, n - 1)) {
      F s = fs::var("s"), u = fs::var("u");
      scl::PRG g;
      V a = scl::CreateAdditiveShares(s, n, g), b = scl::CreateAdditiveShares(u, n, g);
      for (int i : q) { fs::view(a[i]); fs::view(b[i]); }
      fs::decide_private("all but one share reveal nothing");
    }
  fs::reach("end");
}
// ------------------------------------------------- error correction (C15)
static V alphas_of(std::size_t n, int kind) {
  V a(n);
  for (std::size_t i = 0; i < n; i++) a[i] = kind == 0 ? F((int)i + 1) : kind == 1 ? F((int)i) : F(7 * (int)((i * i + 3 * i) % 29) - 11 * (int)i);
  return a;
}
static F at(const std::vector<F>& c, const F& x) {
  F y;
  for (std::size_t i = c.size(); i-- > 0;) y = y * x + c[i];
  return y;
}
// t, kind of evaluation points, surplus shares, number of the placement, what is
// fixed (1, 2: the polynomial, 3: the errors): at most t wrong shares, every
// value
extern "C" void h_robust() {
  auto c = cfg();
  std::size_t t = c[0], n = 3 * t + 1, extra = c[2];
  int fix = c.size() > 4 ? c[4] : 0;
  auto p = fresh("p", t + 1);
  if (fix == 1) for (std::size_t i = 0; i <= t; i++) p[i] = F((int)(i * i * 977 + 5));
  if (fix == 2) for (std::size_t i = 0; i <= t; i++) p[i] = F(0);
  if (fix == 4) for (std::size_t i = 1; i <= t; i++) p[i] = F(0);
  if (fix == 5) { for (std::size_t i = 0; i < t; i++) p[i] = F(0); p[t] = F(1); }
  if (fix == 6) for (std::size_t i = 0; i < t; i++) p[i] = F(0);
  V al = alphas_of(n + extra, c[1]);
  int no = 0;
  for (int S = 0; S < (1 << n); S++) {
    if (__builtin_popcount(S) != (int)t) continue;
    if (c.size() > 3 && no++ != c[3]) continue;
    V s(n + extra);
    std::vector<F> e(n);
    for (std::size_t i = 0; i < n + extra; i++) {
      s[i] = at(p, al[i]);
      if (i < n && (S >> i & 1)) {
        e[i] = fix == 3 ? F(31 * (int)i + 3) : fs::var("e" + std::to_string(S) + "_" + std::to_string(i));
        s[i] += e[i];
      }
    }
    try {
      auto r = scl::ReconstructShamirRobust(s, al, t);
      for (std::size_t i = 0; i <= t; i++) fs::eq(i <= r[0].Degree() ? r[0][i] : F(0), p[i], "error correction returns the polynomial of the correct shares");
      fs::check(r[0].Degree() <= t, "the corrected polynomial has degree at most t");
      for (std::size_t i = 0; i < n; i++) {
        bool wrong = (S >> i & 1) && e[i] != F(0);
        bool said = r[1].Evaluate(al[i]) == F(0);
        fs::check(wrong == said, "the error locator vanishes exactly at the wrong shares");
      }
      fs::check(r[1].Degree() <= t && !r[1].IsZero(), "the error locator has degree at most t");
    } catch (const std::exception&) {
      fs::check(false, "up to t wrong shares are corrected");
    }
    if (c[1] == 0) {
      try {
        fs::eq(scl::ReconstructShamirRobust(s, t), p[0], "error correction returns the secret");
      } catch (const std::exception&) {
        fs::check(false, "up to t wrong shares are corrected");
      }
    }
    fs::reach("placement");
  }
  fs::reach("end");
}
// t, kind of evaluation points: any shares whatsoever
extern "C" void h_robust_any() {
  auto c = cfg();
  std::size_t t = c[0], n = 3 * t + 1;
  auto sv = fresh("s", n);
  V s(sv), al = alphas_of(n, c[1]);
  bool thrown = false;
  std::array<D::Polynomial<F>, 2> r;
  try {
    r = scl::ReconstructShamirRobust(s, al, t);
  } catch (const std::logic_error&) {
    thrown = true;
  }
  if (thrown) {
    fs::reach("refused");
    // no polynomial of degree t agrees with n - t of the shares
    for (auto& keep : subsets((int)n, (int)(n - t))) {
      V ys(t + 1), xs(t + 1);
      for (std::size_t i = 0; i <= t; i++) { ys[i] = s[keep[i]]; xs[i] = al[keep[i]]; }
      bool all = true;
      for (std::size_t k = t + 1; k < keep.size() && all; k++) {
        F z;
        for (std::size_t j = 0; j <= t; j++) {
          F l(1);
          for (std::size_t m = 0; m <= t; m++) if (m != j) l *= (al[keep[k]] - xs[m]) * (xs[j] - xs[m]).Inverse();
          z += l * ys[j];
        }
        all = z == s[keep[k]];
      }
      fs::check(!all, "shares with at most t wrong ones are not refused");
    }
  } else {
    fs::reach("returned");
    fs::check(r[0].Degree() <= t, "a returned polynomial has degree at most t");
    fs::check(r[1].Degree() <= t && !r[1].IsZero(), "a returned error locator has degree at most t");
    for (std::size_t i = 0; i < n; i++)
      fs::eq(r[1].Evaluate(al[i]) * (r[0].Evaluate(al[i]) - s[i]), F(0), "a returned polynomial agrees with every share outside the at most t roots of the error locator");
  }
  fs::reach("end");
}
// too few shares or evaluation points
extern "C" void h_robust_sizes() {
  for (std::size_t t : cfg()) {
    std::size_t n = 3 * t + 1;
    for (std::size_t k = 0; k < n; k++) {
      V s(fresh("s", k)), al = alphas_of(n, 0), s2(fresh("s", n)), al2 = alphas_of(k, 0);
      fs::check(invalid([&] { scl::ReconstructShamirRobust(s, al, t); }), "too few shares are refused");
      fs::check(invalid([&] { scl::ReconstructShamirRobust(s, t); }), "too few shares are refused");
      fs::check(invalid([&] { scl::ReconstructShamirRobust(s2, al2, t); }), "too few evaluation points are refused");
    }
  }
  fs::reach("end");
}

// several configurations, separated by slashes, one after the other in one
// process: nothing may be carried over from one to the next
template <class Fn> static void seq(Fn f) {
  std::string all = getenv("FS_CFG"), part;
  int i = 0;
  for (std::size_t a = 0; a <= all.size(); a++) {
    if (a < all.size() && all[a] != '/') { part += all[a]; continue; }
    fs::prefix("q" + std::to_string(i++) + "_");
    seq_cfg = part.c_str();
    f();
    seq_cfg = nullptr;
    part.clear();
  }
}
extern "C" void h_packed_seq() { seq(h_packed); }
extern "C" void h_packed_points_seq() { seq(h_packed_points); }
extern "C" void h_shamir_seq() { seq(h_shamir); }
extern "C" void h_packed_privacy_seq() { seq(h_packed_privacy); }
extern "C" void h_shamir_privacy_seq() { seq(h_shamir_privacy); }
extern "C" void h_single_privacy_seq() { seq(h_single_privacy); }

// Vec, Mat, polynomials, evaluation polynomials over symbolic field elements.
#include "fs.h"
#include <cstdlib>
#include <stdexcept>
#include "scl/math.h"
#include "scl/ss/poly.h"
#include "scl/ss/evpoly.h"
#include "scl/prg.h"
using F = fs::F;
using V = scl::Vec<F>;
using M = scl::Mat<F>;
using Poly = scl::details::Polynomial<F>;
using EvPoly = scl::details::EvPolynomial<F>;
static const char* seq_cfg = nullptr;
static std::vector<int> cfg() {
  std::vector<int> r;
  const char* s = seq_cfg ? seq_cfg : getenv("FS_CFG");
  if (!s) s = "3";
  while (*s) { char* e; r.push_back((int)strtol(s, &e, 10)); s = *e ? e + 1 : e; }
  return r;
}
static std::vector<F> fresh(const std::string& n, std::size_t k) {
  std::vector<F> r;
  for (std::size_t i = 0; i < k; i++) r.push_back(fs::var(n + std::to_string(i)));
  return r;
}
template <class X> static void eqs(const X& got, const std::vector<F>& want, const std::string& what) {
  fs::check(got.Size() == want.size(), what + ": size");
  if (got.Size() != want.size()) return;
  for (std::size_t i = 0; i < want.size(); i++) fs::eq(got[i], want[i], what);
}
template <class Fn> static bool invalid(Fn f) {
  try { f(); } catch (const std::invalid_argument&) { return true; }
  return false;
}
// ------------------------------------------------------------------ vectors
extern "C" void h_vec_ops() {
  for (std::size_t n : cfg()) {
    auto a = fresh("a", n), b = fresh("b", n);
    V x(a), y(b);
    F k = fs::var("k");
    std::vector<F> s, d, m, ks;
    F dot, sum;
    for (std::size_t i = 0; i < n; i++) { s.push_back(a[i] + b[i]); d.push_back(a[i] - b[i]); m.push_back(a[i] * b[i]); ks.push_back(k * a[i]); dot += a[i] * b[i]; sum += a[i]; }
    eqs(x.Add(y), s, "sum is entrywise");
    eqs(x.Subtract(y), d, "difference is entrywise");
    eqs(x.MultiplyEntryWise(y), m, "product is entrywise");
    eqs(x.ScalarMultiply(k), ks, "scalar product scales every entry");
    fs::eq(x.Dot(y), dot, "dot product");
    fs::eq(x.Sum(), sum, "sum of entries");
    eqs(x, a, "operands unchanged");
    eqs(y, b, "operands unchanged");
    { V t(a); V& r = t.AddInPlace(y); fs::check(&r == &t, "in-place sum returns the object"); eqs(t, s, "in-place sum"); }
    { V t(a); V& r = t.SubtractInPlace(y); fs::check(&r == &t, "in-place difference returns the object"); eqs(t, d, "in-place difference"); }
    { V t(a); V& r = t.MultiplyEntryWiseInPlace(y); fs::check(&r == &t, "in-place product returns the object"); eqs(t, m, "in-place product"); }
    { V t(a); V& r = t.ScalarMultiplyInPlace(k); fs::check(&r == &t, "in-place scaling returns the object"); eqs(t, ks, "in-place scaling"); }
    eqs(y, b, "operands unchanged");
    std::vector<F> aa, a0, a2;
    for (auto& e : a) { aa.push_back(e + e); a0.push_back(F(0)); a2.push_back(e * e); }
    { V t(a); t.AddInPlace(t); eqs(t, aa, "a vector added to itself"); }
    { V t(a); t.SubtractInPlace(t); eqs(t, a0, "a vector subtracted from itself"); }
    { V t(a); t.MultiplyEntryWiseInPlace(t); eqs(t, a2, "a vector multiplied by itself"); }
    for (std::size_t i = 0; i < n; i++) {
      V t(a);
      std::vector<F> w;
      for (auto& e : a) w.push_back(e * a[i]);
      t.ScalarMultiplyInPlace(t[i]);
      eqs(t, w, "a vector scaled by one of its entries");
      V u(a);
      eqs(u.ScalarMultiply(u[i]), w, "a vector scaled by one of its entries");
    }
    M r = x.ToRowMatrix(), c = x.ToColumnMatrix();
    fs::check(r.Rows() == 1 && r.Cols() == n && c.Rows() == n && c.Cols() == 1, "row and column matrix shape");
    for (std::size_t i = 0; i < n; i++) { fs::eq(r(0, i), a[i], "row matrix"); fs::eq(c(i, 0), a[i], "column matrix"); }
    std::vector<F> it(x.begin(), x.end()), rit(x.rbegin(), x.rend());
    eqs(V(it), a, "iteration");
    std::vector<F> ra(a.rbegin(), a.rend());
    eqs(V(rit), ra, "reverse iteration");
    V sub(x.begin(), x.begin() + (n ? n - 1 : 0));
    eqs(sub, std::vector<F>(a.begin(), a.begin() + (n ? n - 1 : 0)), "range constructor");
    V em;
    for (auto& e : a) em.Emplace(e);
    eqs(em, a, "emplace appends");
    V asg(n);
    for (std::size_t i = 0; i < n; i++) { fs::eq(asg[i], F(0), "entries default to zero"); asg[i] = b[i]; }
    eqs(asg, b, "entry assignment");
    // size mismatch
    auto w = fresh("w", n + 1);
    V z(w);
    fs::check(invalid([&] { x.Add(z); }) && invalid([&] { x.Subtract(z); }) && invalid([&] { x.MultiplyEntryWise(z); }) && invalid([&] { x.Dot(z); }) &&
                  invalid([&] { V t(a); t.AddInPlace(z); }) && invalid([&] { V t(a); t.SubtractInPlace(z); }) && invalid([&] { V t(a); t.MultiplyEntryWiseInPlace(z); }) &&
                  invalid([&] { z.Add(x); }) && invalid([&] { z.Dot(x); }) && invalid([&] { z.AddInPlace(x); }) && invalid([&] { z.SubtractInPlace(x); }) && invalid([&] { z.MultiplyEntryWiseInPlace(x); }),
              "mismatched sizes are refused");
    eqs(z, w, "a refused operation changes nothing");
    fs::check(!x.Equals(z), "vectors of different length are not equal");
  }
  fs::reach("end");
}
extern "C" void h_vec_equals() {
  std::size_t n = cfg()[0];
  auto a = fresh("a", n), b = fresh("b", n);
  V x(a), y(b);
  bool r = x.Equals(y), r2 = y.Equals(x);
  bool all = true;
  for (std::size_t i = 0; i < n; i++) all = (a[i] == b[i]) && all;
  fs::check(r == all && r2 == all, "equality holds exactly when all entries are equal");
  fs::reach(all ? "equal" : "different");
}
extern "C" void h_vec_serial() {
  for (std::size_t n : cfg()) {
    auto a = fresh("a", n);
    V x(a);
    fs::check(x.ByteSize() == n * F::ByteSize(), "serialized size");
    std::vector<unsigned char> buf(n * F::ByteSize() + 16, 0xAB);
    x.Write(buf.data() + 8);
    for (int i = 0; i < 8; i++) fs::check(buf[i] == 0xAB && buf[buf.size() - 1 - i] == 0xAB, "writes exactly its own bytes");
    for (std::size_t i = 0; i < n; i++) fs::eq(F::Read(buf.data() + 8 + i * F::ByteSize()), a[i], "entries in order, back to back");
    V y = V::Read(n, buf.data() + 8);
    eqs(y, a, "round trip");
  }
  fs::reach("end");
}
extern "C" void h_vec_random() {
  for (std::size_t n : cfg()) {
    scl::PRG g;
    V x = V::Random(n, g);
    fs::check(x.Size() == n, "random vector size");
    for (std::size_t i = 0; i < n; i++) {
      fs::check(!fs::symbolic() || fs::has_random(x[i]), "every entry is random");
      for (std::size_t j = 0; j < i; j++) fs::differs(x[i], x[j], "entries are independent");
    }
    V y = V::PartialRandom(n, [](std::size_t i) { return i % 2 == 1; }, g);
    for (std::size_t i = 0; i < n; i++) {
      if (i % 2 == 0) fs::eq(y[i], F(0), "unselected entries are zero");
      else { fs::check(!fs::symbolic() || fs::has_random(y[i]), "selected entries are random"); for (std::size_t j = 0; j < n; j++) fs::differs(y[i], x[j], "fresh randomness"); }
    }
    M m = M::Random(n, 2, g);
    fs::check(m.Rows() == n && m.Cols() == 2, "random matrix shape");
    for (std::size_t i = 0; i < n; i++) for (std::size_t j = 0; j < 2; j++) {
      fs::check(!fs::symbolic() || fs::has_random(m(i, j)), "every matrix entry is random");
      for (std::size_t k = 0; k < n; k++) { fs::differs(m(i, j), x[k], "fresh randomness"); for (std::size_t l = 0; l < 2; l++) if (k != i || l != j) fs::differs(m(i, j), m(k, l), "matrix entries are independent"); }
    }
  }
  fs::reach("end");
}
// ----------------------------------------------------------------- matrices
static M mk(const std::vector<F>& v, std::size_t n, std::size_t m) { return M::FromVector(n, m, v); }
static void eqm(const M& got, const std::vector<F>& want, std::size_t n, std::size_t m, const std::string& what) {
  fs::check(got.Rows() == n && got.Cols() == m, what + ": shape");
  if (got.Rows() != n || got.Cols() != m) return;
  for (std::size_t i = 0; i < n; i++) for (std::size_t j = 0; j < m; j++) fs::eq(got(i, j), want[i * m + j], what);
}
extern "C" void h_mat_ops() {
  auto c = cfg();
  std::size_t n = c[0], m = c[1];
  auto a = fresh("a", n * m), b = fresh("b", n * m);
  M x = mk(a, n, m), y = mk(b, n, m);
  F k = fs::var("k");
  std::vector<F> s, d, p, ks, tr;
  for (std::size_t i = 0; i < n * m; i++) { s.push_back(a[i] + b[i]); d.push_back(a[i] - b[i]); p.push_back(a[i] * b[i]); ks.push_back(k * a[i]); }
  for (std::size_t j = 0; j < m; j++) for (std::size_t i = 0; i < n; i++) tr.push_back(a[i * m + j]);
  eqm(x.Add(y), s, n, m, "sum is entrywise");
  eqm(x.Subtract(y), d, n, m, "difference is entrywise");
  eqm(x.MultiplyEntryWise(y), p, n, m, "entrywise product");
  eqm(x.ScalarMultiply(k), ks, n, m, "scaling");
  eqm(x.Transpose(), tr, m, n, "transpose");
  eqm(x.Transpose().Transpose(), a, n, m, "transpose twice");
  eqm(x, a, n, m, "operands unchanged");
  eqm(y, b, n, m, "operands unchanged");
  { M t = mk(a, n, m); M& r = t.AddInPlace(y); fs::check(&r == &t, "in-place sum returns the object"); eqm(t, s, n, m, "in-place sum"); }
  { M t = mk(a, n, m); M& r = t.SubtractInPlace(y); fs::check(&r == &t, "in-place difference returns the object"); eqm(t, d, n, m, "in-place difference"); }
  { M t = mk(a, n, m); M& r = t.MultiplyEntryWiseInPlace(y); fs::check(&r == &t, "in-place product returns the object"); eqm(t, p, n, m, "in-place entrywise product"); }
  { M t = mk(a, n, m); M& r = t.ScalarMultiplyInPlace(k); fs::check(&r == &t, "in-place scaling returns the object"); eqm(t, ks, n, m, "in-place scaling"); }
  for (std::size_t i = 0; i < n * m; i += n * m > 6 ? 5 : 1) { M t = mk(a, n, m); std::vector<F> w; for (auto& e : a) w.push_back(e * a[i]); t.ScalarMultiplyInPlace(t(i / m, i % m)); eqm(t, w, n, m, "a matrix scaled by one of its entries"); }
  { std::vector<F> w, u(n * m), v; for (auto& e : a) { w.push_back(e + e); v.push_back(e * e); } M t = mk(a, n, m); t.AddInPlace(t); eqm(t, w, n, m, "a matrix added to itself"); t = mk(a, n, m); t.SubtractInPlace(t); eqm(t, u, n, m, "a matrix subtracted from itself"); t = mk(a, n, m); t.MultiplyEntryWiseInPlace(t); eqm(t, v, n, m, "a matrix multiplied by itself"); }
  { M t = x; t(n - 1, m - 1) = k; fs::eq(t(n - 1, m - 1), k, "entry assignment"); fs::eq(x(n - 1, m - 1), a[n * m - 1], "copies are independent"); }
  { M t = x; t.Resize(m, n); eqm(t, a, m, n, "resize keeps row-major order"); }
  { M t = x; t.Resize(1, n * m); eqm(t, a, 1, n * m, "resize keeps row-major order"); }
  fs::check(invalid([&] { M t = x; t.Resize(n + 1, m); }), "resize to another element count is refused");
  { M id = M::Identity(n); for (std::size_t i = 0; i < n; i++) for (std::size_t j = 0; j < n; j++) fs::eq(id(i, j), F(i == j ? 1 : 0), "identity"); fs::check(id.IsIdentity(), "identity is the identity"); eqm(id.Multiply(x), a, n, m, "identity is neutral"); }
  eqm(x.Multiply(M::Identity(m)), a, n, m, "identity is neutral");
  M z(n, m);
  for (std::size_t i = 0; i < n; i++) for (std::size_t j = 0; j < m; j++) fs::eq(z(i, j), F(0), "entries default to zero");
  fs::check(x.IsSquare() == (n == m), "square");
  // shapes
  auto w = fresh("w", (n + 1) * m);
  M o = mk(w, n + 1, m);
  std::vector<M> bad{o, mk(w, m, n + 1)};
  if (n != m) bad.push_back(x.Transpose());
  if (n * m > 1) bad.push_back(mk(a, 1, n * m).Transpose());
  for (auto& q : bad) {
    if (q.Rows() == n && q.Cols() == m) continue;
    fs::check(invalid([&] { x.Add(q); }) && invalid([&] { x.Subtract(q); }) && invalid([&] { x.MultiplyEntryWise(q); }) && invalid([&] { M t = x; t.AddInPlace(q); }) && invalid([&] { M t = x; t.SubtractInPlace(q); }) && invalid([&] { M t = x; t.MultiplyEntryWiseInPlace(q); }), "mismatched shapes are refused");
    fs::check(!x.Equals(q) && !q.Equals(x), "matrices of different shape are not equal");
    if (m != q.Rows()) fs::check(invalid([&] { x.Multiply(q); }), "product of incompatible shapes is refused");
  }
  fs::check(invalid([&] { M::FromVector(n, m + 1, a); }), "element count must match the shape");
  fs::check(invalid([&] { M t((std::size_t)0, m); }) && invalid([&] { M t(n, (std::size_t)0); }), "empty shapes are refused");
  fs::reach("end");
}
extern "C" void h_mat_mul() {
  auto c = cfg();
  std::size_t n = c[0], m = c[1], l = c[2];
  auto a = fresh("a", n * m), b = fresh("b", m * l), e = fresh("e", m * l);
  M x = mk(a, n, m), y = mk(b, m, l), z = mk(e, m, l);
  std::vector<F> p(n * l);
  for (std::size_t i = 0; i < n; i++) for (std::size_t j = 0; j < l; j++) for (std::size_t k = 0; k < m; k++) p[i * l + j] += a[i * m + k] * b[k * l + j];
  eqm(x.Multiply(y), p, n, l, "matrix product");
  eqm(x, a, n, m, "operands unchanged");
  eqm(y, b, m, l, "operands unchanged");
  M lhs = x.Multiply(y.Add(z)), rhs = x.Multiply(y).Add(x.Multiply(z));
  for (std::size_t i = 0; i < n; i++) for (std::size_t j = 0; j < l; j++) fs::eq(lhs(i, j), rhs(i, j), "product distributes over sum");
  M lt = x.Multiply(y).Transpose(), rt = y.Transpose().Multiply(x.Transpose());
  for (std::size_t i = 0; i < l; i++) for (std::size_t j = 0; j < n; j++) fs::eq(lt(i, j), rt(i, j), "transpose of a product");
  fs::reach("end");
}
extern "C" void h_mat_equals() {
  auto c = cfg();
  std::size_t n = c[0], m = c[1];
  auto a = fresh("a", n * m), b = fresh("b", n * m);
  M x = mk(a, n, m), y = mk(b, n, m);
  bool r = x.Equals(y);
  bool all = true;
  for (std::size_t i = 0; i < n * m; i++) all = (a[i] == b[i]) && all;
  fs::check(r == all, "equality holds exactly when all entries are equal");
  fs::reach(all ? "equal" : "different");
}
extern "C" void h_mat_isident() {
  auto c = cfg();
  std::size_t n = c[0], m = c[1];
  auto a = fresh("a", n * m);
  M x = mk(a, n, m);
  bool r = x.IsIdentity();
  bool all = n == m;
  if (n == m) for (std::size_t i = 0; i < n; i++) for (std::size_t j = 0; j < n; j++) all = (a[i * n + j] == F(i == j)) && all;
  fs::check(r == all, "identity test");
  fs::reach(all ? "identity" : "other");
}
extern "C" void h_mat_serial() {
  auto c = cfg();
  std::size_t n = c[0], m = c[1];
  auto a = fresh("a", n * m);
  M x = mk(a, n, m);
  fs::check(x.ByteSize() == n * m * F::ByteSize(), "serialized size");
  std::vector<unsigned char> buf(n * m * F::ByteSize() + 16, 0xAB);
  x.Write(buf.data() + 8);
  for (int i = 0; i < 8; i++) fs::check(buf[i] == 0xAB && buf[buf.size() - 1 - i] == 0xAB, "writes exactly its own bytes");
  for (std::size_t i = 0; i < n * m; i++) fs::eq(F::Read(buf.data() + 8 + i * F::ByteSize()), a[i], "entries in row-major order, back to back");
  eqm(M::Read(n, m, buf.data() + 8), a, n, m, "round trip");
  fs::reach("end");
}
// -------------------------------------------------------------- polynomials
static void coeffs(const Poly& p, std::vector<F> want, const std::string& what) {
  // canonical form: no leading zero, value equals the coefficient list
  fs::check(p.Degree() + 1 <= std::max<std::size_t>(want.size(), 1), what + ": degree bound");
  for (std::size_t i = 0; i < std::max(want.size(), p.Degree() + 1); i++)
    fs::eq(i <= p.Degree() ? p[i] : F(0), i < want.size() ? want[i] : F(0), what);
  if (p.Degree() > 0) fs::check(p.LeadingTerm() != F(0), what + ": leading coefficient is not zero");
}
extern "C" void h_poly_create() {
  std::size_t n = cfg()[0];
  auto a = fresh("a", n);
  Poly p = Poly::Create(V(a));
  coeffs(p, a, "coefficients");
  bool zero = true;
  for (auto& e : a) zero = (e == F(0)) && zero;
  fs::check(p.IsZero() == zero, "zero test");
  F x = fs::var("x"), y, pw(1);
  for (auto& e : a) { y += e * pw; pw *= x; }
  fs::eq(p.Evaluate(x), y, "evaluation");
  fs::eq(p.ConstantTerm(), n ? a[0] : F(0), "constant term");
  fs::reach(zero ? "zero" : "nonzero");
}
extern "C" void h_poly_addsub() {
  auto c = cfg();
  std::size_t n = c[0], m = c[1];
  auto a = fresh("a", n), b = fresh("b", m);
  Poly p = Poly::Create(V(a)), q = Poly::Create(V(b));
  std::vector<F> s(std::max(n, m)), d(std::max(n, m));
  for (std::size_t i = 0; i < s.size(); i++) { F x = i < n ? a[i] : F(0), y = i < m ? b[i] : F(0); s[i] = x + y; d[i] = x - y; }
  coeffs(p.Add(q), s, "polynomial sum");
  coeffs(p.Subtract(q), d, "polynomial difference");
  coeffs(p, a, "operands unchanged");
  coeffs(q, b, "operands unchanged");
  fs::reach("end");
}
extern "C" void h_poly_mul() {
  auto c = cfg();
  std::size_t n = c[0], m = c[1];
  auto a = fresh("a", n), b = fresh("b", m);
  Poly p = Poly::Create(V(a)), q = Poly::Create(V(b));
  std::vector<F> s(n + m - 1);
  for (std::size_t i = 0; i < n; i++) for (std::size_t j = 0; j < m; j++) s[i + j] += a[i] * b[j];
  coeffs(p.Multiply(q), s, "polynomial product");
  coeffs(p, a, "operands unchanged");
  coeffs(q, b, "operands unchanged");
  fs::reach("end");
}
extern "C" void h_poly_div() {  // constant leading coefficient of the divisor
  auto c = cfg();
  std::size_t n = c[0], m = c[1];
  auto a = fresh("a", n), b = fresh("b", m);
  b[m - 1] = F(c[2]);
  Poly p = Poly::Create(V(a)), d = Poly::Create(V(b));
  auto qr = p.Divide(d);
  fs::check(qr[1].IsZero() || qr[1].Degree() < d.Degree(), "remainder is smaller than the divisor");
  Poly back = qr[0].Multiply(d).Add(qr[1]);
  coeffs(back, a, "a = q d + r");
  coeffs(p, a, "operands unchanged");
  coeffs(d, b, "operands unchanged");
  fs::reach("end");
}
// ------------------------------------------------------- evaluation polynomials
extern "C" void h_evpoly() {
  auto c = cfg();
  std::size_t n = c[0];
  // points: 0 consecutive from start, 1 arbitrary distinct, 2 negative, 3 boundary of the field, more: 1 and 50 with others in between
  std::vector<F> xs;
  for (std::size_t i = 0; i < n; i++) xs.push_back(c[1] == 0 ? F((int)i) : c[1] == 1 ? F((int)(7 * i * i + 3)) : c[1] == 2 ? F(-(int)i) : c[1] == 3 ? F(2 - (int)i) : i == 0 ? F(1) : i + 1 == n ? F(50) : F((int)i * c[1] + 1));
  auto co = fresh("c", n);
  auto f = [&](const F& x) { F y, pw(1); for (auto& e : co) { y += e * pw; pw *= x; } return y; };
  std::vector<F> ys;
  for (auto& x : xs) ys.push_back(f(x));
  EvPoly p{V(xs), V(ys)};
  F x = fs::var("x");
  fs::eq(p.Evaluate(x), f(x), "evaluation equals the interpolating polynomial");
  for (std::size_t i = 0; i < n; i++) fs::eq(p.Evaluate(xs[i]), ys[i], "interpolates the given points");
  V out = p.Evaluate(V{F(41), F(-3), x});
  eqs(out, {f(F(41)), f(F(-3)), f(x)}, "vector evaluation");
  eqs(p.Evaluate(V{}), {}, "vector evaluation of nothing");
  eqs(p.GetX(), xs, "evaluation points");
  eqs(p.GetY(), ys, "evaluations");
  fs::check(p.Degree() == n - 1, "degree bound");
  fs::eq(p.GetFirstPoint(), xs[0], "first point");
  for (std::size_t i = 0; i < n; i++) fs::eq(p[i], ys[i], "indexing");
  auto zs = fresh("z", n);
  EvPoly q{V(xs), V(zs)};
  std::vector<F> s, d;
  for (std::size_t i = 0; i < n; i++) { s.push_back(ys[i] + zs[i]); d.push_back(ys[i] - zs[i]); }
  EvPoly a = p.Add(q), b = p.Subtract(q);
  eqs(a.GetY(), s, "sum"); eqs(a.GetX(), xs, "sum keeps the points");
  eqs(b.GetY(), d, "difference"); eqs(b.GetX(), xs, "difference keeps the points");
  F pe = p.Evaluate(x), qe = q.Evaluate(x);
  fs::eq(a.Evaluate(x), pe + qe, "sum evaluates to the sum");
  fs::eq(b.Evaluate(x), pe - qe, "difference evaluates to the difference");
  std::vector<F> other = xs;
  other[n - 1] = F(1000);
  EvPoly w{V(other), V(zs)};
  fs::check(invalid([&] { p.Add(w); }) && invalid([&] { p.Subtract(w); }), "different points are refused");
  fs::check(invalid([&] { EvPoly t{V(xs), V(fresh("u", n + 1))}; }) && invalid([&] { EvPoly t{V{}, V{}}; }) && invalid([&] { EvPoly t{V{}}; }) && invalid([&] { EvPoly t{F(1), V{}}; }), "malformed point sets are refused");
  // constructors
  F st = F(5);
  EvPoly e1{st, V(zs)};
  std::vector<F> cx, c0;
  for (std::size_t i = 0; i < n; i++) { cx.push_back(F(5 + (int)i)); c0.push_back(F((int)i)); }
  eqs(e1.GetX(), cx, "consecutive points from a start");
  EvPoly e2{V(zs)};
  eqs(e2.GetX(), c0, "consecutive points from zero");
  F k = fs::var("k");
  EvPoly e3(k);
  fs::eq(e3.Evaluate(x), k, "constant");
  EvPoly e4;
  fs::eq(e4.Evaluate(x), F(0), "default is zero");
  fs::check(e4.IsZero(), "default is zero");
  fs::reach("end");
}
// polynomials over different points, evaluated in turns
extern "C" void h_evpoly_turns() {
  std::vector<std::vector<int>> sets{{1, 5, 50}, {1, 9, 50}, {50, 5, 1}, {5, 1, 50}, {1, 5, 49}, {2, 5, 50}, {1, 5}, {1, 50}, {1, 5, 50, 60}, {0, 1, 2}, {0, -1, -2}, {-1, 0, 1}};
  std::vector<EvPoly> ps;
  std::vector<std::vector<F>> xs, ys;
  for (std::size_t i = 0; i < sets.size(); i++) {
    ys.push_back(fresh("y" + std::to_string(i) + "_", sets[i].size()));
    xs.push_back({});
    for (int v : sets[i]) xs[i].push_back(F(v));
    ps.push_back(EvPoly{V(xs[i]), V(ys[i])});
  }
  F x = fs::var("x");
  std::vector<F> want;
  for (std::size_t i = 0; i < sets.size(); i++) {
    F z;
    for (std::size_t j = 0; j < xs[i].size(); j++) {
      F num(1), den(1);
      for (std::size_t m = 0; m < xs[i].size(); m++) if (m != j) { num *= x - xs[i][m]; den *= xs[i][j] - xs[i][m]; }
      z += ys[i][j] * num * den.Inverse();
    }
    want.push_back(z);
  }
  for (std::size_t i = 0; i < sets.size(); i++)
    for (std::size_t j = 0; j < sets.size(); j++) {
      fs::eq(ps[i].Evaluate(x), want[i], "evaluation does not depend on earlier ones");
      fs::eq(ps[j].Evaluate(x), want[j], "evaluation does not depend on earlier ones");
    }
  fs::reach("end");
}
extern "C" void h_evpoly_zero() {
  std::size_t n = cfg()[0];
  auto y = fresh("y", n);
  EvPoly e{V(y)};
  bool z = true;
  for (auto& v : y) z = (v == F(0)) && z;
  fs::check(e.IsZero() == z, "zero test");
  if (n == 1) { EvPoly k(y[0]); fs::check(k.IsZero() == z, "zero test of a constant"); }
  fs::reach(z ? "zero" : "nonzero");
}

// several configurations, separated by slashes, one after the other in one
// process: nothing may be carried over from one to the next
template <class Fn> static void seq(Fn f) {
  std::string all = getenv("FS_CFG"), part;
  int i = 0;
  for (std::size_t a = 0; a <= all.size(); a++) {
    if (a < all.size() && all[a] != '/') { part += all[a]; continue; }
    fs::prefix("q" + std::to_string(i++) + "_");
    seq_cfg = part.c_str();
    f();
    seq_cfg = nullptr;
    part.clear();
  }
}
extern "C" void h_poly_div_seq() { seq(h_poly_div); }
extern "C" void h_poly_mul_seq() { seq(h_poly_mul); }
extern "C" void h_poly_addsub_seq() { seq(h_poly_addsub); }
extern "C" void h_evpoly_seq() { seq(h_evpoly); }
extern "C" void h_mat_ops_seq() { seq(h_mat_ops); }
extern "C" void h_mat_mul_seq() { seq(h_mat_mul); }

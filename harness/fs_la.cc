// C09: row reduction and linear systems over symbolic elements of the 61-bit
// field, every matrix of the configured shape.  The oracle is textbook: null
// space of the matrix against that of the reduced one (an arbitrary vector of
// unknowns), minors by Leibniz expansion.
#include "fs.h"
#include <cstdlib>
#include <stdexcept>
#include "scl/math.h"
#include "scl/math/la.h"
using namespace scl;
using F = fs::F;
using M = Mat<F>;
using V = Vec<F>;
static std::size_t NR = 2, NC = 2;
static void cfg() {
  const char* s = getenv("FS_CFG");
  if (!s) s = "2,2";
  char* e;
  NR = strtol(s, &e, 10);
  NC = *e ? strtol(e + 1, &e, 10) : NR;
}
static int fresh_no = 0;
static F any(const std::string& n) { return fs::var(n + std::to_string(fresh_no++)); }
static M any_mat(std::size_t r, std::size_t c) {
  M a(r, c);
  for (std::size_t i = 0; i < r; ++i)
    for (std::size_t j = 0; j < c; ++j) a(i, j) = any("a");
  return a;
}
static V any_vec(std::size_t n) {
  V v(n);
  for (std::size_t i = 0; i < n; ++i) v[i] = any("v");
  return v;
}
static bool is0(const F& x) { return x == F(0); }
// row i of a (the first k columns) times x
static F dot(const M& a, std::size_t i, const V& x) {
  F s;
  for (std::size_t j = 0; j < x.Size(); ++j) s += a(i, j) * x[j];
  return s;
}
static bool kills(const M& a, const V& x) {
  for (std::size_t i = 0; i < a.Rows(); ++i)
    if (!is0(dot(a, i, x))) return false;
  return true;
}
static bool solves(const M& a, const V& x, const V& b) {
  for (std::size_t i = 0; i < a.Rows(); ++i)
    if (!is0(dot(a, i, x) - b[i])) return false;
  return true;
}
static void satisfied(const M& a, const V& x, const V& b, const char* what) {
  for (std::size_t i = 0; i < a.Rows(); ++i) fs::eq(dot(a, i, x), b[i], what);
}
// determinant of the k x k submatrix on the listed rows
static F det(const M& a, const int* rows, int k, unsigned cols) {
  if (k == 0) return F(1);
  F d;
  int sign = 0;
  for (int j = 0; j < (int)a.Cols(); ++j) {
    if (!(cols >> j & 1)) continue;
    F t = a(rows[0], j) * det(a, rows + 1, k - 1, cols & ~(1u << j));
    d = sign ? d - t : d + t;
    sign ^= 1;
  }
  return d;
}
// full column rank: some c x c minor is not zero
static bool full_rank(const M& a) {
  int r = a.Rows(), c = a.Cols();
  for (unsigned s = 0; s < (1u << r); ++s) {
    int rows[8], k = 0;
    for (int i = 0; i < r; ++i)
      if (s >> i & 1) rows[k++] = i;
    if (k != c) continue;
    if (!is0(det(a, rows, k, (1u << c) - 1))) return true;
  }
  return false;
}
// checks the shape and returns the pivot columns (bit mask); assumes nothing
static unsigned check_rref(const M& a) {
  int last = -1;
  bool zero_seen = false;
  unsigned piv = 0;
  for (int i = 0; i < (int)a.Rows(); ++i) {
    int p = -1;
    for (int j = 0; j < (int)a.Cols() && p < 0; ++j)
      if (!is0(a(i, j))) p = j;
    if (p < 0) {
      zero_seen = true;
      continue;
    }
    fs::check(!zero_seen, "rows of zeroes come last after row reduction");
    fs::check(p > last, "the leading entries move to the right after row reduction");
    fs::eq(a(i, p), F(1), "the leading entry of a row is 1 after row reduction");
    for (int k = 0; k < (int)a.Rows(); ++k)
      if (k != i) fs::eq(a(k, p), F(0), "a leading entry is alone in its column after row reduction");
    last = p;
    piv |= 1u << p;
  }
  return piv;
}

extern "C" void h_reduce() {
  cfg();
  M a = any_mat(NR, NC), r = a;
  details::RowReduceInPlace(r);
  fs::check(r.Rows() == NR && r.Cols() == NC, "row reduction keeps the shape");
  check_rref(r);
  V x = any_vec(NC);
  fs::check(kills(a, x) == kills(r, x), "a vector is in the null space of the reduced matrix iff it is in that of the matrix");
  fs::reach("reduced");
}
extern "C" void h_solve() {
  cfg();
  M a = any_mat(NR, NC);
  V b = any_vec(NR), x = any_vec(NC);
  bool ok = details::SolveLinearSystem(x, a, b);
  if (ok) {
    fs::check(x.Size() == NC, "a solution has one value per unknown");
    satisfied(a, x, b, "a returned solution satisfies the system");
    fs::check(full_rank(a), "a solution is returned only if it is unique");
    fs::reach("solved");
  } else {
    V y = any_vec(NC);
    fs::check(!solves(a, y, b) || !full_rank(a), "a system with exactly one solution is solved");
    fs::reach("refused");
  }
}
extern "C" void h_has() {
  cfg();
  M a = any_mat(NR, NC);
  V b = any_vec(NR);
  M aug = details::CreateAugmentedMatrix(a, b);
  fs::check(aug.Rows() == NR && aug.Cols() == NC + 1, "the augmented matrix has one more column");
  for (std::size_t i = 0; i < NR; ++i) {
    for (std::size_t j = 0; j < NC; ++j) fs::eq(aug(i, j), a(i, j), "the augmented matrix starts with the coefficients");
    fs::eq(aug(i, NC), b[i], "the augmented matrix ends with the right hand side");
  }
  details::RowReduceInPlace(aug);
  bool some = details::HasSolution(aug, false), one = details::HasSolution(aug, true);
  fs::check(!one || some, "a system with a unique solution has a solution");
  if (some) {
    // the particular solution with every free unknown 0
    V x(NC);
    for (std::size_t i = 0; i < NR; ++i)
      for (std::size_t j = 0; j < NC; ++j)
        if (!is0(aug(i, j))) {
          x[j] = aug(i, NC);
          break;
        }
    satisfied(a, x, b, "a system said to have a solution has one");
    fs::check(one == full_rank(a), "a consistent system is said to have a unique solution iff it has full column rank");
    fs::reach("consistent");
  } else {
    V y = any_vec(NC);
    fs::check(!solves(a, y, b), "a system said to have no solution has none");
    fs::reach("inconsistent");
  }
}
// every consistent reduced system; the unknowns without a leading entry are free
static void extract(bool with_free) {
  M a = any_mat(NR, NC);
  V b = any_vec(NR);
  M aug = details::CreateAugmentedMatrix(a, b);
  details::RowReduceInPlace(aug);
  unsigned piv = check_rref(aug);
  bool free_ones = (piv & ((1u << NC) - 1)) != (1u << NC) - 1;
  if (piv >> NC & 1) return;  // inconsistent
  if (free_ones != with_free) return;
  V x = details::ExtractSolution(aug);
  fs::check(x.Size() == NC, "an extracted solution has one value per unknown");
  satisfied(a, x, b, with_free ? "an extracted solution of a system with free unknowns satisfies the system"
                                        : "the extracted solution of a uniquely solvable system satisfies it");
  fs::reach("extracted");
}
extern "C" void h_extract() {
  cfg();
  extract(false);
}
extern "C" void h_extract_free() {
  cfg();
  extract(true);
}
extern "C" void h_inverse() {
  cfg();
  M a = any_mat(NR, NR);
  M aug = details::CreateAugmentedMatrix(a, M::Identity(NR));
  fs::check(aug.Rows() == NR && aug.Cols() == 2 * NR, "the augmented matrix has the columns of both");
  details::RowReduceInPlace(aug);
  bool left = true;
  M inv(NR, NR);
  for (std::size_t i = 0; i < NR; ++i)
    for (std::size_t j = 0; j < NR; ++j) {
      left &= aug(i, j) == F(i == j);
      inv(i, j) = aug(i, NR + j);
    }
  fs::check(left == full_rank(a), "[A | I] reduces to [I | B] iff A is invertible");
  if (!left) {
    fs::reach("singular");
    return;
  }
  M ab = a.Multiply(inv), ba = inv.Multiply(a);
  for (std::size_t i = 0; i < NR; ++i)
    for (std::size_t j = 0; j < NR; ++j) {
      fs::eq(ab(i, j), F(i == j), "[A | I] reduces to [I | B] with B the right inverse of A");
      fs::eq(ba(i, j), F(i == j), "[A | I] reduces to [I | B] with B the left inverse of A");
    }
  fs::reach("inverted");
}
extern "C" void h_malformed() {
  cfg();
  for (std::size_t n = 0; n <= NR + 2; ++n) {
    if (n == NR) continue;
    V b(n), x(NC);
    M a = any_mat(NR, NC);
    bool thrown = false;
    try {
      details::SolveLinearSystem(x, a, b);
    } catch (const std::invalid_argument&) {
      thrown = true;
    }
    fs::check(thrown, "a right hand side of the wrong size is refused");
  }
}

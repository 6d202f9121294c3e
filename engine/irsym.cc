// irsym - bounded symbolic executor for LLVM IR (one module, one entry).
//
// Executes the IR clang produced from the *current* /repo sources plus a
// harness.  Values are concrete integers or z3 bit-vector terms; memory is
// byte-addressed with bounds/lifetime checks; every branch on a symbolic
// condition asks the solver which sides are feasible and forks; assertions
// are decided by the solver for all values on the path.
#include <llvm/ADT/APInt.h>
#include <llvm/ADT/DenseMap.h>
#include <llvm/ADT/SmallString.h>
#include <llvm/ADT/StringExtras.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <wmmintrin.h>
#include <z3++.h>

#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <random>
#include <thread>
#include <atomic>
#include <functional>
#include <iostream>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <unistd.h>
#include <sys/wait.h>
#include <unordered_map>
#include <vector>

using namespace llvm;
using u64 = uint64_t;
typedef unsigned __int128 u128;

static z3::context* ZC;
static Z3_context Z;

// ---------------------------------------------------------------- options
struct Options {
  std::string file, entry, out, replayDir = "/tmp", logic;
  unsigned witnesses = 0;
  u64 maxPaths = 200000;
  double timeBudget = 600;      // wall seconds for the whole run
  unsigned queryMs = 20000;     // feasibility query
  unsigned assertMs = 120000;   // assertion query
  u64 maxSteps = 400000000, maxPathSteps = 60000000;
  u64 maxAlloc = 1 << 16;       // symbolic-size allocations above this "fail"
  unsigned maxConcr = 300;      // distinct values when concretising
  unsigned maxPreempt = 1000;
  unsigned maxDelay = ~0u;
  bool verbose = false;
  int absMul = 0;               // abstract sym*sym mul of >= this width as UF
  bool dumpq = false;
  bool abortIsViolation = true;
  u64 maxViol = 5;
} opt;

static double now() {
  return std::chrono::duration<double>(
             std::chrono::steady_clock::now().time_since_epoch())
      .count();
}
static double T0;

// ---------------------------------------------------------------- terms
struct Ex {  // ref-counted Z3_ast, may be null
  Z3_ast a = nullptr;
  Ex() {}
  Ex(Z3_ast x) : a(x) { if (a) Z3_inc_ref(Z, a); }
  Ex(const z3::expr& x) : a(x) { if (a) Z3_inc_ref(Z, a); }
  Ex(const Ex& o) : a(o.a) { if (a) Z3_inc_ref(Z, a); }
  Ex(Ex&& o) : a(o.a) { o.a = nullptr; }
  Ex& operator=(const Ex& o) {
    if (o.a) Z3_inc_ref(Z, o.a);
    if (a) Z3_dec_ref(Z, a);
    a = o.a;
    return *this;
  }
  Ex& operator=(Ex&& o) { std::swap(a, o.a); return *this; }
  ~Ex() { if (a) Z3_dec_ref(Z, a); }
  explicit operator bool() const { return a; }
  z3::expr x() const { return z3::expr(*ZC, a); }
};

struct Val {
  unsigned w = 0;  // bits; 0 = none / aggregate
  APInt c;
  Ex e;  // symbolic when non-null; Bool sort iff w == 1
  std::shared_ptr<std::vector<Val>> agg;
  Val() {}
  Val(const APInt& v) : w(v.getBitWidth()), c(v) {}
  Val(unsigned w_, u64 v) : w(w_), c(w_, v) {}
  Val(unsigned w_, const Ex& e_) : w(w_), e(e_) {}
  bool sym() const { return (bool)e; }
  bool isZero() const { return !sym() && c.isZero(); }
  u64 u() const { return c.getZExtValue(); }
};

static Ex bvconst(const APInt& v) {
  unsigned w = v.getBitWidth();
  Z3_sort s = Z3_mk_bv_sort(Z, w);
  Ex hold((Z3_ast)s);
  if (w <= 64) return Ex(Z3_mk_unsigned_int64(Z, v.getZExtValue(), s));
  SmallString<64> str;
  v.toString(str, 10, false);
  return Ex(Z3_mk_numeral(Z, str.c_str(), s));
}
static Ex boolconst(bool b) { return Ex(b ? Z3_mk_true(Z) : Z3_mk_false(Z)); }
static Ex ex(const Val& v) {
  if (v.sym()) return v.e;
  if (v.w == 1) return boolconst(v.c.getBoolValue());
  return bvconst(v.c);
}
static bool isApp(Z3_ast a) { return Z3_get_ast_kind(Z, a) == Z3_APP_AST; }
static Z3_decl_kind declKind(Z3_ast a) {
  if (!isApp(a)) return Z3_OP_INTERNAL;
  return Z3_get_decl_kind(Z, Z3_get_app_decl(Z, Z3_to_app(Z, a)));
}
static unsigned nArgs(Z3_ast a) { return Z3_get_app_num_args(Z, Z3_to_app(Z, a)); }
static Z3_ast arg(Z3_ast a, unsigned i) { return Z3_get_app_arg(Z, Z3_to_app(Z, a), i); }
static bool isNum(Z3_ast a) { return Z3_get_ast_kind(Z, a) == Z3_NUMERAL_AST; }
static unsigned bvw(Z3_ast a) { return Z3_get_bv_sort_size(Z, Z3_get_sort(Z, a)); }
static APInt numOf(Z3_ast a) {
  unsigned w = bvw(a);
  u64 v;
  if (w <= 64 && Z3_get_numeral_uint64(Z, a, &v)) return APInt(w, v);
  return APInt(w, StringRef(Z3_get_numeral_string(Z, a)), 10);
}
// as bit-vector even for width 1
static Ex exbv(const Val& v) {
  if (v.w != 1) return ex(v);
  if (!v.sym()) return bvconst(v.c);
  if (declKind(v.e.a) == Z3_OP_EQ && Z3_get_sort_kind(Z, Z3_get_sort(Z, arg(v.e.a, 0))) == Z3_BV_SORT && bvw(arg(v.e.a, 0)) == 1 &&
      isNum(arg(v.e.a, 1)) && !numOf(arg(v.e.a, 1)).isZero())
    return Ex(arg(v.e.a, 0));
  return Ex(Z3_mk_ite(Z, v.e.a, bvconst(APInt(1, 1)).a, bvconst(APInt(1, 0)).a));
}
static Val fromEx(unsigned w, Ex e) {
  if (w == 1) {
    if (Z3_get_sort_kind(Z, Z3_get_sort(Z, e.a)) == Z3_BV_SORT) {
      // bv1 -> bool
      if (isNum(e.a)) return Val(numOf(e.a));
      return Val(1, Ex(Z3_mk_eq(Z, e.a, bvconst(APInt(1, 1)).a)));
    }
    Z3_lbool b = Z3_get_bool_value(Z, e.a);
    if (b == Z3_L_TRUE) return Val(1, 1);
    if (b == Z3_L_FALSE) return Val(1, (u64)0);
    return Val(1, e);
  }
  if (isNum(e.a)) return Val(numOf(e.a));
  return Val(w, e);
}
static Ex mkNot(const Ex& e) {
  if (declKind(e.a) == Z3_OP_NOT) return Ex(arg(e.a, 0));
  Z3_lbool b = Z3_get_bool_value(Z, e.a);
  if (b != Z3_L_UNDEF) return boolconst(b != Z3_L_TRUE);
  return Ex(Z3_mk_not(Z, e.a));
}
struct Seg { unsigned w; Ex e; };  // e always set (numerals for constants)
static void addSegs(std::vector<Seg>& out, const Ex& e);
static Ex fromSegs(const std::vector<Seg>& in);
static Ex extractEx(const Ex& e, unsigned hi, unsigned lo);
// bits hi..lo of a laid out term
static Ex sliceSegs(const Ex& e, unsigned hi, unsigned lo) {
  std::vector<Seg> v, r;
  addSegs(v, e);
  unsigned pos = 0;
  for (auto& s : v) {
    unsigned a = std::max(lo, pos), b = std::min(hi + 1, pos + s.w);
    if (a < b) r.push_back({b - a, extractEx(s.e, b - 1 - pos, a - pos)});
    pos += s.w;
  }
  return fromSegs(r);
}
static Ex extractEx(const Ex& e, unsigned hi, unsigned lo) {
  unsigned w = bvw(e.a);
  if (lo == 0 && hi == w - 1) return e;
  if (isNum(e.a)) return bvconst(numOf(e.a).extractBits(hi - lo + 1, lo));
  switch (declKind(e.a)) {
    case Z3_OP_ZERO_EXT: {
      Ex in(arg(e.a, 0));
      unsigned iw = bvw(in.a);
      if (hi < iw) return extractEx(in, hi, lo);
      if (lo >= iw) return bvconst(APInt(hi - lo + 1, 0));
      return sliceSegs(e, hi, lo);
    }
    case Z3_OP_SIGN_EXT: {
      Ex in(arg(e.a, 0));
      if (hi < bvw(in.a)) return extractEx(in, hi, lo);
      break;
    }
    case Z3_OP_EXTRACT: {
      unsigned l = Z3_get_decl_int_parameter(Z, Z3_get_app_decl(Z, Z3_to_app(Z, e.a)), 1);
      return extractEx(Ex(arg(e.a, 0)), hi + l, lo + l);
    }
    case Z3_OP_CONCAT: {
      unsigned n = nArgs(e.a), pos = 0;
      for (unsigned i = n; i-- > 0;) {
        unsigned aw = bvw(arg(e.a, i));
        if (lo >= pos && hi < pos + aw) return extractEx(Ex(arg(e.a, i)), hi - pos, lo - pos);
        pos += aw;
      }
      return sliceSegs(e, hi, lo);
    }
    case Z3_OP_BXOR: case Z3_OP_BOR: case Z3_OP_BAND: {
      if (nArgs(e.a) == 2 && hi - lo < 64) {
        bool cheap = false;
        for (unsigned i = 0; i < 2; i++) {
          auto k = declKind(arg(e.a, i));
          if (isNum(arg(e.a, i)) || k == Z3_OP_ZERO_EXT || k == Z3_OP_CONCAT) cheap = true;
        }
        if (cheap) {
          Ex l = extractEx(Ex(arg(e.a, 0)), hi, lo), r = extractEx(Ex(arg(e.a, 1)), hi, lo);
          auto k = declKind(e.a);
          bool ln = isNum(l.a), rn = isNum(r.a);
          if (ln && rn) {
            APInt a = numOf(l.a), b = numOf(r.a);
            return bvconst(k == Z3_OP_BXOR ? a ^ b : k == Z3_OP_BOR ? (a | b) : (a & b));
          }
          if (ln) std::swap(l, r), std::swap(ln, rn);
          if (rn) {
            APInt b = numOf(r.a);
            if (b.isZero()) return k == Z3_OP_BAND ? r : l;
            if (b.isAllOnes() && k != Z3_OP_BXOR) return k == Z3_OP_BAND ? l : r;
          }
          if (k == Z3_OP_BXOR) return Ex(Z3_mk_bvxor(Z, l.a, r.a));
          if (k == Z3_OP_BOR) return Ex(Z3_mk_bvor(Z, l.a, r.a));
          return Ex(Z3_mk_bvand(Z, l.a, r.a));
        }
      }
      break;
    }
    case Z3_OP_BSHL: {
      if (isNum(arg(e.a, 1))) {
        u64 s = numOf(arg(e.a, 1)).getLimitedValue();
        if (hi < s) return bvconst(APInt(hi - lo + 1, 0));
        if (lo >= s) return extractEx(Ex(arg(e.a, 0)), hi - s, lo - s);
      }
      break;
    }
    case Z3_OP_BLSHR: {
      if (isNum(arg(e.a, 1))) {
        u64 s = numOf(arg(e.a, 1)).getLimitedValue();
        if (lo + s >= w) return bvconst(APInt(hi - lo + 1, 0));
        if (hi + s < w) return extractEx(Ex(arg(e.a, 0)), hi + s, lo + s);
      }
      break;
    }
    default: break;
  }
  return Ex(Z3_mk_extract(Z, hi, lo, e.a));
}
static Val vtrunc(const Val& v, unsigned w) {
  if (v.w == w) return v;
  if (!v.sym()) return Val(v.c.trunc(w));
  return fromEx(w, extractEx(v.e, w - 1, 0));
}
static Val vextract(const Val& v, unsigned hi, unsigned lo) {
  if (!v.sym()) return Val(v.c.extractBits(hi - lo + 1, lo));
  if (v.w == 1) return v;
  return fromEx(hi - lo + 1, extractEx(v.e, hi, lo));
}
static Val vzext(const Val& v, unsigned w) {
  if (v.w == w) return v;
  if (!v.sym()) return Val(v.c.zext(w));
  if (v.w == 1) {
    Ex b = exbv(v);
    if (declKind(b.a) != Z3_OP_ITE) return Val(w, Ex(Z3_mk_zero_ext(Z, w - 1, b.a)));
    return Val(w, Ex(Z3_mk_ite(Z, v.e.a, bvconst(APInt(w, 1)).a, bvconst(APInt(w, 0)).a)));
  }
  if (declKind(v.e.a) == Z3_OP_ZERO_EXT) {
    Ex in(arg(v.e.a, 0));
    return Val(w, Ex(Z3_mk_zero_ext(Z, w - bvw(in.a), in.a)));
  }
  if (declKind(v.e.a) == Z3_OP_ITE && isNum(arg(v.e.a, 1)) && isNum(arg(v.e.a, 2)))
    return Val(w, Ex(Z3_mk_ite(Z, arg(v.e.a, 0), bvconst(numOf(arg(v.e.a, 1)).zext(w)).a,
                               bvconst(numOf(arg(v.e.a, 2)).zext(w)).a)));
  return Val(w, Ex(Z3_mk_zero_ext(Z, w - v.w, v.e.a)));
}
static Val vsext(const Val& v, unsigned w) {
  if (v.w == w) return v;
  if (!v.sym()) return Val(v.c.sext(w));
  if (v.w == 1)
    return Val(w, Ex(Z3_mk_ite(Z, v.e.a, bvconst(APInt::getAllOnes(w)).a, bvconst(APInt(w, 0)).a)));
  return Val(w, Ex(Z3_mk_sign_ext(Z, w - v.w, v.e.a)));
}
// a bit-vector as a list of pieces (low first); adjacent constants and adjacent
// pieces of one term are merged, so equal layouts give equal terms
static void addSegs(std::vector<Seg>& out, const Ex& e) {
  auto k = declKind(e.a);
  if (!isNum(e.a) && k == Z3_OP_CONCAT) {
    for (unsigned i = nArgs(e.a); i-- > 0;) addSegs(out, Ex(arg(e.a, i)));
    return;
  }
  if (!isNum(e.a) && k == Z3_OP_ZERO_EXT) {
    Ex in(arg(e.a, 0));
    addSegs(out, in);
    unsigned z = bvw(e.a) - bvw(in.a);
    out.push_back({z, bvconst(APInt(z, 0))});
    return;
  }
  out.push_back({bvw(e.a), e});
}
static bool extractOf(const Ex& e, Ex& base, unsigned& hi, unsigned& lo) {
  if (declKind(e.a) != Z3_OP_EXTRACT) return false;
  auto d = Z3_get_app_decl(Z, Z3_to_app(Z, e.a));
  hi = Z3_get_decl_int_parameter(Z, d, 0);
  lo = Z3_get_decl_int_parameter(Z, d, 1);
  base = Ex(arg(e.a, 0));
  return true;
}
static Ex fromSegs(const std::vector<Seg>& in) {
  std::vector<Seg> v;
  for (auto& s : in) {
    if (!v.empty()) {
      auto& l = v.back();
      if (isNum(l.e.a) && isNum(s.e.a)) {
        l.e = bvconst(numOf(s.e.a).zext(s.w + l.w).shl(l.w) | numOf(l.e.a).zext(s.w + l.w));
        l.w += s.w;
        continue;
      }
      Ex b1, b2;
      unsigned h1, l1, h2, l2;
      if (!isNum(l.e.a) && !isNum(s.e.a) && extractOf(l.e, b1, h1, l1) && extractOf(s.e, b2, h2, l2) && b1.a == b2.a && l2 == h1 + 1) {
        l.e = extractEx(b1, h2, l1);
        l.w += s.w;
        continue;
      }
    }
    v.push_back(s);
  }
  Ex r = v[0].e;
  for (size_t i = 1; i < v.size(); i++) {
    if (i + 1 == v.size() && isNum(v[i].e.a) && numOf(v[i].e.a).isZero()) r = Ex(Z3_mk_zero_ext(Z, v[i].w, r.a));
    else r = Ex(Z3_mk_concat(Z, v[i].e.a, r.a));
  }
  return r;
}
static bool laidOut(const Ex& e) {
  if (isNum(e.a)) return true;
  auto k = declKind(e.a);
  return k == Z3_OP_CONCAT || k == Z3_OP_ZERO_EXT;
}
// x | y (or +, ^) where no bit can be set on both sides
static bool disjointUnion(const Ex& x, const Ex& y, Ex& out) {
  if (!laidOut(x) || !laidOut(y)) return false;
  std::vector<Seg> a, b, r;
  addSegs(a, x);
  addSegs(b, y);
  size_t i = 0, j = 0;
  unsigned oa = 0, ob = 0;  // consumed of a[i], b[j]
  auto zero = [](const Ex& e) { return isNum(e.a) && numOf(e.a).isZero(); };
  // cut constants into zero runs and others
  auto cut = [](std::vector<Seg>& v) {
    std::vector<Seg> o;
    for (auto& s : v) {
      if (!isNum(s.e.a)) { o.push_back(s); continue; }
      APInt c = numOf(s.e.a);
      unsigned p = 0;
      while (p < s.w) {
        unsigned q = p;
        bool z = !c[p];
        while (q < s.w && c[q] != z) q++;
        o.push_back({q - p, bvconst(c.extractBits(q - p, p))});
        p = q;
      }
    }
    v = o;
  };
  cut(a);
  cut(b);
  while (i < a.size()) {
    unsigned n = std::min(a[i].w - oa, b[j].w - ob);
    bool za = zero(a[i].e), zb = zero(b[j].e);
    if (!za && !zb) return false;
    if (za && zb) r.push_back({n, bvconst(APInt(n, 0))});
    else if (zb) r.push_back({n, extractEx(a[i].e, oa + n - 1, oa)});
    else r.push_back({n, extractEx(b[j].e, ob + n - 1, ob)});
    oa += n;
    ob += n;
    if (oa == a[i].w) i++, oa = 0;
    if (ob == b[j].w) j++, ob = 0;
  }
  out = fromSegs(r);
  return true;
}
static Val vconcat(const Val& hi, const Val& lo) {
  if (!hi.sym() && !lo.sym()) return Val(hi.c.zext(hi.w + lo.w).shl(lo.w) | lo.c.zext(hi.w + lo.w));
  std::vector<Seg> v;
  addSegs(v, exbv(lo));
  addSegs(v, exbv(hi));
  return fromEx(hi.w + lo.w, fromSegs(v));
}
static Val vite(const Val& c, const Val& t, const Val& f) {
  if (!c.sym()) return c.c.getBoolValue() ? t : f;
  if (t.agg) {
    Val r;
    r.agg = std::make_shared<std::vector<Val>>();
    for (size_t i = 0; i < t.agg->size(); i++) r.agg->push_back(vite(c, (*t.agg)[i], (*f.agg)[i]));
    return r;
  }
  if (!t.sym() && !f.sym() && t.c == f.c) return t;
  if (t.sym() && f.sym() && t.e.a == f.e.a) return t;
  if (t.w == 1) {
    if (!t.sym() && !f.sym()) return t.c.getBoolValue() ? c : Val(1, mkNot(c.e));
    if (!t.sym()) {
      Z3_ast as[2] = {t.c.getBoolValue() ? c.e.a : nullptr, f.e.a};
      if (t.c.getBoolValue()) return Val(1, Ex(Z3_mk_or(Z, 2, as)));
      Ex n = mkNot(c.e);
      Z3_ast bs[2] = {n.a, f.e.a};
      return Val(1, Ex(Z3_mk_and(Z, 2, bs)));
    }
    if (!f.sym()) {
      Ex n = mkNot(c.e);
      Z3_ast as[2] = {n.a, t.e.a}, bs[2] = {c.e.a, t.e.a};
      return f.c.getBoolValue() ? Val(1, Ex(Z3_mk_or(Z, 2, as))) : Val(1, Ex(Z3_mk_and(Z, 2, bs)));
    }
  }
  return Val(t.w, Ex(Z3_mk_ite(Z, c.e.a, ex(t).a, ex(f).a)));
}
static Val vnot1(const Val& v) {
  if (!v.sym()) return Val(~v.c);
  return fromEx(1, mkNot(v.e));
}
static Val vand1(const Val& a, const Val& b) { return vite(a, b, Val(1, (u64)0)); }

static Ex ufApp(const char* name, unsigned rw, std::vector<Val> as) {
  std::vector<Z3_sort> ss;
  std::vector<Ex> es;
  std::vector<Z3_ast> aa;
  for (auto& v : as) {
    es.push_back(exbv(v));
    aa.push_back(es.back().a);
    ss.push_back(Z3_get_sort(Z, es.back().a));
  }
  z3::func_decl f(*ZC, Z3_mk_func_decl(Z, Z3_mk_string_symbol(Z, name), ss.size(), ss.data(),
                                       Z3_mk_bv_sort(Z, rw)));
  return Ex(Z3_mk_app(Z, f, aa.size(), aa.data()));
}

// operands of commutative operators stay alive, so that their order (by id) is stable
static void pin(const Ex& e) {
  static std::unordered_map<unsigned, Ex> pins;
  pins.emplace(Z3_get_ast_id(Z, e.a), e);
}
// sums modulo 2 in a normal form: flattened, ordered, duplicates cancelled
static Val xorSum(unsigned w, const Ex& x, const Ex& y) {
  std::map<unsigned, Ex> leaf;
  APInt k(w, 0);
  unsigned n = 0;
  std::vector<Ex> st{x, y};
  while (!st.empty()) {
    Ex e = st.back();
    st.pop_back();
    if (isNum(e.a)) { k ^= numOf(e.a); continue; }
    if (declKind(e.a) == Z3_OP_BNOT) { k.flipAllBits(); st.push_back(Ex(arg(e.a, 0))); continue; }
    if (declKind(e.a) == Z3_OP_BXOR && n < 4096) {
      for (unsigned i = 0; i < nArgs(e.a); i++) st.push_back(Ex(arg(e.a, i)));
      n++;
      continue;
    }
    unsigned id = Z3_get_ast_id(Z, e.a);
    if (!leaf.erase(id)) leaf.emplace(id, e);
  }
  if (leaf.empty()) return Val(k);
  Ex r;
  if (leaf.size() > 1) for (auto& l : leaf) pin(l.second);
  for (auto& l : leaf) r = r ? Ex(Z3_mk_bvxor(Z, r.a, l.second.a)) : l.second;
  if (k.isAllOnes()) r = Ex(Z3_mk_bvnot(Z, r.a));
  else if (!k.isZero()) r = Ex(Z3_mk_bvxor(Z, r.a, bvconst(k).a));
  return Val(w, r);
}
static Val vbin(unsigned op, const Val& a, const Val& b);
static Val vicmp(CmpInst::Predicate p, const Val& a, const Val& b) {
  if (!a.sym() && !b.sym()) return Val(1, (u64)ICmpInst::compare(a.c, b.c, p));
  if (a.sym() && b.sym() && a.e.a == b.e.a) return Val(1, (u64)CmpInst::isTrueWhenEqual(p));
  unsigned w = a.w;
  if (w == 1) {
    Ex x = ex(a), y = ex(b);
    switch (p) {
      case CmpInst::ICMP_EQ: case CmpInst::ICMP_NE: {
        Val r;
        if (!b.sym()) r = b.c.getBoolValue() ? a : vnot1(a);
        else if (!a.sym()) r = a.c.getBoolValue() ? b : vnot1(b);
        else r = Val(1, Ex(Z3_mk_iff(Z, x.a, y.a)));
        return p == CmpInst::ICMP_EQ ? r : vnot1(r);
      }
      case CmpInst::ICMP_ULT: case CmpInst::ICMP_SGT: return vand1(vnot1(a), b);
      case CmpInst::ICMP_UGT: case CmpInst::ICMP_SLT: return vand1(a, vnot1(b));
      case CmpInst::ICMP_ULE: case CmpInst::ICMP_SGE: return vnot1(vand1(a, vnot1(b)));
      default: return vnot1(vand1(vnot1(a), b));
    }
  }
  // ite(c,K1,K2) cmp K
  for (int s = 0; s < 2; s++) {
    const Val &x = s ? b : a, &k = s ? a : b;
    if (x.sym() && !k.sym() && declKind(x.e.a) == Z3_OP_ITE && isNum(arg(x.e.a, 1)) && isNum(arg(x.e.a, 2))) {
      APInt n1 = numOf(arg(x.e.a, 1)), n2 = numOf(arg(x.e.a, 2));
      bool r1 = s ? ICmpInst::compare(k.c, n1, p) : ICmpInst::compare(n1, k.c, p);
      bool r2 = s ? ICmpInst::compare(k.c, n2, p) : ICmpInst::compare(n2, k.c, p);
      Val c(1, Ex(arg(x.e.a, 0)));
      if (r1 == r2) return Val(1, (u64)r1);
      return r1 ? c : vnot1(c);
    }
    // zext(x) ==/!=/u< K
    if (x.sym() && !k.sym() && declKind(x.e.a) == Z3_OP_ZERO_EXT) {
      unsigned iw = bvw(arg(x.e.a, 0));
      if (k.c.getActiveBits() <= iw && (CmpInst::isEquality(p) || CmpInst::isUnsigned(p))) {
        Val in = fromEx(iw, Ex(arg(x.e.a, 0))), kk(k.c.trunc(iw));
        return s ? vicmp(p, kk, in) : vicmp(p, in, kk);
      }
      if (k.c.getActiveBits() > iw && CmpInst::isEquality(p)) return Val(1, (u64)(p == CmpInst::ICMP_NE));
    }
  }
  if (b.isZero() && p == CmpInst::ICMP_ULT) return Val(1, (u64)0);
  if (b.isZero() && p == CmpInst::ICMP_UGE) return Val(1, (u64)1);
  Ex x = ex(a), y = ex(b);
  switch (p) {
    case CmpInst::ICMP_EQ: return fromEx(1, Ex(Z3_mk_eq(Z, x.a, y.a)));
    case CmpInst::ICMP_NE: return fromEx(1, mkNot(Ex(Z3_mk_eq(Z, x.a, y.a))));
    case CmpInst::ICMP_ULT: return Val(1, Ex(Z3_mk_bvult(Z, x.a, y.a)));
    case CmpInst::ICMP_ULE: return Val(1, Ex(Z3_mk_bvule(Z, x.a, y.a)));
    case CmpInst::ICMP_UGT: return Val(1, Ex(Z3_mk_bvugt(Z, x.a, y.a)));
    case CmpInst::ICMP_UGE: return Val(1, Ex(Z3_mk_bvuge(Z, x.a, y.a)));
    case CmpInst::ICMP_SLT: return Val(1, Ex(Z3_mk_bvslt(Z, x.a, y.a)));
    case CmpInst::ICMP_SLE: return Val(1, Ex(Z3_mk_bvsle(Z, x.a, y.a)));
    case CmpInst::ICMP_SGT: return Val(1, Ex(Z3_mk_bvsgt(Z, x.a, y.a)));
    default: return Val(1, Ex(Z3_mk_bvsge(Z, x.a, y.a)));
  }
}
static Val vbin(unsigned op, const Val& a, const Val& b) {
  unsigned w = a.w;
  if (!a.sym() && !b.sym()) {
    switch (op) {
      case Instruction::Add: return Val(a.c + b.c);
      case Instruction::Sub: return Val(a.c - b.c);
      case Instruction::Mul: return Val(a.c * b.c);
      case Instruction::And: return Val(a.c & b.c);
      case Instruction::Or: return Val(a.c | b.c);
      case Instruction::Xor: return Val(a.c ^ b.c);
      case Instruction::Shl: return b.c.uge(w) ? Val(w, (u64)0) : Val(a.c.shl(b.c));
      case Instruction::LShr: return b.c.uge(w) ? Val(w, (u64)0) : Val(a.c.lshr(b.c));
      case Instruction::AShr: return b.c.uge(w) ? Val(a.c.ashr(w - 1)) : Val(a.c.ashr(b.c));
      case Instruction::UDiv: return Val(a.c.udiv(b.c));
      case Instruction::URem: return Val(a.c.urem(b.c));
      case Instruction::SDiv: return Val(a.c.sdiv(b.c));
      case Instruction::SRem: return Val(a.c.srem(b.c));
    }
  }
  if (w == 1) {
    switch (op) {
      case Instruction::And: case Instruction::Mul: return vand1(a, b);
      case Instruction::Or: return vite(a, Val(1, 1), b);
      case Instruction::Xor: case Instruction::Add: case Instruction::Sub: return vicmp(CmpInst::ICMP_NE, a, b);
    }
  }
  // commute constants right
  if (!a.sym() && (op == Instruction::Add || op == Instruction::Mul || op == Instruction::And ||
                   op == Instruction::Or || op == Instruction::Xor))
    return vbin(op, b, a);
  if (!b.sym()) {
    const APInt& k = b.c;
    switch (op) {
      case Instruction::Add:
        if (k.isZero()) return a;
        if (declKind(a.e.a) == Z3_OP_BADD && nArgs(a.e.a) == 2 && isNum(arg(a.e.a, 1)))
          return vbin(op, fromEx(w, Ex(arg(a.e.a, 0))), Val(numOf(arg(a.e.a, 1)) + k));
        break;
      case Instruction::Sub: return vbin(Instruction::Add, a, Val(-k));
      case Instruction::Mul:
        if (k.isZero()) return b;
        if (k.isOne()) return a;
        if (k.isPowerOf2()) return vbin(Instruction::Shl, a, Val(w, (u64)k.logBase2()));
        break;
      case Instruction::And:
        if (k.isZero()) return b;
        if (k.isAllOnes()) return a;
        if (k.isMask()) return vzext(vtrunc(a, k.countTrailingOnes()), w);
        break;
      case Instruction::Or:
        if (k.isZero()) return a;
        if (k.isAllOnes()) return b;
        break;
      case Instruction::Xor:
        if (k.isZero()) return a;
        break;
      case Instruction::Shl:
        if (k.isZero()) return a;
        if (k.uge(w)) return Val(w, (u64)0);
        { unsigned n = k.getZExtValue(); return vconcat(vextract(a, w - 1 - n, 0), Val(n, (u64)0)); }
      case Instruction::LShr:
        if (k.isZero()) return a;
        if (k.uge(w)) return Val(w, (u64)0);
        return vzext(vextract(a, w - 1, k.getZExtValue()), w);
      case Instruction::AShr:
        if (k.isZero()) return a;
        if (k.ult(w)) return vsext(vextract(a, w - 1, k.getZExtValue()), w);
        break;
      case Instruction::UDiv:
        if (k.isOne()) return a;
        if (k.isPowerOf2()) return vbin(Instruction::LShr, a, Val(w, (u64)k.logBase2()));
        break;
      case Instruction::URem:
        if (k.isPowerOf2()) return vbin(Instruction::And, a, Val(k - 1));
        break;
    }
  } else if (a.isZero()) {
    if (op == Instruction::Shl || op == Instruction::LShr || op == Instruction::AShr) return a;
  }
  if (a.sym() && b.sym() && a.e.a == b.e.a) {
    if (op == Instruction::Sub || op == Instruction::Xor) return Val(w, (u64)0);
    if (op == Instruction::And || op == Instruction::Or) return a;
  }
  Ex x = ex(a), y = ex(b);
  if (op == Instruction::Or || op == Instruction::Add || op == Instruction::Xor) {
    Ex r;
    if (disjointUnion(x, y, r)) return fromEx(w, r);
  }
  switch (op) {
    case Instruction::Add: return Val(w, Ex(Z3_mk_bvadd(Z, x.a, y.a)));
    case Instruction::Sub: return Val(w, Ex(Z3_mk_bvsub(Z, x.a, y.a)));
    case Instruction::Mul: {
      if (opt.absMul && (int)w >= opt.absMul && a.sym() && b.sym()) {
        if (Z3_get_ast_id(Z, x.a) > Z3_get_ast_id(Z, y.a)) std::swap(x, y);
        std::string n = "absmul" + std::to_string(w);
        return Val(w, ufApp(n.c_str(), w, {Val(w, x), Val(w, y)}));
      }
      return Val(w, Ex(Z3_mk_bvmul(Z, x.a, y.a)));
    }
    case Instruction::And: case Instruction::Or:
      pin(x);
      pin(y);
      if (Z3_get_ast_id(Z, x.a) > Z3_get_ast_id(Z, y.a)) std::swap(x, y);
      return Val(w, Ex(op == Instruction::And ? Z3_mk_bvand(Z, x.a, y.a) : Z3_mk_bvor(Z, x.a, y.a)));
    case Instruction::Xor: return xorSum(w, x, y);
    case Instruction::Shl: return Val(w, Ex(Z3_mk_bvshl(Z, x.a, y.a)));
    case Instruction::LShr: return Val(w, Ex(Z3_mk_bvlshr(Z, x.a, y.a)));
    case Instruction::AShr: return Val(w, Ex(Z3_mk_bvashr(Z, x.a, y.a)));
    case Instruction::UDiv: return Val(w, Ex(Z3_mk_bvudiv(Z, x.a, y.a)));
    case Instruction::URem: return Val(w, Ex(Z3_mk_bvurem(Z, x.a, y.a)));
    case Instruction::SDiv: return Val(w, Ex(Z3_mk_bvsdiv(Z, x.a, y.a)));
    case Instruction::SRem: return Val(w, Ex(Z3_mk_bvsrem(Z, x.a, y.a)));
  }
  abort();
}

// ---------------------------------------------------------------- stats
struct Stats {
  u64 steps = 0, pathsDone = 0, pathsInfeasible = 0, pathsAssumeCut = 0, forks = 0;
  u64 queries = 0, assertQueries = 0, assertHold = 0, assertTrivial = 0, unknown = 0;
  u64 extSolver = 0;
  double solverTime = 0, maxQuery = 0;
  std::map<std::string, u64> reach;
  std::map<std::string, u64> asserts;  // message -> discharged
  std::set<const Function*> fns;
  std::vector<std::string> incomplete;
  unsigned witnesses = 0;
  struct Viol { std::string kind, what, where, replay; };
  std::vector<Viol> viol;
} st;
static void incomplete(const std::string& why) {
  for (auto& s : st.incomplete) if (s == why) return;
  st.incomplete.push_back(why);
  if (opt.verbose) std::cerr << "INCOMPLETE: " << why << "\n";
}

// ---------------------------------------------------------------- memory
struct SB { Ex whole; uint16_t idx; };
struct Obj {
  u64 base, size;
  std::vector<uint8_t> b;
  std::map<uint32_t, SB> s;
  bool freed = false, ro = false;
  char kind = 'h';  // h heap, s stack, g global, f function
  std::string name;
};
using ObjP = std::shared_ptr<Obj>;

static Val sbVal(const SB& s) {
  unsigned w = bvw(s.whole.a);
  if (w == 8) return Val(8, s.whole);
  return fromEx(8, extractEx(s.whole, s.idx * 8 + 7, s.idx * 8));
}
static Val objRead(const Obj& o, u64 off, unsigned n) {
  auto it = o.s.empty() ? o.s.end() : o.s.lower_bound(off);
  if (it == o.s.end() || it->first >= off + n) {
    if (n <= 8) {
      u64 v = 0;
      memcpy(&v, &o.b[off], n);
      return Val(n * 8, v);
    }
    std::vector<u64> ws((n + 7) / 8, 0);
    memcpy(ws.data(), &o.b[off], n);
    return Val(APInt(n * 8, ws));
  }
  // group runs, from low to high
  Val acc;
  bool have = false;
  u64 i = 0;
  while (i < n) {
    Val piece;
    if (it != o.s.end() && it->first == off + i) {
      Ex wh = it->second.whole;
      unsigned lo = it->second.idx, cnt = 1;
      auto j = std::next(it);
      while (i + cnt < n && j != o.s.end() && j->first == off + i + cnt && j->second.whole.a == wh.a &&
             j->second.idx == lo + cnt) { ++j; ++cnt; }
      piece = fromEx(cnt * 8, extractEx(wh, (lo + cnt) * 8 - 1, lo * 8));
      it = j;
      i += cnt;
    } else {
      u64 end = n;
      if (it != o.s.end() && it->first < off + n) end = it->first - off;
      std::vector<u64> ws((end - i + 7) / 8, 0);
      memcpy(ws.data(), &o.b[off + i], end - i);
      piece = Val(APInt((end - i) * 8, ws));
      i = end;
    }
    acc = have ? vconcat(piece, acc) : piece;
    have = true;
  }
  return acc;
}
static void objWrite(Obj& o, u64 off, const Val& v0) {
  Val v = v0;
  unsigned n = (v.w + 7) / 8;
  if (v.w != n * 8) v = vzext(v, n * 8);
  if (!o.s.empty()) o.s.erase(o.s.lower_bound(off), o.s.lower_bound(off + n));
  if (!v.sym()) {
    for (unsigned i = 0; i < n; i += 8) {
      u64 x = v.c.extractBits(std::min(64u, v.w - i * 8), i * 8).getZExtValue();
      memcpy(&o.b[off + i], &x, std::min(8u, n - i));
    }
    return;
  }
  for (unsigned i = 0; i < n; i++) o.s[off + i] = SB{v.e, (uint16_t)i};
}

// ---------------------------------------------------------------- program
struct Op { int reg; Val cv; };
struct DI {
  Instruction* I;
  std::vector<Op> ops;
  int dst = -1;
};
struct FnInfo {
  Function* F;
  unsigned nregs = 0;
  DenseMap<const Value*, int> idx;
  DenseMap<const BasicBlock*, unsigned> start;
  std::vector<DI> code;
};
struct Frame {
  FnInfo* fi;
  unsigned pc;
  const BasicBlock* prev = nullptr;
  std::vector<Val> regs;
  std::vector<u64> allocas;
  std::vector<Val> va;
};
struct Thread {
  std::vector<Frame> st;
  bool done = false, waiting = false;
  u64 waitAddr = 0;
  u64 excObj = 0, excTi = 0;            // in flight
  std::vector<std::pair<u64, u64>> caught;
};
struct SymVar { std::string name; unsigned bits; Ex e; };
struct State {
  std::vector<Ex> pc;
  std::map<u64, ObjP> mem;
  std::vector<Thread> th;
  unsigned cur = 0;
  u64 nextAddr = 0x10000000;
  std::vector<SymVar> syms;
  std::vector<int> sched;
  std::vector<unsigned> wakeChoice;
  unsigned preempt = 0, delay = 0;
  std::map<u64, u64> excTypes;  // exception object -> typeinfo
  bool resched = false;
};

static Module* M;
static const DataLayout* DL;
static std::unordered_map<const Function*, std::unique_ptr<FnInfo>> fnInfos;
static std::unordered_map<const GlobalValue*, u64> gaddr;
static std::map<u64, Function*> faddr;
static std::map<u64, const GlobalVariable*> gvAt;
static std::vector<std::unique_ptr<State>> work;
static State* S;  // current

struct PathEnd { std::string why; };
struct Unsupported { std::string what; };

// ---------------------------------------------------------------- solver
static std::unordered_map<unsigned, std::pair<Ex, std::shared_ptr<std::set<unsigned>>>> varCache;
static std::shared_ptr<std::set<unsigned>> varsOf(Z3_ast a) {
  unsigned id = Z3_get_ast_id(Z, a);
  auto it = varCache.find(id);
  if (it != varCache.end()) return it->second.second;
  auto r = std::make_shared<std::set<unsigned>>();
  std::vector<Z3_ast> stack{a};
  std::set<unsigned> seen;
  while (!stack.empty()) {
    Z3_ast t = stack.back();
    stack.pop_back();
    if (!isApp(t)) continue;
    unsigned tid = Z3_get_ast_id(Z, t);
    if (!seen.insert(tid).second) continue;
    auto f = varCache.find(tid);
    if (f != varCache.end()) { r->insert(f->second.second->begin(), f->second.second->end()); continue; }
    unsigned n = nArgs(t);
    if (declKind(t) == Z3_OP_UNINTERPRETED) {
      if (n == 0) r->insert(tid);
      else r->insert(0x80000000u | Z3_get_ast_id(Z, Z3_func_decl_to_ast(Z, Z3_get_app_decl(Z, Z3_to_app(Z, t)))));
    }
    for (unsigned i = 0; i < n; i++) stack.push_back(arg(t, i));
  }
  varCache.emplace(id, std::make_pair(Ex(a), r));
  return r;
}
static bool intersects(const std::set<unsigned>& a, const std::set<unsigned>& b) {
  if (a.size() > b.size()) return intersects(b, a);
  for (auto x : a) if (b.count(x)) return true;
  return false;
}
enum R { UNSAT, SAT, UNK };
static std::unordered_map<std::string, R> qcache;

static R external(const std::string& smt, double budget) {
  // portfolio: z3-new and cvc5 on the dumped query
  char path[] = "/tmp/irsymXXXXXX";
  int fd = mkstemp(path);
  std::string q = smt;
  if (write(fd, q.data(), q.size()) < 0) {}
  close(fd);
  std::string p(path);
  int secs = (int)budget;
  std::string cmd = "( timeout -s KILL " + std::to_string(secs) + " cvc5 --lang smt2 " + p + " 2>/dev/null > " + p + ".c & " +
                    "P1=$!; timeout -s KILL " + std::to_string(secs) + " cvc5 --lang smt2 --solve-bv-as-int=sum " + p + " 2>/dev/null > " + p + ".i & P2=$!; " +
                    "for k in $(seq 1 " + std::to_string(secs * 5) + "); do grep -qsE '^(sat|unsat)' " + p + ".c " + p + ".i && break; sleep 0.2; done; kill $P1 $P2 2>/dev/null; pkill -P $P1 2>/dev/null; pkill -P $P2 2>/dev/null ) >/dev/null 2>&1";
  if (system(cmd.c_str())) {}
  R r = UNK;
  for (auto suf : {".c", ".i"}) {
    std::ifstream f(p + suf);
    std::string l;
    while (std::getline(f, l)) {
      if (l.find("(error") == 0) break;
      if (l == "sat") r = SAT;
      if (l == "unsat") r = UNSAT;
    }
    unlink((p + suf).c_str());
  }
  unlink(p.c_str());
  return r;
}

// interrupts z3 when a query overruns (its own timeout does not cover preprocessing)
static std::atomic<double> watchUntil{0};
static void startWatchdog() {
  std::thread([] {
    while (true) {
      std::this_thread::sleep_for(std::chrono::milliseconds(200));
      double d = watchUntil.load();
      if (d > 0 && now() > d) Z3_interrupt(Z);
    }
  }).detach();
}
// is (path constraints ∧ c) satisfiable?
static R query(const Ex& c, unsigned ms, z3::model* mOut = nullptr, bool full = false, bool assertQ = false) {
  Z3_lbool b = Z3_get_bool_value(Z, c.a);
  if (b == Z3_L_FALSE) return UNSAT;
  if (b == Z3_L_TRUE && !mOut) return SAT;
  // slice
  std::vector<Ex> use;
  if (full) use = S->pc;
  else {
    std::set<unsigned> vs = *varsOf(c.a);
    std::vector<char> in(S->pc.size(), 0);
    bool ch = true;
    while (ch) {
      ch = false;
      for (size_t i = 0; i < S->pc.size(); i++)
        if (!in[i]) {
          auto v = varsOf(S->pc[i].a);
          if (intersects(*v, vs)) { in[i] = 1; vs.insert(v->begin(), v->end()); ch = true; }
        }
    }
    for (size_t i = 0; i < S->pc.size(); i++) if (in[i]) use.push_back(S->pc[i]);
  }
  std::string key;
  if (!mOut) {
    std::vector<unsigned> ids;
    for (auto& e : use) ids.push_back(Z3_get_ast_id(Z, e.a));
    std::sort(ids.begin(), ids.end());
    ids.push_back(Z3_get_ast_id(Z, c.a));
    key.assign((char*)ids.data(), ids.size() * sizeof(unsigned));
    auto it = qcache.find(key);
    if (it != qcache.end()) return it->second;
  }
  double t = now();
  st.queries++;
  z3::solver sol = opt.logic.empty() ? z3::solver(*ZC) : z3::solver(*ZC, opt.logic.c_str());
  z3::params p(*ZC);
  p.set("timeout", ms);
  sol.set(p);
  z3::check_result r = z3::unknown;
  watchUntil = now() + ms / 1000.0 + 3;
  try {
    for (auto& e : use) sol.add(e.x());
    sol.add(c.x());
    if (opt.dumpq) std::cerr << sol.to_smt2() << "\n";
    r = sol.check();
  } catch (z3::exception& e) { r = z3::unknown; }
  watchUntil = 0;
  R res = r == z3::sat ? SAT : r == z3::unsat ? UNSAT : UNK;
  if (res == SAT && mOut) *mOut = sol.get_model();
  if (res == UNK && assertQ) {
    st.extSolver++;
    double left = opt.timeBudget - (now() - T0);
    res = external("(set-logic ALL)\n" + sol.to_smt2(), std::max(5.0, std::min(left, ms / 1000.0 * 2)));
  }
  t = now() - t;
  st.solverTime += t;
  if (t > st.maxQuery) st.maxQuery = t;
  if (opt.verbose && t > 1) std::cerr << "slow query " << t << "s -> " << res << " (" << use.size() << " constraints)\n";
  if (res == UNK) st.unknown++;
  if (!mOut) {
    // keep asts of cached keys alive: varCache pins them
    varsOf(c.a);
    for (auto& e : use) varsOf(e.a);
    qcache[key] = res;
  }
  return res;
}
static void addPC(State& s, const Ex& e) {
  Z3_lbool b = Z3_get_bool_value(Z, e.a);
  if (b == Z3_L_TRUE) return;
  if (declKind(e.a) == Z3_OP_AND) {
    for (unsigned i = 0; i < nArgs(e.a); i++) addPC(s, Ex(arg(e.a, i)));
    return;
  }
  s.pc.push_back(e);
}

static std::string whereStr() {
  std::string r;
  auto& t = S->th[S->cur];
  int n = 0;
  for (int i = (int)t.st.size() - 1; i >= 0 && n < 8; i--, n++) {
    auto& f = t.st[i];
    if (n) r += " < ";
    r += demangle(f.fi->F->getName().str()).substr(0, 90);
  }
  return r;
}
// a quick look for an assignment before asking the solver: a counterexample
// found this way is as good as the solver's (and is replayed like it)
static bool guess(const Ex& neg, z3::model& out) {
  static std::mt19937_64 rng(12345);
  std::set<unsigned> bound;
  for (auto& e : S->pc) { auto v = varsOf(e.a); bound.insert(v->begin(), v->end()); }
  z3::model base(*ZC);
  if (!bound.empty() && query(boolconst(true), 2000, &base, true) != SAT) return false;
  for (int round = 0; round < 3; round++) {
    z3::model m(*ZC, Z3_mk_model(Z));
    for (auto& v : S->syms) {
      if (v.bits == 1) continue;
      APInt k(v.bits, 0);
      if (round < 2) for (unsigned i = 0; i < v.bits; i++) k.setBitVal(i, rng() & 1);
      if (round == 1) k = k.lshr(v.bits * 3 / 4);
      z3::expr e = v.e.x();
      z3::func_decl d = e.decl();
      z3::expr c = bound.count(Z3_get_ast_id(Z, v.e.a)) ? base.eval(e, true) : z3::expr(*ZC, bvconst(k).a);
      m.add_const_interp(d, c);
    }
    bool ok = true;
    try {
      for (auto& e : S->pc) if (!m.eval(e.x(), true).is_true()) { ok = false; break; }
      if (ok) {
        z3::expr v = m.eval(neg.x(), true);
        if (opt.verbose) std::cerr << "guess " << Z3_get_bool_value(Z, v) << " " << (Z3_get_bool_value(Z, v) ? "" : v.to_string().substr(0, 300)) << "\n";
        if (v.is_true()) { out = m; return true; }
      }
    } catch (z3::exception& x) { if (opt.verbose) std::cerr << "guess: " << x.msg() << "\n"; }
  }
  return false;
}
static std::set<std::string> violSeen;
static void writeReplay(const std::string& path, const std::string& kind, const std::string& what, z3::model* m) {
  std::ofstream f(path);
  f << "# entry " << opt.entry << "\n# kind " << kind << "\n# what " << what << "\n# where " << whereStr() << "\n";
  if (!S->sched.empty()) {
    f << "sched";
    for (int i : S->sched) f << " " << i;
    f << "\npreempt " << opt.maxPreempt << "\n";
  }
  for (auto& v : S->syms) {
    APInt val(v.bits, 0);
    if (m) {
      z3::expr e = m->eval(v.e.x(), true);
      if (v.bits == 1) val = APInt(1, e.is_true() ? 1 : 0);
      else if (isNum(e)) val = numOf(e);
    }
    SmallString<40> s;
    val.toString(s, 16, false, true);
    f << v.name << " " << v.bits << " " << s.c_str() << "\n";
  }
}
// report a violation on the current path under extra condition `c` (may be null)
static void violation(const std::string& kind, const std::string& what, const Ex& c, z3::model* have = nullptr) {
  std::string key = kind + "|" + what;
  if (kind != "assert") key += "|" + (S->th[S->cur].st.empty() ? "" : S->th[S->cur].st.back().fi->F->getName().str());
  if (violSeen.count(key) || st.viol.size() >= opt.maxViol) return;
  z3::model m(*ZC);
  R r = SAT;
  if (have) m = *have;
  else r = query(c ? c : boolconst(true), opt.assertMs, &m, true);
  if (r == UNSAT) return;  // spurious feasibility (earlier unknown)
  violSeen.insert(key);
  char buf[64];
  snprintf(buf, sizeof buf, "%s.v%zu.txt", opt.entry.c_str(), st.viol.size());
  std::string path = opt.replayDir + "/" + buf;
  writeReplay(path, kind, what, r == SAT ? &m : nullptr);
  st.viol.push_back({kind, what, whereStr(), path});
  if (opt.verbose) std::cerr << "VIOL " << kind << ": " << what << " @ " << whereStr() << " -> " << path << "\n";
}
[[noreturn]] static void fail(const std::string& kind, const std::string& what) {
  violation(kind, what, Ex());
  throw PathEnd{kind};
}

static std::unique_ptr<State> cloneS() { st.forks++; return std::make_unique<State>(*S); }

// decide a symbolic Bool on the current path; forks if both sides feasible.
// The fork re-executes the current instruction under the opposite condition.
static bool forkBool(const Val& c) {
  if (!c.sym()) return c.c.getBoolValue();
  R t = query(c.e, opt.queryMs);
  if (t == UNSAT) { addPC(*S, mkNot(c.e)); return false; }
  Ex n = mkNot(c.e);
  R f = query(n, opt.queryMs);
  if (f == UNSAT) { addPC(*S, c.e); return true; }
  auto o = cloneS();
  addPC(*o, n);
  work.push_back(std::move(o));
  addPC(*S, c.e);
  return true;
}
static APInt evalUnder(z3::model& m, const Val& v) {
  z3::expr e = m.eval(v.e.x(), true);
  if (v.w == 1) return APInt(1, e.is_true());
  return numOf(e);
}
// pick a concrete value for v, forking for the others
static APInt concretize(const Val& v, const char* why) {
  if (!v.sym()) return v.c;
  z3::model m(*ZC);
  R r = query(Ex(Z3_mk_eq(Z, v.e.a, v.e.a)), opt.queryMs, &m, true);
  if (r == UNSAT) throw PathEnd{"infeasible"};
  if (r == UNK) { incomplete(std::string("solver unknown while concretising ") + why); throw PathEnd{"unknown"}; }
  APInt k = evalUnder(m, v);
  Val eq = vicmp(CmpInst::ICMP_EQ, v, Val(k));
  if (eq.sym()) {
    Ex n = mkNot(eq.e);
    if (query(n, opt.queryMs) != UNSAT) {
      auto o = cloneS();
      addPC(*o, n);
      work.push_back(std::move(o));
    }
    addPC(*S, eq.e);
  }
  return k;
}

// ---------------------------------------------------------------- memory access
static Obj* findObj(u64 a) {
  auto it = S->mem.upper_bound(a);
  if (it == S->mem.begin()) return nullptr;
  --it;
  Obj* o = it->second.get();
  if (a < o->base || a - o->base > o->size) return nullptr;
  return o;
}
static Obj* writable(Obj* o) {
  auto& p = S->mem[o->base];
  if (p.use_count() > 1) p = std::make_shared<Obj>(*p);
  return p.get();
}
static u64 allocate(u64 size, char kind, const std::string& name, u64 align = 16) {
  u64 a = (S->nextAddr + 63) & ~63ull;
  S->nextAddr = a + size + 64;
  auto o = std::make_shared<Obj>();
  o->base = a;
  o->size = size;
  o->b.assign(size, 0xAB);
  o->kind = kind;
  o->name = name;
  S->mem[a] = o;
  return a;
}
static std::string objDesc(Obj* o) {
  return std::string(o->kind == 'h' ? "heap" : o->kind == 's' ? "stack" : "global") + " object of " +
         std::to_string(o->size) + " bytes";
}
struct Loc { Obj* o; Val off; };  // off symbolic or concrete (64-bit)
static Loc resolve(const Val& addr, u64 n, bool wr) {
  const char* what = wr ? "write" : "read";
  if (!addr.sym()) {
    u64 a = addr.u();
    if (a < 4096) fail("memory", std::string("null pointer ") + what);
    Obj* o = findObj(a);
    if (!o) fail("memory", std::string("wild ") + what + " of " + std::to_string(n) + " bytes");
    if (o->freed) fail("memory", std::string("use after free ") + what + " in " + objDesc(o));
    if (a - o->base + n > o->size)
      fail("memory", std::string("out-of-bounds ") + what + " of " + std::to_string(n) + " bytes in " + objDesc(o));
    if (wr && o->ro) fail("memory", "write to constant " + o->name);
    return {o, Val(64, a - o->base)};
  }
  z3::model m(*ZC);
  R r = query(Ex(Z3_mk_eq(Z, addr.e.a, addr.e.a)), opt.queryMs, &m, true);
  if (r == UNSAT) throw PathEnd{"infeasible"};
  if (r == UNK) { incomplete("solver unknown while resolving a pointer"); throw PathEnd{"unknown"}; }
  u64 a = evalUnder(m, addr).getZExtValue();
  // prefer attributing to the object the base pointer names: pick via model
  Obj* o = findObj(a);
  if (!o || o->freed || a - o->base + n > o->size) {
    // out of bounds for this model; report, then continue with in-bounds part if any
    std::string d = o ? objDesc(o) : "no object";
    Val eq = vicmp(CmpInst::ICMP_EQ, addr, Val(64, a));
    violation("memory", std::string("out-of-bounds ") + what + " of " + std::to_string(n) + " bytes (symbolic address, " + d + ")", ex(eq));
    addPC(*S, mkNot(ex(eq)));
    if (query(boolconst(true), opt.queryMs, &m, true) == SAT) {
      // try to stay within some object: heuristic, drop the rest of the path
    }
    throw PathEnd{"memory"};
  }
  Val lo = vicmp(CmpInst::ICMP_UGE, addr, Val(64, o->base));
  Val hi = vicmp(CmpInst::ICMP_ULE, addr, Val(64, o->base + o->size - n));
  Val in = vand1(lo, hi);
  if (in.sym()) {
    Ex out = mkNot(in.e);
    if (query(out, opt.queryMs) != UNSAT) {
      auto c = cloneS();
      addPC(*c, out);
      work.push_back(std::move(c));
    }
    addPC(*S, in.e);
  }
  if (wr && o->ro) fail("memory", "write to constant " + o->name);
  return {o, vbin(Instruction::Sub, addr, Val(64, o->base))};
}
// candidate offsets for a symbolic offset
static std::vector<u64> offsets(const Loc& l, u64 n) {
  u64 stride = 1;
  for (u64 s : {(u64)16, (u64)8, (u64)4, (u64)2}) {
    if (s > n && n > 0 && s != n) continue;
    // offset % s constant?
    Val low = vbin(Instruction::And, l.off, Val(64, s - 1));
    if (!low.sym()) { stride = s; break; }
    if (query(mkNot(ex(vicmp(CmpInst::ICMP_EQ, low, Val(64, (u64)0)))), opt.queryMs) == UNSAT) { stride = s; break; }
  }
  std::vector<u64> r;
  u64 rem = 0;
  if (stride > 1) {
    Val low = vbin(Instruction::And, l.off, Val(64, stride - 1));
    if (!low.sym()) rem = low.u();
  }
  for (u64 o = rem; o + n <= l.o->size; o += stride) r.push_back(o);
  return r;
}
static Val memRead(const Val& addr, u64 n) {
  Loc l = resolve(addr, n, false);
  if (!l.off.sym()) return objRead(*l.o, l.off.u(), n);
  auto offs = offsets(l, n);
  if (offs.size() > 2048) {
    APInt k = concretize(l.off, "read offset");
    return objRead(*l.o, k.getZExtValue(), n);
  }
  // keep only feasible offsets when few
  Val acc = objRead(*l.o, offs.back(), n);
  for (size_t i = offs.size() - 1; i-- > 0;)
    acc = vite(vicmp(CmpInst::ICMP_EQ, l.off, Val(64, offs[i])), objRead(*l.o, offs[i], n), acc);
  return acc;
}
static void memWrite(const Val& addr, const Val& v) {
  u64 n = (v.w + 7) / 8;
  Loc l = resolve(addr, n, true);
  if (!l.off.sym()) {
    Obj* o = writable(l.o);
    objWrite(*o, l.off.u(), v);
    return;
  }
  auto offs = offsets(l, n);
  if (offs.size() > 256) {
    APInt k = concretize(l.off, "write offset");
    objWrite(*writable(l.o), k.getZExtValue(), v);
    return;
  }
  Obj* o = writable(l.o);
  for (u64 of : offs) {
    Val old = objRead(*o, of, n);
    Val nv = v.w == n * 8 ? v : vzext(v, n * 8);
    objWrite(*o, of, vite(vicmp(CmpInst::ICMP_EQ, l.off, Val(64, of)), nv, old));
  }
}

// ---------------------------------------------------------------- constants
static u64 addrOf(const GlobalValue* g);
static Val freshUndef(unsigned w) {
  static int k = 0;
  std::string n = "undef!" + std::to_string(k++);
  Z3_sort s = w == 1 ? Z3_mk_bool_sort(Z) : Z3_mk_bv_sort(Z, w);
  return Val(w, Ex(Z3_mk_const(Z, Z3_mk_string_symbol(Z, n.c_str()), s)));
}
static unsigned tyBits(Type* t) { return (unsigned)DL->getTypeSizeInBits(t).getFixedValue(); }
static Val zeroOf(Type* t) {
  if (t->isStructTy() || t->isArrayTy()) {
    Val r;
    r.agg = std::make_shared<std::vector<Val>>();
    unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements();
    for (unsigned i = 0; i < n; i++)
      r.agg->push_back(zeroOf(t->isStructTy() ? t->getStructElementType(i) : t->getArrayElementType()));
    return r;
  }
  return Val(tyBits(t), (u64)0);
}
static Val undefOf(Type* t) {
  if (t->isStructTy() || t->isArrayTy()) {
    Val r;
    r.agg = std::make_shared<std::vector<Val>>();
    unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements();
    for (unsigned i = 0; i < n; i++)
      r.agg->push_back(undefOf(t->isStructTy() ? t->getStructElementType(i) : t->getArrayElementType()));
    return r;
  }
  return freshUndef(tyBits(t));
}
static Val evalConst(const Constant* c);
static Val castVal(unsigned opc, const Val& v, Type* from, Type* to) {
  if (from->isVectorTy() && opc != Instruction::BitCast) {
    auto* fv = cast<FixedVectorType>(from);
    auto* tv = cast<FixedVectorType>(to);
    unsigned fw = tyBits(fv->getElementType()), tw = tyBits(tv->getElementType());
    Val acc;
    for (unsigned i = 0; i < fv->getNumElements(); i++) {
      Val e = vextract(v, (i + 1) * fw - 1, i * fw);
      Val r = castVal(opc, e, fv->getElementType(), tv->getElementType());
      (void)tw;
      acc = i ? vconcat(r, acc) : r;
    }
    return acc;
  }
  unsigned w = tyBits(to);
  switch (opc) {
    case Instruction::Trunc: return vtrunc(v, w);
    case Instruction::ZExt: return vzext(v, w);
    case Instruction::SExt: return vsext(v, w);
    case Instruction::PtrToInt: case Instruction::IntToPtr:
      return v.w == w ? v : v.w > w ? vtrunc(v, w) : vzext(v, w);
    case Instruction::BitCast: case Instruction::AddrSpaceCast: return v;
  }
  throw Unsupported{"cast " + std::string(Instruction::getOpcodeName(opc))};
}
static Val evalConst(const Constant* c) {
  if (auto* ci = dyn_cast<ConstantInt>(c)) return Val(ci->getValue());
  if (auto* cf = dyn_cast<ConstantFP>(c)) return Val(cf->getValueAPF().bitcastToAPInt());
  if (isa<ConstantPointerNull>(c)) return Val(64, (u64)0);
  if (auto* gv = dyn_cast<GlobalValue>(c)) return Val(64, addrOf(gv));
  if (isa<UndefValue>(c)) return undefOf(c->getType());
  if (isa<ConstantAggregateZero>(c)) return zeroOf(c->getType());
  if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
    if (c->getType()->isVectorTy()) {
      Val acc;
      for (unsigned i = 0; i < cd->getNumElements(); i++) {
        Val e = evalConst(cd->getElementAsConstant(i));
        acc = i ? vconcat(e, acc) : e;
      }
      return acc;
    }
    Val r;
    r.agg = std::make_shared<std::vector<Val>>();
    for (unsigned i = 0; i < cd->getNumElements(); i++) r.agg->push_back(evalConst(cd->getElementAsConstant(i)));
    return r;
  }
  if (auto* ca = dyn_cast<ConstantAggregate>(c)) {
    if (c->getType()->isVectorTy()) {
      Val acc;
      for (unsigned i = 0; i < ca->getNumOperands(); i++) {
        Val e = evalConst(ca->getOperand(i));
        acc = i ? vconcat(e, acc) : e;
      }
      return acc;
    }
    Val r;
    r.agg = std::make_shared<std::vector<Val>>();
    for (unsigned i = 0; i < ca->getNumOperands(); i++) r.agg->push_back(evalConst(ca->getOperand(i)));
    return r;
  }
  if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    unsigned opc = ce->getOpcode();
    if (opc == Instruction::GetElementPtr) {
      auto* g = cast<GEPOperator>(ce);
      APInt off(64, 0);
      if (!g->accumulateConstantOffset(*DL, off)) throw Unsupported{"gep constexpr"};
      return vbin(Instruction::Add, evalConst(cast<Constant>(g->getPointerOperand())), Val(off));
    }
    if (Instruction::isCast(opc)) return castVal(opc, evalConst(ce->getOperand(0)), ce->getOperand(0)->getType(), ce->getType());
    if (Instruction::isBinaryOp(opc)) return vbin(opc, evalConst(ce->getOperand(0)), evalConst(ce->getOperand(1)));
    if (opc == Instruction::ICmp)
      return vicmp((CmpInst::Predicate)ce->getPredicate(), evalConst(ce->getOperand(0)), evalConst(ce->getOperand(1)));
    if (opc == Instruction::Select)
      return vite(evalConst(ce->getOperand(0)), evalConst(ce->getOperand(1)), evalConst(ce->getOperand(2)));
  }
  throw Unsupported{"constant kind"};
}
static void storeTyped(Obj& o, u64 off, const Val& v, Type* t) {
  if (t->isStructTy()) {
    auto* sl = DL->getStructLayout(cast<StructType>(t));
    for (unsigned i = 0; i < t->getStructNumElements(); i++)
      storeTyped(o, off + sl->getElementOffset(i), (*v.agg)[i], t->getStructElementType(i));
    return;
  }
  if (t->isArrayTy()) {
    u64 es = DL->getTypeAllocSize(t->getArrayElementType());
    for (unsigned i = 0; i < t->getArrayNumElements(); i++)
      storeTyped(o, off + i * es, (*v.agg)[i], t->getArrayElementType());
    return;
  }
  objWrite(o, off, v);
}
static u64 addrOf(const GlobalValue* g) {
  if (auto* ga = dyn_cast<GlobalAlias>(g)) {
    return evalConst(ga->getAliasee()).u();
  }
  auto it = gaddr.find(g);
  if (it == gaddr.end()) throw Unsupported{"address of " + g->getName().str()};
  return it->second;
}
static FnInfo* infoOf(Function* F) {
  auto& p = fnInfos[F];
  if (p) return p.get();
  p = std::make_unique<FnInfo>();
  FnInfo& fi = *p;
  fi.F = F;
  for (auto& a : F->args()) fi.idx[&a] = fi.nregs++;
  for (auto& bb : *F) {
    for (auto& i : bb)
      if (!i.getType()->isVoidTy()) fi.idx[&i] = fi.nregs++;
  }
  for (auto& bb : *F) {
    fi.start[&bb] = fi.code.size();
    for (auto& i : bb) {
      DI d;
      d.I = &i;
      if (!i.getType()->isVoidTy()) d.dst = fi.idx[&i];
      for (auto& u : i.operands()) {
        Op o;
        o.reg = -1;
        Value* v = u.get();
        if (isa<BasicBlock>(v) || isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) o.reg = -2;
        else if (auto* c = dyn_cast<Constant>(v)) {
          if (isa<LandingPadInst>(i) && c->getType()->isArrayTy()) o.reg = -2;
          else if (isa<Function>(c) && cast<Function>(c)->isIntrinsic()) o.reg = -2;
          else {
            try { o.cv = evalConst(c); }
            catch (Unsupported&) { o.reg = -3; }
          }
        } else {
          o.reg = fi.idx[v];
        }
        d.ops.push_back(std::move(o));
      }
      fi.code.push_back(std::move(d));
    }
  }
  return &fi;
}

// ---------------------------------------------------------------- executor
static bool typeInfoMatches(u64 thrown, u64 want, int depth = 0) {
  if (thrown == want || want == 0) return true;
  if (depth > 8) return false;
  auto itw = gvAt.find(want), itt = gvAt.find(thrown);
  if (itw == gvAt.end() || itt == gvAt.end()) return false;
  std::string tn = itt->second->getName().str(), wn = itw->second->getName().str();
  if (tn == wn) return true;
  static const std::map<std::string, std::string> stdParent = {
      {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt13runtime_error", "_ZTISt9exception"},
      {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12out_of_range", "_ZTISt11logic_error"},
      {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"},
      {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"},
      {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"},
      {"_ZTISt12system_error", "_ZTISt13runtime_error"}};
  auto p = stdParent.find(tn);
  if (p != stdParent.end()) {
    if (p->second == wn) return true;
    // walk by name
    std::string cur = p->second;
    while (true) {
      if (cur == wn) return true;
      auto q = stdParent.find(cur);
      if (q == stdParent.end()) break;
      cur = q->second;
    }
    return false;
  }
  // class defined in the module: operands 2.. are bases (si_class: 1 base)
  if (itt->second->hasInitializer())
    if (auto* cs = dyn_cast<ConstantStruct>(itt->second->getInitializer()))
      for (unsigned i = 2; i < cs->getNumOperands(); i++)
        if (cs->getOperand(i)->getType()->isPointerTy())
          if (auto* g = dyn_cast<GlobalVariable>(cs->getOperand(i)->stripPointerCasts()))
            if (typeInfoMatches(addrOf(g), want, depth + 1)) return true;
  return false;
}
static std::map<u64, unsigned> typeIds;
static unsigned typeId(u64 ti) {
  auto it = typeIds.find(ti);
  if (it != typeIds.end()) return it->second;
  unsigned n = typeIds.size() + 1;
  return typeIds[ti] = n;
}

static Thread& T() { return S->th[S->cur]; }
static void jump(Frame& f, const BasicBlock* to) {
  const BasicBlock* from = f.fi->code[f.pc].I->getParent();
  f.prev = from;
  f.pc = f.fi->start[to];
  // phis in parallel
  std::vector<std::pair<int, Val>> vals;
  unsigned pc = f.pc;
  while (auto* phi = dyn_cast<PHINode>(f.fi->code[pc].I)) {
    auto& d = f.fi->code[pc];
    int k = phi->getBasicBlockIndex(from);
    auto& o = d.ops[k];
    vals.push_back({d.dst, o.reg >= 0 ? f.regs[o.reg] : o.cv});
    pc++;
  }
  for (auto& v : vals) f.regs[v.first] = v.second;
  f.pc = pc;
}
static void popFrame() {
  auto& t = T();
  for (u64 a : t.st.back().allocas) S->mem.erase(a);
  t.st.pop_back();
}
static void pushFrame(Thread& t, Function* F, std::vector<Val> args) {
  if (t.st.size() > 2000) throw Unsupported{"call depth"};
  st.fns.insert(F);
  Frame f;
  f.fi = infoOf(F);
  f.pc = 0;
  f.regs.resize(f.fi->nregs);
  for (unsigned i = 0; i < F->arg_size(); i++) f.regs[i] = args[i];
  for (unsigned i = F->arg_size(); i < args.size(); i++) f.va.push_back(args[i]);
  t.st.push_back(std::move(f));
}
static void unwind() {
  auto& t = T();
  // the top frame is at the throwing call; look for an invoke in it
  while (!t.st.empty()) {
    Frame& f = t.st.back();
    if (auto* inv = dyn_cast<InvokeInst>(f.fi->code[f.pc].I)) {
      auto* lp = inv->getLandingPadInst();
      bool use = lp->isCleanup();
      for (unsigned i = 0; i < lp->getNumClauses() && !use; i++) {
        if (lp->isFilter(i)) { use = true; break; }
        auto* c = lp->getClause(i);
        u64 want = isa<ConstantPointerNull>(c) ? 0 : evalConst(c).u();
        if (typeInfoMatches(t.excTi, want)) use = true;
      }
      if (use) { jump(f, inv->getUnwindDest()); return; }
    }
    popFrame();
  }
  std::string n = gvAt.count(t.excTi) ? gvAt[t.excTi]->getName().str() : "?";
  violation("exception", "uncaught exception of type " + demangle("_ZTS" + n.substr(std::min<size_t>(4, n.size()))), Ex());
  throw PathEnd{"uncaught"};
}
static u64 tiByName(const std::string& mangled) {
  auto* g = M->getNamedGlobal(mangled);
  if (g) return addrOf(g);
  static std::map<std::string, u64> extra;
  auto it = extra.find(mangled);
  if (it != extra.end()) return it->second;
  u64 a = 0x7000 + extra.size() * 16;
  // synthetic global so that matching by name works
  auto* ng = new GlobalVariable(*M, Type::getInt8Ty(M->getContext()), true, GlobalValue::ExternalLinkage, nullptr, mangled);
  gaddr[ng] = a;
  gvAt[a] = ng;
  return extra[mangled] = a;
}
static void throwNew(const std::string& tiName) {
  u64 o = allocate(64, 'h', "exception");
  T().excObj = o;
  T().excTi = tiByName(tiName);
  S->excTypes[o] = T().excTi;
  unwind();
}

static u64 concLen(const Val& v, const char* why) {
  if (!v.sym()) return v.u();
  // forking per feasible value, bounded
  return concretize(v, why).getZExtValue();
}
static void doMemcpy(const Val& d, const Val& s, u64 n) {
  if (!n) return;
  Loc ls = resolve(s, n, false);
  Loc ld = resolve(d, n, true);
  u64 so = ls.off.sym() ? concretize(ls.off, "memcpy source").getZExtValue() : ls.off.u();
  u64 dof = ld.off.sym() ? concretize(ld.off, "memcpy destination").getZExtValue() : ld.off.u();
  Obj* o = writable(ld.o);
  Obj* src = findObj(ls.o->base);
  std::vector<uint8_t> tmp(src->b.begin() + so, src->b.begin() + so + n);
  std::vector<std::pair<u64, SB>> sy;
  for (auto it = src->s.lower_bound(so); it != src->s.end() && it->first < so + n; ++it) sy.push_back({it->first - so, it->second});
  memcpy(&o->b[dof], tmp.data(), n);
  if (!o->s.empty()) o->s.erase(o->s.lower_bound(dof), o->s.lower_bound(dof + n));
  for (auto& p : sy) o->s[dof + p.first] = p.second;
}
static void doMemset(const Val& d, const Val& v, u64 n) {
  if (!n) return;
  Loc ld = resolve(d, n, true);
  u64 dof = ld.off.sym() ? concretize(ld.off, "memset destination").getZExtValue() : ld.off.u();
  Obj* o = writable(ld.o);
  if (!v.sym()) {
    if (!o->s.empty()) o->s.erase(o->s.lower_bound(dof), o->s.lower_bound(dof + n));
    memset(&o->b[dof], (int)v.c.extractBits(8, 0).getZExtValue(), n);
  } else {
    Val b = vtrunc(v, 8);
    for (u64 i = 0; i < n; i++) objWrite(*o, dof + i, b);
  }
}
// allocation size: concrete, or bounded by opt.maxAlloc (larger "fails")
// returns false if allocation fails (size too large)
static bool allocSize(const Val& v, u64& out) {
  if (!v.sym()) { out = v.u(); return out <= (64ull << 20); }
  Val big = vicmp(CmpInst::ICMP_UGT, v, Val(64, opt.maxAlloc));
  if (forkBool(big)) return false;
  out = concretize(v, "allocation size").getZExtValue();
  return true;
}
static std::string readCStr(u64 a) {
  std::string r;
  Obj* o = findObj(a);
  if (!o) return "?";
  for (u64 i = a - o->base; i < o->size && o->b[i] && r.size() < 200; i++) r += (char)o->b[i];
  return r;
}

static Val aesOp(const std::string& n, const std::vector<Val>& a) {
  bool conc = true;
  for (auto& v : a) if (v.sym()) conc = false;
  auto toM = [](const Val& v) {
    u64 w[2] = {v.c.extractBits(64, 0).getZExtValue(), v.c.extractBits(64, 64).getZExtValue()};
    __m128i m;
    memcpy(&m, w, 16);
    return m;
  };
  auto fromM = [](__m128i m) {
    u64 w[2];
    memcpy(w, &m, 16);
    return Val(APInt(128, ArrayRef<u64>(w, 2)));
  };
  if (n == "aeskeygenassist") {
    unsigned imm = a[1].u();
    if (conc) {
      __m128i x = toM(a[0]), r;
#define K(i) case i: r = _mm_aeskeygenassist_si128(x, i); break;
      switch (imm) { K(0) K(1) K(2) K(4) K(8) K(16) K(27) K(32) K(54) K(64) K(128) default: throw Unsupported{"keygenassist imm"}; }
#undef K
      return fromM(r);
    }
    return Val(128, ufApp(("aeskga" + std::to_string(imm)).c_str(), 128, {a[0]}));
  }
  if (conc) {
    if (n == "aesenc") return fromM(_mm_aesenc_si128(toM(a[0]), toM(a[1])));
    if (n == "aesenclast") return fromM(_mm_aesenclast_si128(toM(a[0]), toM(a[1])));
    if (n == "aesdec") return fromM(_mm_aesdec_si128(toM(a[0]), toM(a[1])));
    if (n == "aesdeclast") return fromM(_mm_aesdeclast_si128(toM(a[0]), toM(a[1])));
    if (n == "aesimc") return fromM(_mm_aesimc_si128(toM(a[0])));
  }
  return Val(128, ufApp(n.c_str(), 128, a));
}

static void schedule(bool voluntary) {
  // choose the next thread among the runnable ones; forks
  std::vector<unsigned> run;
  for (unsigned i = 0; i < S->th.size(); i++)
    if (!S->th[i].done && !S->th[i].waiting) run.push_back(i);
  if (run.empty()) {
    bool allDone = true;
    for (auto& t : S->th) if (!t.done) allDone = false;
    if (allDone) return;
    violation("deadlock", "all live threads are blocked", Ex());
    throw PathEnd{"deadlock"};
  }
  bool curRun = !S->th[S->cur].done && !S->th[S->cur].waiting;
  (void)voluntary;
  if (run.size() == 1) { S->cur = run[0]; return; }
  if (curRun && S->preempt >= opt.maxPreempt) return;
  // fork: this state continues with `first`, clones take the others
  if (opt.maxDelay != ~0u) {
    // delay bounding: threads take turns; passing k threads over costs k
    size_t k0 = 0;
    while (k0 < run.size() && run[k0] < S->cur + (curRun ? 0 : 1)) k0++;
    std::rotate(run.begin(), run.begin() + (k0 % run.size()), run.end());
    for (size_t k = 1; k < run.size() && S->delay + k <= opt.maxDelay; k++) {
      auto o = cloneS();
      o->cur = run[k];
      if (curRun) o->preempt++;
      o->delay += (unsigned)k;
      o->sched.push_back(run[k]);
      work.push_back(std::move(o));
    }
    S->cur = run[0];
    S->sched.push_back(run[0]);
    return;
  }
  unsigned first = curRun ? S->cur : run[0];
  for (unsigned t : run) {
    if (t == first) continue;
    auto o = cloneS();
    o->cur = t;
    if (curRun) o->preempt++;
    o->sched.push_back(t);
    work.push_back(std::move(o));
  }
  S->cur = first;
  S->sched.push_back(first);
}

// returns true if handled as a builtin; sets `ret`
enum CallRes { NOTBUILTIN, DONE, CONTROL };
static void createSym(const std::string& name, unsigned bits, Val& out) {
  std::string n = name + "#" + std::to_string(S->syms.size());
  Z3_sort s = bits == 1 ? Z3_mk_bool_sort(Z) : Z3_mk_bv_sort(Z, bits);
  Ex e(Z3_mk_const(Z, Z3_mk_string_symbol(Z, n.c_str()), s));
  S->syms.push_back({n, bits, e});
  out = Val(bits, e);
}
static std::map<std::string, int> stubbed;

static CallRes builtin(const std::string& n, Function* F, CallBase* cb, std::vector<Val>& a, Val& ret) {
  auto& t = T();
  if (n == "sym_uint") {
    unsigned bits = a[0].u();
    Val v;
    createSym(readCStr(a[1].u()), bits, v);
    ret = vzext(v, 64);
    return DONE;
  }
  if (n == "sym_mem") {
    u64 len = a[1].u();
    if (!len) return DONE;
    std::string nm = readCStr(a[2].u());
    Loc l = resolve(a[0], len, true);
    Obj* o = writable(l.o);
    for (u64 i = 0; i < len; i++) {
      Val v;
      createSym(nm, 8, v);
      objWrite(*o, l.off.u() + i, v);
    }
    return DONE;
  }
  if (n == "sym_assume") {
    Val c = a[0];
    if (!c.sym()) {
      if (!c.c.getBoolValue()) throw PathEnd{"assume"};
      return DONE;
    }
    if (query(c.e, opt.queryMs) == UNSAT) throw PathEnd{"assume"};
    addPC(*S, c.e);
    return DONE;
  }
  if (n == "sym_assert") {
    std::string msg = readCStr(a[1].u());
    Val c = a[0];
    st.assertQueries++;
    if (!c.sym()) {
      if (!c.c.getBoolValue()) { violation("assert", msg, Ex()); throw PathEnd{"assert"}; }
      st.assertTrivial++;
      st.asserts[msg]++;
      return DONE;
    }
    Ex neg = mkNot(c.e);
    z3::model gm(*ZC);
    if (guess(neg, gm)) {
      violation("assert", msg, neg, &gm);
      throw PathEnd{"assert"};
    }
    R r = query(neg, opt.assertMs, nullptr, false, true);
    if (r == UNSAT) { st.assertHold++; st.asserts[msg]++; return DONE; }
    if (r == UNK) { incomplete("assertion undecided: " + msg); addPC(*S, c.e); return DONE; }
    violation("assert", msg, neg);
    if (query(c.e, opt.queryMs) == UNSAT) throw PathEnd{"assert"};
    addPC(*S, c.e);
    return DONE;
  }
  if (n == "sym_reach") { st.reach[readCStr(a[0].u())]++; return DONE; }
  if (n == "sym_opaque") { ret = a[0]; return DONE; }
  if (n == "sym_concrete") { ret = Val(concretize(a[0], "sym_concrete")); return DONE; }
  if (n == "__sym_spawn") {
    Thread nt;
    auto it = faddr.find(a[0].u());
    if (it == faddr.end()) throw Unsupported{"spawn target"};
    pushFrame(nt, it->second, {a[1]});
    S->th.push_back(std::move(nt));
    return DONE;
  }
  if (n == "__sym_self") { ret = Val(32, (u64)S->cur); return DONE; }
  if (n == "__sym_finished") { ret = Val(32, (u64)(S->th[a[0].u()].done ? 1 : 0)); return DONE; }
  if (n == "__sym_yield") { S->resched = true; return DONE; }
  if (n == "__sym_wait") { t.waiting = true; t.waitAddr = a[0].u(); S->resched = true; return DONE; }
  if (n == "__sym_wake") {
    std::vector<unsigned> w;
    for (unsigned i = 0; i < S->th.size(); i++)
      if (!S->th[i].done && S->th[i].waiting && S->th[i].waitAddr == a[0].u()) w.push_back(i);
    if (a[1].u()) for (unsigned i : w) S->th[i].waiting = false;
    else if (w.size() == 1) S->th[w[0]].waiting = false;
    else if (w.size() > 1) S->wakeChoice = w;  // which one is woken: every choice is explored
    return DONE;
  }
  // ---- allocation
  if (n == "_Znwm" || n == "_Znam" || n == "malloc" || n == "_ZnwmSt11align_val_t" || n == "_ZnamSt11align_val_t" ||
      n == "_ZnwmRKSt9nothrow_t" || n == "_ZnamRKSt9nothrow_t") {
    u64 sz;
    if (!allocSize(a[0], sz)) {
      if (n == "malloc" || n.find("nothrow") != std::string::npos) { ret = Val(64, (u64)0); return DONE; }
      throwNew("_ZTISt9bad_alloc");
      return CONTROL;
    }
    ret = Val(64, allocate(sz, 'h', "heap"));
    return DONE;
  }
  if (n == "calloc") {
    u64 sz = a[0].u() * a[1].u();
    u64 p = allocate(sz, 'h', "heap");
    std::fill(S->mem[p]->b.begin(), S->mem[p]->b.end(), 0);
    ret = Val(64, p);
    return DONE;
  }
  if (n == "free" || n.compare(0, 5, "_ZdlP") == 0 || n.compare(0, 5, "_ZdaP") == 0) {
    Val p = a[0];
    u64 ad = p.sym() ? concretize(p, "free").getZExtValue() : p.u();
    if (!ad) return DONE;
    Obj* o = findObj(ad);
    if (!o || o->base != ad || o->kind != 'h') fail("memory", "invalid free");
    if (o->freed) fail("memory", "double free");
    o = writable(o);
    o->freed = true;
    o->s.clear();
    return DONE;
  }
  if (n == "memcpy" || n == "memmove" || n == "__memcpy_chk") {
    doMemcpy(a[0], a[1], concLen(a[2], "memcpy length"));
    ret = a[0];
    return DONE;
  }
  if (n == "memset") { doMemset(a[0], a[1], concLen(a[2], "memset length")); ret = a[0]; return DONE; }
  if (n == "memcmp" || n == "bcmp") {
    u64 len = concLen(a[2], "memcmp length");
    if (!len) { ret = Val(32, (u64)0); return DONE; }
    resolve(a[0], len, false);
    resolve(a[1], len, false);
    Val acc(32, (u64)0);
    for (u64 i = len; i-- > 0;) {
      Val x = memRead(vbin(Instruction::Add, a[0], Val(64, i)), 1), y = memRead(vbin(Instruction::Add, a[1], Val(64, i)), 1);
      Val lt = vicmp(CmpInst::ICMP_ULT, x, y), eq = vicmp(CmpInst::ICMP_EQ, x, y);
      acc = vite(eq, acc, vite(lt, Val(APInt(32, -1, true)), Val(32, 1)));
    }
    ret = acc;
    return DONE;
  }
  if (n == "memchr") {
    u64 len = concLen(a[2], "memchr length");
    Val acc(64, (u64)0), ch = vtrunc(a[1], 8);
    for (u64 i = len; i-- > 0;) {
      Val ad = vbin(Instruction::Add, a[0], Val(64, i));
      acc = vite(vicmp(CmpInst::ICMP_EQ, memRead(ad, 1), ch), ad, acc);
    }
    ret = acc;
    return DONE;
  }
  if (n == "strlen") {
    u64 k = 0;
    while (true) {
      Val c = memRead(vbin(Instruction::Add, a[0], Val(64, k)), 1);
      if (forkBool(vicmp(CmpInst::ICMP_EQ, c, Val(8, (u64)0)))) break;
      k++;
    }
    ret = Val(64, k);
    return DONE;
  }
  // ---- exceptions
  if (n == "__cxa_allocate_exception") { ret = Val(64, allocate(a[0].u(), 'h', "exception")); return DONE; }
  if (n == "__cxa_free_exception") return DONE;
  if (n == "__cxa_throw") {
    t.excObj = a[0].u();
    t.excTi = a[1].u();
    S->excTypes[t.excObj] = t.excTi;
    unwind();
    return CONTROL;
  }
  if (n == "__cxa_begin_catch") {
    t.caught.push_back({a[0].u(), S->excTypes[a[0].u()]});
    ret = a[0];
    return DONE;
  }
  if (n == "__cxa_get_exception_ptr") { ret = a[0]; return DONE; }
  if (n == "__cxa_end_catch") { if (!t.caught.empty()) t.caught.pop_back(); return DONE; }
  if (n == "__cxa_rethrow") {
    if (t.caught.empty()) fail("terminate", "rethrow without exception");
    t.excObj = t.caught.back().first;
    t.excTi = t.caught.back().second;
    unwind();
    return CONTROL;
  }
  // ---- std::exception_ptr (exception objects are never reclaimed)
  if (n == "_ZSt17current_exceptionv") {
    memWrite(a[0], Val(64, t.caught.empty() ? (u64)0 : t.caught.back().first));
    return DONE;
  }
  if (n == "_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE") {
    u64 o = memRead(a[0], 8).u();
    if (!o) fail("terminate", "rethrow without exception");
    t.excObj = o;
    t.excTi = S->excTypes[o];
    unwind();
    return CONTROL;
  }
  if (n.find("13exception_ptr9_M_addrefEv") != std::string::npos || n.find("13exception_ptr10_M_releaseEv") != std::string::npos) return DONE;
  if (n == "__cxa_init_primary_exception") {
    S->excTypes[a[0].u()] = a[1].u();
    ret = a[0];
    return DONE;
  }
  if (n == "_ZSt9terminatev" || n == "abort" || n == "__cxa_pure_virtual" || n == "__cxa_bad_cast") fail("abort", n + " called");
  if (n == "exit" || n == "_exit") { throw PathEnd{"exit"}; }
  if (n == "__assert_fail") fail("abort", "assertion failed in code: " + readCStr(a[0].u()));
  if (n.compare(0, 12, "_ZSt20__thro") == 0 && n.find("length_error") != std::string::npos) { throwNew("_ZTISt12length_error"); return CONTROL; }
  if (n.find("_ZSt") == 0 && n.find("__throw_") != std::string::npos) {
    std::string ty = "_ZTISt9exception";
    if (n.find("length_error") != std::string::npos) ty = "_ZTISt12length_error";
    else if (n.find("logic_error") != std::string::npos) ty = "_ZTISt11logic_error";
    else if (n.find("out_of_range") != std::string::npos) ty = "_ZTISt12out_of_range";
    else if (n.find("invalid_argument") != std::string::npos) ty = "_ZTISt16invalid_argument";
    else if (n.find("bad_alloc") != std::string::npos) ty = "_ZTISt9bad_alloc";
    else if (n.find("bad_array_new") != std::string::npos) ty = "_ZTISt20bad_array_new_length";
    else if (n.find("system_error") != std::string::npos) ty = "_ZTISt12system_error";
    throwNew(ty);
    return CONTROL;
  }
  if (n == "__cxa_throw_bad_array_new_length") { throwNew("_ZTISt20bad_array_new_length"); return CONTROL; }
  if (n == "__cxa_atexit" || n == "__cxa_thread_atexit" || n == "atexit") { ret = Val(32, (u64)0); return DONE; }
  if (n == "__cxa_guard_acquire") {
    Val g = memRead(a[0], 1);
    ret = Val(32, (u64)(g.c.isZero() ? 1 : 0));
    return DONE;
  }
  if (n == "__cxa_guard_release") { memWrite(a[0], Val(8, 1)); return DONE; }
  if (n == "__cxa_guard_abort") return DONE;
  // exception classes: constructors / destructors carry no state we model
  static const char* noop[] = {"_ZNSt11logic_errorC", "_ZNSt13runtime_errorC", "_ZNSt16invalid_argumentC", "_ZNSt12out_of_rangeC",
                               "_ZNSt12length_errorC", "_ZNSt11logic_errorD", "_ZNSt13runtime_errorD", "_ZNSt16invalid_argumentD",
                               "_ZNSt12out_of_rangeD", "_ZNSt12length_errorD", "_ZNSt9exceptionD", "_ZNSt8ios_base4InitC",
                               "_ZNSt8ios_base4InitD", "_ZNSt9bad_allocD"};
  for (auto p : noop)
    if (n.compare(0, strlen(p), p) == 0) {
      if (!cb->getType()->isVoidTy()) ret = zeroOf(cb->getType());
      return DONE;
    }
  return NOTBUILTIN;
}

static Val vecMap2(Type* ty, const Val& a, const Val& b, std::function<Val(const Val&, const Val&)> f) {
  auto* vt = cast<FixedVectorType>(ty);
  unsigned ew = tyBits(vt->getElementType());
  Val acc;
  for (unsigned i = 0; i < vt->getNumElements(); i++) {
    Val r = f(vextract(a, (i + 1) * ew - 1, i * ew), vextract(b, (i + 1) * ew - 1, i * ew));
    acc = i ? vconcat(r, acc) : r;
  }
  return acc;
}
static Val aggOf(std::vector<Val> vs) {
  Val r;
  r.agg = std::make_shared<std::vector<Val>>(std::move(vs));
  return r;
}
static Val loadTyped(const Val& addr, Type* ty) {
  if (ty->isStructTy()) {
    auto* sl = DL->getStructLayout(cast<StructType>(ty));
    std::vector<Val> vs;
    for (unsigned i = 0; i < ty->getStructNumElements(); i++)
      vs.push_back(loadTyped(vbin(Instruction::Add, addr, Val(64, (u64)sl->getElementOffset(i))), ty->getStructElementType(i)));
    return aggOf(vs);
  }
  if (ty->isArrayTy()) {
    u64 es = DL->getTypeAllocSize(ty->getArrayElementType());
    std::vector<Val> vs;
    for (unsigned i = 0; i < ty->getArrayNumElements(); i++)
      vs.push_back(loadTyped(vbin(Instruction::Add, addr, Val(64, i * es)), ty->getArrayElementType()));
    return aggOf(vs);
  }
  unsigned w = tyBits(ty), n = (w + 7) / 8;
  Val v = memRead(addr, n);
  return vtrunc(v, w);
}
static void storeTypedMem(const Val& addr, const Val& v, Type* ty) {
  if (ty->isStructTy()) {
    auto* sl = DL->getStructLayout(cast<StructType>(ty));
    for (unsigned i = 0; i < ty->getStructNumElements(); i++)
      storeTypedMem(vbin(Instruction::Add, addr, Val(64, (u64)sl->getElementOffset(i))), (*v.agg)[i], ty->getStructElementType(i));
    return;
  }
  if (ty->isArrayTy()) {
    u64 es = DL->getTypeAllocSize(ty->getArrayElementType());
    for (unsigned i = 0; i < ty->getArrayNumElements(); i++)
      storeTypedMem(vbin(Instruction::Add, addr, Val(64, i * es)), (*v.agg)[i], ty->getArrayElementType());
    return;
  }
  memWrite(addr, v);
}
static bool elemwise(Type* t) { return t->isVectorTy(); }
static void checkDiv(const Val& d) {
  Val z = vicmp(CmpInst::ICMP_EQ, d, Val(d.w, (u64)0));
  if (!z.sym()) {
    if (z.c.getBoolValue()) fail("div", "division by zero");
    return;
  }
  if (query(z.e, opt.queryMs) != UNSAT) {
    violation("div", "division by zero", z.e);
    addPC(*S, mkNot(z.e));
    if (query(boolconst(true), opt.queryMs) == UNSAT) throw PathEnd{"div"};
  }
}
static Val intrinsic(CallBase* cb, Intrinsic::ID id, std::vector<Val>& a) {
  Type* ty = cb->getType();
  auto lane = [&](std::function<Val(const Val&, const Val&)> f) {
    if (elemwise(ty)) return vecMap2(ty, a[0], a.size() > 1 ? a[1] : a[0], f);
    return f(a[0], a.size() > 1 ? a[1] : a[0]);
  };
  switch (id) {
    case Intrinsic::umax: return lane([](const Val& x, const Val& y) { return vite(vicmp(CmpInst::ICMP_UGE, x, y), x, y); });
    case Intrinsic::umin: return lane([](const Val& x, const Val& y) { return vite(vicmp(CmpInst::ICMP_ULE, x, y), x, y); });
    case Intrinsic::smax: return lane([](const Val& x, const Val& y) { return vite(vicmp(CmpInst::ICMP_SGE, x, y), x, y); });
    case Intrinsic::smin: return lane([](const Val& x, const Val& y) { return vite(vicmp(CmpInst::ICMP_SLE, x, y), x, y); });
    case Intrinsic::abs: return lane([](const Val& x, const Val&) { return vite(vicmp(CmpInst::ICMP_SLT, x, Val(x.w, (u64)0)), vbin(Instruction::Sub, Val(x.w, (u64)0), x), x); });
    case Intrinsic::uadd_sat: return lane([](const Val& x, const Val& y) { Val s = vbin(Instruction::Add, x, y); return vite(vicmp(CmpInst::ICMP_ULT, s, x), Val(APInt::getAllOnes(x.w)), s); });
    case Intrinsic::usub_sat: return lane([](const Val& x, const Val& y) { return vite(vicmp(CmpInst::ICMP_ULT, x, y), Val(x.w, (u64)0), vbin(Instruction::Sub, x, y)); });
    case Intrinsic::threadlocal_address: return a[0];  // thread-local variables are shared: only used without preemption in between
    case Intrinsic::bswap: {
      unsigned n = a[0].w / 8;
      Val acc = vextract(a[0], a[0].w - 1, a[0].w - 8);
      // lowest byte of result = highest of input
      for (unsigned i = 1; i < n; i++) acc = vconcat(vextract(a[0], a[0].w - 8 * i - 1, a[0].w - 8 * i - 8), acc);
      return acc;
    }
    case Intrinsic::ctpop: {
      Val acc(a[0].w, (u64)0);
      if (!a[0].sym()) return Val(a[0].w, (u64)a[0].c.popcount());
      for (unsigned i = 0; i < a[0].w; i++) acc = vbin(Instruction::Add, acc, vzext(vextract(a[0], i, i), a[0].w));
      return acc;
    }
    case Intrinsic::ctlz: {
      if (!a[0].sym()) return Val(a[0].w, (u64)a[0].c.countLeadingZeros());
      Val acc(a[0].w, (u64)a[0].w);
      for (unsigned i = 0; i < a[0].w; i++)
        acc = vite(vicmp(CmpInst::ICMP_EQ, fromEx(1, extractEx(a[0].e, i, i)), Val(1, 1)), Val(a[0].w, (u64)(a[0].w - 1 - i)), acc);
      return acc;
    }
    case Intrinsic::cttz: {
      if (!a[0].sym()) return Val(a[0].w, (u64)a[0].c.countTrailingZeros());
      Val acc(a[0].w, (u64)a[0].w);
      for (unsigned i = a[0].w; i-- > 0;)
        acc = vite(fromEx(1, extractEx(a[0].e, i, i)), Val(a[0].w, (u64)i), acc);
      return acc;
    }
    case Intrinsic::fshl: case Intrinsic::fshr: {
      auto f = [&](const Val& x, const Val& y, const Val& s) {
        unsigned w = x.w;
        Val sh = vbin(Instruction::URem, s, Val(w, (u64)w));
        if (!sh.sym()) {
          u64 k = sh.u();
          if (id == Intrinsic::fshl) {
            if (!k) return x;
            return vconcat(vextract(x, w - k - 1, 0), vextract(y, w - 1, w - k));
          }
          if (!k) return y;
          return vconcat(vextract(x, k - 1, 0), vextract(y, w - 1, k));
        }
        Val cc = vconcat(x, y), s2 = vzext(sh, 2 * w);
        if (id == Intrinsic::fshl) return vextract(vbin(Instruction::Shl, cc, s2), 2 * w - 1, w);
        return vextract(vbin(Instruction::LShr, cc, s2), w - 1, 0);
      };
      if (elemwise(ty)) {
        auto* vt = cast<FixedVectorType>(ty);
        unsigned ew = tyBits(vt->getElementType());
        Val acc;
        for (unsigned i = 0; i < vt->getNumElements(); i++) {
          auto g = [&](const Val& v) { return vextract(v, (i + 1) * ew - 1, i * ew); };
          Val r = f(g(a[0]), g(a[1]), g(a[2]));
          acc = i ? vconcat(r, acc) : r;
        }
        return acc;
      }
      return f(a[0], a[1], a[2]);
    }
    case Intrinsic::uadd_with_overflow: { Val s = vbin(Instruction::Add, a[0], a[1]); return aggOf({s, vicmp(CmpInst::ICMP_ULT, s, a[0])}); }
    case Intrinsic::usub_with_overflow: return aggOf({vbin(Instruction::Sub, a[0], a[1]), vicmp(CmpInst::ICMP_ULT, a[0], a[1])});
    case Intrinsic::umul_with_overflow: {
      unsigned w = a[0].w;
      Val p = vbin(Instruction::Mul, vzext(a[0], 2 * w), vzext(a[1], 2 * w));
      return aggOf({vtrunc(p, w), vicmp(CmpInst::ICMP_NE, vextract(p, 2 * w - 1, w), Val(w, (u64)0))});
    }
    case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
      unsigned w = a[0].w, W = id == Intrinsic::smul_with_overflow ? 2 * w : w + 1;
      unsigned op = id == Intrinsic::sadd_with_overflow ? Instruction::Add : id == Intrinsic::ssub_with_overflow ? Instruction::Sub : Instruction::Mul;
      Val p = vbin(op, vsext(a[0], W), vsext(a[1], W));
      Val r = vtrunc(p, w);
      return aggOf({r, vicmp(CmpInst::ICMP_NE, vsext(r, W), p)});
    }
    case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_xor: {
      unsigned ew = tyBits(ty), n = a[0].w / ew;
      unsigned op = id == Intrinsic::vector_reduce_add ? Instruction::Add : id == Intrinsic::vector_reduce_or ? Instruction::Or : id == Intrinsic::vector_reduce_and ? Instruction::And : Instruction::Xor;
      Val acc = vextract(a[0], ew - 1, 0);
      for (unsigned i = 1; i < n; i++) acc = vbin(op, acc, vextract(a[0], (i + 1) * ew - 1, i * ew));
      return acc;
    }
    case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy: return a[0];
    case Intrinsic::is_constant: return Val(1, (u64)0);
    case Intrinsic::objectsize: return Val(APInt::getAllOnes(64));
    case Intrinsic::stacksave: return Val(64, (u64)0);
    case Intrinsic::eh_typeid_for: return Val(32, (u64)typeId(a[0].u()));
    case Intrinsic::bitreverse: {
      Val acc = vextract(a[0], a[0].w - 1, a[0].w - 1);
      for (unsigned i = 1; i < a[0].w; i++) acc = vconcat(vextract(a[0], a[0].w - 1 - i, a[0].w - 1 - i), acc);
      return acc;
    }
    default: break;
  }
  std::string n = cb->getCalledFunction()->getName().str();
  if (n.find("llvm.x86.aesni.") == 0) return aesOp(n.substr(15), a);
  throw Unsupported{"intrinsic " + n};
}

// executes one instruction of the current thread
static void step() {
  Thread& t = T();
  Frame& f = t.st.back();
  DI& d = f.fi->code[f.pc];
  Instruction* I = d.I;
  st.steps++;
  auto V = [&](unsigned i) -> const Val& {
    Op& o = d.ops[i];
    if (o.reg >= 0) return f.regs[o.reg];
    if (o.reg == -3) throw Unsupported{"constant operand in " + f.fi->F->getName().str()};
    return o.cv;
  };
  auto set = [&](Val v) { f.regs[d.dst] = std::move(v); f.pc++; };
  unsigned opc = I->getOpcode();
  switch (opc) {
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or:
    case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
    case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
      bool div = opc == Instruction::UDiv || opc == Instruction::SDiv || opc == Instruction::URem || opc == Instruction::SRem;
      if (elemwise(I->getType())) {
        set(vecMap2(I->getType(), V(0), V(1), [&](const Val& x, const Val& y) { if (div) checkDiv(y); return vbin(opc, x, y); }));
        return;
      }
      if (div) checkDiv(V(1));
      // x udiv/urem K with x provably < K on this path
      if ((opc == Instruction::URem || opc == Instruction::UDiv) && V(0).sym() && !V(1).sym() && !V(1).c.isPowerOf2()) {
        Val ge = vicmp(CmpInst::ICMP_UGE, V(0), V(1));
        if (ge.sym() && query(ge.e, 3000) == UNSAT) {
          set(opc == Instruction::URem ? V(0) : Val(V(0).w, (u64)0));
          return;
        }
      }
      set(vbin(opc, V(0), V(1)));
      return;
    }
    case Instruction::ICmp: {
      auto p = cast<ICmpInst>(I)->getPredicate();
      Type* ot = I->getOperand(0)->getType();
      if (ot->isVectorTy()) {
        set(vecMap2(ot, V(0), V(1), [&](const Val& x, const Val& y) { return vicmp(p, x, y); }));
        return;
      }
      set(vicmp(p, V(0), V(1)));
      return;
    }
    case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt:
    case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast:
      set(castVal(opc, V(0), I->getOperand(0)->getType(), I->getType()));
      return;
    case Instruction::Select: {
      if (I->getOperand(0)->getType()->isVectorTy()) {
        auto* vt = cast<FixedVectorType>(I->getType());
        unsigned ew = tyBits(vt->getElementType());
        Val acc, c = V(0), x = V(1), y = V(2);
        for (unsigned i = 0; i < vt->getNumElements(); i++) {
          Val ci = c.sym() ? fromEx(1, extractEx(c.e, i, i)) : Val(c.c.extractBits(1, i));
          Val r = vite(ci, vextract(x, (i + 1) * ew - 1, i * ew), vextract(y, (i + 1) * ew - 1, i * ew));
          acc = i ? vconcat(r, acc) : r;
        }
        set(acc);
        return;
      }
      set(vite(V(0), V(1), V(2)));
      return;
    }
    case Instruction::Freeze: set(V(0)); return;
    case Instruction::Fence: f.pc++; return;
    case Instruction::ExtractValue: {
      Val v = V(0);
      for (unsigned k : cast<ExtractValueInst>(I)->getIndices()) { Val n = (*v.agg)[k]; v = n; }
      set(v);
      return;
    }
    case Instruction::InsertValue: {
      std::function<Val(const Val&, ArrayRef<unsigned>, const Val&)> ins = [&](const Val& a, ArrayRef<unsigned> ix, const Val& x) -> Val {
        if (ix.empty()) return x;
        Val r;
        r.agg = std::make_shared<std::vector<Val>>(*a.agg);
        (*r.agg)[ix[0]] = ins((*a.agg)[ix[0]], ix.slice(1), x);
        return r;
      };
      set(ins(V(0), cast<InsertValueInst>(I)->getIndices(), V(1)));
      return;
    }
    case Instruction::ExtractElement: {
      unsigned ew = tyBits(I->getType());
      Val ix = V(1);
      if (ix.sym()) throw Unsupported{"symbolic extractelement"};
      set(vextract(V(0), (ix.u() + 1) * ew - 1, ix.u() * ew));
      return;
    }
    case Instruction::InsertElement: {
      unsigned ew = tyBits(I->getOperand(1)->getType()), W = tyBits(I->getType());
      Val ix = V(2);
      if (ix.sym()) throw Unsupported{"symbolic insertelement"};
      unsigned lo = ix.u() * ew;
      Val r = V(1);
      if (lo) r = vconcat(r, vextract(V(0), lo - 1, 0));
      if (lo + ew < W) r = vconcat(vextract(V(0), W - 1, lo + ew), r);
      set(r);
      return;
    }
    case Instruction::ShuffleVector: {
      auto* sv = cast<ShuffleVectorInst>(I);
      unsigned n = cast<FixedVectorType>(I->getOperand(0)->getType())->getNumElements();
      unsigned ew = tyBits(cast<FixedVectorType>(I->getType())->getElementType());
      Val acc;
      bool first = true;
      for (int m : sv->getShuffleMask()) {
        Val e = m < 0 ? Val(ew, (u64)0) : (unsigned)m < n ? vextract(V(0), (m + 1) * ew - 1, m * ew) : vextract(V(1), (m - n + 1) * ew - 1, (m - n) * ew);
        acc = first ? e : vconcat(e, acc);
        first = false;
      }
      set(acc);
      return;
    }
    case Instruction::Alloca: {
      auto* al = cast<AllocaInst>(I);
      u64 cnt = concLen(V(0), "alloca count");
      u64 a = allocate(DL->getTypeAllocSize(al->getAllocatedType()) * cnt, 's', "stack");
      f.allocas.push_back(a);
      set(Val(64, a));
      return;
    }
    case Instruction::Load: { Val v = loadTyped(V(0), I->getType()); set(std::move(v)); return; }
    case Instruction::Store: { storeTypedMem(V(1), V(0), I->getOperand(0)->getType()); f.pc++; return; }
    case Instruction::AtomicRMW: {
      auto* rm = cast<AtomicRMWInst>(I);
      Val old = loadTyped(V(0), I->getType()), nv;
      switch (rm->getOperation()) {
        case AtomicRMWInst::Add: nv = vbin(Instruction::Add, old, V(1)); break;
        case AtomicRMWInst::Sub: nv = vbin(Instruction::Sub, old, V(1)); break;
        case AtomicRMWInst::Xchg: nv = V(1); break;
        case AtomicRMWInst::Or: nv = vbin(Instruction::Or, old, V(1)); break;
        case AtomicRMWInst::And: nv = vbin(Instruction::And, old, V(1)); break;
        default: throw Unsupported{"atomicrmw"};
      }
      storeTypedMem(V(0), nv, I->getType());
      set(old);
      return;
    }
    case Instruction::AtomicCmpXchg: {
      Type* ty = I->getOperand(1)->getType();
      Val old = loadTyped(V(0), ty);
      Val eq = vicmp(CmpInst::ICMP_EQ, old, V(1));
      storeTypedMem(V(0), vite(eq, V(2), old), ty);
      set(aggOf({old, eq}));
      return;
    }
    case Instruction::GetElementPtr: {
      auto* g = cast<GetElementPtrInst>(I);
      if (I->getType()->isVectorTy()) throw Unsupported{"vector gep"};
      Val r = V(0);
      unsigned k = 1;
      for (auto ti = gep_type_begin(g), te = gep_type_end(g); ti != te; ++ti, ++k) {
        const Val& ix = V(k);
        if (auto* stt = ti.getStructTypeOrNull()) {
          r = vbin(Instruction::Add, r, Val(64, (u64)DL->getStructLayout(stt)->getElementOffset(ix.u())));
        } else {
          u64 sc = DL->getTypeAllocSize(ti.getIndexedType());
          Val i64 = ix.w == 64 ? ix : ix.w < 64 ? vsext(ix, 64) : vtrunc(ix, 64);
          r = vbin(Instruction::Add, r, vbin(Instruction::Mul, i64, Val(64, sc)));
        }
      }
      set(r);
      return;
    }
    case Instruction::PHI: throw Unsupported{"stray phi"};
    case Instruction::Br: {
      auto* b = cast<BranchInst>(I);
      if (b->isUnconditional()) { jump(f, b->getSuccessor(0)); return; }
      bool tk = forkBool(V(0));
      jump(f, b->getSuccessor(tk ? 0 : 1));
      return;
    }
    case Instruction::Switch: {
      auto* sw = cast<SwitchInst>(I);
      const Val& c = V(0);
      if (!c.sym()) {
        jump(f, sw->findCaseValue(ConstantInt::get(M->getContext(), c.c))->getCaseSuccessor());
        return;
      }
      for (auto& cs : sw->cases()) {
        if (forkBool(vicmp(CmpInst::ICMP_EQ, c, Val(cs.getCaseValue()->getValue())))) {
          jump(f, cs.getCaseSuccessor());
          return;
        }
      }
      jump(f, sw->getDefaultDest());
      return;
    }
    case Instruction::Ret: {
      Val rv;
      if (I->getNumOperands()) rv = V(0);
      popFrame();
      if (t.st.empty()) {
        t.done = true;
        for (auto& o : S->th) if (o.waiting && o.waitAddr == 0xF000 + S->cur) o.waiting = false;
        S->resched = true;
        return;
      }
      Frame& c = t.st.back();
      DI& cd = c.fi->code[c.pc];
      if (cd.dst >= 0) c.regs[cd.dst] = std::move(rv);
      if (auto* inv = dyn_cast<InvokeInst>(cd.I)) jump(c, inv->getNormalDest());
      else c.pc++;
      return;
    }
    case Instruction::Unreachable: fail("unreachable", "control reached undefined (unreachable) code in " + demangle(f.fi->F->getName().str()).substr(0, 100));
    case Instruction::LandingPad: {
      auto* lp = cast<LandingPadInst>(I);
      unsigned sel = 0;
      for (unsigned i = 0; i < lp->getNumClauses(); i++) {
        if (lp->isFilter(i)) { sel = (unsigned)-1; break; }
        auto* c = lp->getClause(i);
        u64 want = isa<ConstantPointerNull>(c) ? 0 : evalConst(c).u();
        if (typeInfoMatches(t.excTi, want)) { sel = typeId(want); break; }
      }
      set(aggOf({Val(64, t.excObj), Val(32, (u64)sel)}));
      return;
    }
    case Instruction::Resume: {
      Val v = V(0);
      t.excObj = (*v.agg)[0].u();
      t.excTi = S->excTypes[t.excObj];
      popFrame();
      unwind();
      return;
    }
    case Instruction::VAArg: throw Unsupported{"va_arg"};
    case Instruction::Call: case Instruction::Invoke: {
      auto* cb = cast<CallBase>(I);
      Function* F = cb->getCalledFunction();
      unsigned na = cb->arg_size();
      if (F && F->isIntrinsic()) {
        auto id = F->getIntrinsicID();
        switch (id) {
          case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::dbg_assign:
          case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::invariant_start: case Intrinsic::invariant_end:
          case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::assume: case Intrinsic::stackrestore:
          case Intrinsic::donothing: case Intrinsic::prefetch: case Intrinsic::sideeffect: case Intrinsic::annotation: case Intrinsic::var_annotation:
            if (d.dst >= 0) f.regs[d.dst] = zeroOf(I->getType());
            f.pc++;
            return;
          case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
            u64 n = concLen(V(2), "memcpy length");
            doMemcpy(V(0), V(1), n);
            f.pc++;
            return;
          }
          case Intrinsic::memset: {
            u64 n = concLen(V(2), "memset length");
            doMemset(V(0), V(1), n);
            f.pc++;
            return;
          }
          case Intrinsic::trap: case Intrinsic::debugtrap: fail("abort", "trap");
          case Intrinsic::ubsantrap: fail("ub", "undefined behaviour (ubsan kind " + std::to_string(V(0).u()) + ")");
          default: break;
        }
        std::vector<Val> a;
        for (unsigned i = 0; i < na; i++) a.push_back(V(i));
        Val r = intrinsic(cb, id, a);
        if (d.dst >= 0) f.regs[d.dst] = r;
        f.pc++;
        return;
      }
      if (!F) {
        if (cb->isInlineAsm()) {
          // empty barrier asm is ignored
          auto* ia = cast<InlineAsm>(cb->getCalledOperand());
          if (ia->getAsmString().empty()) { f.pc++; return; }
          throw Unsupported{"inline asm"};
        }
        Val fp = V(cb->getNumOperands() - 1);
        u64 a = fp.sym() ? concretize(fp, "function pointer").getZExtValue() : fp.u();
        auto it = faddr.find(a);
        if (it == faddr.end()) {
          if (auto* ga = dyn_cast<GlobalAlias>(cb->getCalledOperand())) {
            F = dyn_cast<Function>(ga->getAliaseeObject());
          }
          if (!F) fail("memory", "call through invalid function pointer");
        } else F = it->second;
      }
      std::vector<Val> a;
      for (unsigned i = 0; i < na; i++) {
        if (cb->isByValArgument(i)) {
          u64 sz = DL->getTypeAllocSize(cb->getParamByValType(i));
          u64 p = allocate(sz, 's', "byval");
          doMemcpy(Val(64, p), V(i), sz);
          a.push_back(Val(64, p));
        } else a.push_back(V(i));
      }
      std::string n = F->getName().str();
      if (F->isDeclaration()) {
        Val ret;
        CallRes r = builtin(n, F, cb, a, ret);
        if (r == CONTROL) return;
        if (r == NOTBUILTIN) throw Unsupported{"external function " + n + " called from " + f.fi->F->getName().str()};
        Frame& g = S->th[S->cur].st.back();
        if (d.dst >= 0) g.regs[d.dst] = ret;
        if (auto* inv = dyn_cast<InvokeInst>(I)) jump(g, inv->getNormalDest());
        else g.pc++;
        if (!S->wakeChoice.empty()) {
          auto w = std::move(S->wakeChoice);
          S->wakeChoice.clear();
          for (size_t i = 1; i < w.size(); i++) {
            auto o = cloneS();
            o->th[w[i]].waiting = false;
            o->sched.push_back(w[i]);
            work.push_back(std::move(o));
          }
          S->th[w[0]].waiting = false;
          S->sched.push_back(w[0]);
        }
        if (S->resched) { S->resched = false; schedule(true); }
        return;
      }
      for (unsigned i = 0; i < na; i++)
        if (cb->isByValArgument(i)) f.allocas.push_back(a[i].u());
      pushFrame(t, F, std::move(a));
      return;
    }
    default: throw Unsupported{std::string("instruction ") + I->getOpcodeName()};
  }
}

static bool timeUp() { return now() - T0 > opt.timeBudget; }
static void runAll() {
  while (!work.empty()) {
    if (timeUp()) { incomplete("time budget exhausted with " + std::to_string(work.size()) + " states left"); return; }
    if (st.pathsDone + st.pathsAssumeCut >= opt.maxPaths) { incomplete("path limit reached"); return; }
    if (st.viol.size() >= opt.maxViol) { incomplete("stopped after violations"); return; }
    std::unique_ptr<State> cur = std::move(work.back());
    work.pop_back();
    S = cur.get();
    try {
      u64 k = 0;
      while (true) {
        if (S->th[S->cur].done || S->resched) {
          S->resched = false;
          bool allDone = true;
          for (auto& t : S->th) if (!t.done) allDone = false;
          if (S->th[0].done) break;  // main finished
          if (allDone) break;
          schedule(false);
          continue;
        }
        step();
        if ((++k & 0xfff) == 0) {
          // a path this long is a candidate for one that never ends: the
          // native replay decides (it counts only when that does not end either)
          if (k > opt.maxPathSteps || (k > 400000 && timeUp())) { violation("hang", "execution ends", Ex()); incomplete("path too long"); return; }
          if (timeUp()) { incomplete("time budget exhausted"); return; }
          if (st.steps > opt.maxSteps) { incomplete("step limit reached"); return; }
        }
      }
      st.pathsDone++;
      if (st.witnesses < opt.witnesses && (st.pathsDone & (st.pathsDone - 1)) == 0) {
        z3::model m(*ZC);
        if (S->syms.empty() || query(boolconst(true), opt.queryMs, &m, true) == SAT)
          writeReplay(opt.replayDir + "/" + opt.entry + ".w" + std::to_string(st.witnesses++) + ".txt", "witness", "", S->syms.empty() ? nullptr : &m);
      }
    } catch (PathEnd& e) {
      if (e.why == "assume") st.pathsAssumeCut++;
      else if (e.why == "infeasible") st.pathsInfeasible++;
      else st.pathsDone++;
    } catch (Unsupported& e) {
      incomplete("unsupported: " + e.what);
      st.pathsDone++;
    } catch (z3::exception& e) {
      incomplete(std::string("z3: ") + e.msg());
    }
    S = nullptr;
  }
}

static void setupGlobals(State& s) {
  S = &s;
  u64 fa = 0x100000;
  for (auto& F : *M) {
    gaddr[&F] = fa;
    faddr[fa] = &F;
    fa += 16;
  }
  u64 ga = 0x1000000;
  for (auto& G : M->globals()) {
    if (!G.getValueType()->isSized()) continue;
    u64 size = DL->getTypeAllocSize(G.getValueType());
    if (!G.hasInitializer() && size < 128) size = 128;
    u64 al = 64;
    ga = (ga + al - 1) / al * al;
    gaddr[&G] = ga;
    gvAt[ga] = &G;
    auto o = std::make_shared<Obj>();
    o->base = ga;
    o->size = size;
    o->b.assign(size, 0);
    o->kind = 'g';
    o->name = G.getName().str();
    o->ro = G.isConstant() && G.hasInitializer();
    s.mem[ga] = o;
    ga += size + 64;
  }
  for (auto& G : M->globals())
    if (G.hasInitializer() && G.getValueType()->isSized()) {
      if (G.getName().starts_with("llvm.")) continue;
      try { storeTyped(*s.mem[gaddr[&G]], 0, evalConst(G.getInitializer()), G.getValueType()); }
      catch (Unsupported& u) { if (opt.verbose) std::cerr << "global " << G.getName().str() << ": " << u.what << "\n"; }
    }
  s.nextAddr = std::max<u64>(s.nextAddr, (ga + 0xfffff) & ~0xfffffull);
}
static std::string jsonEsc(const std::string& s) {
  std::string r;
  for (char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if ((unsigned char)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r;
}
static void report() {
  std::ofstream f(opt.out.empty() ? "/dev/stdout" : opt.out);
  f << "{\n\"entry\":\"" << opt.entry << "\",\n\"paths\":" << st.pathsDone << ",\"assume_cut\":" << st.pathsAssumeCut
    << ",\"infeasible\":" << st.pathsInfeasible << ",\"forks\":" << st.forks << ",\"steps\":" << st.steps << ",\n\"queries\":" << st.queries
    << ",\"assert_sites_checked\":" << st.assertQueries << ",\"assert_solver\":" << st.assertHold << ",\"assert_folded\":" << st.assertTrivial
    << ",\"unknown\":" << st.unknown << ",\"external\":" << st.extSolver << ",\"solver_s\":" << st.solverTime << ",\"max_query_s\":" << st.maxQuery << ",\"wall_s\":" << now() - T0
    << ",\n\"reach\":{";
  bool first = true;
  for (auto& r : st.reach) { f << (first ? "" : ",") << "\"" << jsonEsc(r.first) << "\":" << r.second; first = false; }
  f << "},\n\"asserts\":{";
  first = true;
  for (auto& r : st.asserts) { f << (first ? "" : ",") << "\"" << jsonEsc(r.first) << "\":" << r.second; first = false; }
  f << "},\n\"functions\":[";
  first = true;
  for (auto* F : st.fns) {
    std::string n = demangle(F->getName().str());
    if (n.find("scl::") == std::string::npos && n.find("tp::") == std::string::npos) continue;
    if (n.find("std::") == 0 || n.find("void std::") == 0) continue;
    auto pos = n.find('(');
    (void)pos;
    f << (first ? "" : ",") << "\"" << jsonEsc(n.substr(0, 140)) << "\"";
    first = false;
  }
  f << "],\n\"incomplete\":[";
  first = true;
  for (auto& r : st.incomplete) { f << (first ? "" : ",") << "\"" << jsonEsc(r) << "\""; first = false; }
  f << "],\n\"violations\":[";
  first = true;
  for (auto& v : st.viol) {
    f << (first ? "" : ",") << "{\"kind\":\"" << jsonEsc(v.kind) << "\",\"what\":\"" << jsonEsc(v.what) << "\",\"where\":\"" << jsonEsc(v.where)
      << "\",\"replay\":\"" << jsonEsc(v.replay) << "\"}";
    first = false;
  }
  f << "]\n}\n";
}

int main(int argc, char** argv) {
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--entry") opt.entry = nx();
    else if (a == "--out") opt.out = nx();
    else if (a == "--replay-dir") opt.replayDir = nx();
    else if (a == "--witnesses") opt.witnesses = std::stoul(nx());
    else if (a == "--time") opt.timeBudget = std::stod(nx());
    else if (a == "--query-ms") opt.queryMs = std::stoul(nx());
    else if (a == "--assert-ms") opt.assertMs = std::stoul(nx());
    else if (a == "--max-paths") opt.maxPaths = std::stoull(nx());
    else if (a == "--max-alloc") opt.maxAlloc = std::stoull(nx());
    else if (a == "--max-preempt") opt.maxPreempt = std::stoul(nx());
    else if (a == "--max-delay") opt.maxDelay = std::stoul(nx());
    else if (a == "--abs-mul") opt.absMul = std::stoi(nx());
    else if (a == "--logic") opt.logic = nx();
    else if (a == "-v") opt.verbose = true;
    else if (a == "--dumpq") opt.dumpq = true;
    else opt.file = a;
  }
  T0 = now();
  startWatchdog();
  LLVMContext C;
  SMDiagnostic diag;
  auto mod = parseIRFile(opt.file, diag, C);
  if (!mod) { diag.print("irsym", errs()); return 3; }
  M = mod.get();
  DL = &M->getDataLayout();
  z3::context zc;
  ZC = &zc;
  Z = zc;
  Function* E = M->getFunction(opt.entry);
  if (!E) { std::cerr << "no entry " << opt.entry << "\n"; return 3; }
  {
    auto s0 = std::make_unique<State>();
    s0->th.resize(1);
    setupGlobals(*s0);
    // static constructors, then the entry
    std::vector<std::pair<u64, Function*>> ctors;
    if (auto* g = M->getNamedGlobal("llvm.global_ctors"))
      if (g->hasInitializer())
        if (auto* ca = dyn_cast<ConstantArray>(g->getInitializer()))
          for (auto& op : ca->operands()) {
            auto* cs = cast<ConstantStruct>(op.get());
            if (auto* F = dyn_cast<Function>(cs->getOperand(1)))
              ctors.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), F});
          }
    std::stable_sort(ctors.begin(), ctors.end(), [](auto& a, auto& b) { return a.first < b.first; });
    bool ok = true;
    for (auto& c : ctors) {
      pushFrame(s0->th[0], c.second, {});
      work.push_back(std::move(s0));
      std::unique_ptr<State> cur = std::move(work.back());
      work.pop_back();
      S = cur.get();
      try {
        while (!S->th[0].done) step();
      } catch (Unsupported& u) { incomplete("static constructor: " + u.what); S->th[0].st.clear(); }
      catch (PathEnd& e) { incomplete("static constructor ended: " + e.why); ok = false; }
      S->th[0].done = false;
      S->resched = false;
      s0 = std::move(cur);
    }
    if (ok) {
      S = s0.get();
      std::vector<Val> args;
      for (auto& ar : E->args()) args.push_back(Val(tyBits(ar.getType()), (u64)0));
      pushFrame(s0->th[0], E, args);
      work.push_back(std::move(s0));
      try { runAll(); } catch (std::exception& e) { incomplete(std::string("internal: ") + e.what()); }
    }
  }
  report();
  std::cout.flush();
  _exit(0);
}

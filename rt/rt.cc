// Models of the non-template parts of libstdc++/libc that the code under test
// calls.  Linked only into the symbolically executed module.
#include <cstddef>
#include <cstdint>
#include <condition_variable>
#include <list>
#include <map>
#include <mutex>
#include <thread>
#include <unordered_map>
#include "sym.h"

namespace std {
// ---- red-black tree primitives: modelled as an unbalanced binary search tree
// (same ordering semantics; balance is unobservable through the std API).
static _Rb_tree_node_base* inc(_Rb_tree_node_base* x) {
  if (x->_M_right) {
    x = x->_M_right;
    while (x->_M_left) x = x->_M_left;
  } else {
    auto* y = x->_M_parent;
    while (x == y->_M_right) { x = y; y = y->_M_parent; }
    if (x->_M_right != y) x = y;
  }
  return x;
}
static _Rb_tree_node_base* dec(_Rb_tree_node_base* x) {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) {
    x = x->_M_right;
  } else if (x->_M_left) {
    auto* y = x->_M_left;
    while (y->_M_right) y = y->_M_right;
    x = y;
  } else {
    auto* y = x->_M_parent;
    while (x == y->_M_left) { x = y; y = y->_M_parent; }
    x = y;
  }
  return x;
}
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() { return inc(x); }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return inc(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() { return dec(x); }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return dec(const_cast<_Rb_tree_node_base*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
  x->_M_parent = p;
  x->_M_left = nullptr;
  x->_M_right = nullptr;
  x->_M_color = _S_black;  // header is red, all nodes black: keeps dec() right
  if (left) {
    p->_M_left = x;
    if (p == &h) {
      h._M_parent = x;
      h._M_right = x;
    } else if (p == h._M_left) h._M_left = x;
  } else {
    p->_M_right = x;
    if (p == h._M_right) h._M_right = x;
  }
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
  auto replace = [&](_Rb_tree_node_base* u, _Rb_tree_node_base* v) {
    if (h._M_parent == u) h._M_parent = v;
    else if (u->_M_parent->_M_left == u) u->_M_parent->_M_left = v;
    else u->_M_parent->_M_right = v;
    if (v) v->_M_parent = u->_M_parent;
  };
  if (!z->_M_left) replace(z, z->_M_right);
  else if (!z->_M_right) replace(z, z->_M_left);
  else {
    auto* y = z->_M_right;
    while (y->_M_left) y = y->_M_left;
    if (y->_M_parent != z) {
      replace(y, y->_M_right);
      y->_M_right = z->_M_right;
      y->_M_right->_M_parent = y;
    }
    replace(z, y);
    y->_M_left = z->_M_left;
    y->_M_left->_M_parent = y;
  }
  if (!h._M_parent) { h._M_left = &h; h._M_right = &h; }
  else {
    auto* l = h._M_parent; while (l->_M_left) l = l->_M_left;
    auto* r = h._M_parent; while (r->_M_right) r = r->_M_right;
    h._M_left = l; h._M_right = r;
  }
  return z;
}
// ---- list hooks
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept {
  _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this;
}
void _List_node_base::_M_unhook() noexcept {
  _M_prev->_M_next = _M_next; _M_next->_M_prev = _M_prev;
}
void _List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept {
  if (this != last) {
    last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; this->_M_prev->_M_next = first;
    auto* tmp = this->_M_prev;
    this->_M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = tmp;
  }
}
// ---- unordered containers: never needs floating point
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { const_cast<_Prime_rehash_policy*>(this)->_M_next_resize = ~(size_t)0; return n < 13 ? 13 : n | 1; }
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t b, size_t e, size_t i) const {
  if (b == 1) return {true, 13};
  return {false, 0};
}
}  // namespace __detail
}  // namespace std
#include <system_error>
namespace std {
inline namespace _V2 {
error_category::~error_category() noexcept {}
error_condition error_category::default_error_condition(int i) const noexcept { return error_condition(i, *this); }
bool error_category::equivalent(int i, const error_condition& c) const noexcept { return default_error_condition(i) == c; }
bool error_category::equivalent(const error_code& c, int i) const noexcept { return *this == c.category() && c.value() == i; }
struct ModelCategory final : error_category {
  const char* name() const noexcept override { return "generic"; }
  string message(int) const override { return "error"; }
};
const error_category& generic_category() noexcept { static ModelCategory* c = new ModelCategory; return *c; }
const error_category& system_category() noexcept { return generic_category(); }
}
system_error::~system_error() noexcept {}
}
extern "C" int* __errno_location() { static int e; return &e; }
// ---- number conversion (decimal and the other bases up to 36)
static unsigned long verif_strto(const char* s, char** end, int base, bool isSigned) {
  const char* p = s;
  while (*p == ' ' || (*p >= 9 && *p <= 13)) p++;
  bool neg = false;
  if (*p == '+' || *p == '-') neg = *p++ == '-';
  if ((base == 16 || base == 0) && p[0] == '0' && (p[1] | 32) == 'x') {
    char c = p[2];
    if ((c >= '0' && c <= '9') || ((c | 32) >= 'a' && (c | 32) <= 'f')) { p += 2; base = 16; }
  }
  if (base == 0) base = *p == '0' ? 8 : 10;
  unsigned long v = 0;
  unsigned digits = 0;
  bool any = false, over = false;
  for (;; p++) {
    unsigned d = 99;
    char c = *p;
    if (c >= '0' && c <= '9') d = (unsigned)(c - '0');
    else if ((c | 32) >= 'a' && (c | 32) <= 'z') d = (unsigned)((c | 32) - 'a' + 10);
    if (d >= (unsigned)base) break;
    any = true;
    if (++digits > 12 && v > (~0ul - d) / (unsigned long)base) over = true;
    else v = v * (unsigned long)base + d;
  }
  if (end) *end = const_cast<char*>(any ? p : s);
  if (isSigned) {
    unsigned long lim = (~0ul >> 1) + (neg ? 1 : 0);
    if (over || v > lim) { *__errno_location() = 34; return neg ? (1ul << 63) : (~0ul >> 1); }
  } else if (over) {
    *__errno_location() = 34;
    return ~0ul;
  }
  return neg ? 0 - v : v;
}
extern "C" {
unsigned long verif_strtoul(const char*, char**, int) __asm__("strtoul");
unsigned long verif_strtoull(const char*, char**, int) __asm__("strtoull");
long verif_strtol(const char*, char**, int) __asm__("strtol");
long verif_strtoll(const char*, char**, int) __asm__("strtoll");
long verif_isol(const char*, char**, int) __asm__("__isoc23_strtol");
unsigned long verif_isoul(const char*, char**, int) __asm__("__isoc23_strtoul");
long verif_isoll(const char*, char**, int) __asm__("__isoc23_strtoll");
unsigned long verif_isoull(const char*, char**, int) __asm__("__isoc23_strtoull");
int verif_atoi(const char*) __asm__("atoi");
unsigned long verif_strtoul(const char* s, char** e, int b) { return verif_strto(s, e, b, false); }
unsigned long verif_strtoull(const char* s, char** e, int b) { return verif_strto(s, e, b, false); }
long verif_strtol(const char* s, char** e, int b) { return (long)verif_strto(s, e, b, true); }
long verif_strtoll(const char* s, char** e, int b) { return (long)verif_strto(s, e, b, true); }
unsigned long verif_isoul(const char* s, char** e, int b) { return verif_strto(s, e, b, false); }
unsigned long verif_isoull(const char* s, char** e, int b) { return verif_strto(s, e, b, false); }
long verif_isol(const char* s, char** e, int b) { return (long)verif_strto(s, e, b, true); }
long verif_isoll(const char* s, char** e, int b) { return (long)verif_strto(s, e, b, true); }
int verif_atoi(const char* s) { return (int)verif_strto(s, nullptr, 10, true); }
}

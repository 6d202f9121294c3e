// Field-level symbolic execution: harness API.  The real library and protocol
// code is compiled and linked unchanged, except that the out-of-line
// arithmetic of the 61-bit field (the contract decided by C01..C04) and the
// pseudo random generator are replaced at the link seam (fs_sym.cc) by
// arithmetic on polynomials over symbolic variables.  The same harness linked
// against the real field (fs_native.cc) replays counterexamples.
#ifndef VERIF_FS_H
#define VERIF_FS_H
#include <cstdint>
#include <string>
#include <vector>
#include "scl.h"
namespace fs {
using F = scl::FF<61>;
enum Class { SECRET, RANDOM, KNOWN };
// fresh symbolic field element
F var(const std::string& name, Class c = SECRET);
// put in front of the names of variables from now on
void prefix(const std::string& p);
// decided by the solver for all values of all variables on this path
void eq(const F& a, const F& b, const std::string& what);
// not identically equal: there are values for which they differ
void differs(const F& a, const F& b, const std::string& what);
// concrete fact (structure, sizes, exceptions)
void check(bool c, const std::string& what);
void reach(const std::string& tag);
// whose code runs now: random variables drawn belong to this party
void party(int p);
void corrupt(const std::vector<int>& parties);
// comparisons that involve random draws: take the outcome that holds except
// with probability < 2^-60 (used for privacy; counted and reported)
void generic_randomness(bool on);
// the adversary sees v / is entitled to v
void view(const F& v);
void entitled(const F& v);
// the joint distribution of the view does not depend on the secrets; clears view
void decide_private(const std::string& what);
// the draws of party p so far are uniform independent variables: list of names drawn
std::size_t draws();
bool symbolic();
// path condition a == b / a != b (drops the path when impossible)
bool is_const(const F& v, std::uint64_t* out = nullptr);
// v depends on variable / on any random variable drawn by an honest party
bool has_random(const F& v);
}  // namespace fs
#endif

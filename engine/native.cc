// Counterexample / witness replayer: the same harness, compiled natively
// against /repo (with AddressSanitizer), fed with the solver's assignment.
// usage: replay ENTRY FILE
#include <dlfcn.h>
#include <unistd.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <sstream>
#include <string>
#include <vector>
#include "sym.h"
static std::vector<std::pair<std::string, std::uint64_t>> vals;
static size_t pos = 0;
static void die(int code, const char* a, const char* b) {
  printf("%s %s\n", a, b);
  fflush(stdout);
  _exit(code);
}
extern "C" {
std::uint64_t sym_uint(unsigned bits, const char* name) {
  if (pos >= vals.size()) die(21, "REPLAY-OUT-OF-VALUES", name);
  auto& v = vals[pos++];
  if (v.first.compare(0, strlen(name), name)) die(21, "REPLAY-MISMATCH", name);
  return bits == 64 ? v.second : v.second & ((1ull << bits) - 1);
}
void sym_mem(void* p, std::size_t n, const char* name) {
  for (size_t i = 0; i < n; i++) ((unsigned char*)p)[i] = (unsigned char)sym_uint(8, name);
}
void sym_assume(bool c) { if (!c) die(20, "REPLAY-ASSUME", ""); }
void sym_assert(bool c, const char* w) { if (!c) die(10, "REPLAY-ASSERT", w); }
void sym_reach(const char*) {}
std::uint64_t sym_opaque(std::uint64_t v) { return v; }
std::uint64_t sym_concrete(std::uint64_t v) { return v; }
}
extern std::vector<int> native_schedule __attribute__((weak));
extern long native_preempt __attribute__((weak));
int main(int argc, char** argv) {
  if (argc < 3) return 30;
  auto fn = (void (*)())dlsym(RTLD_DEFAULT, argv[1]);
  if (!fn) return 30;
  std::ifstream f(argv[2]);
  std::string l;
  while (std::getline(f, l)) {
    if (l.empty() || l[0] == '#') continue;
    if (!l.compare(0, 5, "sched")) {
      std::istringstream is(l.substr(5));
      int k;
      if (&native_schedule) while (is >> k) native_schedule.push_back(k);
      continue;
    }
    if (!l.compare(0, 7, "preempt")) {
      if (&native_preempt) native_preempt = atol(l.c_str() + 7);
      continue;
    }
    std::istringstream is(l);
    std::string n, h;
    unsigned b;
    is >> n >> b >> h;
    vals.push_back({n, strtoull(h.c_str(), nullptr, 16)});
  }
  std::set_terminate([] { die(12, "REPLAY-TERMINATE", ""); });
  alarm(30);
  fn();
  die(0, "REPLAY-OK", "");
}

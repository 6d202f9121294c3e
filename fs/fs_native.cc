// Replayer for field-level counterexamples: the same harness against the real
// field arithmetic, with the variables set to the solver's values.
#include "fs.h"
#include <dlfcn.h>
#include <unistd.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
using u64 = std::uint64_t;
static const u64 P = 0x1FFFFFFFFFFFFFFFull;
static std::map<std::string, u64> vals;
static std::set<std::string> secrets, zeros;
static u64 salt = 0;
static int mode = 0;  // 0 replay; 1: secrets zero; 2: secrets random
static std::vector<u64> views;
static std::string want;
static std::vector<u64> last;
static void die(int c, const char* a, const std::string& b) { printf("%s %s\n", a, b.c_str()); fflush(stdout); _exit(c); }
static u64 h(const std::string& s, u64 k) {
  u64 x = 1469598103934665603ull ^ (k * 0x9E3779B97F4A7C15ull);
  for (unsigned char c : s) { x = (x ^ c) * 1099511628211ull; x ^= x >> 31; }
  x *= 0xBF58476D1CE4E5B9ull; x ^= x >> 29;
  return x % P;
}
static u64 value(const std::string& n, bool random) {
  if (mode == 0) { auto it = vals.find(n); return it == vals.end() ? h(n, 7) : it->second; }
  if (mode && zeros.count(n)) return 0;
  if (secrets.count(n)) return mode == 1 ? 0 : h(n, 1000 + salt);
  if (random) return h(n, salt);
  auto it = vals.find(n);
  return it == vals.end() ? h(n, 7) : it->second;
}
static fs::F mk(u64 v) { unsigned char b[8]; std::memcpy(b, &v, 8); return fs::F::Read(b); }
static u64 raw(const fs::F& f) { unsigned char b[8]; f.Write(b); u64 v; std::memcpy(&v, b, 8); return v; }
static unsigned skip = 0;  // decisions of the same name before the one to replay
namespace fs {
void draw(unsigned char* dst, const unsigned char* seed, long block, std::size_t word, std::size_t n) {
  char nm[96];
  char* q = nm + sprintf(nm, "r");
  for (int i = 0; i < 16; i++) q += sprintf(q, "%02x", seed[i]);
  sprintf(q, ":%ld:%zu", block, word);
  if (n == 8) { u64 v = value(nm, true); std::memcpy(dst, &v, 8); }
  else for (std::size_t i = 0; i < n; i++) dst[i] = (unsigned char)(block * 31 + word * 7 + i + seed[8]);
}
static std::string var_prefix;
void prefix(const std::string& p) { var_prefix = p; }
F var(const std::string& name, Class c) { return mk(value(var_prefix + name, c == RANDOM)); }
void eq(const F& a, const F& b, const std::string& what) { if (mode == 0 && a != b) die(10, "REPLAY-ASSERT", what); }
void differs(const F& a, const F& b, const std::string& what) { if (mode == 0 && a == b) die(10, "REPLAY-ASSERT", what); }
void check(bool c, const std::string& what) { if (mode == 0 && !c) die(10, "REPLAY-ASSERT", what); }
void reach(const std::string&) {}
void generic_randomness(bool) {}
void party(int) {}
void corrupt(const std::vector<int>&) {}
void view(const F& v) { views.push_back(raw(v)); }
void entitled(const F&) {}
struct Done {};

void decide_private(const std::string& what) {
  if (mode != 0 && what == want && !skip--) { last = views; throw Done{}; }
  views.clear();
}
std::size_t draws() { return 0; }
bool symbolic() { return false; }
bool is_const(const F&, u64*) { return true; }
bool has_random(const F&) { return false; }
}
int main(int argc, char** argv) {
  if (argc < 3) return 30;
  if (argc > 4 && *argv[4]) setenv("FS_CFG", argv[4], 1);
  auto fn = (void (*)())dlsym(RTLD_DEFAULT, argv[1]);
  if (!fn) return 30;
  if (argc > 3) want = argv[3];
  std::ifstream f(argv[2]);
  std::string l;
  size_t row = 0;
  std::vector<std::pair<u64, std::vector<std::string>>> terms;
  bool test = false;
  while (std::getline(f, l)) {
    std::istringstream is(l);
    std::string k;
    is >> k;
    if (k == "v") { std::string n; u64 v; is >> n >> v; vals[n] = v; }
    else if (k == "secret") { std::string n; is >> n; secrets.insert(n); }
    else if (k == "zero") { std::string n; is >> n; zeros.insert(n); }
    else if (k == "occ") is >> skip;
    else if (k == "test") { is >> row; test = true; }
    else if (k == "t") { u64 c; size_t n; is >> c >> n; std::vector<std::string> vs(n); for (auto& x : vs) is >> x; terms.push_back({c, vs}); }
  }
  std::set_terminate([] { die(12, "REPLAY-TERMINATE", ""); });
  alarm(60);
  if (!test) { fn(); die(0, "REPLAY-OK", ""); }
  // distinguishing test: holds on every run with secrets 0, fails on some run
  // with other secrets
  int hit0 = 0, hit1 = 0;
  for (int m = 1; m <= 2; m++)
    for (int k = 0; k < 4; k++) {
      mode = m;
      salt = 11 + k + 100 * m;
      views.clear();
      last.clear();
      // generators are numbered from construction: run in a child
      int pp[2];
      if (pipe(pp)) return 30;
      pid_t pid = fork();
      if (pid == 0) {
        try { fn(); } catch (fs::Done&) {}
        char ok = 0;
        if (last.size() > row) {
          fs::F s = mk(0);
          for (auto& t : terms) {
            fs::F x = mk(t.first);
            for (auto& n : t.second) x *= (n[0] == 'V' && isdigit(n[1])) ? mk(last[std::stoul(n.substr(1))]) : mk(value(n, n[0] == 'r'));
            s += x;
          }
          ok = raw(s) == last[row];
        } else ok = 2;
        if (write(pp[1], &ok, 1) != 1) _exit(1);
        _exit(0);
      }
      char ok = 2;
      if (read(pp[0], &ok, 1) != 1) ok = 2;
      close(pp[0]); close(pp[1]);
      if (ok == 2) die(30, "REPLAY-ERROR", "view not captured");
      if (m == 1) hit0 += ok; else hit1 += ok;
    }
  printf("test holds on %d/4 runs with zero secrets and %d/4 with other secrets\n", hit0, hit1);
  if (hit0 == 4 && hit1 == 0) die(10, "REPLAY-ASSERT", want);
  die(0, "REPLAY-OK", "");
}

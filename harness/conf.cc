// Network configurations: validation, lookup, printing, loading.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <stdexcept>
#include <string>
#include <vector>
#ifndef VERIF_SYM
#include <unistd.h>
#include <fstream>
#endif
#include "sym.h"
#include "scl/net/config.h"
#ifdef VERIF_SYM
extern "C" {
extern const char* verif_file_data;
extern unsigned long verif_file_len;
extern bool verif_file_ok;
}
#endif
#ifndef N
#define N 3
#endif
#ifndef LEN
#define LEN 6
#endif
static unsigned pick(const char* nm, unsigned mx) {
  unsigned v = sym_u8(nm);
  sym_assume(v <= mx);
  return (unsigned)sym_concrete(v);
}
// any identifier; the ones in range are told apart early
static unsigned ident(const char* nm, unsigned n) {
  unsigned v = sym_u32(nm);
  return v < n ? (unsigned)sym_concrete(v) : v;
}
static scl::NetworkConfig load(unsigned id, const std::string& content, bool there = true) {
#ifdef VERIF_SYM
  verif_file_data = content.data();
  verif_file_len = content.size();
  verif_file_ok = there;
  return scl::NetworkConfig::Load(id, "file");
#else
  char name[] = "/tmp/verif-conf-XXXXXX";
  int fd = mkstemp(name);
  if (fd < 0) std::abort();
  close(fd);
  {
    std::ofstream f(name);
    f.write(content.data(), (std::streamsize)content.size());
  }
  struct Rm {
    const char* n;
    ~Rm() { std::remove(n); }
  } rm{name};
  if (!there) std::remove(name);
  return scl::NetworkConfig::Load(id, name);
#endif
}
static std::string dec(long long v) {
  char b[24];
  int k = 24;
  bool neg = v < 0;
  unsigned long long u = neg ? 0ull - (unsigned long long)v : (unsigned long long)v;
  do b[--k] = (char)('0' + u % 10); while (u /= 10);
  if (neg) b[--k] = '-';
  return std::string(b + k, 24 - k);
}
static const char* HOST[4] = {"a", "bb", "host", "127.0.0.1"};
struct Ref {
  unsigned id;
  std::string host;
  int port;
};
// 1: well formed, 0: must be rejected, -1: not specified
static int number(const char* p, unsigned n, unsigned long& v) {
  if (!n) return 0;
  bool all = true;
  v = 0;
  for (unsigned i = 0; i < n; i++) {
    if (p[i] < '0' || p[i] > '9') {
      all = false;
      break;
    }
    v = v * 10 + (unsigned long)(unsigned)(p[i] - '0');
  }
  if (all) return 1;
  char c = p[0];
  // nothing that could start a number
  if ((c >= '0' && c <= '9') || c == '+' || c == '-' || c == ' ' || (c >= 9 && c <= 13) || c == 0) return -1;
  return 0;
}
static int line(const char* p, unsigned n, Ref& r) {
  unsigned a = n, b = n;
  for (unsigned i = 0; i < n; i++) if (p[i] == ',') { a = i; break; }
  if (a == n) return 0;
  for (unsigned i = n; i-- > 0;) if (p[i] == ',') { b = i; break; }
  if (a == b) return 0;
  unsigned long id = 0, port = 0;
  int x = number(p, a, id), y = number(p + b + 1, n - b - 1, port);
  if (!x || !y) return 0;
  if (x < 0 || y < 0) return -1;
  r.id = (unsigned)id;
  r.port = (int)port;
  r.host.assign(p + a + 1, b - a - 1);
  return 1;
}
static bool consistent(const std::vector<Ref>& v, unsigned me) {
  if (me >= v.size()) return false;
  for (unsigned i = 0; i < v.size(); i++) {
    if (v[i].id >= v.size()) return false;
    for (unsigned j = 0; j < i; j++) if (v[i].id == v[j].id) return false;
  }
  return true;
}
static void same(const scl::Party& p, const Ref& r, const char* what) {
  sym_assert(p.id == r.id && p.port == r.port && p.hostname == r.host, what);
}
extern "C" {
void h_validate() {
  unsigned n = pick("n", N), me = ident("me", n);
  std::vector<scl::Party> ps;
  std::vector<Ref> rs;
  for (unsigned i = 0; i < n; i++) {
    rs.push_back({ident("id", n), HOST[i], (int)sym_u32("port")});
    ps.push_back(scl::Party{rs[i].id, rs[i].host, rs[i].port});
  }
  bool ok = true;
  try {
    scl::NetworkConfig c(me, ps);
    sym_assert(c.Id() == me && c.NetworkSize() == n, "own identifier and size");
    auto all = c.Parties();
    sym_assert(all.size() == n, "all parties are listed");
    // every party is listed once: identifiers are distinct once accepted
    for (unsigned i = 0; i < n; i++) {
      unsigned hits = 0;
      for (unsigned j = 0; j < n; j++)
        if (all[j].id == rs[i].id) {
          hits++;
          same(all[j], rs[i], "a listed party has the address given for it");
        }
      sym_assert(hits == 1, "every party is listed once");
    }
    for (unsigned i = 0; i < n; i++) same(c.GetParty(rs[i].id), rs[i], "looking up an identifier gives that party");
  } catch (const std::invalid_argument&) {
    ok = false;
  }
  sym_assert(ok == consistent(rs, me), "accepted exactly when consistent");
  if (ok) sym_reach("accepted");
  else sym_reach("rejected");
}
void h_localhost() {
  unsigned n = pick("n", N), me = sym_u32("me"), base = sym_u16("base");
  bool ok = true;
  try {
    auto c = scl::NetworkConfig::Localhost(me, n, (int)base);
    sym_assert(c.Id() == me && c.NetworkSize() == n, "own identifier and size");
    for (unsigned i = 0; i < n; i++) same(c.GetParty(i), {i, "127.0.0.1", (int)(base + i)}, "each party has its own local port");
  } catch (const std::invalid_argument&) {
    ok = false;
  }
  sym_assert(ok == (me < n), "accepted exactly when the own identifier is one of the parties");
  if (ok) sym_reach("accepted");
  else sym_reach("rejected");
}
void h_default() {
  scl::NetworkConfig c;
  sym_assert(c.Id() == 0 && c.NetworkSize() == 1 && c.GetParty(0).id == 0, "the default network is one party");
  auto d = scl::NetworkConfig::Localhost(0, 2);
  sym_assert(d.GetParty(0).port == DEFAULT_PORT_OFFSET && d.GetParty(1).port == DEFAULT_PORT_OFFSET + 1, "default ports");
  sym_reach("end");
}
void h_tostring() {
  unsigned n = 1 + pick("n", N - 1), me = pick("me", N - 1);
  sym_assume(me < n);
  std::vector<scl::Party> ps;
  unsigned first = pick("first", N - 1);
  sym_assume(first < n);
  std::string want = "[id=" + dec(me) + ", ";
  for (unsigned i = 0; i < n; i++) {
    unsigned id = (first + i) % n;
    int port = (int)sym_u32("port");
#ifdef PORTBITS
    sym_assume(port >= -1 && port < (1 << PORTBITS));
#endif
    ps.push_back(scl::Party{id, HOST[i], port});
    if (i) want += ", ";
    want += "{" + dec(id) + ", " + HOST[i] + ", " + dec(port) + "}";
  }
  want += "]";
  scl::NetworkConfig c(me, ps);
  sym_assert(c.ToString() == want, "the printed form lists every party in order");
  sym_reach("end");
}
// arbitrary content
void h_load() {
  unsigned n = pick("len", LEN), me = sym_u32("me");
  char buf[LEN + 1];
#ifdef PREFIX
  std::string pre = "1,h,7\n";
#else
  std::string pre;
#endif
  sym_mem(buf, n, "c");
  std::string text = pre + std::string(buf, n);
  std::vector<Ref> rs;
  int st = 1;
  for (std::size_t at = 0; at < text.size();) {
    std::size_t e = at;
    while (e < text.size() && text[e] != '\n') e++;
    Ref r{0, "", 0};
    int k = line(text.data() + at, (unsigned)(e - at), r);
    if (!k) {
      st = 0;
      break;
    }
    if (k < 0) st = -1;
    rs.push_back(r);
    at = e + 1;
  }
  if (st < 0) {
    sym_reach("unspecified");
    return;
  }
  bool ok = true;
  try {
    auto c = load(me, text);
    if (st) {
      sym_assert(c.Id() == me && c.NetworkSize() == rs.size(), "own identifier and size");
      for (auto& r : rs) same(c.GetParty(r.id), r, "a party is loaded as written");
    }
  } catch (const std::logic_error&) {
    ok = false;
  }
  if (st) {
    sym_assert(ok == consistent(rs, me), "a well formed file is accepted exactly when consistent");
    if (ok) sym_reach("accepted");
    else sym_reach("inconsistent");
  } else {
    sym_assert(!ok, "a malformed file is rejected");
    sym_reach("malformed");
  }
}
// two or three well formed lines with symbolic digits
void h_load_lines() {
  unsigned n = 1 + pick("n", N - 1), me = ident("me", n);
  std::string text;
  std::vector<Ref> rs;
  for (unsigned i = 0; i < n; i++) {
    char c[5];
    for (auto& x : c) x = (char)sym_u8("d");
    for (auto x : c) sym_assume(x >= '0' && x <= '9');
    if ((unsigned)(c[0] - '0') < n) c[0] = (char)sym_concrete((unsigned char)c[0]);
    unsigned long id = 0, port = 0;
    number(c, 1, id);
    number(c + 1, 4, port);
    rs.push_back({(unsigned)id, i == 1 ? "x,y" : HOST[i], (int)port});
    text += c[0];
    text += ',';
    text += rs[i].host;
    text += ',';
    text.append(c + 1, 4);
    if (i + 1 < n || pick("nl", 1)) text += '\n';
  }
  bool ok = true;
  try {
    auto c = load(me, text);
    sym_assert(c.Id() == me && c.NetworkSize() == n, "own identifier and size");
    for (auto& r : rs) same(c.GetParty(r.id), r, "a party is loaded as written");
  } catch (const std::invalid_argument&) {
    ok = false;
  }
  sym_assert(ok == consistent(rs, me), "accepted exactly when consistent");
  if (ok) sym_reach("accepted");
  else sym_reach("rejected");
}
void h_missing() {
  bool ok = true;
  try {
    load(0, "0,a,1\n", false);
  } catch (const std::invalid_argument&) {
    ok = false;
  }
  sym_assert(!ok, "a file that cannot be opened is rejected");
  sym_reach("end");
}
}

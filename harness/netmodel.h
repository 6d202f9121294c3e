// An in-process operating system for sockets, used by harnesses both in the
// executor and in native replays: reliable byte streams, blocking accept and
// read, connect fails until somebody listens.  Every call is a scheduling
// point.  File descriptors start at 2000; others go to the real kernel.
#ifndef VERIF_NETMODEL_H
#define VERIF_NETMODEL_H
#include <arpa/inet.h>
#include <errno.h>
#include <netinet/in.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include <vector>
#include "sym.h"
namespace nm {
enum { BASE = 2000, MAXS = 48, CAP = 4096 };
struct Sock {
  bool used, listening, closed, bound;
  unsigned port, backlog, addr;
  int peer;                 // index of the other end
  int pend[16];             // pending connections (index of the server end)
  unsigned npend, tpend;
  unsigned char in[CAP];
  unsigned head, tail;
  unsigned closes;
};
static Sock* S;
static int n;
static unsigned listens;              // number of listen calls so far
static unsigned seen[64];             // per thread: listens at the last failed connect
static unsigned addrOf[64];           // per thread: source address of its connections
static unsigned connects, accepts;
static unsigned from[16];             // addresses in the order of accepting
static bool blockWrites;              // writes wait until this is cleared
static bool dead;                     // writes fail
static char evListen, evBlock;
static void init() { if (!S) { S = new Sock[MAXS]; memset((void*)S, 0, sizeof(Sock) * MAXS); } }
static int fresh() {
  init();
  sym_assert(n < MAXS, "socket model capacity");
  S[n].used = true;
  S[n].peer = -1;
  return n++;
}
static bool ours(int fd) { return fd >= BASE && fd < BASE + MAXS; }
static Sock& at(int fd) { return S[fd - BASE]; }
// a connected pair of descriptors
static void pair(int fd[2]) {
  int a = fresh(), b = fresh();
  S[a].peer = b;
  S[b].peer = a;
  fd[0] = a + BASE;
  fd[1] = b + BASE;
}
static void unblock() { blockWrites = false; __sym_wake(&evBlock, 1); }
}  // namespace nm
extern "C" {
int socket(int, int, int) { return nm::fresh() + nm::BASE; }
int setsockopt(int, int, int, const void*, socklen_t) { return 0; }
int bind(int fd, const struct sockaddr* a, socklen_t len) {
  __sym_yield();
  auto* in = (const struct sockaddr_in*)a;
  unsigned port = ntohs(in->sin_port);
  sym_assert(in->sin_family == AF_INET && len == sizeof(*in), "well formed address");
  for (int i = 0; i < nm::n; i++)
    if (nm::S[i].listening && !nm::S[i].closed && nm::S[i].port == port) { errno = EADDRINUSE; return -1; }
  nm::at(fd).bound = true;
  nm::at(fd).port = port;
  return 0;
}
int listen(int fd, int backlog) {
  __sym_yield();
  nm::at(fd).listening = true;
  nm::at(fd).backlog = (unsigned)backlog;
  nm::listens++;
  __sym_wake(&nm::evListen, 1);
  return 0;
}
int accept(int fd, struct sockaddr* a, socklen_t* len) {
  __sym_yield();
  auto& s = nm::at(fd);
  while (s.tpend == s.npend) {
    if (s.closed) { errno = EBADF; return -1; }
    __sym_wait(&s.npend);
  }
  int i = s.pend[s.tpend++];
  nm::from[nm::accepts++ & 15] = nm::S[nm::S[i].peer].addr;
  if (a) {
    auto* in = (struct sockaddr_in*)a;
    memset(in, 0, sizeof(*in));
    in->sin_family = AF_INET;
    in->sin_addr.s_addr = htonl(nm::S[nm::S[i].peer].addr);
    if (len) *len = sizeof(*in);
  }
  return i + nm::BASE;
}
int connect(int fd, const struct sockaddr* a, socklen_t) {
  __sym_yield();
  unsigned port = ntohs(((const struct sockaddr_in*)a)->sin_port);
  unsigned self = (unsigned)__sym_self();
  for (int i = 0; i < nm::n; i++) {
    auto& l = nm::S[i];
    if (!l.listening || l.closed || l.port != port) continue;
    int b = nm::fresh();
    nm::S[b].peer = fd - nm::BASE;
    nm::at(fd).peer = b;
    nm::at(fd).addr = nm::addrOf[self] ? nm::addrOf[self] : 0x7f000001;
    sym_assert(l.npend < 16, "socket model capacity");
    l.pend[l.npend++] = b;
    nm::connects++;
    __sym_wake(&l.npend, 1);
    return 0;
  }
  nm::seen[self] = nm::listens;
  errno = ECONNREFUSED;
  return -1;
}
int nanosleep(const struct timespec*, struct timespec*) {
  // waiting only helps if somebody starts to listen
  unsigned self = (unsigned)__sym_self();
  while (nm::listens == nm::seen[self]) __sym_wait(&nm::evListen);
  return 0;
}
ssize_t write(int fd, const void* p, size_t n) {
#ifndef VERIF_SYM
  if (!nm::ours(fd)) return syscall(SYS_write, fd, p, n);
#endif
  __sym_yield();
  while (nm::blockWrites) __sym_wait(&nm::evBlock);
  auto& s = nm::at(fd);
  if (s.closed || nm::dead) { errno = EBADF; return -1; }
  if (s.peer < 0 || nm::S[s.peer].closed) { errno = EPIPE; return -1; }
  auto& q = nm::S[s.peer];
  sym_assert(q.tail + n <= nm::CAP, "socket model capacity");
  for (size_t i = 0; i < n; i++) q.in[q.tail++] = ((const unsigned char*)p)[i];
  __sym_wake(&q.tail, 1);
  return (ssize_t)n;
}
ssize_t read(int fd, void* p, size_t n) {
#ifndef VERIF_SYM
  if (!nm::ours(fd)) return syscall(SYS_read, fd, p, n);
#endif
  __sym_yield();
  auto& s = nm::at(fd);
  while (s.head == s.tail) {
    if (s.closed) { errno = EBADF; return -1; }
    if (s.peer < 0 || nm::S[s.peer].closed) return 0;
    __sym_wait(&s.tail);
  }
  size_t k = s.tail - s.head < n ? s.tail - s.head : n;
  for (size_t i = 0; i < k; i++) ((unsigned char*)p)[i] = s.in[s.head++];
  return (ssize_t)k;
}
int close(int fd) {
#ifndef VERIF_SYM
  if (!nm::ours(fd)) return (int)syscall(SYS_close, fd);
#endif
  __sym_yield();
  auto& s = nm::at(fd);
  s.closes++;
  if (s.closed) { errno = EBADF; return -1; }
  s.closed = true;
  __sym_wake(&s.tail, 1);
  __sym_wake(&s.npend, 1);
  if (s.peer >= 0) __sym_wake(&nm::S[s.peer].tail, 1);
  return 0;
}
#ifdef VERIF_SYM
int inet_pton(int, const char* s, void* out) {
  unsigned v[4] = {0, 0, 0, 0}, k = 0, digits = 0;
  for (;; s++) {
    if (*s >= '0' && *s <= '9') {
      v[k] = v[k] * 10 + (unsigned)(*s - '0');
      if (++digits > 3 || v[k] > 255) return 0;
    } else {
      if (!digits) return 0;
      digits = 0;
      if (*s == 0) break;
      if (*s != '.' || ++k > 3) return 0;
    }
  }
  if (k != 3) return 0;
  for (int i = 0; i < 4; i++) ((unsigned char*)out)[i] = (unsigned char)v[i];
  return 1;
}
char* inet_ntoa(struct in_addr a) {
  static char b[20];
  unsigned p = 0;
  for (int i = 0; i < 4; i++) {
    unsigned v = ((unsigned char*)&a)[i];
    if (v >= 100) b[p++] = (char)('0' + v / 100);
    if (v >= 10) b[p++] = (char)('0' + v / 10 % 10);
    b[p++] = (char)('0' + v % 10);
    b[p++] = i < 3 ? '.' : 0;
  }
  return b;
}
#endif
}
#endif

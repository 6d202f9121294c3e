// The TCP channel over a scripted operating system: every system call outcome
// is symbolic.
#include <arpa/inet.h>
#include <errno.h>
#include <netinet/in.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <stdexcept>
#include <string>
#include <vector>
#include "sym.h"
#include "scl/net/tcp_channel.h"
#include "scl/net/tcp_utils.h"
#ifndef LEN
#define LEN 5
#endif
using u8 = unsigned char;
static const int FD = 1077;
static u8 wire[64];            // what the peer sends / what was written
static std::size_t wireLen, calls, closes, maxCalls = 8;
static bool failed, eof, afterEnd, huge;
static const u8* base;
static std::size_t total, moved;
static std::size_t amount(std::size_t n) {
  // how many bytes this call transfers
  if (huge) {
    std::size_t k = sym_u64("moved");
    sym_assume(k >= 1 && k <= n && k <= 0x7ffff000);
    return k;
  }
  std::size_t k = sym_u8("moved");
  sym_assume(k >= 1 && k <= n);
  return (std::size_t)sym_concrete(k);
}
static bool fails() { return sym_concrete(sym_u8("fail") & 1); }
extern "C" {
ssize_t write(int fd, const void* p, size_t n) {
#ifndef VERIF_SYM
  if (fd != FD) return syscall(SYS_write, fd, p, n);
#endif
  sym_assert(fd == FD, "the socket of the channel is used");
  sym_assume(++calls <= maxCalls);
  if (failed || closes) afterEnd = true;
  if (fails()) {
    failed = true;
    errno = ECONNRESET;
    return -1;
  }
  if (huge) {
    sym_assert((const u8*)p == base + moved && n >= 1 && n <= total - moved, "the rest of the message is sent");
    n = amount(n);
    moved += n;
    return (ssize_t)n;
  }
  sym_assert(n > 0, "no empty write");
  n = amount(n);
  for (size_t i = 0; i < n; i++) wire[wireLen++] = ((const u8*)p)[i];
  return (ssize_t)n;
}
ssize_t read(int fd, void* p, size_t n) {
#ifndef VERIF_SYM
  if (fd != FD) return syscall(SYS_read, fd, p, n);
#endif
  sym_assert(fd == FD, "the socket of the channel is used");
  sym_assume(++calls <= maxCalls);
  if (failed || eof || closes) afterEnd = true;
  if (fails()) {
    if (sym_concrete(sym_u8("eof") & 1)) {
      eof = true;
      return 0;
    }
    failed = true;
    errno = ECONNRESET;
    return -1;
  }
  if (huge) {
    sym_assert((u8*)p == (u8*)base + moved && n >= 1 && n <= total - moved, "the rest of the message is received");
    n = amount(n);
    moved += n;
    return (ssize_t)n;
  }
  sym_assert(n > 0, "no empty read");
  n = amount(n);
  for (size_t i = 0; i < n; i++) ((u8*)p)[i] = wire[moved++];
  return (ssize_t)n;
}
int close(int fd) {
#ifndef VERIF_SYM
  if (fd != FD) return (int)syscall(SYS_close, fd);
#endif
  sym_assert(fd == FD, "the socket of the channel is closed");
  closes++;
  return 0;
}
void h_send() {
  std::size_t n = sym_u8("n");
  sym_assume(n <= LEN);
  n = sym_concrete(n);
  u8* m = new u8[n];
  if (n) sym_mem(m, n, "m");
  {
    scl::TcpChannel c(FD);
    bool thrown = false;
    std::size_t cut = sym_u8("cut");
    sym_assume(cut <= n);
    cut = sym_concrete(cut);
    try {
      c.Send(m, cut);
      sym_assert(failed || wireLen == cut, "a send returns after the whole message was handed over");
      c.Send(m + cut, n - cut);
    } catch (const std::exception&) {
      thrown = true;
    }
    sym_assert(thrown == failed, "an error is raised exactly when the connection failed");
    sym_assert(!afterEnd, "a failed connection is not used again");
    sym_assert(thrown || wireLen == n, "every byte is sent");
    sym_assert(wireLen <= n, "nothing else is sent");
    for (std::size_t i = 0; i < wireLen; i++) sym_assert(wire[i] == m[i], "bytes are sent in order");
    sym_assert(c.Alive() && !closes, "sending does not close");
    sym_reach(thrown ? "failed" : "sent");
  }
  sym_assert(closes == 1, "destruction closes the socket once");
}
void h_recv() {
  std::size_t n = sym_u8("n");
  sym_assume(n <= LEN);
  n = sym_concrete(n);
  sym_mem(wire, sizeof wire, "wire");
  u8* d = new u8[n];
  memset(d, 0xEE, n);
  {
    scl::TcpChannel c(FD);
    bool thrown = false;
    std::size_t cut = sym_u8("cut");
    sym_assume(cut <= n);
    cut = sym_concrete(cut);
    try {
      c.Recv(d, cut);
      sym_assert(failed || eof || moved == cut, "a receive returns exactly the requested number of bytes");
      c.Recv(d + cut, n - cut);
    } catch (const std::exception&) {
      thrown = true;
    }
    sym_assert(thrown == (failed || eof), "an error is raised exactly when the connection failed or ended early");
    sym_assert(!afterEnd, "an ended connection is not used again");
    sym_assert(thrown || moved == n, "exactly the requested bytes are consumed");
    for (std::size_t i = 0; i < n; i++) sym_assert(thrown || d[i] == wire[i], "bytes are received in order");
    sym_assert(c.Alive() && !closes, "receiving does not close");
    sym_reach(thrown ? "failed" : "received");
  }
  sym_assert(closes == 1, "destruction closes the socket once");
}
// messages of any 64-bit size, moved in up to 3 pieces of any size
void h_huge() {
  huge = true;
  maxCalls = 3;
  total = sym_u64("n");
  sym_assume(total < (std::size_t)1 << 46);
  base = new u8[1];
  scl::TcpChannel c(FD);
  bool thrown = false, rd = sym_concrete(sym_u8("dir") & 1);
  try {
    if (rd) c.Recv((u8*)base, total); else c.Send(base, total);
  } catch (const std::exception&) {
    thrown = true;
  }
  sym_assert(thrown == (failed || eof), "an error is raised exactly when the connection failed or ended early");
  sym_assert(thrown || moved == total, "exactly the requested bytes are moved");
  sym_reach(thrown ? "failed" : rd ? "received" : "sent");
}
void h_close() {
  {
    scl::TcpChannel c(FD);
    sym_assert(c.Alive(), "a new channel is alive");
    if (sym_concrete(sym_u8("close") & 1)) {
      c.Close();
      sym_assert(!c.Alive() && closes == 1, "closing closes the socket");
      c.Close();
      sym_assert(!c.Alive() && closes == 1, "closing again does nothing");
    }
  }
  sym_assert(closes == 1, "the socket is closed exactly once");
  sym_reach("end");
}
}

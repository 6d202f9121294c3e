// The channel with a background sender, over the socket model, under every
// interleaving of the sender, the caller and the peer.
#include <memory>
#include <thread>
#include "netmodel.h"
#include "scl/net/threaded_sender.h"
#ifndef NM
#define NM 2
#endif
using u8 = unsigned char;
static u8 msg[NM][3];
static unsigned len(unsigned i) { return 1 + i % 3; }
static unsigned sendAll(scl::Channel& c) {
  unsigned t = 0;
  for (unsigned i = 0; i < NM; i++) {
    for (unsigned j = 0; j < len(i); j++) msg[i][j] = sym_u8("m");
    c.Send(msg[i], len(i));
    t += len(i);
  }
  return t;
}
static void compare(const nm::Sock& peer, unsigned total) {
  sym_assert(peer.tail == total, "everything sent before closing is delivered");
  unsigned k = 0;
  for (unsigned i = 0; i < NM; i++)
    for (unsigned j = 0; j < len(i); j++, k++) sym_assert(k >= peer.tail || peer.in[k] == msg[i][j], "messages are delivered in order, once");
}
extern "C" {
// send, close: everything arrives before the socket is closed
void h_close() {
  int fd[2];
  nm::pair(fd);
  unsigned total;
  {
    scl::ThreadedSenderChannel c(fd[0]);
    total = sendAll(c);
    c.Close();
    compare(nm::at(fd[1]), total);
    sym_assert(nm::at(fd[0]).closed, "closing closes the socket");
  }
  sym_assert(nm::at(fd[0]).closes == 1, "the socket is closed once");
  sym_reach("end");
}
// send, let the peer read everything, close (works however closing treats pending data)
void h_read() {
  int fd[2];
  nm::pair(fd);
  scl::ThreadedSenderChannel c(fd[0]);
  unsigned total = sendAll(c);
  u8 got[NM * 3];
  for (unsigned k = 0; k < total;) {
    ssize_t r = read(fd[1], got + k, total - k);
    sym_assert(r > 0, "the connection stays open");
    k += (unsigned)r;
  }
  unsigned k = 0;
  for (unsigned i = 0; i < NM; i++)
    for (unsigned j = 0; j < len(i); j++, k++) sym_assert(got[k] == msg[i][j], "messages are delivered in order, once");
  u8 back = sym_u8("back"), b = 0;
  write(fd[1], &back, 1);
  c.Recv(&b, 1);
  sym_assert(b == back, "receiving works while the sender runs");
  c.Close();
  sym_assert(nm::at(fd[1]).tail == total, "nothing else is sent");
  sym_assert(nm::at(fd[0]).closed && nm::at(fd[0]).closes == 1, "closing closes the socket once");
  sym_reach("end");
}
// sending returns although the socket takes nothing
void h_nowait() {
  int fd[2];
  nm::pair(fd);
  scl::ThreadedSenderChannel c(fd[0]);
  nm::blockWrites = true;
  unsigned total = sendAll(c);
  sym_assert(nm::at(fd[1]).tail == 0, "the socket took nothing");
  nm::unblock();
  c.Close();
  compare(nm::at(fd[1]), total);
  sym_reach("end");
}
// destruction without closing
void h_destroy() {
  int fd[2];
  nm::pair(fd);
  unsigned total;
  {
    scl::ThreadedSenderChannel c(fd[0]);
    total = sendAll(c);
  }
  compare(nm::at(fd[1]), total);
  sym_assert(nm::at(fd[0]).closes == 1, "the socket is closed once");
  sym_reach("end");
}
// a connection that breaks: closing returns and nothing is sent twice
void h_broken() {
  int fd[2];
  nm::pair(fd);
  {
    scl::ThreadedSenderChannel c(fd[0]);
    nm::dead = sym_concrete(sym_u8("when") & 1);
    unsigned total = sendAll(c);
    nm::dead = true;
    try {
      c.Close();
    } catch (const std::exception&) {
    }
    sym_assert(nm::at(fd[1]).tail <= total, "nothing is sent twice");
  }
  sym_reach("end");
}
}

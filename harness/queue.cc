// The shared queue under every interleaving.
#include <thread>
#include <vector>
#include "sym.h"
#include "scl/net/shared_deque.h"
#ifndef NP
#define NP 1
#endif
#ifndef NC
#define NC 1
#endif
#ifndef PER
#define PER 2
#endif
using Q = scl::details::SharedDeque<std::vector<unsigned char>>;
using V = std::vector<unsigned char>;
extern "C" {
// one thread: order and size, through every way to add and remove
void h_seq() {
  Q q;
  unsigned char x = sym_u8("x");
  V a{x};
  q.PushBack(a);
  q.PushBack(V{(unsigned char)(x + 1), 7});
  q.PushBack(V{});
  sym_assert(q.Size() == 3, "size is the number of elements held");
  sym_assert(q.Peek() == a && q.Size() == 3, "peeking gives the oldest element and keeps it");
  sym_assert(q.Pop() == a && q.Size() == 2, "pop removes the oldest element");
  sym_assert(q.Peek().size() == 2 && q.Peek()[0] == (unsigned char)(x + 1), "next element follows");
  q.PopFront();
  sym_assert(q.Size() == 1 && q.Pop().empty() && q.Size() == 0, "the last element");
  q.PushBack(a);
  sym_assert(q.Pop() == a, "usable after running empty");
  sym_assert(a[0] == x, "pushing a copy leaves the original");
  sym_reach("end");
}
// NP producers with PER elements each, NC consumers taking all of them
void h_threads() {
  Q q;
  std::vector<V> got[NC];
  std::vector<std::thread> ts;
  unsigned left = NP * PER;
  for (unsigned p = 0; p < NP; p++)
    ts.emplace_back([&q, p] {
      for (unsigned i = 0; i < PER; i++) {
        V v{(unsigned char)p, (unsigned char)i};
        if (i & 1) q.PushBack(v); else q.PushBack(std::move(v));
      }
    });
  for (unsigned c = 0; c < NC; c++) {
    unsigned n = c + 1 == NC ? left : NP * PER / NC;
    left -= n;
    auto work = [&q, &got, c, n] {
      for (unsigned i = 0; i < n; i++) {
        if (NC == 1 && (i & 1)) {
          got[c].push_back(q.Peek());
          q.PopFront();
        } else got[c].push_back(q.Pop());
      }
    };
    if (c + 1 == NC) work(); else ts.emplace_back(work);
  }
  for (auto& t : ts) t.join();
  unsigned seen[NP][PER] = {{0}};
  for (auto& g : got) {
    int last[NP];
    for (auto& l : last) l = -1;
    for (auto& v : g) {
      sym_assert(v.size() == 2 && v[0] < NP && v[1] < PER, "only pushed elements come out");
      if (v.size() != 2 || v[0] >= NP || v[1] >= PER) return;
      seen[v[0]][v[1]]++;
      sym_assert((int)v[1] > last[v[0]], "elements of one producer come out in order");
      last[v[0]] = v[1];
    }
  }
  for (auto& s : seen) for (unsigned n : s) sym_assert(n == 1, "every element comes out exactly once");
  sym_assert(q.Size() == 0, "the queue is empty");
  sym_reach("end");
}
}

// Replays a schedule found by the executor: threads are coroutines, switched
// at the same points and by the same rule as in the executor.
#include <ucontext.h>
#include <unistd.h>
#include <cstdio>
#include <cstdlib>
#include <vector>
#include "sym.h"
std::vector<int> native_schedule;
long native_preempt = 1000;
namespace {
struct Th {
  ucontext_t ctx;
  bool done = false, waiting = false;
  const void* addr = nullptr;
  void (*fn)(void*) = nullptr;
  void* arg = nullptr;
};
std::vector<Th*> th;
unsigned cur = 0;
size_t spos = 0;
long preempt = 0;
void init() { if (th.empty()) th.push_back(new Th); }
int next(int dflt) {
  if (spos >= native_schedule.size()) return dflt;
  return native_schedule[spos++];
}
void die(const char* s, int c) {
  printf("%s\n", s);
  fflush(stdout);
  _exit(c);
}
void pick() {
  std::vector<unsigned> run;
  for (unsigned i = 0; i < th.size(); i++) if (!th[i]->done && !th[i]->waiting) run.push_back(i);
  if (run.empty()) die("REPLAY-DEADLOCK", 14);
  bool curRun = !th[cur]->done && !th[cur]->waiting;
  unsigned to;
  if (run.size() == 1) to = run[0];
  else if (curRun && preempt >= native_preempt) return;
  else {
    unsigned first = curRun ? cur : run[0];
    to = (unsigned)next((int)first);
    if (to >= th.size() || th[to]->done || th[to]->waiting) die("REPLAY-MISMATCH schedule", 21);
    if (curRun && to != cur) preempt++;
  }
  if (to == cur) return;
  unsigned from = cur;
  cur = to;
  swapcontext(&th[from]->ctx, &th[to]->ctx);
}
void body() {
  Th* t = th[cur];
  t->fn(t->arg);
  t->done = true;
  for (auto* o : th) if (o->waiting && o->addr == (const void*)(0xF000 + (long)cur)) o->waiting = false;
  pick();
  abort();
}
}  // namespace
extern "C" {
void __sym_spawn(void (*fn)(void*), void* arg) {
  init();
  Th* t = new Th;
  t->fn = fn;
  t->arg = arg;
  getcontext(&t->ctx);
  t->ctx.uc_stack.ss_size = 1 << 20;
  t->ctx.uc_stack.ss_sp = malloc(1 << 20);
  t->ctx.uc_link = nullptr;
  makecontext(&t->ctx, body, 0);
  th.push_back(t);
}
void __sym_yield() { init(); pick(); }
void __sym_wait(const void* a) {
  init();
  th[cur]->waiting = true;
  th[cur]->addr = a;
  pick();
}
void __sym_wake(const void* a, int all) {
  init();
  std::vector<unsigned> w;
  for (unsigned i = 0; i < th.size(); i++) if (!th[i]->done && th[i]->waiting && th[i]->addr == a) w.push_back(i);
  if (all) for (unsigned i : w) th[i]->waiting = false;
  else if (w.size() == 1) th[w[0]]->waiting = false;
  else if (w.size() > 1) {
    unsigned k = (unsigned)next((int)w[0]);
    if (k < th.size()) th[k]->waiting = false;
  }
}
int __sym_self() { init(); return (int)cur; }
int __sym_finished(int t) { init(); return th[(unsigned)t]->done; }
}

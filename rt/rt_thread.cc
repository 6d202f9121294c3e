// Threads, mutexes and condition variables on top of a cooperative scheduler:
// that of the executor, or that of native_sched.cc when a schedule is replayed.
#include <cstddef>
#include <cstdint>
#include <condition_variable>
#include <future>
#include <mutex>
#include <thread>
#include "sym.h"
namespace std {
// ---- threads, on top of the executor's cooperative scheduler
template <class St>
struct ThreadTramp { static void run(void* p) { auto* s = (St*)p; s->_M_run(); delete s; } };
thread::_State::~_State() {}
void thread::_M_start_thread(_State_ptr s, void (*)()) {
  static int n = 0;
  // executor thread ids are assigned sequentially from 1
  n++;
  _M_id = id((unsigned long)n);
  __sym_spawn(&ThreadTramp<_State>::run, s.release());
  __sym_yield();
}
void thread::join() {
  unsigned long n = *(unsigned long*)&_M_id;
  if (!n) __builtin_trap();
  while (!__sym_finished((int)n)) __sym_wait((void*)(0xF000 + n));
  _M_id = id();
}
void thread::detach() { _M_id = id(); }
condition_variable::condition_variable() noexcept {}
condition_variable::~condition_variable() noexcept {}
extern "C" int pthread_mutex_lock(pthread_mutex_t* m) {
  __sym_yield();
  while (m->__data.__lock) __sym_wait(m);
  m->__data.__lock = 1;
  m->__data.__owner = __sym_self();
  return 0;
}
extern "C" int pthread_mutex_trylock(pthread_mutex_t* m) {
  __sym_yield();
  if (m->__data.__lock) return 16;
  m->__data.__lock = 1;
  return 0;
}
extern "C" int pthread_mutex_unlock(pthread_mutex_t* m) {
  m->__data.__lock = 0;
  __sym_wake(m, 1);
  return 0;
}
void condition_variable::notify_one() noexcept { __sym_yield(); __sym_wake(this, 0); }
void condition_variable::notify_all() noexcept { __sym_yield(); __sym_wake(this, 1); }
void condition_variable::wait(unique_lock<mutex>& l) {
  l.mutex()->native_handle()->__data.__lock = 0;
  __sym_wake(l.mutex()->native_handle(), 1);
  __sym_wait(this);
  while (l.mutex()->native_handle()->__data.__lock) __sym_wait(l.mutex()->native_handle());
  l.mutex()->native_handle()->__data.__lock = 1;
}
}  // namespace std
extern "C" int pthread_cond_destroy(pthread_cond_t*) { return 0; }
extern "C" int pthread_once(pthread_once_t* c, void (*f)()) {
  while (*c == 1) __sym_wait(c);
  if (*c == 2) return 0;
  *c = 1;
  try {
    f();
  } catch (...) {
    *c = 0;
    __sym_wake(c, 1);
    throw;
  }
  *c = 2;
  __sym_wake(c, 1);
  return 0;
}
namespace std {
bool __atomic_futex_unsigned_base::_M_futex_wait_until(unsigned* a, unsigned v, bool, chrono::seconds, chrono::nanoseconds) {
  while (__atomic_load_n(a, __ATOMIC_SEQ_CST) == v) __sym_wait(a);
  return true;
}
void __atomic_futex_unsigned_base::_M_futex_notify_all(unsigned* a) {
  __sym_yield();
  __sym_wake(a, 1);
}
#ifdef VERIF_SYM
__thread void* __once_callable;
__thread void (*__once_call)();
extern "C" void __once_proxy(void) { __once_call(); }
__future_base::_Result_base::_Result_base() : _M_error() {}
__future_base::_Result_base::~_Result_base() {}
future_error::~future_error() noexcept {}
const char* future_error::what() const noexcept { return "future"; }
void __throw_future_error(int) { throw runtime_error("future"); }
namespace __exception_ptr {
void exception_ptr::_M_addref() noexcept {}
void exception_ptr::_M_release() noexcept {}
}
exception_ptr current_exception() noexcept {
  exception_ptr p;
  *(void**)&p = (void*)0x10;
  return p;
}
void rethrow_exception(exception_ptr) { throw runtime_error("stored exception"); }
#endif
}  // namespace std

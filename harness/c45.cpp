#include "vf.h"
#include <hsmcpp/os/AtomicFlag.hpp>
#include <hsmcpp/os/ConditionVariable.hpp>
#include <hsmcpp/os/UniqueLock.hpp>
using namespace hsmcpp;
static AtomicFlag* f; static bool initial; static bool changed; static int returned;
static Mutex* m; static ConditionVariable* cv; static bool ready, notifyOutside; static int value;
static void waiter(void*) { f->wait(initial); vf_assert(changed, "wait returns only after a change"); returned++; }
static void flip() { { UniqueLock g(f->lock()); vf_assert(g.owns_lock(), "lock() locks"); changed = true; bool before = initial; if (initial) f->clear(); else before = f->test_and_set(); vf_assert(before == initial, "previous value"); vf_assert(f->test() != initial, "new value"); } f->notify(); }
static void changer(void*) { flip(); }
static void cvWaiter(void* p) {
  bool timed = p != nullptr; UniqueLock l(*m); auto pred = []() { return ready; }; uint64_t t0 = vf_clock();
  if (!timed) { cv->wait(l, pred); vf_assert(ready, "predicate holds"); returned++; }
  else { bool r = cv->wait_for(l, 5, pred); if (r) { vf_assert(ready, "predicate holds"); vf_reach("woken"); } else { vf_assert(vf_clock() - t0 >= 5000000, "not before the time-out"); vf_reach("timed_out"); } returned++; }
  vf_assert(!l.owns_lock(), "lock is released"); 
}
static void cvNotifier(void*) { { UniqueLock l(*m); ready = true; if (!notifyOutside) cv->notify(); } if (notifyOutside) cv->notify(); }
extern "C" void harness() {
  vf_opt("preempt", vf_param("preempt", 3)); vf_opt("spurious", 1); returned = 0; changed = false; ready = false;
  int mode = vf_param("mode", 0);
  if (mode == 0) {   // sequences on one thread
    AtomicFlag x; bool v = false; vf_assert(!x.test(), "initially clear");
    for (int i = 0; i < vf_param("ops", 4); i++) switch (vf_pick("op", 0, 4)) { case 0: vf_assert(x.test_and_set() == v, "previous value"); v = true; vf_reach("set"); break; case 1: x.clear(); v = false; break; case 2: x.wait(!v); break; case 3: x.notify(); break; default: { UniqueLock a = x.lock(); vf_assert(a.owns_lock() && vf_mutex_locked(&a.mutex()->nativeHandle()), "lock() locks"); break; } }
    vf_assert(x.test() == v, "value"); vf_assert(vf_mutexes_held() == 0, "no lock is left behind");
    Mutex mm; ConditionVariable c; UniqueLock l(mm); bool yes = vf_bool("predicate"); uint64_t t0 = vf_clock(); int ms = vf_pick("ms", 0, 2) * 5; bool r = c.wait_for(l, ms, [&]() { return yes; }); vf_assert(r == yes, "timed wait returns the predicate"); vf_assert(yes || vf_clock() - t0 >= static_cast<uint64_t>(ms) * 1000000, "not before the time-out"); vf_assert(!l.owns_lock() && !vf_mutex_locked(&mm.nativeHandle()), "lock is released");
    l.lock(); c.wait(l, []() { return true; }); vf_assert(!l.owns_lock() && !vf_mutex_locked(&mm.nativeHandle()), "lock is released"); { UniqueLock n(mm); n.unlock(); c.wait_for(n, 0, []() { return true; }); vf_assert(!n.owns_lock() && !vf_mutex_locked(&mm.nativeHandle()), "lock is released"); }
  } else if (mode == 1) {   // threads waiting for a flag
    AtomicFlag x; f = &x; vf_watch(&x, sizeof x, 2, "the flag"); initial = vf_bool("initial"); if (initial) x.test_and_set(); int n = vf_pick("waiters", 1, 2);
    uint64_t a = vf_thread_create(waiter, nullptr), c = vf_thread_create(changer, nullptr), b = n > 1 ? vf_thread_create(waiter, nullptr) : 0; vf_thread_join(a); if (n > 1) vf_thread_join(b); vf_thread_join(c); vf_assert(returned == n, "all return");
  } else {   // condition variable
    Mutex mm; ConditionVariable c; m = &mm; cv = &c; vf_watch(&ready, sizeof ready, 3, "the condition"); notifyOutside = vf_bool("notify_outside"); vf_opt("timeouts", 1); bool timed = vf_bool("timed"), two = vf_bool("two");
    uint64_t a = vf_thread_create(cvWaiter, timed ? &mm : nullptr), n = vf_thread_create(cvNotifier, nullptr), b = two ? vf_thread_create(cvWaiter, nullptr) : 0; vf_thread_join(a); if (two) vf_thread_join(b); vf_thread_join(n); vf_assert(returned == 1 + two, "all return"); vf_assert(!vf_mutex_locked(&mm.nativeHandle()), "mutex is free");
  }
  vf_reach("end");
}

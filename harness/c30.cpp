#include "std.h"
// The standard dispatcher is stopped, joined and destroyed at any moment.
static S* d; static int hA, hE, hT; static bool gone; static int fromHandler; static volatile int calls;
static void touch() { if (gone) vf_fail("a handler runs after the dispatcher was destroyed"); calls = calls + 1; }
static void act(int k) {
  if (k == 1) d->emitEvent(hA); else if (k == 2) d->enqueueEvent(hE, 7); else if (k == 3) d->enqueueAction([]() { touch(); }); else if (k == 4) d->startTimer(hT, 1, 2, false); else if (k == 5) d->stopTimer(1); else if (k == 6) d->stop();
}
static void worker(void* p) { act(static_cast<int>(reinterpret_cast<long>(p))); }
extern "C" void harness() {
  vf_opt("preempt", vf_param("preempt", 2)); vf_opt("idle_timeouts", 3); vf_opt("yield_unlock", vf_param("yield", 0)); gone = false; calls = 0;
  std::shared_ptr<S> sp = S::create(2); d = sp.get(); fromHandler = vf_range("from_handler", 0, 6);
  hA = d->registerEventHandler([]() { touch(); if (calls < 3) act(fromHandler); return true; }); hE = d->registerEnqueuedEventHandler([](const EventID_t) { touch(); return true; }); hT = d->registerTimerHandler([](const TimerID_t) { touch(); if (fromHandler == 1) act(1); return true; });
  int before = vf_range("before", 0, 4); if (before == 2 || before == 4) act(before);
  bool started = vf_pick("started", 0, 1); if (started) vf_assert(d->start(), "start");
  int k1 = vf_range("first", 0, 6), k2 = vf_range("parallel", 0, 6); act(k1); uint64_t t = 0; bool par = k2 != 0; if (par) t = vf_thread_create(worker, reinterpret_cast<void*>(static_cast<long>(k2)));
  if (vf_pick("expire", 0, 1)) vf_clock_advance(2000000);
  int how = vf_range("how", 0, 2);
  if (how == 0) { d->stop(); if (par) vf_thread_join(t); d->join(); int c = calls; vf_quiesce(); vf_assert(calls == c, "no handler runs after join"); sp.reset(); }
  else if (how == 1) { if (par) vf_thread_join(t); sp.reset(); }
  else { d->stop(); d->stop(); if (par) vf_thread_join(t); sp.reset(); }
  gone = true; vf_quiesce(); vf_reach("end");
}

#include "vf.h"
#include <memory>
#include <hsmcpp/hsm.hpp>
#include <hsmcpp/HsmEventDispatcherSTD.hpp>
using namespace hsmcpp;
// Sending, timers (started, stopped, expiring), handler registration, release and stop in parallel: nothing blocks forever.
static HierarchicalStateMachine* h; static HsmEventDispatcherSTD* d; static int inCallback, cbCalls, timerSeen; static int hid;
static void act(int k) {
  switch (k) {
    case 0: break;
    case 1: h->transition(100); break;
    case 2: h->startTimer(1, 2, true); break;
    case 3: h->stopTimer(1); break;
    case 4: h->restartTimer(1); break;
    case 5: (void)h->isTimerRunning(1); break;
    case 6: (void)h->transitionInterruptSafe(100); break;
    case 7: { int x = d->registerEventHandler([]() { return true; }); int t = d->registerTimerHandler([](const TimerID_t) { return true; }); d->startTimer(t, 7, 1, false); d->unregisterTimerHandler(t); d->unregisterEventHandler(x); break; }
    case 8: d->stop(); break;
    case 9: h->release(); break;
    case 10: (void)h->isTransitionPossible(100); break;
    default: d->enqueueAction([]() {}); break;
  }
}
static void worker(void* p) { act(static_cast<int>(reinterpret_cast<long>(p))); }
static void cb() { if (cbCalls++ < 2) act(inCallback); }
extern "C" void harness() {
  vf_opt("preempt", vf_param("preempt", 1)); vf_opt("idle_timeouts", 3); cbCalls = 0; timerSeen = 0;
  std::shared_ptr<HsmEventDispatcherSTD> sp = HsmEventDispatcherSTD::create(2); d = sp.get(); h = new HierarchicalStateMachine(1);
  h->registerState(1, [](const VariantVector_t&) { cb(); }); h->registerState(2, nullptr, [](const VariantVector_t&) { cb(); return true; }, nullptr);
  h->registerTransition(1, 2, 100); h->registerTransition(2, 1, 100); h->registerSelfTransition(1, 101, TransitionType::INTERNAL_TRANSITION, [](const VariantVector_t&) { timerSeen++; }); h->registerSelfTransition(2, 101, TransitionType::INTERNAL_TRANSITION, [](const VariantVector_t&) { timerSeen++; });
  h->registerTimer(1, 101);
  int scope = static_cast<int>(vf_param("scope", 0));   // 0: plain callbacks, 1: acting callbacks, 2: everything
  inCallback = scope == 0 ? 0 : vf_range("in_callback", scope == 1 ? 2 : 0, scope == 1 ? 5 : 6);
  vf_assert(h->initialize(sp), "initialize"); int first = scope == 1 ? 3 : vf_range("first", 0, 3); if (scope == 0) vf_assume(first == 0 || first == 3); if (first == 3) act(2); else act(first);
  int k1 = vf_range("main", 1, scope == 1 ? 2 : 11), k2 = vf_range("parallel", 1, 8); if (scope == 1) vf_assume(k2 == 1 || k2 == 2 || k2 == 8);
  uint64_t t = vf_thread_create(worker, reinterpret_cast<void*>(static_cast<long>(k2)));
  if (vf_range("expire", 0, 1)) vf_clock_advance(2000000);
  act(k1); vf_thread_join(t);
  if (k1 != 8 && k2 != 8 && k1 != 9) { vf_clock_advance(3000000); vf_quiesce(); int before = cbCalls; if (inCallback == 0) { h->transition(100); vf_quiesce(); vf_assert(cbCalls > before, "the machine still processes events"); } vf_reach("alive"); }
  h->release(); d->stop(); d->join(); delete h; vf_reach("end");
}

#include "kit.h"
#include <cstring>
// Release or destruction of machine A at any point (from outside or by an enqueued action) with work of every kind pending, next to machine B on the same dispatcher.
static int got[2][4], dead; static HierarchicalStateMachine* h[2];
static void kill_(int how) { if (dead) return; dead = how; if (how == 1) h[0]->release(); else { delete h[0]; h[0] = nullptr; } }
extern "C" void harness() {
  const int N = vf_param("ops", 4), M = vf_param("after", 2); memset(got, 0, sizeof got); dead = 0; std::shared_ptr<D> d = D::create(2); D* raw = d.get(); int order = vf_bool("A_first") ? 0 : 1;
  for (int q = 0; q < 2; q++) {
    h[q] = new HierarchicalStateMachine(1); auto cb = [q](int w) { return [q, w](const VariantVector_t&) { if (q == 0 && dead) vf_fail("callback of a released machine"); got[q][w]++; }; };
    h[q]->registerState(1); h[q]->registerState(2, cb(0)); h[q]->registerState(3, cb(1)); h[q]->registerSubstateEntryPoint(2, 3); h[q]->registerTransition(1, 2, 100); h[q]->registerTransition(2, 1, 100);
    h[q]->registerState(1, nullptr, nullptr, [q]() { if (q == 0 && dead) vf_fail("callback of a released machine"); return true; });
    h[q]->registerSelfTransition(2, 101, TransitionType::INTERNAL_TRANSITION, cb(2)); h[q]->registerSelfTransition(1, 101, TransitionType::INTERNAL_TRANSITION, cb(2));
    h[q]->registerSelfTransition(1, 102, TransitionType::INTERNAL_TRANSITION, cb(3)); h[q]->registerSelfTransition(2, 102, TransitionType::INTERNAL_TRANSITION, cb(3));
    h[q]->registerFailedTransitionCallback([q](const std::list<StateID_t>&, const EventID_t, const VariantVector_t&) { if (q == 0 && dead) vf_fail("callback of a released machine"); });
    h[q]->registerTimer(q + 1, 102);
  }
  vf_assert(h[order]->initialize(d) && h[1 - order]->initialize(d), "initialize"); d->drain();
  int sent[2] = {0, 0}, ints[2] = {0, 0}, timers = 0, slots = 2; bool run_since = false;
  bool dgone = false; int killAt = vf_pick("kill_at", 0, N - 1), how = vf_pick("how", 0, 4);   // 0 release, 1 destroy, 2/3 the same by an action, 4 dispatcher destroyed first
  for (int i = 0; i < N + M; i++) {
    if (i == killAt) {
      if (how < 2) kill_(how + 1); else if (how < 4) { int w = how - 1; d->enqueueAction([w]() { kill_(w); }); vf_reach("by_action"); }
      else { d.reset(); dgone = true; dead = 3; vf_assert(!h[0]->isInitialized() && !h[1]->isInitialized(), "machines whose dispatcher is gone are not initialized"); break; }
      if (dead && d) vf_reach(dead == 1 ? "released" : "destroyed");
    }
    int op = vf_pick("op", 0, 5), q = vf_pick("machine", 0, 1); if (!h[q]) vf_assume(0); bool off = (q == 0 && dead);
    if (op == 0) { h[q]->transition(100); if (q == 1) sent[1]++; }
    else if (op == 1) { bool ok = h[q]->transitionEx(101, vf_bool("clear"), false, 0, 5); vf_assert(ok == !off, "a released machine accepts no events"); if (q == 1) vf_assume(0); }
    else if (op == 2) { bool ok = h[q]->transitionInterruptSafe(101); vf_assert(ok == (!off && slots > 0), "a released machine accepts no interrupt-safe events"); if (ok) { slots--; ints[q]++; } }
    else if (op == 3) { h[q]->startTimer(q + 1, 10, vf_bool("single")); vf_assert(h[q]->isTimerRunning(q + 1) == !off, "a released machine starts no timers"); }
    else if (op == 4) { bool on = h[q] && h[q]->isTimerRunning(q + 1); raw->expire(q + 1); if (q == 1 && on) timers++; }
    else { d->run(); slots = 2; run_since = true; }
    if (dead) { if (h[0]) { vf_assert(!h[0]->isInitialized(), "a released machine is not initialized"); vf_assert(!h[0]->transitionSync(100, 5), "a released machine accepts no synchronous events"); } vf_assert(!d->timer(1) || !d->timer(1)->on || d->timer(1)->single, "timers of the machine are stopped"); vf_assert(d->expire(1) == 0, "timers of the machine are gone"); }
  }
  if (!dgone) {
    if (!dead) d->drain();
    d->drain(); vf_assert(d->pendingCount() == 0 && d->enqueuedCount() == 0, "the dispatcher works off everything");
    int e100 = sent[1]; vf_assert(got[1][2] == ints[1], "interrupt-safe events of the other machine are all processed"); vf_assert(got[1][3] == timers, "timer events of the other machine are all processed"); vf_assert(got[1][0] == (e100 + 1) / 2 && got[1][1] == (e100 + 1) / 2, "events of the other machine are all processed");
    vf_assert(h[1]->isStateActive(e100 % 2 ? 3 : 1), "the other machine is in the right state");
  } else { for (int q = 0; q < 2; q++) { h[q]->transition(100); vf_assert(!h[q]->transitionInterruptSafe(100) && !h[q]->transitionSync(100, 5), "no dispatcher: calls fail without effect"); h[q]->startTimer(1, 5, true); h[q]->stopTimer(1); h[q]->restartTimer(1); vf_assert(!h[q]->isTimerRunning(1), "no timers"); if (vf_bool("release_after")) h[q]->release(); } vf_reach("dispatcher_first"); }
  delete h[0]; delete h[1]; (void)run_since; vf_reach("end");
}

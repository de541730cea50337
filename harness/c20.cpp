#include "kit.h"
// Initialization: initial state (default, replaced or composite), entry points with conditions, events already sent, refusing dispatchers, repeats.
struct RD : public D {
  bool refuseEvents = false, refuseTimers = false; int unreg = 0; explicit RD() : D(8) {}
  HandlerID_t registerEventHandler(const EventHandlerFunc_t& h) override { return refuseEvents ? INVALID_HSM_DISPATCHER_HANDLER_ID : D::registerEventHandler(h); }
  HandlerID_t registerTimerHandler(const TimerHandlerFunc_t& h) override { return refuseTimers ? INVALID_HSM_DISPATCHER_HANDLER_ID : D::registerTimerHandler(h); }
  size_t handlers() const { return handlersCount(); }
};
extern "C" void harness() {
  Pair p; Model& m = p.m; m.states(8);
  // 1{2{3,4},5,6} 7 8
  int g2 = vf_bool("conditional2") ? 0 : -1, g5 = vf_bool("conditional5") ? 1 : -1; int e5 = vf_bool("bound5") ? 100 : ANY;
  m.entry(1, 2, ANY, g2, true); m.entry(1, 5, e5, g5, vf_bool("expected")); m.entry(2, 3, ANY, g2 >= 0 ? 2 : -1, true); m.entry(2, 4, 100); m.sub(1, 6);
  m.tr(1, 7, 100); m.tr(7, 1, 100); m.self(1, 101, true); m.tr(8, 1, 100);
  for (int i = 0; i < 3; i++) m.g[i] = vf_bool("cond");
  static const int init[] = {1, 2, 7}; int ii = vf_pick("initial", 0, 2);
  p.k = new Kit(m, p.log); Kit& k = *p.k; k.install();
  if (ii) { k.hsm.setInitialState(init[ii]); m.initial = init[ii]; }
  vf_assert(!k.hsm.isInitialized(), "not initialized before"); 
  int bad = vf_pick("first_attempt", 0, 4);
  std::shared_ptr<RD> d(new RD(), [](RD* x) { x->stop(); delete x; });
  if (bad == 1) { std::weak_ptr<IHsmEventDispatcher> none; vf_assert(!k.hsm.initialize(none), "no dispatcher: initialization fails"); }
  if (bad == 2) { d->startOk = false; vf_assert(!k.hsm.initialize(d), "dispatcher cannot start: initialization fails"); d->startOk = true; }
  if (bad == 3) { d->refuseEvents = true; vf_assert(!k.hsm.initialize(d), "event handler refused: initialization fails"); d->refuseEvents = false; }
  if (bad == 4) { d->refuseTimers = true; vf_assert(!k.hsm.initialize(d), "timer handler refused: initialization fails"); d->refuseTimers = false; }
  if (bad) {
    vf_assert(p.log.n == 0, "a failed initialization runs no callbacks"); vf_assert(!k.hsm.isInitialized(), "a failed initialization leaves the machine uninitialized"); vf_assert(k.hsm.getActiveStates().empty(), "a failed initialization activates nothing");
    vf_assert(!k.hsm.transitionSync(100, 10), "an uninitialized machine accepts no events"); vf_assert(d->handlers() == 0, "no handlers are left behind"); vf_assert(!k.hsm.transitionInterruptSafe(100), "an uninitialized machine accepts no events"); vf_reach("failed_first");
    if (vf_bool("initial_changed_afterwards")) { k.hsm.setInitialState(7); m.initial = 7; }
  }
  // an event sent by the state-changed callback of the initial state waits until the entry points have been entered
  const bool fromCb = vf_bool("event_from_initial_callback"); if (fromCb) k.hook = [](Kit& kk, int kind, int id) { (void)id; if (kind == K_CHANGED) { kk.hook = nullptr; kk.hsm.transition(100, 77); vf_reach("from_callback"); } };
  k.d = d; bool ok = k.hsm.initialize(d); vf_assert(ok, "initialization succeeds"); vf_assert(k.hsm.isInitialized(), "initialized");
  vf_assert(p.log.n == 2 && p.log.e[0].kind == K_ENTER && p.log.e[0].id == m.initial && p.log.e[1].kind == K_CHANGED && p.log.e[1].id == m.initial && p.log.e[0].nargs == 0 && p.log.e[1].nargs == 0, "initialization runs the initial state's callbacks once");
  bool early = vf_bool("event_right_after"); int64_t x = vf_i64("arg"); if (early) { k.hsm.transition(100, x); }
  int rep = vf_pick("again", 0, 4); int n = p.log.n;
  if (rep == 1) { vf_assert(!k.hsm.initialize(d), "a second initialization is refused"); vf_assert(p.log.n == n, "a second initialization has no effect"); vf_reach("second"); }
  if (rep == 2) { k.hsm.setInitialState(8); vf_assert(!k.hsm.initialize(d), "a second initialization is refused"); vf_assert(p.log.n == n, "a second initialization has no effect"); }
  d->drain(); p.r = new Ref(m); p.r->start(); if (fromCb) p.r->event(100, 1, 77); if (early) { p.r->event(100, 1, x); vf_reach("early"); }
  p.sameMask("entry points of the initial state are entered once, before any event"); sameCounts(p.log, p.r->log, KALL | KB(K_FAILED), "callbacks of initialization"); alternation(m, p.log, k.mask());
  if (early || fromCb) { int t = p.log.find(K_TRANS, m.initial == 7 ? 1 : 0); for (int i = 0; t >= 0 && i < t; i++) vf_assert(p.log.e[i].nargs == 0, "entry at start has no arguments and comes before events"); }
  if (rep >= 3) { // an attempt after the configuration has been entered, with the same or with another dispatcher
    const uint64_t before = k.mask(); n = p.log.n; std::shared_ptr<RD> other(new RD(), [](RD* x) { x->stop(); delete x; });
    if (rep == 3) vf_assert(!k.hsm.initialize(d), "a later initialization is refused"); else { vf_assert(!k.hsm.initialize(other), "a later initialization with another dispatcher is refused"); vf_assert(other->handlers() == 0 && other->pendingCount() == 0, "the other dispatcher is left alone"); }
    d->drain(); other->drain(); vf_assert(p.log.n == n && k.mask() == before && k.hsm.isInitialized(), "a later initialization has no effect"); vf_reach("later");
  }
  if (!early) { k.send(101, x); p.r->event(101, 1, x); sameCounts(p.log, p.r->log, KALL | KB(K_FAILED), "events after initialization"); }
  vf_trace("mask", k.mask()); vf_reach("end");
}

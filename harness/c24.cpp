#include "kit.h"
// Interrupt-safe sends to two machines on one dispatcher with a small storage; release, dispatcher stop and dispatch rounds anywhere.
static int got[2][40], ng[2]; static bool alive[2];
extern "C" void harness() {
  const int N = vf_param("ops", 5); int cap = vf_pick("capacity", 1, 3); ng[0] = ng[1] = 0; alive[0] = alive[1] = true;
  std::shared_ptr<D> d = D::create(cap); HierarchicalStateMachine* h[2]; size_t capacity = d->enqueuedCapacity();
  for (int q = 0; q < 2; q++) { h[q] = new HierarchicalStateMachine(1); h[q]->registerState(1); for (int e = 0; e < 3; e++) h[q]->registerSelfTransition(1, 100 + e, TransitionType::INTERNAL_TRANSITION, [q, e](const VariantVector_t& a) { vf_assert(alive[q], "released machine"); vf_assert(a.empty(), "no arguments"); got[q][ng[q]++] = 100 + e; }); }
  vf_assert(!h[0]->transitionInterruptSafe(100), "not initialized: refused"); vf_assert(h[0]->initialize(d) && h[1]->initialize(d), "initialize"); d->drain();
  // an application handler which declines its events
  int declined = 0, wantDeclined = 0; HandlerID_t third = vf_bool("declining_handler") ? d->registerEnqueuedEventHandler([&declined](const EventID_t) { declined++; return false; }) : INVALID_HSM_DISPATCHER_HANDLER_ID;
  const bool mixed = vf_bool("ordinary_events_too");
  int want[2][40], nw[2] = {0, 0}; int st[40][2], ns = 0; bool stopped = false;
  for (int i = 0; i < N; i++) {
    int op = vf_pick("op", 0, third == INVALID_HSM_DISPATCHER_HANDLER_ID ? 4 : 5);
    if (op == 5) { bool r = d->enqueueEvent(third, 9); vf_assert(r == (ns < static_cast<int>(capacity)), "stored exactly while there is room"); if (r) { st[ns][0] = 2; st[ns][1] = 0; ns++; } vf_reach("declined"); }
    else
    if (op <= 1) { int q = op, e = 100 + vf_pick("event", 0, 2); bool r = h[q]->transitionInterruptSafe(e); if (!alive[q]) { vf_assert(!r, "released machine: refused"); continue; } vf_assert(r == (ns < static_cast<int>(capacity)), "stored exactly while there is room"); if (r) { vf_assert(d->notified, "dispatcher is woken up"); st[ns][0] = q; st[ns][1] = e; ns++; } else vf_reach("full"); }
    else if (op == 2) { if (mixed) h[1]->transition(999); d->drain(); if (!stopped) { for (int j = 0; j < ns; j++) if (st[j][0] == 2) wantDeclined++; else if (alive[st[j][0]]) { int q = st[j][0]; want[q][nw[q]++] = st[j][1]; } ns = 0; } }
    else if (op == 3) { if (!alive[0]) vf_assume(0); if (vf_bool("destroy")) { alive[0] = false; delete h[0]; h[0] = new HierarchicalStateMachine(1); } else { alive[0] = false; h[0]->release(); } vf_reach("released"); }
    else { if (stopped) vf_assume(0); d->stop(); stopped = true; vf_reach("stopped"); }
    vf_assert(d->enqueuedCapacity() == capacity, "the storage never grows"); vf_assert(static_cast<int>(d->enqueuedCount()) == ns, "undelivered events");
  }
  if (mixed) h[1]->transition(999); d->drain(); if (!stopped) { for (int j = 0; j < ns; j++) if (st[j][0] == 2) wantDeclined++; else if (alive[st[j][0]]) { int q = st[j][0]; want[q][nw[q]++] = st[j][1]; } }
  for (int q = 0; q < 2; q++) { vf_assert(ng[q] == nw[q], "every stored event is delivered exactly once"); for (int j = 0; j < nw[q]; j++) if (got[q][j] != want[q][j]) vf_fail("delivery in the order sent"); }
  vf_assert(declined == wantDeclined, "every stored event is delivered exactly once"); delete h[0]; delete h[1]; vf_reach("end");
}

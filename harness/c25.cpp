#include "disp.h"
#include <cstring>
// Registration and unregistration of event, enqueued-event and timer handlers, from outside and from handlers, in any order with emitted work.
static int ids[3][4], n[3], calls[3][4]; static bool live[3][4]; static D* gd;
static struct { int kind, who; bool on, self; } act;     // what the handler does when it is called: unregister handler (kind, who)
static void unreg(int kind, int id) { if (kind == 0) gd->unregisterEventHandler(id); else if (kind == 1) gd->unregisterEnqueuedEventHandler(id); else gd->unregisterTimerHandler(id); }
static bool called(int kind, int i) {
  calls[kind][i]++;
  if (act.on && kind != 2) { act.on = false; if (act.who < n[act.kind] && live[act.kind][act.who]) { unreg(act.kind, ids[act.kind][act.who]); live[act.kind][act.who] = false; vf_reach("from_handler"); } }
  return true;
}
static void reg(int kind) {
  int i = n[kind]; int id;
  if (kind == 0) id = gd->registerEventHandler([i]() { return called(0, i); }); else if (kind == 1) id = gd->registerEnqueuedEventHandler([i](const EventID_t) { return called(1, i); }); else id = gd->registerTimerHandler([i](const TimerID_t) { return called(2, i); });
  vf_assert(id != INVALID_HSM_DISPATCHER_HANDLER_ID, "registration returns a valid id");
  for (int k = 0; k < 3; k++) for (int j = 0; j < n[k]; j++) vf_assert(ids[k][j] != id, "registration returns an id never handed out before");
  ids[kind][i] = id; live[kind][i] = true; n[kind]++;
}
extern "C" void harness() {
  memset(ids, 0, sizeof ids); memset(n, 0, sizeof n); memset(calls, 0, sizeof calls); memset(live, 0, sizeof live); act.on = false;
  std::shared_ptr<D> d = D::create(); gd = d.get(); const int N = vf_param("ops", 4);
  int foreign = vf_i32("unknown_id"); reg(0); reg(1); reg(2); if (vf_bool("two_events")) reg(0); else reg(1); reg(2);
  bool timer = vf_bool("timer_started"); if (timer) { d->startTimer(ids[2][0], 7, 100, false); d->startTimer(ids[2][1], 8, 50, false); }
  for (int i = 0; i < N; i++) {
    int op = vf_pick("op", 0, 5);
    if (op == 0) { int k = vf_pick("kind", 0, 2); if (n[k] >= 4) vf_assume(0); reg(k); }
    else if (op == 1) { int k = vf_pick("kind", 0, 2), w = vf_pick("which", 0, n[k] - 1); unreg(k, ids[k][w]); live[k][w] = false; vf_reach("unregistered"); }
    else if (op == 2) { for (int k = 0; k < 3; k++) for (int j = 0; j < n[k]; j++) if (live[k][j]) vf_assume(foreign != ids[k][j]); unreg(vf_pick("kind", 0, 2), foreign); vf_reach("unknown"); }
    else if (op == 3) {  // a round with work for every handler ever registered
      int before[3][4]; memcpy(before, calls, sizeof before); bool was[3][4]; memcpy(was, live, sizeof was);
      act.on = vf_bool("unregister_in_handler"); if (act.on) { act.kind = vf_pick("victim_kind", 0, 2); act.who = vf_pick("victim", 0, 1); }
      for (int j = 0; j < n[0]; j++) d->emitEvent(ids[0][j]); for (int j = 0; j < n[1]; j++) d->enqueueEvent(ids[1][j], 1000 + j);
      bool selfcancel = act.on; d->drain();
      for (int k = 0; k < 2; k++) for (int j = 0; j < n[k]; j++) { int c = calls[k][j] - before[k][j]; if (was[k][j] && live[k][j]) vf_assert(c == 1, "a registered handler gets its event exactly once"); else if (!was[k][j]) vf_assert(c == 0, "an unregistered handler is never invoked"); else vf_assert(c <= 1 && selfcancel, "a handler unregistered during the round gets its event at most once"); }
      // after the round nothing is left for the handlers that were removed in it
      int again[3][4]; memcpy(again, calls, sizeof again); for (int j = 0; j < n[0]; j++) d->emitEvent(ids[0][j]); for (int j = 0; j < n[1]; j++) d->enqueueEvent(ids[1][j], 1); act.on = false; d->drain();
      for (int k = 0; k < 2; k++) for (int j = 0; j < n[k]; j++) vf_assert(calls[k][j] - again[k][j] == (live[k][j] ? 1 : 0), "next round: exactly the registered handlers are invoked");
      vf_reach("round");
    } else if (op == 4) { int w = vf_pick("timer", 0, 1); int c = calls[2][w], o = calls[2][1 - w]; unsigned r = d->expire(7 + w); bool on = timer && live[2][w]; vf_assert(calls[2][w] == c + (on ? 1 : 0), "timer handler invoked exactly when registered"); vf_assert(calls[2][1 - w] == o, "other timer handler not invoked"); vf_assert(on ? r == (w ? 50u : 100u) : r == 0, "re-armed only while registered");
      D::T* t = d->timer(7 + w); if (timer) vf_assert(t && t->on == on, "unregistering a timer handler stops its timers and no others"); vf_reach("timer"); }
    else {  // work for several handlers is waiting when one of them is unregistered
      const int k = vf_pick("kind", 0, 1); int j = vf_pick("which", 0, n[k] - 1); if (!live[k][j]) vf_assume(0);
      int c[4], want[4] = {0, 0, 0, 0}; memcpy(c, calls[k], sizeof c); const int emits = vf_pick("emits", 1, 3); act.on = false;
      for (int q = 0; q < emits; q++) { int w = vf_pick("for", 0, n[k] - 1); if (k == 0) d->emitEvent(ids[0][w]); else d->enqueueEvent(ids[1][w], 5); if (w != j && live[k][w]) want[w]++; }
      unreg(k, ids[k][j]); live[k][j] = false; d->drain();
      for (int w = 0; w < n[k]; w++) vf_assert(calls[k][w] - c[w] == want[w], w == j ? "no call for work picked up after the handler was unregistered" : "unregistering a handler leaves the work of other handlers alone");
    }
  }
  vf_reach("end");
}

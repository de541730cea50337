#include "disp.h"
// Enqueued actions and events from outside, from actions and from handlers.
static D* gd; static int hid, eid; static int got[60], ng; static int nextAction; static struct { int does; } plan[20];
enum { EVENT = 100, ENQ = 200 };
static void put(int x) { if (ng >= 60) vf_fail("runaway"); got[ng++] = x; }
static int q[40], nq, qa[40], na, qe[40], ne;    // expected queues: events, actions, enqueued events
static void action() { int a = nextAction++; gd->enqueueAction([a]() { put(a); if (plan[a].does == 1) gd->emitEvent(hid); else if (plan[a].does == 2) action(); else if (plan[a].does == 3) gd->enqueueEvent(eid, ENQ); }); }
static int handlerDoes, handled;
extern "C" void harness() {
  const int N = vf_param("ops", 4); ng = nextAction = nq = na = ne = handled = 0;
  std::shared_ptr<D> d = D::create(); gd = d.get(); handlerDoes = vf_pick("first_handled_event_does", 0, 2);
  hid = d->registerEventHandler([]() { put(EVENT); if (handled++ == 0) { if (handlerDoes == 1) action(); else if (handlerDoes == 2) gd->emitEvent(hid); } return true; });
  eid = d->registerEnqueuedEventHandler([](const EventID_t e) { put(e); return true; });
  for (int i = 0; i < 20; i++) plan[i].does = 0; for (int i = 0; i < vf_param("planned", 3); i++) plan[i].does = vf_pick("action_does", 0, 3);
  int want[60], nw = 0, wa = 0, wh = 0;
  auto round = [&]() {
    int ca[40], c = na; for (int i = 0; i < na; i++) ca[i] = qa[i]; na = 0;
    for (int i = 0; i < c; i++) { int a = ca[i]; want[nw++] = a; if (plan[a].does == 1) q[nq++] = EVENT; else if (plan[a].does == 2) qa[na++] = wa++; else if (plan[a].does == 3) qe[ne++] = ENQ; }
    int ce = nq; nq = 0; int x = ne; ne = 0; for (int i = 0; i < x; i++) want[nw++] = qe[i];
    for (int i = 0; i < ce; i++) { want[nw++] = EVENT; if (wh++ == 0) { if (handlerDoes == 1) qa[na++] = wa++; else if (handlerDoes == 2) q[nq++] = EVENT; } }
  };
  for (int i = 0; i < N; i++) {
    int op = vf_pick("op", 0, 3);
    if (op == 0) { action(); qa[na++] = wa++; vf_assert(d->notified, "enqueuing an action wakes the dispatcher"); }
    else if (op == 1) { d->emitEvent(hid); q[nq++] = EVENT; vf_assert(d->notified, "emitting an event wakes the dispatcher"); }
    else if (op == 2) { int e = ENQ + 1 + i; bool ok = d->enqueueEvent(eid, e); vf_assert(ok, "stored"); qe[ne++] = e; vf_assert(d->notified, "enqueuing an event wakes the dispatcher"); }
    else { d->run(); round(); }
  }
  d->drain(); for (int i = 0; i < 12 && (na || nq || ne); i++) round();
  vf_assert(ng == nw, "every action and event runs exactly once"); for (int i = 0; i < nw; i++) if (got[i] != want[i]) vf_fail("actions run in order, before pending events, nested ones in a later round");
  vf_assert(na + nq + ne == 0, "nothing left"); vf_reach("end");
}

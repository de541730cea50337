#include "kit.h"
// Run-to-completion: callbacks that send events, expire timers, dispatch again or enqueue actions, with a dispatcher that queues or one that dispatches at once.
struct Sent { int ev; int64_t a; };
static Sent q[32]; static int nq, left, extra, killed, logAtKill; static bool inHook, inSend; static Kit* K; static HierarchicalStateMachine* H; static Pair* PP; static D* DD;
struct RD : public D { RD() : D(8) {} };
static bool actionPending;   // dispatching from a callback would run the action inside it
static bool syncSend;
static void push(int ev, int64_t a) { q[nq++] = Sent{ev, a}; if (syncSend && !inHook) { H->transitionSync(ev, 1, a); } else H->transition(ev, a); }
static void kill_(int how) { logAtKill = PP->log.n; killed = how; vf_assert(!inHook, "an action never runs inside a callback"); if (how == 1) H->release(); else { delete H; H = nullptr; } }
static void onCall(Kit& k, int kind, int id) {
  (void)k; (void)id; if (inHook) vf_fail("a callback runs inside another callback"); if (killed) vf_fail("callback after release");
  if (left <= 0 || !vf_bool("act")) return;
  left--; inHook = true;
  switch (vf_pick("what", 0, 6)) {
    case 0: if (actionPending && DD->inlineRun && !DD->running) vf_assume(0); push(100 + vf_pick("nested_event", 0, 2), 1000 + extra++); vf_reach("sent"); break;
    case 1: if (actionPending) vf_assume(0); DD->run(); vf_reach("dispatch_again"); break;
    case 2: if (actionPending) vf_assume(0); push(101, 1000 + extra++); DD->run(); DD->run(); break;
    case 3: { H->startTimer(1, 10, true); if (!DD->inlineRun) { q[nq++] = Sent{102, -1}; DD->expire(1); vf_reach("timer"); } break; }
    case 4: { int e = 100 + vf_pick("nested_event", 0, 1); int64_t a = 2000 + extra++; actionPending = true; DD->enqueueAction([e, a]() { actionPending = false; if (inHook) vf_fail("an action never runs inside a callback"); if (!killed) push(e, a); }); vf_reach("action"); break; }
    case 5: { int how = vf_pick("how", 1, DD->inlineRun ? 1 : 2); actionPending = true; DD->enqueueAction([how]() { if (!killed) kill_(how); }); vf_reach("kill"); break; }
    default: (void)H->isTransitionPossible(100, 1); H->transitionInterruptSafe(103); break;   // event 103 is never handled
  }
  inHook = false; (void)kind;
}
// machine owned separately so that it can be destroyed
extern "C" void harness() {
  syncSend = false; nq = left = extra = killed = logAtKill = 0; inHook = actionPending = false; Pair p; PP = &p; Model& m = p.m; m.states(7);
  m.entry(1, 2); m.sub(1, 3); m.entry(4, 5); m.entry(4, 6);
  m.tr(2, 3, 100); m.tr(3, 2, 101); m.tr(1, 4, 102); m.tr(5, 7, 100); m.tr(4, 1, 101); m.tr(7, 1, 102); m.self(4, 102, true);
  std::shared_ptr<RD> d(new RD(), [](RD* x) { x->stop(); delete x; }); DD = d.get(); d->inlineRun = vf_bool("dispatcher_runs_at_once");
  // the kit's own machine object stays unused; the callbacks are registered on the machine under test
  HierarchicalStateMachine* hs = new HierarchicalStateMachine(1); H = hs; Kit k(m, p.log); K = &k; k.target = hs; k.install(); hs->registerTimer(1, 102); k.d = d; k.hook = onCall;
  left = vf_param("startup_acts", 0); vf_assert(hs->initialize(d), "initialize"); d->drain(); p.r = new Ref(m); p.r->start(); left = vf_param("acts", 1);
  syncSend = vf_bool("synchronous_sends"); const int N = vf_param("events", 2); for (int i = 0; i < N && !killed; i++) { push(100 + vf_pick("event", 0, 2), vf_i64("arg") & INT64_MAX); if (!killed && vf_bool("drain")) d->drain(); }
  d->drain(); k.hook = nullptr;
  if (killed) { vf_assert(p.log.n == logAtKill, "no callback runs after the release"); vf_assert(d->pendingCount() == 0, "the dispatcher keeps working"); if (H) delete H; vf_reach("end"); return; }
  vf_assert(d->pendingCount() == 0, "nothing is left over"); vf_assert(d->enqueuedCount() == 0, "nothing is left over");
  for (int i = 0; i < nq; i++) if (q[i].a < 0) p.r->event(q[i].ev, 0, 0); else p.r->event(q[i].ev, 1, q[i].a);
  // failure reports of the interrupt-safe event 103 are not part of the comparison
  sameLog(p.log, p.r->log, KALL, "the callbacks of one event are complete before those of the next begin, in the order the events were sent");
  unsigned a = 0; for (StateID_t s : H->getActiveStates()) a |= 1u << s; vf_assert(a == p.r->mask(), "active states");
  delete H; vf_reach("end");
}

#include "kit.h"
// Synchronous senders in their own threads, the machine dispatched by the main thread; every schedule with at most `preempt` preemptions.
// mode 0: processed (regions with entry points, history, final states), 1: discarded by a clearing send, 2: machine released, 3: time-out
static HierarchicalStateMachine* H; static Kit* K; static Log* LG; static int evA, tmoA, evB, clearB;
static volatile int doneA, resA, atA, doneB; 
static void senderA(void*) { bool r = H->transitionSync(evA, tmoA, 5); resA = r; atA = LG->n; doneA = 1; }
static void senderB(void*) { H->transitionEx(evB, clearB, false, 0, 6); doneB = 1; }
extern "C" void harness() {
  const int mode = vf_param("mode", 0);
  Pair p; Model& m = p.m; m.states(15); doneA = resA = doneB = 0; atA = -1;
  // regions 2{3,4} and 5{6,7}, 8 composite {9}, 10 with history 11 {12, 13}
  m.entry(1, 2); m.entry(1, 5); m.entry(2, 3); m.sub(2, 4); m.entry(5, 6); m.sub(5, 7); m.sub(1, 8); m.entry(8, 9); m.sub(1, 10); m.entry(10, 12); m.sub(10, 13); m.hist(10, 11, true, vf_bool("default") ? 13 : INVALID_HSM_STATE_ID); m.noCb[11] = true; m.final_(14); m.sub(1, 15);
  const int to = vf_pick("target_of_first_region", 0, 2); m.tr(2, to == 0 ? 8 : to == 1 ? 11 : 15, 100); m.tr(5, m.t[0].to == 8 ? 11 : 8, 100, 0); m.tr(3, 4, 101); m.tr(1, 14, 102); m.tr(6, 7, 101, 1); m.g[0] = vf_bool("cond"); m.g[1] = vf_bool("cond");
  evA = 100 + vf_pick("event", 0, mode == 0 ? 3 : 1); tmoA = mode == 3 ? 50 : HSM_WAIT_INDEFINITELY;
  p.start(); K = p.k; H = &K->hsm; LG = &p.log;
  vf_opt("preempt", vf_param("preempt", 2)); if (mode == 3) vf_opt("timeouts", 1); 
  bool earlier = vf_bool("earlier_event"); if (earlier) H->transition(101, 4);
  uint64_t a = vf_thread_create(senderA, nullptr), b = 0; vf_yield();
  if (mode == 1) { evB = 101; clearB = 1; b = vf_thread_create(senderB, nullptr); }
  if (mode == 2) {
    int rounds = vf_pick("rounds", 0, 2); vf_yield(); while (rounds-- > 0 && K->d->notified) K->d->run();
    H->release();
  }
  const bool idle = mode == 3 && vf_bool("dispatcher_is_late"); if (idle) { vf_thread_join(a); vf_assert(doneA && !resA, "the call gives up although nothing was dispatched"); vf_reach("late"); }
  for (int i = 0; i < 60; i++) { if (K->d->notified) K->d->run(); else { vf_quiesce(); if (!K->d->notified) break; } }
  if (!idle) vf_thread_join(a); if (b) vf_thread_join(b);     // a sender that is never released is reported as a deadlock here
  vf_assert(doneA, "the synchronous sender returned");
  if (K->d->notified) K->d->drain();
  if (mode == 0) {
    if (earlier) p.r->event(101, 1, 4); bool want = p.r->event(evA, 1, 5);
    vf_assert(resA == want, "result of the event"); vf_assert(atA == p.log.n, "all callbacks have run when the call returns"); p.sameMask("active states"); sameCounts(p.log, p.r->log, KALL | KB(K_FAILED), "callbacks"); vf_reach(resA ? "true" : "false");
  } else if (mode == 1) { bool processed = false; for (int i = 0; i < p.log.n; i++) if (p.log.e[i].arg == 5 && p.log.e[i].nargs == 1) processed = true; if (!processed) { vf_assert(!resA, "discarded event reports failure"); vf_reach("discarded"); } else vf_reach("processed"); if (resA) { bool tr = false; for (int i = 0; i < p.log.n; i++) if (p.log.e[i].arg == 5 && p.log.e[i].kind == K_TRANS) tr = true; vf_assert(tr, "true only when the transition was carried out"); } }
  else if (mode == 2) { vf_assert(!H->isInitialized(), "released"); vf_reach(resA ? "true" : "released"); }
  else { bool processed = false; for (int i = 0; i < p.log.n; i++) if (p.log.e[i].arg == 5 && p.log.e[i].nargs == 1) processed = true; vf_assert(processed, "the event is processed even when the sender stopped waiting"); if (resA) vf_assert(atA == p.log.n, "true only after all callbacks have run"); if (!resA) vf_reach("timed_out"); else vf_reach("true"); }
  vf_trace("res", resA); vf_reach("end");
}

#include "kit.h"
// Queue clearing between dispatcher rounds: which events are dropped, what is in progress is completed, synchronous senders are released.
struct Sent { int ev; int64_t a; bool dropped; int n = 1; };
static Sent q[16]; static int nq;
static bool begun(const Log& l, int64_t a) { for (int i = 0; i < l.n; i++) if ((l.e[i].kind == K_TRANS || l.e[i].kind == K_FAILED) && l.e[i].arg == a) return true; return false; }
static HierarchicalStateMachine* H; static volatile int syncDone, syncResult;
static void sender(void*) { bool r = H->transitionSync(100, HSM_WAIT_INDEFINITELY, 77); syncResult = r; syncDone = 1; }
extern "C" void harness() {
  const int N = vf_param("sends", 4), mode = vf_param("mode", 0);
  Pair p; Model& m = p.m; m.states(10); nq = 0; syncDone = syncResult = 0;
  // 1 leaf; 2{3{4},5}; 6{7,8,H9 deep, default 8}; 10 leaf
  m.initial = 1; m.entry(2, 3); m.entry(2, 5); m.entry(3, 4); m.entry(6, 7); m.sub(6, 8); m.hist(6, 9, vf_bool("deep"), vf_bool("default") ? 8 : INVALID_HSM_STATE_ID); m.noCb[9] = true;
  m.tr(1, 2, 100); m.tr(2, 9, 100); m.tr(6, 1, 100); m.tr(7, 8, 101); m.tr(4, 4, 101); m.t[m.nt - 1].type = 2; m.self(1, 101, true); m.tr(2, 6, 102); m.tr(6, 2, 102); m.tr(1, 6, 102);
  p.start(); Kit& k = *p.k; H = &k.hsm;
  bool cleared = false, inEntry = false; const int form = mode ? 0 : vf_pick("call", 0, 2);   // how clearing is requested: transitionEx, or transitionWithQueueClear with 1 or 2 arguments
  uint64_t t = 0; int at = -1;
  if (mode == 1) at = vf_pick("sync_send", 0, N - 1);
  for (int i = 0; i < N; i++) {
    int rounds = i == 0 ? 0 : vf_pick("rounds", 0, 2); while (rounds-- > 0 && k.d->notified) k.d->run();
    if (i == at) { t = vf_thread_create(sender, nullptr); vf_quiesce(); q[nq++] = Sent{100, 77, false}; continue; }
    int ev = 100 + vf_pick("event", 0, mode ? 1 : 2); bool clear = vf_bool("clear_queue");
    if (clear) { cleared = true; for (int j = 0; j < nq; j++) if (!begun(p.log, q[j].a)) q[j].dropped = true; unsigned a = k.mask(); if (a == 4u || a == (1u << 6) || (a & (1u << 9))) inEntry = true; }
    if (clear && form == 1) k.hsm.transitionWithQueueClear(ev, 10 + i); else if (clear && form == 2) k.hsm.transitionWithQueueClear(ev, 10 + i, 5);
    else vf_assert(k.hsm.transitionEx(ev, clear, false, 0, 10 + i), "asynchronous send is accepted");
    const bool two = clear && form == 2; q[nq++] = Sent{ev, 10 + i + (two ? 5 << 11 : 0), false, two ? 2 : 1};
  }
  k.d->drain(); if (t) { vf_quiesce(); }
  bool want = false;
  for (int i = 0; i < nq; i++) if (!q[i].dropped) { bool r = p.r->event(q[i].ev, q[i].n, q[i].a); if (q[i].a == 77) want = r; }
  if (vf_param("verbose", 0)) for (int i = 0; i < nq; i++) { vf_trace("ev", q[i].ev); vf_trace("dropped", q[i].dropped); }
  p.sameMask("discarded events have no effect, everything else is completed"); sameCounts(p.log, p.r->log, KALL | KB(K_FAILED), "exactly the events not discarded are processed, entries and history restorations in progress are completed");
  sameLog(p.log, p.r->log, KB(K_TRANS) | KB(K_FAILED), "the clearing event is processed next"); wellFormed(m, k); alternation(m, p.log, k.mask());
  if (t) { vf_assert(syncDone, "the synchronous sender is released"); if (syncDone) { vf_thread_join(t); vf_assert(syncResult == want, "a discarded synchronous event reports failure, a processed one its result"); } if (!want) vf_reach("sync_discarded"); else vf_reach("sync_ok"); }
  if (cleared) vf_reach("cleared"); if (inEntry) vf_reach("in_entry");
  vf_trace("mask", k.mask()); vf_reach("end");
}

#include "kit.h"
// The possibility query against the reference interpreter and against dispatching, with symbolic event, arguments, conditions and expected values.
extern "C" void harness() {
  Pair p; Model& m = p.m; m.states(12);
  // 1{2{3,4},5}; 6{7,8,H11}; 9 composite without entry points{12}; 10
  m.entry(1, 2); if (vf_bool("parallel")) m.entry(1, 5); else m.sub(1, 5); m.entry(2, 3); m.sub(2, 4); m.sub(9, 12); m.hist(6, 11, false, vf_bool("default") ? 7 : INVALID_HSM_STATE_ID); m.noCb[11] = true;
  int e7 = vf_bool("bound7") ? 100 : ANY, g7 = vf_bool("conditional7") ? 3 : -1;
  m.entry(6, 7, e7, g7, vf_bool("expected7")); m.sub(6, 8);
  m.tr(3, 4, 100, 0, vf_bool("expected0")); m.tr(3, 4, 100, 4, true); m.tr(2, 5, 100, 1); m.tr(1, 6, 101, 2, vf_bool("expected2")); m.tr(1, 9, 102); m.self(4, 103, vf_bool("internal"), 1); m.tr(5, 3, 104, 0); m.tr(6, 1, 105); m.tr(1, 11, 104, 2); m.tr(1, 10, 105, 4, false); m.tr(6, 10, 100, 3);
  for (int i = 0; i < 5; i++) m.g[i] = vf_bool("cond");
  p.start(); Kit& k = *p.k;
  int pre = vf_pick("before", 0, 4); if (pre) { bool h = p.event(99 + pre, 1); if (!h) vf_assume(0); }
  int e = vf_i32("event"); int64_t x = vf_i64("arg"); bool withArg = vf_bool("with_argument");
  k.condArgsChecked = true; k.curN = withArg ? 1 : 0; k.curArg = x;
  unsigned before = k.mask(); int n = p.log.n; size_t pend = k.d->pendingCount();
  bool possible = withArg ? k.hsm.isTransitionPossible(e, x) : k.hsm.isTransitionPossible(e);
  vf_assert(p.log.n == n, "the query runs no callbacks"); vf_assert(k.mask() == before, "the query changes no state"); vf_assert(!k.d->notified && k.d->pendingCount() == pend, "the query queues nothing");
  bool again = withArg ? k.hsm.isTransitionPossible(e, x) : k.hsm.isTransitionPossible(e); vf_assert(again == possible, "asking again gives the same answer");
  k.condArgsChecked = false; 
  if (withArg) k.send(e, x); else k.send0(e);
  bool want = p.r->event(e, withArg, withArg ? x : 0);
  vf_assert(possible == want, "the query agrees with the reference interpreter"); bool failed = p.log.countKind(K_FAILED, n) > 0 && p.log.countKind(K_TRANS, n) == 0; vf_assert(possible == !failed, "the query agrees with dispatching the event");
  p.sameMask("active states"); vf_reach(possible ? "possible" : "impossible"); if (possible && e == 101) vf_reach("entry_points"); 
  vf_trace("possible", possible); vf_reach("end");
}

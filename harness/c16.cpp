#include "kit.h"
// Results of synchronous sends: accepted, ignored, refused exit, refused entry, refused entry step, history, final states, other events queued before.
extern "C" void harness() {
  const int E = vf_param("events", 2);
  Pair p; Model& m = p.m; m.states(12);
  // 1{2,3}; 4{5{6},7,H8}; 9; 10{11 final -> 110}; 12
  m.entry(1, 2); m.sub(1, 3); m.entry(4, 5); if (vf_bool("parallel")) m.entry(4, 7); else m.sub(4, 7); m.entry(5, 6); m.hist(4, 8, vf_bool("deep"), vf_pick("default", 0, 1) ? 7 : INVALID_HSM_STATE_ID, true); m.noCb[8] = true; m.entry(10, 11); m.final_(11, 110);
  m.tr(2, 3, 100, 0); m.tr(1, 4, 101); m.tr(4, 9, 102); m.tr(9, 8, 103); m.tr(9, 10, 104); if (vf_bool("on_final")) m.tr(10, 12, 110); m.self(1, 105, false); m.self(4, 105, true); m.tr(1, 9, 106); m.tr(9, 1, 106); m.tr(9, 4, 107); m.tr(5, 7, 108);
  m.g[0] = vf_bool("cond");
  p.start(); Kit& k = *p.k; 
  for (int i = 0; i < E; i++) {
    bool last = i + 1 == E;
    if (last) { int r = vf_pick("refusal", 0, 3); int s = vf_pick("refusing_state", 1, 7); if (r & 1) m.vx[s] = true; if (r & 2) m.ve[s] = true; if (!r && s > 1) vf_assume(0); }
    bool before = last && vf_bool("queued_before"); int eb = 0;
    if (before) { eb = vf_pick("earlier_event", 100, 106); k.hsm.transition(eb, 500); }
    int e = vf_i32("event"); vf_assume(e >= 100 && e <= 109); int64_t x = vf_i64("arg"); if (!last) vf_assume(e >= 100 && e <= 108);
    int mark = p.log.n, rmark = p.r->log.n; (void)rmark; k.d->inlineRun = true; int tmo = vf_bool("timeout") ? 50 : HSM_WAIT_INDEFINITELY;
    bool ok = k.hsm.transitionSync(e, tmo, x); k.d->inlineRun = false;
    int done = p.log.n; k.d->drain(); vf_assert(done == p.log.n, "all callbacks have run when the call returns");
    if (before) p.r->event(eb, 1, 500);
    bool want = p.r->event(e, 1, x); if (!want && !last) vf_assume(0);
    vf_assert(ok == want, "the result is the outcome of the event that was sent");
    p.sameMask("active states"); sameCounts(p.log, p.r->log, KALL | KB(K_FAILED), "callbacks");
    if (before) vf_reach("queued"); if (ok) vf_reach("true"); else { if (p.log.countKind(K_TRANS, mark)) vf_reach("false_late"); vf_reach("false"); }
  }
  vf_trace("mask", k.mask()); vf_reach("end");
}

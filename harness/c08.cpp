#include "kit.h"
// three nested levels 1 > 2 > {3, 4}, a second region 5 inside 1 (optional), top states 6, 7.
// Every level may handle the events; conditions are symbolic; optionally an event whose exit is refused precedes.
extern "C" void harness() {
  Pair p; Model& m = p.m; m.states(7);
  m.entry(1, 2); m.entry(2, 3); m.sub(2, 4); m.sub(1, 5);
  if (vf_bool("second_region")) m.entry(1, 5);
  for (int i = 0; i < 8; i++) m.g[i] = vf_bool("cond");
  m.tr(3, 4, 100, 0); m.tr(2, 2, 100, 1); m.t[m.nt - 1].type = vf_bool("internal") ? 2 : 1;
  m.tr(1, 6, 100, 2); m.self(5, 100, vf_bool("internal5"), 3);
  m.tr(4, 3, 101, 4, false); m.tr(1, 7, 101, 5, false); m.tr(6, 7, 101); m.tr(1, 6, 102); m.tr(6, 1, 102);
  p.start(); p.sameMask("active states after start");
  int veto = vf_pick("refusal", 0, 3);   // first a transition out of 1 that fails: refused by the exit of 1 or 2, or by the entry of 6
  if (veto) {
    if (veto == 1) m.vx[1] = true; else if (veto == 2) m.vx[2] = true; else m.ve[6] = true;
    p.event(102, 0); m.vx[1] = m.vx[2] = m.ve[6] = false; p.sameMask("refused transition restores the active states");
  }
  int n = vf_param("events", 2);
  for (int i = 0; i < n; i++) {
    int e = vf_i32("event"); vf_assume(e != 102); int64_t x = vf_i64("arg");
    p.event(e, x); p.sameMask("event is handled by the innermost accepting state");
    sameCounts(p.log, p.r->log, KALL | KB(K_FAILED), "callbacks are those of the innermost accepting states");
    // the event's own transitions: inner ones first, none of an ancestor of a state that accepted
    for (int a = p.mark; a < p.log.n; a++) for (int b = p.mark; b < p.log.n; b++)
      if (p.log.e[a].kind == K_TRANS && p.log.e[b].kind == K_TRANS) vf_assert(!m.inside(m.t[p.log.e[a].id].from, m.t[p.log.e[b].id].from), "an ancestor handled an event its descendant had accepted");
  }
  vf_trace("mask", p.k->mask()); vf_trace("log", p.log.n); vf_reach("end");
  if (p.log.countKind(K_FAILED, p.mark)) vf_reach("ignored"); if (p.log.count(K_TRANS, 0)) vf_reach("inner"); if (p.log.count(K_TRANS, 2)) vf_reach("outer");
}

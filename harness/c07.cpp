#include "kit.h"
// Conditions: symbolic results, symbolic expected values, several transitions per (state, event), conditions that depend on the argument.
extern "C" void harness() {
  Pair p; Model& m = p.m; m.states(9);
  m.entry(1, 2); m.sub(1, 3); bool multi = vf_bool("several");
  m.tr(2, 3, 100, 0, vf_bool("expected")); if (multi) { m.self(2, 100, true, 1, vf_bool("expected")); m.tr(1, 4, 100, 2, vf_bool("expected")); }
  m.tr(2, 3, 101); m.self(1, 102, true, 3, false); m.tr(1, 4, 102, 3, true); m.tr(4, 5, 100, 4, vf_bool("expected")); m.tr(4, 6, 100, 4, vf_bool("expected")); m.tr(4, 6, 100, 3, vf_bool("expected"));
  m.tr(3, 2, 100, 5);
  m.entry(7, 8, ANY, 0, vf_bool("entry_expected")); m.entry(7, 9, 103, 1, vf_bool("entry_expected")); m.tr(1, 7, 103); m.self(7, 104, false);
  p.start(); Kit& k = *p.k; k.condArgsChecked = true; k.logCond = true;
  int64_t lim = vf_i64("limit");
  for (int i = 0; i < (int)vf_param("events", 2); i++) {
    int e = vf_i32("event"); int64_t x = vf_i64("arg");
    m.g[0] = x > lim; m.g[1] = x == 5; for (int q = 2; q < 6; q++) m.g[q] = vf_bool("cond");   // conditions see the argument of this event
    unsigned before = k.mask(); p.event(e, x);
    p.sameMask("taken transitions are exactly those whose condition has the expected value");
    int from = p.log.n; (void)from; sameCounts(p.log, p.r->log, KALL, "callbacks are those of the taken transitions");
    bool any = false; for (int q = p.mark; q < p.log.n; q++) any |= ((KALL >> p.log.e[q].kind) & 1);
    if (!any) { vf_assert(k.mask() == before, "ignored event changes nothing"); vf_reach("ignored"); }
    for (int t = 0; t < m.nt; t++) {
      vf_assert(p.log.count(K_TRANS, t, p.mark) <= 1, "a transition is taken at most once per event");
      if (p.log.count(K_TRANS, t, p.mark)) { vf_assert(m.t[t].ev == e, "transition registered for another event taken"); vf_assert(((before >> m.t[t].from) & 1) != 0, "transition of an inactive state taken"); if (m.t[t].guard >= 0) vf_assert(m.g[m.t[t].guard] == m.t[t].expected, "transition taken although its condition failed"); }
    }
    for (int q = p.mark; q < p.log.n; q++) if (p.log.e[q].kind == K_COND) { bool rel = p.log.e[q].id < 2 && ((e == 103 && ((before >> 1) & 1)) || (e == 104 && ((before >> 7) & 1))); for (int t = 0; t < m.nt; t++) rel |= (m.t[t].guard == p.log.e[q].id && m.t[t].ev == e && ((before >> m.t[t].from) & 1)); vf_assert(rel, "condition of an unrelated transition evaluated"); }
  }
  if (p.log.count(K_TRANS, 0) && p.log.count(K_TRANS, 1)) vf_reach("both"); if (p.log.count(K_TRANS, 4)) vf_reach("nested_false");
  if ((k.mask() >> 8) & 1) vf_reach("entry_condition"); vf_trace("mask", k.mask()); vf_trace("log", p.log.n); vf_reach("end");
}

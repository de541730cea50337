#include "kit.h"
// Alternation monitor under arbitrary refusals, parallel regions, multi-target transitions, history and final states.
extern "C" void harness() {
  const int E = vf_param("events", 2), scen = vf_param("scen", 0); const bool refs = vf_param("refuse", 1);
  Pair p; Model& m = p.m;
  if (scen == 0) {   // two regions inside 1, each with two states; leaving 1 together; multi-target transition out of 4
    m.states(8); m.entry(1, 2); m.entry(1, 3); m.entry(2, 4); m.sub(2, 5); m.entry(3, 6); m.sub(3, 7);
    m.tr(4, 5, 100, 0); m.tr(6, 7, 100, 1); m.tr(1, 8, 101); m.tr(8, 1, 101); m.tr(2, 3, 102); m.self(1, 103, vf_bool("internal")); m.tr(4, 5, 104); m.self(4, 104, false);
  } else if (scen == 1) {   // history of 2 inside 1
    m.states(8); m.entry(1, 2); m.entry(2, 3); m.sub(2, 4); m.sub(1, 5); m.hist(2, 6, vf_bool("deep"), vf_bool("default") ? 4 : INVALID_HSM_STATE_ID, true); m.parent[6] = 0;
    m.tr(3, 4, 100); m.tr(2, 5, 101, 0); m.tr(5, 6, 102); m.tr(1, 7, 103); m.tr(7, 6, 104, 1); m.tr(7, 1, 101); m.noCb[6] = true;
  } else {   // final state in a region, top level targets
    m.states(8); m.entry(1, 2); m.entry(1, 3); m.sub(1, 4); m.final_(4, 110); m.tr(2, 4, 100); m.tr(3, 4, 101); m.tr(1, 5, 110, 0); m.tr(5, 1, 102); m.tr(5, 6, 103); m.tr(5, 7, 103); m.tr(6, 5, 104); m.tr(7, 5, 104); m.self(5, 105, false);
  }
  m.g[0] = vf_bool("cond"); m.g[1] = vf_bool("cond");
  p.start(); alternation(m, p.log, p.k->mask());
  int lo = scen == 0 ? 100 : 100, hi = scen == 0 ? 104 : scen == 1 ? 104 : 105;
  for (int i = 0; i < E; i++) {
    int e = vf_i32("event"); vf_assume(e >= lo && e <= hi);
    if (refs && i + 1 == E) { for (int s = 1; s <= m.ns; s++) { m.vx[s] = vf_bool("refuse_exit"); m.ve[s] = vf_bool("refuse_entry"); } }
    p.k->send(e, i);
    for (int s = 1; s <= m.ns; s++) m.vx[s] = m.ve[s] = false;
    alternation(m, p.log, p.k->mask());
    for (int s = 1; s <= m.ns; s++) vf_assert(p.k->hsm.isStateActive(s) == (((p.k->mask() >> s) & 1) != 0), "isStateActive agrees with the active state list");
  }
  // afterwards everything can still be left and entered normally
  for (int i = 0; i < (int)vf_param("after", 1); i++) { int e = vf_i32("event"); vf_assume(e >= lo && e <= hi); p.k->send(e, 7); alternation(m, p.log, p.k->mask()); }
  vf_trace("mask", p.k->mask()); vf_trace("log", p.log.n); vf_reach("end");
}

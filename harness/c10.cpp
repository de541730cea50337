#include "kit.h"
// History. 1{5 (entry), 2{3{6,7}, 4{8,10}, H13 shallow, H14 deep}, 11,12 (second region, optional)}, 9 top level. The machine starts in 5,
// every sequence of events runs against the reference interpreter.
extern "C" void harness() {
  const int E = vf_param("events", 4), scen = vf_param("scen", 0);
  Pair p; Model& m = p.m; m.states(14);
  m.entry(1, 5); m.sub(1, 2); bool region = vf_bool("second_region"); if (region) { m.entry(1, 11); m.sub(1, 12); m.tr(11, 12, 107); m.tr(12, 11, 107); } else { m.parent[11] = m.parent[12] = 0; }
  bool par = vf_bool("parallel"); int g = vf_bool("conditional_entry") ? 0 : -1;
  m.entry(2, 3); if (par) m.entry(2, 4); else m.sub(2, 4);
  m.entry(3, 6); m.sub(3, 7); m.entry(4, 8, ANY, g, true); m.entry(4, 10, ANY, g, false); m.g[0] = true;
  int def = scen == 0 ? vf_pick("default", 0, 3) : 0; bool cb = def >= 2 || scen; if (def == 3) def = 0;
  int dt = def == 0 ? INVALID_HSM_STATE_ID : def == 1 ? 3 : 4;
  m.hist(2, 13, false, dt, cb); m.hist(2, 14, true, dt, cb); m.noCb[13] = m.noCb[14] = true;
  m.tr(5, 2, 99); m.tr(6, 7, 100); if (!par) m.tr(3, 4, 101); m.tr(8, 10, 101); m.tr(2, 5, 102); m.tr(1, 9, 103); m.tr(9, 1, 104); m.tr(5, 13, 105); m.tr(5, 14, 106); m.self(1, 108, false);
  if (scen == 1) { m.self(3, 108, false); m.tr(7, 6, 109, 1); m.tr(4, 3, 109); }
  p.start(); p.sameMask("active states after start");
  if (vf_bool("entered_before")) { p.event(99, 0); p.sameMask("active states after entry"); vf_reach("entered"); }
  bool restored = false, fromDefault = false;
  for (int i = 0; i < E; i++) {
    int e = vf_pick("event", 99, scen ? 109 : 108); if (e == 107 && !region) vf_assume(0); if (g >= 0 && e == 102) m.g[0] = vf_bool("cond");
    int64_t x = vf_i64("arg"); unsigned before = p.k->mask(); bool known = p.r->nhist[0] > 0; int mark = p.log.n;
    bool handled = p.event(e, x); if (!handled && i + 1 < E) vf_assume(0);   // ignored events only at the end
    p.sameMask("history restores what was active when the parent was last left");
    sameCounts(p.log, p.r->log, KALL | KB(K_FAILED), "callbacks of a history transition"); alternation(m, p.log, p.k->mask()); wellFormed(m, *p.k);
    if ((before & (1u << 5)) && (e == 105 || e == 106)) { vf_assert(p.k->mask() & 4u, "the parent is active again"); if (p.log.countKind(K_HCB, mark)) fromDefault = true; else if (known) restored = true;
      for (int q = mark; q < p.log.n; q++) { if (p.log.e[q].kind != K_EXIT) vf_assert(p.log.e[q].nargs == 1, "callbacks receive the arguments"); if (p.log.e[q].kind != K_EXIT) vf_assert(p.log.e[q].arg == x, "callbacks receive the argument"); }
      vf_assert(p.log.find(K_ENTER, 2, mark) <= p.log.find(K_ENTER, 3, mark) || p.log.find(K_ENTER, 3, mark) < 0, "parent before its children"); }
  }
  // innermost-first still holds in the restored configuration
  if (p.k->mask() & (1u << 2)) { p.event(100, 1); p.event(102, 1); p.sameMask("events after a restoration"); sameCounts(p.log, p.r->log, KALL | KB(K_FAILED), "callbacks after a restoration"); }
  if (restored) vf_reach("restored"); if (fromDefault) vf_reach("default");
  vf_trace("mask", p.k->mask()); vf_trace("log", p.log.n); vf_reach("end");
}

#include "kit.h"
// Final states: registered event or the triggering one, parallel regions, a nested composite region with its own final state, other events queued.
extern "C" void harness() {
  const int E = vf_param("events", 3);
  Pair p; Model& m = p.m; m.states(12);
  // 1{ 2, 4 final, 6 | 3{8, 9 final}, 5 final } ; 7, 10 top level; 11 top level final
  int f4 = vf_bool("own_event4") ? 200 : ANY, f5 = vf_bool("own_event5") ? 201 : ANY, f9 = vf_bool("own_event9") ? 202 : ANY;
  bool region = vf_bool("second_region");
  m.entry(1, 2); m.sub(1, 4); m.sub(1, 6); m.sub(1, 5); if (region) m.entry(1, 3); else m.sub(1, 3); m.entry(3, 8); m.sub(3, 9);
  m.final_(4, f4); m.final_(5, f5); m.final_(9, f9); m.final_(11, 203);
  m.tr(2, 4, 100); m.tr(2, 6, 101); m.tr(6, 4, 100); m.tr(8, 9, 102); m.tr(3, 5, 103); m.tr(3, 5, 202); m.tr(6, 3, 104);
  m.tr(1, 7, 200); m.tr(1, 10, 201); m.tr(1, 7, 100, 0); m.tr(1, 7, 103, 0); m.tr(7, 1, 105); m.tr(7, 11, 106); m.tr(11, 7, 203); m.g[0] = vf_bool("outer_on_trigger");
  p.start(); p.sameMask("active states after start");
  bool batch = vf_bool("queued_together"); int e[6]; int64_t x[6];
  for (int i = 0; i < E; i++) { e[i] = vf_pick("event", 100, 106); x[i] = vf_i64("arg"); }
  if (batch) { for (int i = 0; i < E; i++) p.k->hsm.transition(e[i], x[i]); p.k->d->drain(); }
  for (int i = 0; i < E; i++) {
    if (batch) p.r->event(e[i], 1, x[i]); else {
      unsigned before = p.k->mask(); bool h = p.event(e[i], x[i]); if (!h && i + 1 < E) vf_assume(0);
      p.sameMask("a final state raises its event exactly when all regions are final");
      if (e[i] == 102 && (before & (1u << 8))) vf_reach("nested_final");
      if (e[i] == 106 && (p.k->mask() & (1u << 11))) { vf_reach("top_final"); vf_assert(p.log.count(K_FAILED, 203) == 0 && p.log.count(K_TRANS, 13) == 0, "top level final state raises nothing"); }
    }
  }
  p.sameMask("active states"); sameCounts(p.log, p.r->log, KALL | KB(K_FAILED), "events raised by final states");
  // order of what was taken and of what was ignored, with arguments
  sameLog(p.log, p.r->log, KB(K_TRANS) | KB(K_FAILED), "a final state's event is processed before other queued events, with the triggering event's arguments");
  if (p.k->mask() & (1u << 7)) vf_reach("left"); if (p.k->mask() & (1u << 10)) vf_reach("left_by_own_event");
  vf_trace("mask", p.k->mask()); vf_trace("log", p.log.n); vf_reach("end");
}

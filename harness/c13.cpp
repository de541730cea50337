#include "kit.h"
// Three orthogonal regions (one of them composite), every region's transition on the common event chosen freely; common targets; leaving all.
extern "C" void harness() {
  const int E = vf_param("events", 2);
  Pair p; Model& m = p.m; m.states(13);
  // 1{ 2,3,4 | 5,6 | 7{8,9} , 10 } 11, 12{13}
  m.entry(1, 2); m.entry(1, 5); m.entry(1, 7); m.sub(1, 3); m.sub(1, 4); m.sub(1, 6); m.entry(7, 8); m.sub(7, 9); m.sub(1, 10); m.entry(12, 13);
  static const int to2[] = {3, 4, 10}, to5[] = {6, 10}, to8[] = {9};
  int ev2 = vf_pick("on2", 100, 101), ev5 = vf_pick("on5", 100, 101), t2 = to2[vf_pick("to2", 0, 2)], t5 = to5[vf_pick("to5", 0, 1)];
  m.tr(2, t2, ev2, 0); m.tr(5, t5, ev5, 1); m.tr(8, to8[0], 100, 2); m.tr(7, 10, 101, 3); m.tr(1, vf_bool("top_target") ? 11 : 12, 102); m.tr(1, 11, 101, 4); m.tr(3, 2, 103); m.tr(6, 5, 103); m.tr(10, 2, 104); m.self(9, 103, vf_bool("internal")); m.tr(11, 1, 105);
  m.tr(2, 4, 106); m.tr(2, 3, 106);      // one event, two targets
  for (int i = 0; i < 5; i++) m.g[i] = vf_bool("cond"); 
  bool outer = m.g[4];
  p.start(); p.sameMask("active states after start");
  for (int i = 0; i < E; i++) {
    int e = i == 0 ? vf_i32("event") : vf_pick("event", 100, 106); vf_assume(e >= 100 && e <= 106); int64_t x = vf_i64("arg");
    int mark = p.log.n; unsigned before = p.k->mask(); bool h = p.event(e, x); if (!h && i + 1 < E) vf_assume(0);
    p.sameMask("every region takes its own transition"); sameCounts(p.log, p.r->log, KALL | KB(K_FAILED), "every region processes the event exactly once"); alternation(m, p.log, p.k->mask());
    if (i == 0) {
      bool a2 = e == ev2 && m.g[0], a5 = e == ev5 && m.g[1], a8 = e == 100 && m.g[2], a7 = e == 101 && m.g[3];
      vf_assert(p.log.count(K_TRANS, 0, mark) == a2, "first region takes its transition once"); vf_assert(p.log.count(K_TRANS, 1, mark) == a5, "second region takes its transition once"); vf_assert(p.log.count(K_TRANS, 2, mark) == a8, "third region's child takes its transition once"); vf_assert(p.log.count(K_TRANS, 3, mark) == a7, "third region takes its transition once");
      if (!a2 && e <= 101 && !(e == 101 && outer)) vf_assert((p.k->mask() >> 2) & 1, "a region without a match keeps its state");
      if (!a5 && e <= 101 && !(e == 101 && outer)) vf_assert((p.k->mask() >> 5) & 1, "a region without a match keeps its state");
      if (a2 && a5 && t2 == 10 && t5 == 10) { vf_reach("shared_target"); vf_assert(p.log.count(K_ENTER, 10, mark) == 1 && p.log.count(K_CHANGED, 10, mark) == 1, "a shared target is entered once"); }
      if (a2 && a5 && a8) vf_reach("all_regions");
      if (e == 102) { vf_reach("leave_all"); vf_assert((p.k->mask() & ~((1u << 11) | (1u << 12) | (1u << 13))) == 0, "leaving the common ancestor removes all regions"); for (int s = 1; s <= 10; s++) vf_assert(p.log.count(K_EXIT, s, mark) == ((before >> s) & 1), "every active state is exited once"); }
      if (e == 106) { vf_reach("two_targets"); vf_assert(((p.k->mask() >> 3) & 1) && ((p.k->mask() >> 4) & 1) && !((p.k->mask() >> 2) & 1), "both targets are active"); }
    }
  }
  vf_trace("mask", p.k->mask()); vf_trace("log", p.log.n); vf_reach("end");
}

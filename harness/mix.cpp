#include "kit.h"
// Machines that combine the features (parallel composite regions, guarded entry points, nested histories, final states, refusals), driven by
// every sequence of events up to a length and compared with the reference interpreter after each of them.
//   scen 0  nested parallel regions       scen 1  nested shallow / deep history       scen 2  final states in parallel regions
//   scen 3  final states raise events while entry points of other regions are pending
//   veto: one event of the sequence meets one state that refuses its exit (1) or its entry (2); onlyveto: sequences in which that happened; sync: synchronous sends
static int scen0(Model& m) {
  m.states(16); const int E = 100;
  m.entry(1, 2); m.entry(1, 7); m.sub(1, 12); m.entry(2, 3); m.sub(2, 6); m.entry(3, 4); m.sub(3, 5); m.entry(7, 8); m.entry(7, 9); m.entry(9, 10); m.sub(9, 11);
  m.entry(13, 14, E + 4, 0, true); m.entry(13, 15, E + 4, 0, false); m.entry(13, 16);
  m.tr(4, 5, E); m.tr(10, 11, E); m.tr(3, 6, E + 1); m.tr(6, 3, E + 2); m.tr(9, 8, E + 3); m.tr(8, 9, E + 3); m.tr(1, 13, E + 4); m.tr(13, 1, E + 5); m.tr(2, 12, E + 6); m.tr(12, 2, E + 7);
  m.self(9, E + 2, false); m.tr(2, 12, E + 5, 1); m.self(3, E + 7, false, 1); m.tr(14, 15, E + 6, 1); m.tr(11, 10, E + 2); m.g[0] = vf_bool("entry_condition"); m.g[1] = vf_bool("condition");
  return 8;
}
static int scen1(Model& m) {
  m.states(15); const int E = 100; const bool outside = vf_bool("start_outside");
  if (outside) { m.sub(1, 2); m.entry(1, 11); } else { m.entry(1, 2); m.sub(1, 11); } m.entry(2, 3); m.sub(2, 6); m.entry(3, 4); m.sub(3, 5); m.entry(6, 7); m.sub(6, 8); if (vf_param("region", 0)) { m.entry(1, 14); m.sub(1, 15); m.tr(14, 15, E + 1); }
  m.hist(2, 9, false, vf_bool("default") ? 6 : INVALID_HSM_STATE_ID, true); m.hist(2, 10, true); m.hist(1, 12, vf_bool("deep")); m.noCb[9] = m.noCb[10] = m.noCb[12] = true;
  m.tr(4, 5, E); m.tr(7, 8, E); m.tr(3, 6, E + 1); m.tr(2, 11, E + 2); m.tr(11, 9, E + 3); m.tr(11, 10, E + 4); m.tr(1, 13, E + 5); m.tr(13, 12, E + 6); m.tr(13, 1, E + 7); m.tr(11, 2, E + 7);
  return 8;
}
static int scen2(Model& m) {
  m.states(16); const int E = 100;
  m.entry(1, 2); m.entry(1, 6); m.sub(1, 9); m.entry(2, 3); m.sub(2, 4); m.sub(2, 5); m.entry(6, 7); m.sub(6, 8); m.final_(4, vf_bool("own_event") ? E + 8 : ANY); m.final_(8, E + 9); m.sub(1, 11); m.final_(11, E + 7);
  m.entry(9, 12); m.sub(9, 13); m.entry(9, 14); m.entry(15, 16); m.final_(16, E + 6);
  m.tr(3, 4, E); m.tr(3, 5, E + 1); m.tr(5, 4, E); m.tr(7, 8, E + 1); m.tr(2, 9, E + 8); m.tr(6, 11, E + 9, 0); m.tr(6, 9, E + 2); m.tr(9, 6, E + 3); m.tr(12, 13, E + 1); m.tr(9, 11, E + 4); m.tr(1, 10, E + 7); m.tr(10, 15, E + 2); m.tr(15, 1, E + 6); m.tr(10, 1, E + 3); m.g[0] = vf_bool("condition");
  return 5;
}
static int scen3(Model& m) {
  m.states(16); const int E = 100, F = 104;
  m.entry(1, 2); m.entry(1, 7); m.entry(1, 10); m.entry(2, 3); m.sub(2, 4); m.entry(7, 8); m.sub(7, 9); m.entry(10, 11); m.sub(10, 12); m.final_(9, vf_bool("own_event") ? F : ANY);
  m.entry(4, 5, E); m.entry(4, 6, F); m.entry(4, 16, E + 3); m.entry(12, 13, F); m.entry(12, 14, E, 0, true); m.entry(12, 15, E + 2); m.g[0] = vf_bool("condition");
  m.tr(3, 4, E); m.tr(8, 9, E); m.tr(11, 12, F); m.tr(11, 12, E + 1); m.tr(4, 3, E + 1); m.tr(9, 8, E + 1); m.tr(12, 11, E + 1); m.tr(8, 9, E + 3); m.tr(3, 4, E + 3); m.tr(11, 12, E + 2); m.tr(8, 9, E + 2); m.tr(5, 6, F);
  return 5;
}
extern "C" void harness() {
  const int scen = vf_param("scen", 0), N = vf_param("events", 4), veto = vf_param("veto", 0), onlyVeto = vf_param("onlyveto", 0), from = vf_param("from", 0); const bool sync = vf_param("sync", 0);
  Pair p; Model& m = p.m; int ev = scen == 0 ? scen0(m) : scen == 1 ? scen1(m) : scen == 2 ? scen2(m) : scen3(m);
  p.start(); p.sameMask("active states after start"); wellFormed(m, *p.k);
  int at = veto ? vf_pick("refusal_at", from, N - 1) : -1; bool met = false;
  for (int i = 0; i < N; i++) {
    int e = vf_pick("event", 100, 100 + ev - 1); int64_t x = vf_i64("arg");
    if (i == at) { int s = vf_pick("refusing_state", 1, m.ns); vf_assume(!m.noCb[s]); (veto == 1 ? m.vx : m.ve)[s] = true; }
    const unsigned before = p.k->mask(); const int mark = p.log.n, rmark = p.r->log.n;
    bool h;
    if (sync) {
      Kit& k = *p.k; k.curN = 1; k.curArg = x; k.d->inlineRun = true; bool ok = k.hsm.transitionSync(e, HSM_WAIT_INDEFINITELY, x); k.d->inlineRun = false; int done = p.log.n; k.d->drain();
      p.mark = mark; h = p.r->event(e, 1, x); vf_assert(ok == h, "the result is the outcome of the event that was sent"); vf_assert(done == p.log.n, "all callbacks have run when the call returns");
    } else h = p.event(e, x);
    bool refused = false; for (int q = mark; q < p.log.n; q++) refused |= p.log.e[q].refused;
    if (i == at) { if (!refused) vf_assume(0); met = true; for (int s = 1; s <= m.ns; s++) m.vx[s] = m.ve[s] = false; }
    else if (!h && i + 1 < N) vf_assume(0);     // an ignored event changes nothing (C04, C19): only at the end
    p.sameMask("active states after the event"); if (!(veto == 2 && met)) wellFormed(m, *p.k);
    sameCounts(p.log, p.r->log, KALL | KB(K_FAILED), "callbacks of the event");
    // every callback in an order that fits the hierarchy, with the arguments of the event
    unsigned cur = before;
    for (int q = mark; q < p.log.n; q++) {
      const Entry& y = p.log.e[q];
      if (y.kind == K_ENTER) { vf_assert(m.parent[y.id] == 0 || ((cur >> m.parent[y.id]) & 1), "state entered before its parent"); vf_assert(!((cur >> y.id) & 1), "state entered while it is active"); }
      else if (y.kind == K_CHANGED) { vf_assert(!((cur >> y.id) & 1), "state-changed callback of an active state"); cur |= 1u << y.id; }
      else if (y.kind == K_EXIT && !y.refused) { for (int c = 1; c <= m.ns; c++) vf_assert(!(m.parent[c] == y.id && ((cur >> c) & 1) && !m.noCb[c]), "state exited before its child"); vf_assert((cur >> y.id) & 1, "state exited while it is not active"); cur &= ~(1u << y.id); }
      if (!refused && y.kind != K_EXIT) { vf_assert(y.nargs == 1, "callback received the number of arguments that were sent"); vf_assert(y.arg == x, "callback received the argument that was sent"); }
    }
    vf_assert(cur == p.k->mask(), "active states are those entered and not exited");
    (void)rmark; if (refused && h) vf_reach("other_region"); if (refused && !h) vf_reach("all_failed");
    if (m.nh && p.log.countKind(K_FAILED, mark) == 0 && (e == 103 || e == 104 || e == 106)) vf_reach("history");
    if (onlyVeto && i == at && !met) vf_assume(0);
  }
  alternation(m, p.log, p.k->mask()); vf_trace("mask", p.k->mask()); vf_trace("log", p.log.n); vf_reach("end");
}

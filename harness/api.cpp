#include "kit.h"
// Registration API: function objects or member functions (symbolic), every subset of the callbacks of a state, transitions with and without
// callback and condition, symbolic expected values, entry points, history default transitions and final states, compared with the reference.
extern "C" void harness() {
  const int N = vf_param("events", 3), focus = vf_param("focus", 0);
  Model m; Log log; m.states(focus == 3 ? 12 : 10);
  // 1 { 2, 3, H4 } (with focus 3: 3 is the entry point and has 11, 12) ; 5 leaf ; 6 { 7 final, 8 } ; 9 leaf ; 10 inside 8
  const bool cond = focus == 0;
  const bool x0 = cond && vf_bool("expected"), x1 = cond && vf_bool("expected_self");
  if (focus == 3) { m.entry(1, 3); m.sub(1, 2); m.entry(3, 11); m.sub(3, 12); }
  else { m.entry(1, 2, ANY, cond ? 20 : -1, cond ? vf_bool("expected_entry") : true); m.sub(1, 3); }
  m.entry(6, 8); m.sub(6, 7); m.entry(8, 10);
  m.final_(7, vf_bool("own_event") ? 106 : ANY);
  m.hist(1, 4, vf_bool("deep"), vf_bool("default") ? 3 : INVALID_HSM_STATE_ID, vf_bool("default_callback")); m.noCb[4] = true;
  m.tr(5, 9, 100, cond ? 0 : -1, cond ? x0 : true); m.self(5, 101, vf_bool("internal"), cond ? 1 : -1, cond ? x1 : true); m.tr(5, 1, 102); m.tr(9, 5, 100); m.tr(9, 4, 103); m.tr(2, 3, 100); m.tr(1, 5, 104); m.tr(9, 6, 102); m.tr(10, 7, 101); m.tr(6, 5, 106); m.tr(6, 9, 101); m.initial = 5;
  if (focus == 3) { m.tr(11, 12, 100); m.tr(1, 9, 105); m.tr(9, 1, 101); m.initial = 9; }
  if (cond) { m.g[0] = vf_bool("condition"); m.g[1] = vf_bool("condition_self"); m.g[20] = vf_bool("condition_entry"); }
  Kit k(m, log); k.members = vf_bool("members");
  for (int s = 1; s <= m.ns; s++) k.cbs[s] = 0; if (k.members) k.cbs[4] = 0;
  if (focus == 1) { int c = vf_pick("callbacks", 0, 7); k.cbs[5] = c; k.cbs[1] = c; k.cbs[7] = c; k.cbs[10] = vf_pick("callbacks_inner", 0, 7); for (int i = 0; i < m.nt; i++) k.tcb[i] = i % 2; }
  else if (focus == 2) { for (int s = 1; s <= m.ns; s++) if (s != 4) k.cbs[s] = 7; k.cbs[5] = k.cbs[9] = 4; k.cbs[2] = 6; k.cbs[10] = 2; k.cbs[6] = 2; for (int s : {5, 2, 10}) if (k.cbs[s] & 4) m.vx[s] = vf_bool("refuse_exit"); for (int s : {6, 3}) m.ve[s] = vf_bool("refuse_entry"); }
  else for (int s = 1; s <= m.ns; s++) if (s != 4) k.cbs[s] = 7;
  k.start(); Ref r(m); r.start(); k.dropMissing(r.log, 0);
  vf_assert(k.mask() == r.mask(), "active states after start"); sameCounts(log, r.log, KALL, "callbacks of the start sequence");
  for (int i = 0; i < N; i++) {
    int e = vf_pick("event", 100, 106); int64_t x = vf_i64("arg"); vf_assume(focus == 3 || e != 105); const int mark = log.n, rmark = r.log.n; k.send(e, x); bool h = r.event(e, 1, x); k.dropMissing(r.log, rmark);
    if (!h && i + 1 < N) vf_assume(0);
    vf_assert(k.mask() == r.mask(), "active states after the event"); sameCounts(log, r.log, KALL | KB(K_FAILED), "exactly the registered callbacks are called");
    for (int q = mark; q < log.n; q++) if (log.e[q].kind == K_TRANS || log.e[q].kind == K_HCB || log.e[q].kind == K_FAILED) { vf_assert(log.e[q].nargs == 1, "callback received the number of arguments that were sent"); vf_assert(log.e[q].arg == x, "callback received the argument that was sent"); }
    if (log.countKind(K_HCB, mark)) vf_reach("history_default"); if (h && log.n == mark) vf_reach("silent"); for (int q = mark; q < log.n; q++) if (log.e[q].refused) vf_reach("refused");
  }
  if (k.members) vf_reach("members"); else vf_reach("functions");
  vf_trace("mask", k.mask()); vf_trace("log", log.n); vf_reach("end");
}

#include "kit.h"
// State actions (timers, transitions, argument validation) under refused exits and entries, nested entry and history.
struct Act { int kind; int id; unsigned ms; bool single; };
static Act acts[64]; static int na;
struct AD : public D {
  using D::D;
  void startTimer(const HandlerID_t h, const TimerID_t id, const unsigned int ms, const bool s) override { acts[na++] = Act{1, id, ms, s}; D::startTimer(h, id, ms, s); }
  void stopTimer(const TimerID_t id) override { acts[na++] = Act{2, id, 0, false}; D::stopTimer(id); }
  void restartTimer(const TimerID_t id) override { acts[na++] = Act{3, id, 0, false}; D::restartTimer(id); }
};
static int cnt(int kind, int id) { int c = 0; for (int i = 0; i < na; i++) c += acts[i].kind == kind && acts[i].id == id; return c; }
extern "C" void harness() {
  Pair p; Model& m = p.m; m.states(8); na = 0; const int E = vf_param("events", 2);
  // 1{2,3} 4{5,6} 7 ; actions on 2 (entry/exit), 4 (entry/exit), 5 (entry)
  m.entry(1, 2); m.sub(1, 3); m.entry(4, 5); m.sub(4, 6); m.tr(2, 3, 100); m.tr(3, 2, 100); m.tr(1, 4, 101); m.tr(4, 1, 101); m.tr(5, 6, 102); m.self(2, 103, vf_bool("internal")); m.self(1, 200, true); m.self(4, 200, true); m.self(7, 200, true);
  p.k = new Kit(m, p.log); Kit& k = *p.k; k.install(); HierarchicalStateMachine& h = k.hsm;
  int ms = vf_i32("interval"); vf_assume(ms > 0); bool single = vf_bool("single_shot"); int64_t ax = vf_i64("action_arg"); int tid = vf_i32("timer_id"); vf_assume(tid >= 1 && tid <= 3);
  typedef StateActionTrigger T; typedef StateAction A;
  vf_assert(h.registerStateAction(2, T::ON_STATE_ENTRY, A::START_TIMER, tid, ms, single), "start timer action accepted");
  vf_assert(h.registerStateAction(2, T::ON_STATE_EXIT, A::STOP_TIMER, tid), "stop timer action accepted");
  vf_assert(h.registerStateAction(4, T::ON_STATE_ENTRY, A::TRANSITION, 200, ax, true), "transition action accepted");
  const int extraArgs = vf_pick("second_transition_action_args", -1, 2);   // another transition action with 0 .. 2 arguments
  if (extraArgs == 0) h.registerStateAction(6, T::ON_STATE_ENTRY, A::TRANSITION, 201); else if (extraArgs == 1) h.registerStateAction(6, T::ON_STATE_ENTRY, A::TRANSITION, 201, ax); else if (extraArgs == 2) h.registerStateAction(6, T::ON_STATE_ENTRY, A::TRANSITION, 201, ax, 1);
  vf_assert(h.registerStateAction(4, T::ON_STATE_EXIT, A::RESTART_TIMER, 9), "restart timer action accepted"); vf_assert(h.registerStateAction(4, T::ON_STATE_EXIT, A::STOP_TIMER, 8), "second action accepted");
  vf_assert(h.registerStateAction(5, T::ON_STATE_ENTRY, A::START_TIMER, 9, 10, true), "start timer action accepted");
  switch (vf_pick("malformed", 0, 9)) {
    case 0: vf_assert(!h.registerStateAction(2, T::ON_STATE_ENTRY, A::START_TIMER, 7, 10), "malformed arguments are refused"); break;
    case 1: vf_assert(!h.registerStateAction(2, T::ON_STATE_ENTRY, A::START_TIMER, 7, 10, 1), "malformed arguments are refused"); break;
    case 2: vf_assert(!h.registerStateAction(2, T::ON_STATE_ENTRY, A::START_TIMER, "7", 10, true), "malformed arguments are refused"); break;
    case 3: vf_assert(!h.registerStateAction(2, T::ON_STATE_ENTRY, A::START_TIMER, 7, true, true), "malformed arguments are refused"); break;
    case 4: vf_assert(!h.registerStateAction(2, T::ON_STATE_ENTRY, A::STOP_TIMER), "malformed arguments are refused"); break;
    case 5: vf_assert(!h.registerStateAction(2, T::ON_STATE_ENTRY, A::STOP_TIMER, 7, 1), "malformed arguments are refused"); break;
    case 6: vf_assert(!h.registerStateAction(2, T::ON_STATE_ENTRY, A::RESTART_TIMER, true), "malformed arguments are refused"); break;
    case 7: vf_assert(!h.registerStateAction(2, T::ON_STATE_ENTRY, A::TRANSITION), "malformed arguments are refused"); break;
    case 8: vf_assert(!h.registerStateAction(2, T::ON_STATE_ENTRY, A::TRANSITION, "200"), "malformed arguments are refused"); break;
    default: vf_assert(!h.registerStateAction(2, T::ON_STATE_EXIT, A::START_TIMER, 7, 10, true, 1), "malformed arguments are refused"); break;
  }
  k.d = std::shared_ptr<D>(new AD(8), [](D* d) { d->stop(); delete d; }); vf_assert(h.initialize(k.d), "initialize"); k.d->drain(); p.r = new Ref(m); p.r->start();
  for (int i = 0; i < E; i++) {
    if (i + 1 == E) { int s = vf_pick("refusing_state", 0, 5); if (s) { if (vf_bool("refuse_entry")) m.ve[s] = true; else m.vx[s] = true; } }
    int e = vf_pick("event", 100, 103); int before4 = p.r->log.count(K_CHANGED, 4), before6 = p.r->log.count(K_CHANGED, 6); k.send(e, i); p.r->event(e, 1, i); 
    // the action of 4 sends event 200 with its arguments behind the events already waiting
    for (int q = p.r->log.count(K_CHANGED, 4) - before4; q > 0; q--) { int rf = p.r->log.n; (void)rf; p.r->event(200, 2, static_cast<int64_t>(static_cast<uint64_t>(ax) + (1ull << 11))); vf_reach("transition_action"); }
    for (int q = p.r->log.count(K_CHANGED, 6) - before6; q > 0 && extraArgs >= 0; q--) { p.r->event(201, extraArgs, extraArgs == 0 ? 0 : extraArgs == 1 ? ax : static_cast<int64_t>(static_cast<uint64_t>(ax) + (1ull << 11))); vf_reach("second_transition_action"); }
    int s = 0; for (int q = 1; q <= 8; q++) if (m.ve[q] || m.vx[q]) s = q;
    if (s) { // re-entry during a cancelled transition ignores refusals; whether actions run then is not specified: such paths end here
      bool reentered = false; for (int q = 0; q < p.log.n; q++) if (p.log.e[q].kind == K_ENTER && p.log.e[q].refused && q + 1 < p.log.n && p.log.e[q + 1].kind == K_CHANGED && p.log.e[q + 1].id == p.log.e[q].id) reentered = true; if (reentered) vf_assume(0); vf_reach("refused"); }
  }
  // accepted entries and exits, from the log
  int in2 = 0, out2 = 0, in4 = 0, out4 = 0, in5 = 0; const Log& l = p.log;
  for (int i = 0; i < l.n; i++) { if (l.e[i].kind == K_ENTER && !l.e[i].refused) { in2 += l.e[i].id == 2; in4 += l.e[i].id == 4; in5 += l.e[i].id == 5; } if (l.e[i].kind == K_EXIT && !l.e[i].refused) { out2 += l.e[i].id == 2; out4 += l.e[i].id == 4; } }
  vf_assert(cnt(1, tid) == in2 && cnt(2, tid) == out2, "timer actions run once per accepted entry and exit"); vf_assert(cnt(3, 9) == out4 && cnt(2, 8) == out4 && cnt(1, 9) == in5, "every action of a state runs once"); vf_assert(cnt(1, 7) + cnt(2, 7) + cnt(3, 7) == 0, "refused actions never run");
  for (int i = 0; i < na; i++) if (acts[i].kind == 1 && acts[i].id == tid) { vf_assert(acts[i].ms == static_cast<unsigned>(ms), "interval of the action"); vf_assert(acts[i].single == single, "mode of the action"); }
  vf_assert(na == in2 + out2 + 2 * out4 + in5, "no other timer operation happens"); vf_assert(h.isTimerRunning(tid) == (((k.mask() >> 2) & 1) != 0), "the timer of a state runs while the state is active");
  sameCounts(p.log, p.r->log, KALL | KB(K_FAILED), "callbacks, including the event sent by a transition action"); sameLog(p.log, p.r->log, KB(K_TRANS) | KB(K_FAILED), "events of transition actions carry their arguments"); p.sameMask("active states");
  (void)in4; vf_trace("mask", k.mask()); vf_trace("acts", na); vf_reach("end");
}

#include "kit.h"
#include <cstring>
// Timers of two machines on one dispatcher: start, restart, stop, expiry in any order; release or destruction of one of them.
static int got[3][8]; static int wrong;
extern "C" void harness() {
  const int N = vf_param("ops", 4); memset(got, 0, sizeof got); wrong = 0;
  std::shared_ptr<D> d = D::create(); HierarchicalStateMachine* h[2] = {new HierarchicalStateMachine(1), new HierarchicalStateMachine(1)};
  bool alive[2] = {true, true}; int ev1 = vf_i32("event_of_timer"); vf_assume(ev1 >= 100 && ev1 <= 103);
  for (int q = 0; q < 2; q++) {
    h[q]->registerState(1); for (int e = 100; e < 104; e++) h[q]->registerSelfTransition(1, e, TransitionType::INTERNAL_TRANSITION, [q, e](const VariantVector_t& a) { got[q][e - 100]++; if (!a.empty()) wrong++; });
    h[q]->registerFailedTransitionCallback([](const std::list<StateID_t>&, const EventID_t, const VariantVector_t&) { wrong++; });
  }
  const int none = vf_bool("second_without_event") ? 2 : 4, other = 6 - none;   // one timer has no event
  h[0]->registerTimer(1, ev1); h[0]->registerTimer(other, 102); h[1]->registerTimer(3, 103);
  vf_assert(h[0]->initialize(d) && h[1]->initialize(d), "initialize"); d->drain();
  struct S { bool on, single; unsigned ms; int owner; } t[6] = {}; int want[2][8]; memset(want, 0, sizeof want);
  for (int i = 0; i < N; i++) {
    int op = vf_pick("op", 0, 6); int id = vf_pick("timer", 1, 4), owner = id == 3 ? 1 : 0;
    if (op == 0) { unsigned ms = vf_u32("interval"); bool s = vf_bool("single_shot"); h[owner] ? h[owner]->startTimer(id, ms, s) : (void)0; if (alive[owner] && h[owner] && ms > 0) { t[id] = S{true, s, ms, owner}; } }
    else if (op == 1) { if (h[owner]) h[owner]->stopTimer(id); if (alive[owner]) t[id].on = false, t[id].ms = 0; }
    else if (op == 2) { if (h[owner]) h[owner]->restartTimer(id); if (alive[owner] && t[id].ms > 0) { if (!t[id].on) vf_reach("restarted_expired"); t[id].on = true; } }   // an expired single-shot timer can be restarted
    else if (op == 3) { // the host reports an expiry, also of timers that are not running
      unsigned r = d->expire(id); vf_assert(r == ((t[id].on && !t[id].single) ? t[id].ms : 0u), "expiry re-arms exactly repeating timers");
      if (t[id].on) { int e = id == 1 ? ev1 : id == other ? 102 : id == 3 ? 103 : -1; if (e > 0) want[owner][e - 100]++; if (t[id].single) t[id].on = false; vf_reach("expired"); } else vf_reach("late_expiry");
    } else if (op == 4) { if (!alive[0]) vf_assume(0); h[0]->release(); alive[0] = false; t[1].on = t[2].on = t[4].on = false; d->drain(); memcpy(want[0], got[0], sizeof got[0]); vf_reach("released"); }
    else if (op == 5) { if (!h[0]) vf_assume(0); delete h[0]; h[0] = nullptr; alive[0] = false; t[1].on = t[2].on = t[4].on = false; d->drain(); memcpy(want[0], got[0], sizeof got[0]); vf_reach("destroyed"); }
    else d->drain();
    for (int q = 1; q <= 4; q++) { int o = q == 3; if (h[o]) vf_assert(h[o]->isTimerRunning(q) == (t[q].on && (alive[o])), "a timer is reported running exactly between start and stop or single-shot expiry"); D::T* x = d->timer(q); if (t[q].on) { vf_assert(x && x->on, "a running timer is armed at the host"); vf_assert(x->ms == t[q].ms, "armed with its interval"); vf_assert(x->single == t[q].single, "armed with its mode"); } }
    if (!alive[0]) for (int q = 1; q <= 4; q++) if (q != 3) { D::T* x = d->timer(q); if (x) vf_assert(!x->on || x->single, "timers of a released machine are stopped"); }
  }
  d->drain();
  for (int q = 0; q < 2; q++) for (int e = 0; e < 4; e++) vf_assert(got[q][e] == want[q][e], "each expiry delivers exactly the registered event to the owning machine");
  vf_assert(wrong == 0, "nothing else is delivered");
  delete h[0]; delete h[1]; vf_reach("end");
}

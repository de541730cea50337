#include "disp.h"
// Bookkeeping of two timers and two handlers (plus an unknown handler) under any sequence of start, restart, stop, unregister and expiry.
static int calls[3], lastId;
struct HD : public D { using D::D; };
extern "C" void harness() {
  const int N = vf_param("ops", 4); calls[0] = calls[1] = 0; lastId = -1;
  std::shared_ptr<D> d = D::create(); int h[3]; bool live[3] = {true, true, false};
  for (int i = 0; i < 2; i++) h[i] = d->registerTimerHandler([i](const TimerID_t t) { calls[i]++; lastId = t; return true; });
  h[2] = vf_i32("unknown_handler"); vf_assume(h[2] != h[0] && h[2] != h[1]);
  int ids[2]; ids[0] = vf_i32("timer_a"); ids[1] = vf_i32("timer_b"); vf_assume(ids[0] != ids[1] && ids[0] != INVALID_HSM_TIMER_ID && ids[1] != INVALID_HSM_TIMER_ID);
  struct S { bool on, known, single; unsigned ms; int h; } t[2] = {};
  for (int i = 0; i < N; i++) {
    int op = vf_pick("op", 0, 4), w = vf_pick("timer", 0, 1); int starts = d->timerStarts, stops = d->timerStops; int c0 = calls[0], c1 = calls[1];
    if (op == 0) {
      unsigned ms = vf_u32("interval"); bool single = vf_bool("single_shot"); int k = vf_pick("handler", 0, 2); d->startTimer(h[k], ids[w], ms, single);
      if (ms > 0 && live[k]) { t[w] = S{true, true, single, ms, k}; vf_assert(d->timerStarts == starts + 1, "armed once"); D::T* x = d->timer(ids[w]); vf_assert(x && x->on && x->ms == ms && x->single == single, "armed with the new settings"); vf_reach("started"); }
      else { vf_assert(d->timerStarts == starts && d->timerStops == stops, "refused start changes nothing"); vf_reach("refused"); }
    } else if (op == 1) { d->restartTimer(ids[w]); if (t[w].on || (t[w].known && t[w].single)) { t[w].on = true; vf_assert(d->timerStarts == starts + 1, "restart arms once"); D::T* x = d->timer(ids[w]); vf_assert(x && x->on && x->ms == t[w].ms && x->single == t[w].single, "restart uses the same settings"); vf_reach("restarted"); } else vf_assert(d->timerStarts == starts, "restarting a timer that was not started has no effect"); }
    else if (op == 2) { d->stopTimer(ids[w]); if (t[w].on) vf_assert(d->timerStops == stops + 1, "disarmed once"); t[w].on = t[w].known = false; vf_reach("stopped"); }
    else if (op == 3) { int k = vf_pick("handler", 0, 1); d->unregisterTimerHandler(h[k]); live[k] = false; for (int q = 0; q < 2; q++) if (t[q].h == k) { t[q].on = t[q].known = false; } vf_reach("unregistered"); }
    else { unsigned r = d->expire(ids[w]); if (t[w].on) { vf_assert(calls[t[w].h] == (t[w].h ? c1 : c0) + 1 && calls[1 - t[w].h] == (t[w].h ? c0 : c1), "expiry calls the owning handler once"); vf_assert(lastId == ids[w], "with the id of the timer"); vf_assert(r == (t[w].single ? 0u : t[w].ms), "re-armed with its interval exactly when repeating"); if (t[w].single) { t[w].on = false; D::T* x = d->timer(ids[w]); if (x) x->on = false; vf_reach("single"); } else vf_reach("repeating"); }
      else { vf_assert(calls[0] == c0 && calls[1] == c1 && r == 0, "expiry of a timer that is not running has no effect"); vf_reach("late"); } }
    for (int q = 0; q < 2; q++) { vf_assert(d->isTimerRunning(ids[q]) == t[q].on, "reported running exactly while it runs"); D::T* x = d->timer(ids[q]); vf_assert((x && x->on) == t[q].on, "the host timer is armed exactly while the timer runs"); }
    vf_assert(d->expire(INVALID_HSM_TIMER_ID) == 0, "invalid timer");
  }
  vf_reach("end");
}

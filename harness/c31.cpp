#include "std.h"
// Timers of the standard dispatcher: one thread starts, restarts and stops them while time passes and the timers thread runs.
static const uint64_t MS = 1000000;
struct Model { bool running = false, single = false; uint64_t due = 0, late = 0, interval = 0; int fired = 0; };
static S* d; static Model m[3], old[3]; static bool inOp; static int opTimer; static uint64_t settled;
static void fire(Model& t) { t.fired++; uint64_t from = t.due > settled ? t.due : settled; if (t.single) t.running = false; else { t.due = from + t.interval; t.late = vf_clock() + t.interval; } }
static bool onTimer(const TimerID_t id) {
  vf_assert(id == 1 || id == 2, "a known timer"); uint64_t now = vf_clock();
  if (inOp && id == opTimer) { vf_assert(old[id].running, "a timer that is not running does not fire"); vf_assert(now >= old[id].due, "a timer does not fire before its interval has passed"); fire(old[id]); if (m[id].interval == 0) m[id] = old[id]; vf_reach("during"); return true; }
  vf_assert(m[id].running, "a timer that is not running does not fire"); vf_assert(now >= m[id].due, "a timer does not fire before its interval has passed"); fire(m[id]); vf_reach("fired"); return true;
}
static void settle() { vf_quiesce(); settled = vf_clock(); for (int i = 1; i < 3; i++) vf_assert(!m[i].running || settled < m[i].late + MS, "a running timer fires in time"); }
extern "C" void harness() {
  vf_opt("preempt", vf_param("preempt", 1)); inOp = false; settled = 0; for (auto& x : m) x = Model();
  std::shared_ptr<S> sp = S::create(2); d = sp.get(); int h = d->registerTimerHandler(onTimer);
  if (vf_param("mode", 0) == 1) {   // the whole range of intervals
    unsigned iv = vf_pick("long", 0, 1) ? 0x80000000u - vf_pick("above", 0, 1) : 0xFFFFFFFFu; uint64_t t = vf_clock(); m[1].running = true; m[1].single = true; m[1].interval = iv * MS; m[1].due = m[1].late = t + m[1].interval; d->startTimer(h, 1, iv, true);
    settle(); vf_clock_advance(5 * MS); settle(); vf_clock_advance(m[1].interval - 6 * MS); settle(); vf_clock_advance(2 * MS); settle(); vf_assert(m[1].fired == 1, "fires"); vf_reach("late");
    d->stop(); d->join(); vf_reach("end"); return;
  }
  if (vf_range("fraction", 0, 1)) vf_clock_advance(MS / 2 - 1);
  int n = vf_param("ops", 4);
  for (int i = 0; i < n; i++) {
    int op = i == 0 ? 0 : vf_range("op", 0, 3), id = op == 3 ? 0 : vf_pick("timer", 1, 2); uint64_t now = vf_clock();
    if (op == 3) { static const uint64_t steps[] = {MS, 2 * MS, 3 * MS / 5, 7 * MS}; vf_clock_advance(steps[vf_pick("step", 0, 3)]); if (vf_range("settle", 0, 1)) settle(); continue; }
    if (op != 0 && m[id].interval == 0) { vf_assume(0); }
    inOp = true; opTimer = id; old[id] = m[id];
    Model nw = m[id];
    if (op == 0) { nw.interval = (id == 1 ? 2 : 5) * MS; nw.single = vf_range("single", 0, 1); nw.running = true; nw.due = nw.late = now + nw.interval; int f = m[id].fired; m[id] = nw; d->startTimer(h, id, static_cast<unsigned>(nw.interval / MS), nw.single); m[id].fired = f; }
    else if (op == 1) { nw.running = true; nw.due = nw.late = now + nw.interval; m[id] = nw; d->restartTimer(id); }
    else { m[id] = Model(); d->stopTimer(id); m[id] = Model(); }
    inOp = false; opTimer = 0;
  }
  settle(); int f1 = m[1].fired, f2 = m[2].fired; bool r1 = m[1].running, r2 = m[2].running;
  for (int i = 0; i < 2; i++) { vf_clock_advance(4 * MS); settle(); }
  vf_assert(!r1 || m[1].fired > f1, "a timer that stays running is fired"); vf_assert(!r2 || m[2].fired > f2, "a timer that stays running is fired"); vf_assert(r1 || m[1].fired == f1, "a stopped or expired timer does not fire"); vf_assert(r2 || m[2].fired == f2, "a stopped or expired timer does not fire");
  d->stop(); d->join(); vf_reach("end");
}

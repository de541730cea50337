#include "vf.h"
#include <hsmcpp/HsmEventDispatcherArduino.hpp>
#include <Arduino.h>
using namespace hsmcpp;
// Polling dispatcher: symbolic clock readings over the whole range of the 32-bit counter, symbolic intervals.
static uint32_t T; static int locked, unbalanced;
unsigned long millis() { return static_cast<unsigned long>(T); }
void noInterrupts() { if (locked) unbalanced++; locked = 1; }
void interrupts() { if (!locked) unbalanced++; locked = 0; }
struct Model { bool known = false, running = false, single = false; uint32_t age = 0, interval = 0; int fired = 0; };
static Model m[3]; static int events, enq, actions;
extern "C" void harness() {
  for (auto& x : m) x = Model(); events = enq = actions = 0; locked = unbalanced = 0; T = vf_u32("clock");
  std::shared_ptr<HsmEventDispatcherArduino> d = HsmEventDispatcherArduino::create(2);
  int h = d->registerTimerHandler([](const TimerID_t id) { m[id].fired++; vf_assert(!locked, "handlers run with interrupts enabled"); return true; });
  int hA = d->registerEventHandler([]() { events++; return true; }), hE = d->registerEnqueuedEventHandler([](const EventID_t) { enq++; return true; });
  vf_assert(d->start(), "start"); int n = static_cast<int>(vf_param("ops", 4)), eSent = 0, qSent = 0, aSent = 0; bool stopped = false;
  for (int i = 0; i < n; i++) {
    int op = i == 0 ? 0 : i == n - 1 ? 1 : vf_pick("op", 0, 4);
    if (op == 0 || op == 2 || op == 3) {
      int id = i == 0 ? 1 : vf_pick("timer", 1, 2); Model& x = m[id];
      if (op == 0) { x.known = x.running = true; x.interval = vf_u32("interval"); vf_assume(x.interval > 0); x.single = vf_pick("single", 0, 1); x.age = 0; d->startTimer(h, id, x.interval, x.single); }
      else if (op == 2) { if (x.known) { x.running = true; x.age = 0; } d->restartTimer(id); vf_reach("restart"); }
      else { x.known = x.running = false; d->stopTimer(id); }
      vf_assert(d->isTimerRunning(id) == x.running, "isTimerRunning");
    } else if (op == 4) {
      switch (vf_pick("what", 0, 3)) { case 0: d->emitEvent(hA); eSent += !stopped; break; case 1: qSent += d->enqueueEvent(hE, 1) ? 1 : 0; break; case 2: d->enqueueAction([]() { actions++; }); aSent++; break; default: d->stop(); stopped = true; break; }
    } else {
      uint32_t delta = vf_u32("elapsed"); bool wrapped = T + delta < T; T += delta; int before[3]; bool fire[3];
      for (int id = 1; id < 3; id++) { before[id] = m[id].fired; if (m[id].running) { vf_assume(m[id].age + delta >= delta); m[id].age += delta; } fire[id] = m[id].running && m[id].age >= m[id].interval && !stopped; }   // the counter has not gone all the way round since the timer was started
      d->dispatchEvents();
      for (int id = 1; id < 3; id++) {
        vf_assert(m[id].fired == before[id] + fire[id], "fires exactly once at the first poll at or after its time, and never before");
        if (fire[id]) { vf_reach("fired"); if (m[id].single) m[id].running = false; else m[id].age = 0; if (wrapped) vf_reach("wrapped"); }
        vf_assert(d->isTimerRunning(id) == m[id].running, "isTimerRunning");
      }
      if (!stopped) { vf_assert(events == eSent && enq == qSent && actions == aSent, "every poll delivers all pending work"); if (events + enq + actions) vf_reach("delivered"); }
      else { vf_reach("stopped"); vf_assert(events <= eSent && enq <= qSent, "nothing is dispatched after stop"); eSent = events; qSent = enq; aSent = actions; }
    }
    vf_assert(!locked && !unbalanced, "interrupts are enabled again");
  }
  vf_reach("end");
}

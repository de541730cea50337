#pragma once
// Contract of a dispatcher which is served by the event loop of a host framework. The harness of the host provides:
//   Host::create()   a new dispatcher           Host::one()   let the host serve one piece of work that is ready at time Host::T (host's choice), false if there is none
//   Host::T          the host's clock in ms     Host::catchUp repeating timers are re-armed relative to their expiry instead of the time they were served
#include "vf.h"
#include <memory>
#define protected public
#include <hsmcpp/HsmEventDispatcherBase.hpp>
#undef protected
#include "watch.h"
using namespace hsmcpp;
inline uint32_t hostQuantum = 1;   // resolution of the host's clock in ms
WATCHER(mPendingEvents) WATCHER(mPendingActions) WATCHER(mEnqueuedEvents) WATCHER(mActiveTimers) WATCHER(mEventHandlers)
struct HostModel { bool known, running, single; uint32_t age, interval; int fired; };
template <class Host> struct Contract {
  inline static HostModel m[3]; inline static int events, enq, actions, eSent, qSent, aSent, hT, hA, hE, nestedLeft, eEarly, qEarly, aEarly; inline static bool stopped, started, quietActions, emitFromTimer; inline static std::shared_ptr<HsmEventDispatcherBase> d;
  static bool onTimer(const TimerID_t id) {
    vf_assert(id == 1 || id == 2, "a known timer"); HostModel& x = m[id]; vf_assert(!stopped, "nothing is dispatched after stop"); vf_assert(x.running, "only running timers fire"); vf_assert(x.age >= x.interval, "a timer does not fire before its interval has passed");
    x.fired++; vf_reach("fired"); if (x.single) x.running = false; else x.age = Host::catchUp ? x.age - x.interval : 0;
    if (emitFromTimer) { emitFromTimer = false; d->emitEvent(hA); eSent++; vf_reach("from_timer"); }
    return true;
  }
  static void reg() {
    hA = d->registerEventHandler([]() { vf_assert(!stopped, "nothing is dispatched after stop"); events++; return true; });
    if (hE == 0) { hE = d->registerEnqueuedEventHandler([](const EventID_t) { vf_assert(!stopped, "nothing is dispatched after stop"); enq++; return true; }); hT = d->registerTimerHandler(onTimer); }
  }
  static void op(int what) {
    if (what < 3) {
      int id = vf_pick("timer", 1, 2); HostModel& x = m[id]; if (stopped) return;
      if (what == 0) { x.known = x.running = true; uint32_t ms = static_cast<uint32_t>(vf_range("interval", 1, hostQuantum == 1 ? 1000000 : 400)); x.interval = ms; if (hostQuantum > 1) x.interval = ms + static_cast<uint32_t>(vf_range("rest", 0, hostQuantum - 1)), vf_assume(x.interval % hostQuantum == 0); x.single = vf_pick("single", 0, 1); x.age = 0; d->startTimer(hT, id, ms, x.single); }
      else if (what == 1) { if (x.known) { x.running = true; x.age = 0; } d->restartTimer(id); }
      else { x.known = x.running = false; d->stopTimer(id); vf_reach("stop_timer"); }
      vf_assert(d->isTimerRunning(id) == x.running, "isTimerRunning");
    } else if (what == 3) {
      switch (vf_pick("send", 0, 2)) {
        case 0: d->emitEvent(hA); (started ? eSent : eEarly) += !stopped; break;
        case 1: { bool ok = d->enqueueEvent(hE, 1); (started ? qSent : qEarly) += ok && !stopped; break; }
        default: { int inner = nestedLeft > 0 ? vf_pick("inner", -1, 4) : -1; if (inner >= 0) nestedLeft--; d->enqueueAction([inner]() { vf_assert(!quietActions, "nothing is dispatched after stop"); actions++; if (inner == 4) stop(); else if (inner >= 0) { vf_reach("nested"); op(inner); } }); (started ? aSent : aEarly) += !stopped; break; }
      }
    } else if (what == 4) { stop(); }
    else if (what == 5) {   // time passes, the host serves everything that is ready
      uint32_t delta = static_cast<uint32_t>(vf_range("elapsed", 0, hostQuantum == 1 ? 2000000 : 80)) * hostQuantum; Host::T += delta;
      for (int i = 1; i < 3; i++) { if (Host::catchUp && m[i].running) vf_assume(m[i].age + delta < 2 * m[i].interval); m[i].age += delta; }
      serve();
    } else { vf_assert(d->start(), "start"); if (stopped || !started) { if (stopped) { reg(); eEarly = qEarly = aEarly = 9; eSent = events = 0; qSent = enq = 0; aSent = actions = 0; for (auto& x : m) x.known = x.running = false; d->stopTimer(1); d->stopTimer(2); vf_reach("restarted"); } started = true; stopped = quietActions = false; } }
  }
  static void stop() { d->stop(); stopped = true; vf_reach("stopped"); }
  static void serve() {
    quietActions = stopped; int k = 0; while (Host::one()) if (++k > 40) vf_fail("the host does not come to rest");
    if (started && !stopped) { for (int i = 1; i < 3; i++) vf_assert(!m[i].running || m[i].age < m[i].interval, "a running timer is fired when its interval has passed");
      vf_assert(events >= eSent && enq >= qSent && actions >= aSent && events <= eSent + eEarly && enq <= qSent + qEarly && actions <= aSent + aEarly, "each event, interrupt-safe event and action is dispatched exactly once"); if (events + enq + actions) vf_reach("delivered"); }
    for (int i = 1; i < 3; i++) if (!stopped) vf_assert(d->isTimerRunning(i) == m[i].running, "isTimerRunning");
  }
  static void begin() { for (auto& x : m) x = HostModel(); events = enq = actions = eSent = qSent = aSent = hA = hE = hT = eEarly = qEarly = aEarly = 0; nestedLeft = 1; stopped = started = quietActions = emitFromTimer = false; }
  static void run(std::shared_ptr<HsmEventDispatcherBase> disp) {
    begin(); d = disp; disp.reset(); reg(); int n = static_cast<int>(vf_param("ops", 4));
    if (vf_param("early", 0)) { op(vf_pick("before", 0, 3)); }
    op(6); emitFromTimer = vf_pick("emit_from_timer", 0, 1);
    for (int i = 0; i < n; i++) op(i == n - 1 ? 5 : vf_pick("op", 0, vf_param("restart", 0) ? 6 : 5));
    d.reset(); stopped = quietActions = true; int k = 0; while (Host::one()) if (++k > 40) vf_fail("the host does not come to rest"); vf_reach("end");
  }
};
// A second thread uses the dispatcher while the loop's thread serves it.
template <class Host> struct Threads {
  struct Tm { bool running, single; uint32_t since, interval; };
  inline static std::shared_ptr<HsmEventDispatcherBase> d; inline static Tm cur, old; inline static int inOp, fired, events, eSent, enq, qSent, actions, aSent, hT, hA, hE, ops; inline static bool done;
  static bool fits(const Tm& t) { return t.running && Host::T - t.since >= t.interval; }
  static bool onTimer(const TimerID_t id) {
    vf_assert(id == 1, "a known timer"); fired++; vf_reach("fired");
    if (inOp && fits(old)) { old.running = !old.single; old.since = Host::T; vf_reach("during"); if (inOp == 2) return true; }
    else { vf_assert(cur.running, "only running timers fire"); vf_assert(Host::T - cur.since >= cur.interval, "a timer does not fire before its interval has passed"); if (cur.single) cur.running = false; else cur.since = Host::T; }
    return true;
  }
  static void sender(void*) {
    for (int i = 0; i < ops; i++) {
      int op = vf_range("op", vf_param("timers", 1) ? 0 : 3, 3); old = cur;
      if (op == 0) { inOp = 1; cur.running = true; cur.single = vf_range("single", 0, 1); cur.interval = 5; cur.since = Host::T; d->startTimer(hT, 1, cur.interval, cur.single); inOp = 0; }
      else if (op == 1) { vf_assume(cur.interval != 0); inOp = 1; cur.running = true; cur.since = Host::T; d->restartTimer(1); inOp = 0; }
      else if (op == 2) { inOp = 2; cur.running = false; cur.interval = 0; d->stopTimer(1); inOp = 0; }
      else if (vf_param("unregister", 0) && vf_range("unregister", 0, 1)) { HandlerID_t x = d->registerEventHandler([]() { return true; }); d->unregisterEventHandler(x); }
      else { int w = vf_range("send", 0, 2); if (w == 0) { d->emitEvent(hA); eSent++; } else if (w == 1) { if (d->enqueueEvent(hE, 1)) qSent++; } else { d->enqueueAction([]() { actions++; }); aSent++; } }
    }
    done = true;
  }
  static void serve() { int k = 0; while (Host::one()) if (++k > 60) vf_fail("the host does not come to rest"); }
  static void run(std::shared_ptr<HsmEventDispatcherBase> disp) {
    vf_opt("preempt", vf_param("preempt", 1)); cur = old = Tm(); inOp = fired = events = eSent = enq = qSent = actions = aSent = 0; done = false; ops = static_cast<int>(vf_param("ops", 2)); d = disp; disp.reset(); { HsmEventDispatcherBase* b = d.get(); watch_mPendingEvents(b, 1, 0); watch_mPendingActions(b, 1, 0); watch_mEnqueuedEvents(b, 1, 0); watch_mActiveTimers(b, 1, 0); watch_mEventHandlers(b, 1, 0); }
    hA = d->registerEventHandler([]() { events++; return true; }); hE = d->registerEnqueuedEventHandler([](const EventID_t) { enq++; return true; }); hT = d->registerTimerHandler(onTimer); vf_assert(d->start(), "start");
    if (vf_range("armed", 0, 1)) { cur.running = true; cur.single = vf_range("single0", 0, 1); cur.interval = 5; cur.since = Host::T; d->startTimer(hT, 1, 5, cur.single); }
    uint64_t t = vf_thread_create(sender, nullptr);
    Host::T += vf_range("elapsed", 0, 1) ? 6 : 0; serve(); Host::T += vf_range("elapsed2", 0, 1) ? 3 : 0; serve();
    vf_thread_join(t); serve();
    vf_assert(events == eSent && enq == qSent && actions == aSent, "each event, interrupt-safe event and action is dispatched exactly once"); vf_assert(d->isTimerRunning(1) == cur.running, "isTimerRunning");
    for (int i = 0; i < 2; i++) { bool was = cur.running; int f = fired; Host::T += 5; serve(); vf_assert(fired == f + was, "a running timer fires once for every interval, others do not"); }
    d->stopTimer(1); int f = fired; Host::T += 20; serve(); vf_assert(fired == f, "a stopped timer does not fire");
    d.reset(); serve(); vf_reach("end");
  }
};

#pragma once
#include "vf.h"
#include <memory>
#include <hsmcpp/HsmEventDispatcherBase.hpp>
using namespace hsmcpp;
// ---- dispatcher driven by the harness
struct D : public HsmEventDispatcherBase {
  bool startOk = true, notified = false, inlineRun = false, running = false;
  struct T { int id; unsigned ms; bool single; bool on; } tm[8]; int nt = 0; int timerStarts = 0, timerStops = 0;
  explicit D(size_t cache = 8) : HsmEventDispatcherBase(cache), cacheSize(cache) {}
  bool deleteSafe() override { return true; }
  bool start() override { return startOk; }
  static std::shared_ptr<D> create(size_t cache = 8) { return std::shared_ptr<D>(new D(cache), [](D* d) { d->stop(); delete d; }); }
  void notifyDispatcherAboutEvent() override { notified = true; }
  T* timer(int id) { for (int i = 0; i < nt; i++) if (tm[i].id == id) return &tm[i]; return nullptr; }
  void startTimerImpl(const TimerID_t id, const unsigned int ms, const bool single) override {
    timerStarts++; T* t = timer(id); if (!t) { t = &tm[nt++]; t->id = id; } t->ms = ms; t->single = single; t->on = true;
  }
  void stopTimerImpl(const TimerID_t id) override { timerStops++; T* t = timer(id); if (t) t->on = false; }
  unsigned expire(int id) { return handleTimerEvent(id); }
  void emitEvent(const HandlerID_t h) override { HsmEventDispatcherBase::emitEvent(h); if (inlineRun && !running) drain(); }
  void run() { bool outer = running; notified = false; running = true; dispatchPendingEvents(); running = outer; }
  void drain(int max = 60) { int i = 0; while (notified) { if (++i > max) vf_fail("dispatching does not come to rest"); run(); } }
  // members are looked up by name; one that does not exist under its name is skipped (no race detection on it) or counts as empty
#define DM(M) template <class X> static auto watch_##M(X* o, int mode, const char* n, int) -> decltype((void)&o->M) { vf_watch(&o->M, sizeof o->M, mode, n); } template <class X> static void watch_##M(X*, int, const char*, long) {} \
  template <class X> static auto size_##M(const X* o, int) -> decltype(static_cast<size_t>(o->M.size())) { return static_cast<size_t>(o->M.size()); } template <class X> static size_t size_##M(const X*, long) { return 0; } \
  template <class X> static auto cap_##M(const X* o, size_t, int) -> decltype(static_cast<size_t>(o->M.capacity())) { return static_cast<size_t>(o->M.capacity()); } template <class X> static size_t cap_##M(const X*, size_t dflt, long) { return dflt; }
  DM(mNextHandlerId) DM(mEventHandlers) DM(mTimerHandlers) DM(mEnqueuedEventHandlers) DM(mActiveTimers) DM(mPendingActions) DM(mPendingEvents) DM(mEnqueuedEvents)
  // every access to the shared members has to be synchronised
  void watchAll() { watch_mNextHandlerId(this, 3, "the handler id counter", 0); watch_mEventHandlers(this, 1, "event handlers", 0); watch_mTimerHandlers(this, 1, "timer handlers", 0); watch_mEnqueuedEventHandlers(this, 1, "enqueued event handlers", 0); watch_mActiveTimers(this, 1, "active timers", 0); watch_mPendingActions(this, 1, "pending actions", 0); watch_mPendingEvents(this, 1, "pending events", 0); watch_mEnqueuedEvents(this, 1, "enqueued events", 0); }
  size_t cacheSize;
  size_t pendingCount() const { return size_mPendingEvents(this, 0); }
  size_t enqueuedCount() const { return size_mEnqueuedEvents(this, 0); }
  size_t enqueuedCapacity() const { return cap_mEnqueuedEvents(this, cacheSize, 0); }
  size_t timersCount() const { return size_mActiveTimers(this, 0); }
  size_t handlersCount() const { return size_mEventHandlers(this, 0) + size_mTimerHandlers(this, 0) + size_mEnqueuedEventHandlers(this, 0); }
};


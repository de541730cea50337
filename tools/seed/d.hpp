#pragma once
#include <hsmcpp/hsm.hpp>
#include <hsmcpp/HsmEventDispatcherBase.hpp>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>
using namespace hsmcpp;
// dispatcher which is driven by the demonstration itself
struct InlineDispatcher : public HsmEventDispatcherBase {
  bool notified = false; std::map<TimerID_t, unsigned> armed;
  explicit InlineDispatcher(size_t cache = 8) : HsmEventDispatcherBase(cache) {}
  bool deleteSafe() override { return true; }
  bool start() override { return true; }
  void emitEvent(const HandlerID_t id) override { HsmEventDispatcherBase::emitEvent(id); }
  void notifyDispatcherAboutEvent() override { notified = true; }
  void startTimerImpl(const TimerID_t id, const unsigned int ms, const bool) override { armed[id] = ms; }
  void stopTimerImpl(const TimerID_t id) override { armed.erase(id); }
  unsigned expire(TimerID_t id) { return handleTimerEvent(id); }
  void run() { notified = false; dispatchPendingEvents(); }
  void drain() { for (int i = 0; notified && i < 200; i++) run(); }
  static std::shared_ptr<InlineDispatcher> create(size_t cache = 8) { return std::shared_ptr<InlineDispatcher>(new InlineDispatcher(cache), [](InlineDispatcher* d) { d->stop(); delete d; }); }
};
#define CHECK(c) do { if (!(c)) { std::printf("FAILED: %s (line %d)\n", #c, __LINE__); std::exit(1); } } while (0)

#include "vf.h"
#include <hsmcpp/hsm.hpp>
#include <hsmcpp/HsmEventDispatcherBase.hpp>
#include <hsmcpp/variant.hpp>
using namespace hsmcpp;
struct D : public HsmEventDispatcherBase {
  bool deleteSafe() override { delete this; return true; }
  bool start() override { return true; }
  void stop() override {}
  static std::shared_ptr<D> create() { return std::shared_ptr<D>(new D()); }
  void notifyDispatcherAboutEvent() override {}
  void startTimerImpl(const TimerID_t, const unsigned int, const bool) override {}
  void stopTimerImpl(const TimerID_t) override {}
  void emitEvent(const HandlerID_t h) override { HsmEventDispatcherBase::emitEvent(h); }
  void run() { dispatchPendingEvents(); }
};
extern "C" void harness() {
  auto d = D::create();
  HierarchicalStateMachine m(1);
  bool g = vf_bool("guard");
  int ent = 0;
  m.registerState(1, nullptr, nullptr, nullptr);
  m.registerState(2, [&](const VariantVector_t&) { ent++; }, nullptr, nullptr);
  m.registerTransition(1, 2, 5, nullptr, [&](const VariantVector_t& a) { vf_assert(a.size() == 1, "args"); return g; });
  vf_assert(m.initialize(d), "init");
  d->run();
  int x = vf_i32("x");
  m.transition(5, x);
  for (int i = 0; i < 3; i++) d->run();
  vf_assert(ent == (g ? 1 : 0), "entered");
  vf_assert(m.isStateActive(2) == g, "active");
  vf_trace("act", m.isStateActive(2));
  vf_reach("end");
}

#include "std.h"
#include <hsmcpp/hsm.hpp>
// Initialization on the standard dispatcher: its thread may run at any point; callbacks of the initial state send events.
static HierarchicalStateMachine* h; static int log_[16], n, sent, sendFrom; static bool finished;
static void L(int x) { vf_assert(n < 16, "log"); log_[n++] = x; }
static void send(int from) { if (sendFrom == from) { h->transition(100, 7); sent++; if (vf_range("two", 0, 1)) { h->transition(100, 7); sent++; } } vf_yield(); }
extern "C" void harness() {
  vf_opt("preempt", vf_param("preempt", 2)); vf_opt("yields", 2); n = sent = 0; finished = false; std::shared_ptr<HsmEventDispatcherSTD> d = HsmEventDispatcherSTD::create(2); h = new HierarchicalStateMachine(1);
  const bool composite = vf_range("composite", 0, 1), started = vf_range("dispatcher_started", 0, 1); sendFrom = static_cast<int>(vf_range("event_from", 0, 2));
  h->registerState(1, [](const VariantVector_t&) { L(2); send(2); }, [](const VariantVector_t&) { L(1); send(1); return true; }); h->registerState(2, [](const VariantVector_t&) { L(4); }, [](const VariantVector_t&) { L(3); return true; }); if (composite) h->registerSubstateEntryPoint(1, 2);
  h->registerSelfTransition(1, 100, TransitionType::INTERNAL_TRANSITION, [](const VariantVector_t& a) { vf_assert(a.size() == 1 && a[0].toInt64() == 7, "arguments"); L(5); });
  if (started) { vf_assert(d->start(), "start"); vf_yield(); }
  vf_assert(h->initialize(d), "initialize"); vf_assert(n >= 2 && log_[0] == 1 && log_[1] == 2, "the callbacks of the initial state run during initialization, before everything else");
  vf_assert(!h->initialize(d), "a second initialization is refused"); vf_quiesce();
  int k = 2; if (composite) { vf_assert(n >= 4 && log_[2] == 3 && log_[3] == 4, "entry points are entered before any event"); k = 4; }
  vf_assert(n == k + sent, "every event sent during initialization is processed once"); for (int i = k; i < n; i++) vf_assert(log_[i] == 5, "event");
  vf_assert(h->isStateActive(1) && h->isStateActive(2) == composite && h->getActiveStates().size() == 1u + composite, "active states"); if (sent) vf_reach("sent");
  h->release(); d->stop(); d->join(); delete h; vf_reach("end");
}

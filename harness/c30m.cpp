#include "vf.h"
#include <memory>
#include <hsmcpp/hsm.hpp>
#include <hsmcpp/HsmEventDispatcherSTD.hpp>
using namespace hsmcpp;
// The dispatcher of a machine is destroyed (the last reference given up by the application) while the machine may be working in it.
static HierarchicalStateMachine* h; static bool gone; static int calls;
static void cb() { if (gone) vf_fail("a callback runs after the dispatcher was destroyed"); calls++; }
extern "C" void harness() {
  vf_opt("preempt", vf_param("preempt", 2)); vf_opt("idle_timeouts", 3); vf_opt("yield_unlock", vf_param("yield", 0)); gone = false; calls = 0;
  std::shared_ptr<HsmEventDispatcherSTD> sp = HsmEventDispatcherSTD::create(2); h = new HierarchicalStateMachine(1);
  h->registerState(1, [](const VariantVector_t&) { cb(); }); h->registerState(2, [](const VariantVector_t&) { cb(); }); h->registerTransition(1, 2, 100, [](const VariantVector_t&) { cb(); }); h->registerTransition(2, 1, 100); h->registerTimer(1, 100);
  vf_assert(h->initialize(sp), "initialize"); int k = vf_range("pending", 0, 3); if (k == 1) h->transition(100); else if (k == 2) h->transitionInterruptSafe(100); else if (k == 3) { h->startTimer(1, 1, true); vf_clock_advance(1000000); }
  int how = vf_range("how", 0, 2); if (how == 1) h->release(); if (how == 2) sp->stop();
  std::weak_ptr<HsmEventDispatcherSTD> w = sp; sp.reset(); if (w.expired()) { gone = true; vf_reach("expired"); }
  vf_quiesce(); vf_assert(w.expired(), "the dispatcher is gone"); gone = true; h->transition(100); vf_quiesce(); delete h; vf_reach("end");
}

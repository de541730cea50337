#include "kit.h"
// The machine is released or destroyed by one thread while another one dispatches.
static HierarchicalStateMachine* h; static D* gd; static volatile int dead, calls;
static void dispatcher(void*) { for (int i = 0; i < 3; i++) { gd->run(); vf_yield(); } }
static void cb() { if (dead) vf_fail("callback after release has returned"); calls = calls + 1; vf_yield(); if (dead) vf_fail("release returned while a callback is in progress"); }
extern "C" void harness() {
  vf_opt("preempt", vf_param("preempt", 2)); dead = calls = 0; std::shared_ptr<D> d = D::create(2); gd = d.get(); h = new HierarchicalStateMachine(1);
  h->registerState(1, nullptr, nullptr, []() { cb(); return true; }); h->registerState(2, [](const VariantVector_t&) { cb(); }, [](const VariantVector_t&) { cb(); return true; }, nullptr); h->registerState(3, [](const VariantVector_t&) { cb(); }); h->registerSubstateEntryPoint(2, 3);
  h->registerTransition(1, 2, 100, [](const VariantVector_t&) { cb(); }); h->registerTransition(2, 1, 100); h->registerTimer(1, 100);
  vf_assert(h->initialize(d), "initialize"); d->drain();
  int kind = vf_pick("pending", 0, 2); h->transition(100); if (kind == 1) h->transitionInterruptSafe(100); if (kind == 2) h->startTimer(1, 5, false);
  uint64_t t = vf_thread_create(dispatcher, nullptr); if (kind == 2) d->expire(1);
  bool del = vf_bool("destroy"); if (vf_bool("let_it_start")) vf_yield();
  if (del) delete h; else h->release();
  dead = 1; if (calls > 0) vf_reach("was_running"); d->expire(1); vf_thread_join(t); d->drain(); if (!del) delete h; vf_reach("end");
}

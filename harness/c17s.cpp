#include "std.h"
#include <hsmcpp/hsm.hpp>
// Two synchronous senders on the standard dispatcher; meanwhile the queue is cleared or the machine released, possibly while an event is being processed.
static HierarchicalStateMachine* h; static int ev[2], res[2], ran[4], doneN, inside, entered;
static void work(int i) { vf_assert(!inside, "one event at a time"); inside = 1; vf_yield(); inside = 0; ran[i]++; }
static void sender(void* p) { int w = static_cast<int>(reinterpret_cast<long>(p)); int before = ran[ev[w] - 100]; bool r = h->transitionSync(ev[w], HSM_WAIT_INDEFINITELY); res[w] = r; if (r) { vf_assert(ran[ev[w] - 100] > before, "true only after the transition of the event was carried out"); if (ev[w] == 101) vf_assert(entered > 0, "true only after the entry steps"); } doneN++; }
extern "C" void harness() {
  vf_opt("preempt", vf_param("preempt", 1)); vf_opt("yields", vf_param("yields", 3)); for (auto& x : ran) x = 0; res[0] = res[1] = -1; doneN = inside = entered = 0;
  std::shared_ptr<HsmEventDispatcherSTD> d = HsmEventDispatcherSTD::create(2); h = new HierarchicalStateMachine(1); h->registerState(1); h->registerState(2); h->registerState(3, [](const VariantVector_t&) { vf_yield(); entered++; }); h->registerSubstateEntryPoint(2, 3);
  h->registerSelfTransition(1, 100, TransitionType::INTERNAL_TRANSITION, [](const VariantVector_t&) { work(0); }); h->registerSelfTransition(2, 100, TransitionType::INTERNAL_TRANSITION, [](const VariantVector_t&) { work(0); });
  h->registerTransition(1, 2, 101, [](const VariantVector_t&) { work(1); }); h->registerSelfTransition(2, 101, TransitionType::EXTERNAL_TRANSITION, [](const VariantVector_t&) { work(1); }); h->registerSelfTransition(1, 103, TransitionType::INTERNAL_TRANSITION, [](const VariantVector_t&) { work(3); });
  vf_assert(h->initialize(d), "initialize"); const int what = vf_pick("meanwhile", 0, vf_param("what", 2));
  ev[0] = 100 + vf_pick("event0", 0, 2); ev[1] = 100 + vf_pick("event1", 0, 1);
  uint64_t a = vf_thread_create(sender, reinterpret_cast<void*>(0L)), b = vf_thread_create(sender, reinterpret_cast<void*>(1L)); vf_yield();
  if (what == 1) { h->transitionEx(103, true, false, 0); vf_reach("cleared"); }
  if (what == 2) { if (inside) vf_reach("while_processing"); h->release(); vf_reach("released"); }
  vf_thread_join(a); vf_thread_join(b); vf_quiesce();   // a sender that is never released is reported as a deadlock here
  vf_assert(doneN == 2, "both senders returned");
  if (what == 0) for (int w = 0; w < 2; w++) vf_assert(res[w] == (ev[w] != 102), "result of the event");
  if (what != 0 && (res[0] == 0 || res[1] == 0)) vf_reach("failed");
  h->release(); d->stop(); d->join(); delete h; vf_reach("end");
}

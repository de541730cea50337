#include "disp.h"
// Two threads store events while the dispatching thread takes them out.
static D* gd; static int hid; static int ok[2][3]; static int seen[2][3]; static int last[2]; static bool bad;
static void sender(void* p) { long w = reinterpret_cast<long>(p); for (int i = 0; i < 2; i++) ok[w][i] = gd->enqueueEvent(hid, 10 * w + i); }
extern "C" void harness() {
  vf_opt("preempt", vf_param("preempt", 3)); for (int i = 0; i < 6; i++) ok[i / 3][i % 3] = seen[i / 3][i % 3] = 0; last[0] = last[1] = -1; bad = false;
  int cap = vf_pick("capacity", 1, 3); std::shared_ptr<D> d = D::create(cap); gd = d.get(); d->watchAll(); size_t c = d->enqueuedCapacity();
  hid = d->registerEnqueuedEventHandler([](const EventID_t e) { int w = e / 10, i = e % 10; if (w < 0 || w > 1 || i > 1) vf_fail("unknown event delivered"); seen[w][i]++; if (last[w] >= i) vf_fail("order of one sender not kept"); last[w] = i; return true; });
  uint64_t a = vf_thread_create(sender, reinterpret_cast<void*>(0L)), b = vf_thread_create(sender, reinterpret_cast<void*>(1L));
  for (int i = 0; i < 2; i++) { d->run(); vf_yield(); }
  vf_thread_join(a); vf_thread_join(b); d->run();
  for (int w = 0; w < 2; w++) for (int i = 0; i < 2; i++) vf_assert(seen[w][i] == ok[w][i], "an event is delivered exactly once iff it was stored");
  vf_assert(d->enqueuedCapacity() == c, "the storage never grows"); vf_assert(d->enqueuedCount() == 0, "nothing left"); vf_reach("end");
}

#include "disp.h"
// Two threads register and unregister handlers at the same time.
static D* gd; static int got[2][3];
static void reg(void* p) { long w = reinterpret_cast<long>(p); got[w][0] = gd->registerEventHandler([]() { return true; }); got[w][1] = gd->registerTimerHandler([](const TimerID_t) { return true; }); got[w][2] = gd->registerEnqueuedEventHandler([](const EventID_t) { return true; }); if (w) gd->unregisterEventHandler(got[w][0]); }
extern "C" void harness() {
  vf_opt("preempt", vf_param("preempt", 2));
  std::shared_ptr<D> d = D::create(); gd = d.get(); d->watchAll();
  uint64_t a = vf_thread_create(reg, reinterpret_cast<void*>(0L)), b = vf_thread_create(reg, reinterpret_cast<void*>(1L)); vf_thread_join(a); vf_thread_join(b);
  for (int i = 0; i < 6; i++) { vf_assert(got[i / 3][i % 3] != INVALID_HSM_DISPATCHER_HANDLER_ID, "valid id"); for (int j = 0; j < i; j++) vf_assert(got[i / 3][i % 3] != got[j / 3][j % 3], "ids are unique across threads"); }
  vf_reach("end");
}

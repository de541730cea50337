#include "freertos.h"
#include "host.h"
#include <hsmcpp/HsmEventDispatcherFreeRTOS.hpp>
struct FHost { static uint32_t& T; static const bool catchUp = true; static bool one() { if (FreeRTOS::timerStep()) return true; vf_quiesce(); return FreeRTOS::timerStep(); } };
uint32_t& FHost::T = hostT;
extern "C" void harness() {
  FreeRTOS::init(); hostTickMs = vf_param("ticks", 0) && vf_pick("slow_ticks", 0, 1) ? 10 : 1; hostQuantum = hostTickMs; hostT = 0; if (hostTickMs == 1) hostT = vf_u32("clock");
  std::shared_ptr<HsmEventDispatcherFreeRTOS> d = HsmEventDispatcherFreeRTOS::create(256, 1, 2);
  if (vf_param("faults", 0) && vf_pick("no_task", 0, 1)) { hostNoTask = true; vf_assert(!d->start(), "start fails"); hostNoTask = false; vf_reach("failed"); }
  if (vf_param("threads", 0)) Threads<FHost>::run(std::move(d)); else Contract<FHost>::run(std::move(d));
  while (FHost::one()) {} vf_assert(hostTimers == 0, "timers are released exactly once"); vf_assert(hostTasks == 0, "the dispatcher's task is deleted"); vf_assert(hostSems == 0, "semaphores are released"); FreeRTOS::end();
}

#include "vf.h"
#include <hsmcpp/os/UniqueLock.hpp>
#include <hsmcpp/os/LockGuard.hpp>
#include <hsmcpp/os/Mutex.hpp>
#include <hsmcpp/os/CriticalSection.hpp>
#include <hsmcpp/os/AtomicFlag.hpp>
#include <utility>
using namespace hsmcpp;
// Three threads change a shared counter under the different kinds of locks.
static Mutex* m; static int counter, inside; static int kinds[3];
static void body() { if (inside) vf_fail("two owners of one mutex"); inside = 1; int c = counter; vf_yield(); counter = c + 1; inside = 0; }
static void work(void* p) {
  switch (kinds[reinterpret_cast<long>(p)]) {
    case 0: { LockGuard g(*m); body(); break; } case 1: { UniqueLock g(*m); body(); g.unlock(); g.lock(); body(); break; } case 2: { CriticalSection g(*m); body(); break; }
    default: { UniqueLock a(*m), b; body(); b = std::move(a); body(); UniqueLock c(std::move(b)); body(); Mutex* r = c.release(); body(); r->unlock(); break; }
  }
}
extern "C" void harness() {
  vf_opt("preempt", vf_param("preempt", 2)); Mutex mm; m = &mm; counter = inside = 0; int want = 0; static const int n[] = {1, 2, 1, 4}; for (int i = 0; i < 3; i++) { kinds[i] = vf_pick("kind", 0, 3); want += n[kinds[i]]; }
  uint64_t t[3]; vf_watch(&counter, sizeof counter, 1, "the guarded counter"); for (long i = 0; i < 3; i++) t[i] = vf_thread_create(work, reinterpret_cast<void*>(i)); for (uint64_t i : t) vf_thread_join(i);
  vf_assert(counter == want, "no update is lost"); vf_assert(!vf_mutex_locked(&mm.nativeHandle()), "the mutex is free at the end"); vf_reach("end");
}

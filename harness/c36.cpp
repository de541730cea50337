#include "vf.h"
#include <algorithm>
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <string>
#include <thread>
#include <unordered_map>
#include <vector>
#define private public
#define protected public
#include <hsmcpp/hsm.hpp>
#include <hsmcpp/HsmEventDispatcherSTD.hpp>
#include "HsmImpl.hpp"
#undef private
#undef protected
#include "watch.h"
using namespace hsmcpp;
WATCHER(mPendingEvents) WATCHER(mEnqueuedEvents) WATCHER(mPendingActions) WATCHER(mActiveStates)
// Several threads send events to a machine whose dispatcher runs in its own thread.
static HierarchicalStateMachine* h; static const int N = 2; static int per, seen[3][4], last[3][2], accepted[3][4], kind[3]; static bool inside, chained, same; static int64_t payload;
static void one(int w, int i) { if (same) { h->transition(100 + 10 * w); accepted[w][i] = 1; return; } int ev = 100 + 10 * w + i; if (kind[w] == 1) accepted[w][i] = h->transitionInterruptSafe(ev); else { h->transition(ev, payload + i); accepted[w][i] = 1; } }
static void sender(void* p) { int w = static_cast<int>(reinterpret_cast<long>(p)); for (int i = 0; i < per; i++) one(w, i); }
static void handled(int w, int i, const VariantVector_t& a) {
  vf_assert(!inside, "two events are never handled at the same time"); inside = true; vf_yield(); inside = false;
  if (same) { seen[w][i]++; vf_assert(a.empty(), "no arguments were sent"); return; }
  seen[w][i]++; int k = kind[w] == 1 && !(w == 2); (void)k; vf_assert(last[w][0] < i, "events of one thread keep their order"); last[w][0] = i;
  if (w != 2) { if (kind[w] == 1) vf_assert(a.empty(), "interrupt-safe events have no arguments"); else vf_assert(a.size() == 1 && a[0].toInt64() == payload + i, "the arguments of this event are handed over"); }
  if (w == 0 && i == 0 && chained) { h->transition(120); accepted[2][0] = 1; }
}
extern "C" void harness() {
  vf_opt("preempt", vf_param("preempt", 1)); per = static_cast<int>(vf_param("per", 2)); inside = false; for (auto& x : seen) for (auto& y : x) y = 0; for (auto& x : accepted) for (auto& y : x) y = 0; for (auto& x : last) x[0] = x[1] = -1; payload = vf_range("payload", -1000000, 1000000);
  std::shared_ptr<HsmEventDispatcherSTD> d = HsmEventDispatcherSTD::create(4); h = new HierarchicalStateMachine(1); h->registerState(1); h->registerState(2);
  for (int w = 0; w < 3; w++) for (int i = 0; i < (w == 2 ? 1 : per); i++) {
    int ev = 100 + 10 * w + i; auto cb = [w, i](const VariantVector_t& a) { handled(w, i, a); };
    if (w == 1) { h->registerTransition(1, 2, ev, cb); h->registerTransition(2, 1, ev, cb); } else { h->registerSelfTransition(1, ev, TransitionType::INTERNAL_TRANSITION, cb); h->registerSelfTransition(2, ev, TransitionType::INTERNAL_TRANSITION, cb); } }
  kind[0] = vf_range("kind0", 0, 1); kind[1] = vf_range("kind1", 0, 1); kind[2] = 0; chained = vf_range("chained", 0, 1); same = !kind[0] && !kind[1] && !chained && vf_range("same_event_without_arguments", 0, 1);
  int mode = static_cast<int>(vf_param("watch_mode", 1)); watch_mPendingEvents(h->mImpl.get(), mode, 0); watch_mEnqueuedEvents(d.get(), mode, 0); watch_mPendingActions(d.get(), mode, 0); { HsmEventDispatcherBase* b = d.get(); watch_mPendingEvents(b, mode, 0); }
  vf_assert(h->initialize(d), "initialize");
  uint64_t a = vf_thread_create(sender, reinterpret_cast<void*>(0L)), b = 0; if (vf_range("main_sends", 0, 1)) sender(reinterpret_cast<void*>(1L)); else b = vf_thread_create(sender, reinterpret_cast<void*>(1L));
  vf_thread_join(a); if (b) vf_thread_join(b); vf_quiesce();
  int moves = 0; for (int w = 0; w < 3; w++) for (int i = 0; i < (w == 2 ? 1 : per); i++) { if (same) { int s = 0; for (int q = 0; q < per && w < 2; q++) s += accepted[w][q]; vf_assert(seen[w][i] == (i ? 0 : s), "every accepted event is processed exactly once"); } else vf_assert(seen[w][i] == accepted[w][i], "every accepted event is processed exactly once"); if (w == 1) moves += seen[w][i]; }
  vf_assert(h->isStateActive(1 + moves % 2) && h->getActiveStates().size() == 1, "the machine is in the state the events lead to");
  vf_assert(accepted[0][0] && accepted[1][0], "events are accepted while the machine runs");
  h->release(); d->stop(); d->join(); delete h; vf_reach("end");
}

#include "std.h"
// Senders race with the dispatching thread of the standard dispatcher; afterwards everything that was accepted has been processed.
static S* d; static int hA, hB, hE; static int sent[4], seen[4], order[8], no; static int k1, k2;
static void send(int k) {
  sent[k]++;
  if (k == 0) d->emitEvent(hA); else if (k == 1) d->emitEvent(hB); else if (k == 2) { if (!d->enqueueEvent(hE, 7)) sent[k]--; } else d->enqueueAction([]() { seen[3]++; });
}
static void worker(void* p) { send(static_cast<int>(reinterpret_cast<long>(p))); }
extern "C" void harness() {
  vf_opt("preempt", vf_param("preempt", 2));
  std::shared_ptr<S> sp = S::create(2); d = sp.get();
  int chain = vf_range("chain", 0, 3);   // what the handler itself sends
  hA = d->registerEventHandler([chain]() { seen[0]++; if (chain && seen[0] == 1) send(chain); return true; });
  hB = d->registerEventHandler([]() { seen[1]++; return true; });
  hE = d->registerEnqueuedEventHandler([](const EventID_t e) { vf_assert(e == 7, "the enqueued event is handed over unchanged"); seen[2]++; return true; });
  vf_assert(d->start(), "start");
  int n = vf_param("ops", 2); int k[4]; uint64_t t[4]; bool par[4];
  for (int i = 0; i < n; i++) { k[i] = vf_range("kind", 0, 3); par[i] = i && vf_range("parallel", 0, 1); }
  for (int i = 0; i < n; i++) { if (par[i]) t[i] = vf_thread_create(worker, reinterpret_cast<void*>(static_cast<long>(k[i]))); else send(k[i]); }
  for (int i = 0; i < n; i++) if (par[i]) vf_thread_join(t[i]);
  vf_quiesce();
  for (int i = 0; i < 4; i++) { vf_assert(seen[i] >= sent[i], "everything accepted is processed without a further event"); vf_assert(seen[i] <= sent[i], "nothing is processed twice"); }
  d->stop(); d->join(); vf_reach("end");
}

#include "disp.h"
// Emitted events, including those emitted by handlers, handlers that decline further events, and stop at any point (from outside or from a handler).
struct Ev { int h; int round; };
static D* gd; static int id[3]; static Ev got[40]; static int ng, round_; static struct { bool emit, no, stop; int target; } todo[40]; static bool stopped; static int afterStop;
static bool called(int h) {
  if (stopped) afterStop++;
  int i = ng; if (ng >= 40) vf_fail("runaway"); got[ng++] = Ev{h, round_};
  if (todo[i].emit) gd->emitEvent(id[todo[i].target]);
  if (todo[i].stop) { gd->stop(); stopped = true; }
  return !todo[i].no;
}
extern "C" void harness() {
  const int N = vf_param("events", 4); ng = round_ = afterStop = 0; stopped = false;
  std::shared_ptr<D> d = D::create(); gd = d.get(); for (int h = 0; h < 3; h++) id[h] = d->registerEventHandler([h]() { return called(h); });
  for (int i = 0; i < 40; i++) todo[i] = {false, false, false, 0};
  // a plan for the first calls
  for (int i = 0; i < N; i++) { int w = vf_pick("call_does", 0, 3); if (w == 1) { todo[i].emit = true; todo[i].target = vf_pick("emits", 0, 2); } else if (w == 2) todo[i].no = true; else if (w == 3) { todo[i].stop = true; vf_reach("stop_in_handler"); break; } }
  int q[40], nq = 0; const int sent = vf_pick("emitted", 1, N); int first[8];
  for (int i = 0; i < sent; i++) { first[i] = vf_pick("handler", 0, 2); int e = first[i]; if (i == 0 || first[i] != 9) d->emitEvent(id[e]); q[nq++] = e; }
  bool outside = vf_bool("stopped_outside"); if (outside) { d->stop(); stopped = true; }
  // expected
  Ev want[40]; int nw = 0; bool st = outside; int r = 0;
  while (nq > 0 && !st) { int cur[40], nc = nq; for (int i = 0; i < nq; i++) cur[i] = q[i]; nq = 0; bool off[3] = {false, false, false};
    for (int i = 0; i < nc && !st; i++) { if (off[cur[i]]) continue; int c = nw; want[nw++] = Ev{cur[i], r}; if (todo[c].emit) q[nq++] = todo[c].target; if (todo[c].stop) st = true; if (todo[c].no) { off[cur[i]] = true; vf_reach("declined"); } }
    r++; }
  for (int i = 0; i < 10 && d->notified; i++) { d->run(); round_++; }
  vf_assert(!d->notified, "dispatching comes to rest"); vf_assert(ng == nw, "each event invokes its handler exactly once");
  for (int i = 0; i < nw; i++) { vf_assert(got[i].h == want[i].h, "events are handled in emission order"); if (want[i].round != got[i].round) vf_fail("events emitted during dispatch are processed by a later round"); }
  vf_assert(afterStop == 0, "no handler is invoked after stop"); if (r > 1) vf_reach("second_round");
  vf_reach("end");
}

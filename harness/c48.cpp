#include "kit.h"
// Two machines on one dispatcher, each compared with its own reference; refusals, ignored events, timers, interrupt-safe events and release of one of them.
static int ints[2];
extern "C" void harness() {
  const int N = vf_param("ops", 4); ints[0] = ints[1] = 0; std::shared_ptr<D> d = D::create(4); Pair p[2]; int nq[2] = {0, 0}; int qe[2][16]; int64_t qa[2][16]; int wantInts[2] = {0, 0}; int gone = -1, stop = 0; bool cut = false, timer[2] = {false, false};
  for (int w = 0; w < 2; w++) {
    Model& m = p[w].m; m.states(6); m.entry(1, 2); m.sub(1, 3); m.entry(4, 5); m.entry(4, 6);
    m.tr(2, 3, 100); m.tr(3, 2, 100, 0); m.tr(1, 4, 101); m.tr(4, 1, 101); m.tr(5, 6, 100); m.self(1, 102, true);
    p[w].k = new Kit(m, p[w].log); p[w].k->install(); p[w].k->d = d;
    for (int s : {1, 4}) p[w].k->hsm.registerSelfTransition(s, 110, TransitionType::INTERNAL_TRANSITION, [w](const VariantVector_t&) { ints[w]++; });
    p[w].k->hsm.registerTimer(w + 1, 101); m.g[0] = vf_bool("cond");
  }
  int veto = vf_pick("veto", 0, 2); if (veto == 1) p[0].m.vx[2] = true; if (veto == 2) p[0].m.ve[4] = true;      // A refuses, B must not notice
  for (int w = 0; w < 2; w++) { vf_assert(p[w].k->hsm.initialize(d), "initialize"); p[w].r = new Ref(p[w].m); p[w].r->start(); } d->drain();
  for (int i = 0; i < N; i++) {
    int op = vf_pick("op", 0, 6), w = vf_pick("machine", 0, 1); HierarchicalStateMachine& h = p[w].k->hsm; bool off = w == gone;
    if (op == 0 || op == 1) { int e = 100 + vf_pick("event", 0, 2); int64_t a = vf_i64("arg"); vf_assume(a != INT64_MIN); h.transition(e, a); if (!off) { qe[w][nq[w]] = e; qa[w][nq[w]++] = a; } }
    else if (op == 2) { bool ok = h.transitionInterruptSafe(110); vf_assert(ok != off, "accepted while the machine is initialized"); if (ok) wantInts[w]++; }
    else if (op == 3) { h.startTimer(w + 1, 10, true); unsigned r = d->expire(w + 1); vf_assert(r == 0, "single shot"); if (!off) { timer[w] = false; qe[w][nq[w]] = 101; qa[w][nq[w]++] = INT64_MIN; } vf_reach("timer"); }
    else if (op == 4) { if (gone >= 0) vf_assume(0); bool all = vf_bool("nothing_waiting"); if (all) d->drain(); else cut = true; stop = p[w].log.n; p[w].k->hsm.release(); gone = w; if (!all) wantInts[w] = ints[w]; vf_reach("released"); }
    else if (op == 5) { if (w) vf_assume(0); d->run(); }
    else { if (off) vf_assume(0); h.startTimer(w + 1, 10, true); timer[w] = true; }
    for (int q = 0; q < 2; q++) if (timer[q] && q != gone) vf_assert(p[q].k->hsm.isTimerRunning(q + 1) && d->timer(q + 1) && d->timer(q + 1)->on, "the other machine leaves a timer alone");
  }
  for (int q = 0; q < 2; q++) if (timer[q] && q != gone) { d->expire(q + 1); qe[q][nq[q]] = 101; qa[q][nq[q]++] = INT64_MIN; }
  d->drain(); vf_assert(d->pendingCount() == 0 && d->enqueuedCount() == 0, "everything is worked off");
  for (int w = 0; w < 2; w++) {
    for (int i = 0; i < nq[w]; i++) { if (w == gone && cut && p[w].r->log.n >= stop) break; if (qa[w][i] == INT64_MIN) p[w].r->event(qe[w][i], 0, 0); else p[w].r->event(qe[w][i], 1, qa[w][i]); }
    if (w == gone) { vf_assert(p[w].log.n == stop, "a released machine runs no callbacks"); if (cut) { if (p[w].r->log.n > stop) p[w].r->log.n = stop; sameLog(p[w].log, p[w].r->log, KALL, "each machine behaves as if it had its own dispatcher"); continue; } }
    sameLog(p[w].log, p[w].r->log, KALL, "each machine behaves as if it had its own dispatcher"); vf_assert(p[w].log.countKind(K_FAILED) == p[w].r->log.countKind(K_FAILED), "failure reports of each machine");
    unsigned a = p[w].k->mask(); vf_assert(a == p[w].r->mask(), "active states of each machine"); vf_assert(ints[w] == wantInts[w], "interrupt-safe events reach only their machine");
  }
  vf_reach("end");
}

#include "kit.h"
// Accepted external transition: depth of the source and target, the level that owns the transition, number and values of arguments are symbolic.
extern "C" void harness() {
  Pair p; Model& m = p.m; m.states(9);
  // source tree 1{2{3,8}} , target tree 4{5{6}}, bystanders 7, 9(region of 1)
  int sd = vf_pick("source_depth", 1, 3), td = vf_pick("target_depth", 1, 3);
  if (sd >= 2) m.entry(1, 2); if (sd >= 3) m.entry(2, 3); if (sd >= 3 && vf_bool("two_leaves")) m.entry(2, 8);
  if (td >= 2) m.entry(4, 5); if (td >= 3) m.entry(5, 6);
  bool region = vf_bool("region"); if (region && sd >= 2) m.entry(1, 9);
  m.tr(1, 4, 100, 0); m.tr(4, 1, 101); m.tr(7, 4, 100); m.tr(1, 7, 103, 1); m.g[0] = vf_bool("cond"); m.g[1] = true;
  int miss = vf_pick("state_without_callbacks", 0, 4); static const int ms[] = {0, 2, 4, 5, 1}; if (miss) m.noCb[ms[miss]] = true;
  p.start(); if (!miss) sameLog(p.log, p.r->log, KALL, "callbacks of the start sequence");
  for (int i = 0; i < (int)vf_param("events", 2); i++) {
    int e = vf_i32("event"); int n = vf_pick("args", 0, 3); int64_t a[3]; VariantVector_t v; uint64_t fp = 0;
    for (int k = 0; k < n; k++) { a[k] = vf_i64("arg"); v.push_back(Variant(a[k])); fp += static_cast<uint64_t>(a[k]) << (11 * k); }
    int from = p.log.n, rfrom = p.r->log.n; p.mark = from;
    Kit& k = *p.k; k.condArgsChecked = true; k.curN = n; k.curArg = static_cast<int64_t>(fp);
    if (n == 0) k.hsm.transition(e); else if (n == 1) k.hsm.transition(e, a[0]); else if (n == 2) k.hsm.transition(e, a[0], a[1]); else k.hsm.transition(e, a[0], a[1], a[2]);
    k.d->drain();
    bool ok = p.r->event(e, n, static_cast<int64_t>(fp));
    if (miss) {   // drop the callbacks of the state that has none registered
      Log f; for (int q = 0; q < p.r->log.n; q++) if (!(p.r->log.e[q].id == ms[miss] && ((KSTATE >> p.r->log.e[q].kind) & 1))) f.e[f.n++] = p.r->log.e[q];
      Log g; for (int q = from; q < p.log.n; q++) g.e[g.n++] = p.log.e[q]; Log f2; int skip = 0; for (int q = 0; q < rfrom; q++) if (!(p.r->log.e[q].id == ms[miss] && ((KSTATE >> p.r->log.e[q].kind) & 1))) skip++;
      for (int q = skip; q < f.n; q++) f2.e[f2.n++] = f.e[q];
      sameLog(g, f2, KALL, "callbacks run in the documented order, once each, with the event's arguments");
    } else sameLog(p.log, p.r->log, KALL, "callbacks run in the documented order, once each, with the event's arguments");
    // monitor on the real log: exits before the transition callback before entries; children leave before and enter after their parents
    int tr = -1; for (int q = from; q < p.log.n; q++) if (p.log.e[q].kind == K_TRANS) { vf_assert(tr < 0, "one transition callback"); tr = q; }
    for (int q = from; q < p.log.n; q++) {
      const Entry& x = p.log.e[q];
      if (x.kind == K_EXIT) vf_assert(tr > q, "exit callbacks precede the transition callback");
      if (x.kind == K_ENTER || x.kind == K_CHANGED) vf_assert(tr >= 0 && tr < q, "entries follow the transition callback");
      for (int w = q + 1; w < p.log.n; w++) { if (x.kind == K_EXIT && p.log.e[w].kind == K_EXIT) vf_assert(!m.inside(x.id, p.log.e[w].id), "parent exited before its child"); if (x.kind == K_ENTER && p.log.e[w].kind == K_ENTER) vf_assert(!m.inside(p.log.e[w].id, x.id), "child entered before its parent"); }
    }
    vf_assert(!ok || tr >= 0, "transition callback ran"); if (ok && n == 3) vf_reach("args3");
  }
  if (p.k->mask() == (1u << 4 | 1u << 5 | 1u << 6)) vf_reach("deep"); vf_trace("mask", p.k->mask()); vf_trace("log", p.log.n); vf_reach("end");
}

#include "kit.h"
// Refused exits (mode 0, C05) and refused entries (mode 1, C06). Structure 1{2{3,4,H9(2)},5(second region, optional)}, 6 top, 7{8} top composite.
extern "C" void harness() {
  const bool entry = vf_param("mode", 0);
  Pair p; Model& m = p.m; m.states(10);
  m.entry(1, 2); m.entry(2, 3); m.sub(2, 4); if (vf_bool("second_region")) m.entry(1, 5); else m.sub(1, 5);
  m.entry(7, 8); bool deep = vf_bool("deep"); m.hist(2, 9, deep, 3); m.noCb[9] = true;
  m.tr(3, 4, 100); m.tr(2, 5, 101); m.tr(5, 9, 102);
  int tgt = vf_bool("composite_target") ? 7 : 6;
  int lvl = vf_pick("level", 0, 2); static const int from[] = {1, 1, 1};
  m.tr(from[lvl], tgt, 103); if (lvl == 2 && !entry) { m.tr(1, tgt == 6 ? 7 : 6, 103); m.tr(1, 10, 103); } if (lvl == 1 && !entry) { m.self(1, 103, false); }
  m.tr(2, 5, 104); m.tr(tgt, 1, 105); m.self(1, 106, false); m.self(3, 107, false);
  p.start();
  // history of 2 may be recorded before: 3->4, 2->5 (records 4), and the machine is in 5 or back in 2
  int pre = vf_pick("prefix", 0, 3);
  if (pre >= 1) p.event(100, 0); if (pre >= 2) p.event(101, 0); if (pre >= 3) p.event(102, 0);   // (5 is the only active region of 1 then)
  p.sameMask("active states before");
  unsigned before = p.k->mask(); unsigned hb = 0; for (int i = 0; i < p.r->nhist[0]; i++) hb |= 1u << p.r->hist[0][i];
  for (int s = 1; s <= 8; s++) if (!entry) m.vx[s] = vf_bool("refuse_exit"); 
  if (entry) { m.ve[6] = vf_bool("refuse_entry"); m.ve[7] = vf_bool("refuse_entry"); m.ve[5] = vf_bool("refuse_entry"); m.ve[1] = vf_bool("refuse_entry"); m.ve[3] = vf_bool("refuse_entry"); }
  else for (int s = 1; s <= 5; s++) m.ve[s] = vf_bool("refuse_entry");           // refusals on re-entry are ignored
  // entering of the target itself is not refused in mode 0; with an entry refusal of an exited self target both could apply
  int e = vf_i32("event"); vf_assume(e >= 103 && e <= 107); if (!entry) { m.ve[tgt] = false; vf_assume(e != 106 && e != 107 && !(lvl == 1 && e == 103)); vf_assume(!(e == 104 && m.ve[5])); vf_assume(!(e == 105)); }
  if (entry && (e == 105 || e == 106)) vf_assume(!m.ve[3] && !m.ve[5]);   // refusals of entry steps are outside the property
  int mark = p.log.n; int64_t x = vf_i64("arg");
  p.k->d->inlineRun = true; p.k->curN = 1; p.k->curArg = x;
  bool ok = p.k->hsm.transitionSync(e, HSM_WAIT_INDEFINITELY, x); p.mark = mark; int rmark = p.r->log.n;
  bool want = p.r->event(e, 1, x);
  p.k->d->drain();
  vf_assert(ok == want, "the sender learns whether the transition was carried out");
  p.sameMask("active states after a refusal are those before it");
  sameCounts(p.log, p.r->log, KALL | KB(K_FAILED), "callbacks of a refused transition: exits so far, re-entry of exactly the states already left");
  alternation(m, p.log, p.k->mask());
  bool refused = false; for (int i = mark; i < p.log.n; i++) if (p.log.e[i].refused && (p.log.e[i].kind == K_EXIT)) refused = true;
  if (!entry && refused) {
    vf_reach("exit_refused"); vf_assert(p.k->mask() == before, "no state was lost or gained");
    vf_assert(p.log.countKind(K_TRANS, mark) == 0, "transition callback of a cancelled transition"); vf_assert(!ok, "cancelled transition counts as failed"); vf_assert(p.log.countKind(K_FAILED, mark) == 1, "cancelled transition is reported");
    // exits up to the refusal come first, in the reference order
    for (int i = mark, j = rmark; i < p.log.n && p.log.e[i].kind == K_EXIT; i++, j++) vf_assert(p.r->log.e[j].kind == K_EXIT && p.r->log.e[j].id == p.log.e[i].id, "exit order");
  }
  if (entry && !want && p.log.countKind(K_TRANS, mark)) { vf_reach("entry_refused"); vf_assert(p.k->mask() == before, "no state was lost or gained"); vf_assert(!ok, "refused entry counts as failed"); for (int i = mark; i < p.log.n; i++) if (p.log.e[i].kind == K_ENTER && p.log.e[i].refused && p.log.count(K_EXIT, p.log.e[i].id, mark) == 0) vf_assert(p.log.count(K_CHANGED, p.log.e[i].id, mark) == 0, "state-changed callback of a refused state"); }
  // afterwards: everything works as if the cancelled transition had not happened, in particular history and the innermost-first order
  for (int s = 1; s <= 8; s++) m.vx[s] = m.ve[s] = false;
  bool histOk = !(entry && p.log.countKind(K_TRANS, mark) && !want);   // see DESIGN: a refused entry happens after the states were really left
  int seq = vf_pick("then", 0, 3); static const int A[] = {100, 101, 105, 103};
  p.event(A[seq], 1); p.sameMask("behaviour after the refusal"); if ((histOk || seq != 1) && !(p.k->mask() & (1u << 2))) { p.event(102, 1);   // into the history of 2, from outside
    p.sameMask("history after the refusal"); }
  sameCounts(p.log, p.r->log, KALL | KB(K_FAILED), "callbacks after the refusal"); alternation(m, p.log, p.k->mask());
  vf_trace("mask", p.k->mask()); vf_trace("log", p.log.n); vf_reach("end");
}

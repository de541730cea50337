#include "kit.h"
// Internal and external self transitions at every level, conditions and expected values symbolic, in a machine with regions and history.
extern "C" void harness() {
  Pair p; Model& m = p.m; m.states(9);
  // 1{2{4,5,H9}, 3{6,7}} 8
  m.entry(1, 2); m.entry(1, 3); m.entry(2, 4); m.sub(2, 5); m.entry(3, 6); m.sub(3, 7); bool deep = vf_bool("deep"); m.hist(2, 9, deep, 4); m.noCb[9] = true;
  int at = vf_pick("state", 0, 3); static const int S[] = {1, 2, 4, 6};
  bool internal = vf_bool("internal"), expected = vf_bool("expected"); m.g[0] = vf_bool("cond"); bool guarded = vf_bool("guarded");
  m.self(S[at], 100, internal, guarded ? 0 : -1, expected);
  if (vf_bool("second")) m.self(S[at], 100, true);
  m.tr(4, 5, 101); m.tr(6, 7, 102); m.tr(1, 8, 103); m.tr(8, 1, 104); m.tr(2, 9, 105);
  p.start();
  if (vf_bool("moved2")) p.event(101, 0); if (vf_bool("moved3")) p.event(102, 0);
  p.sameMask("active states before");
  bool was = (p.k->mask() >> S[at]) & 1; unsigned before = p.k->mask(); int mark = p.log.n; bool two = m.nt == 7;
  int64_t x = vf_i64("arg"), y = vf_i64("arg"); int n = vf_pick("nargs", 0, 2);
  if (n == 0) { p.k->hsm.transition(100); p.k->d->drain(); p.r->event(100, 0, 0); } else if (n == 1) p.event(100, x); else { p.k->hsm.transition(100, x, y); p.k->d->drain(); p.r->event(100, 2, static_cast<int64_t>(static_cast<uint64_t>(x) + (static_cast<uint64_t>(y) << 11))); }
  bool take = was && (!guarded || m.g[0] == expected);
  if (internal || !take) {
    vf_assert(p.log.count(K_TRANS, 0, mark) == (take ? 1 : 0), "transition callback runs exactly once iff the condition holds");
    for (int i = mark; i < p.log.n; i++) vf_assert(p.log.e[i].kind == K_TRANS || p.log.e[i].kind == K_FAILED, "an internal self transition runs nothing but its transition callback");
    vf_assert(p.k->mask() == before, "an internal self transition changes no state"); if (take) vf_reach("internal_taken"); else vf_reach("not_taken");
  } else {
    vf_assert(p.log.count(K_TRANS, 0, mark) == 1, "transition callback runs exactly once"); vf_assert(p.log.count(K_EXIT, S[at], mark) == 1 && p.log.count(K_ENTER, S[at], mark) == 1 && p.log.count(K_CHANGED, S[at], mark) == 1, "an external self transition leaves and re-enters the state");
    for (int s = 1; s <= 8; s++) { bool in = s == S[at] || m.inside(S[at], s); vf_assert(p.log.count(K_EXIT, s, mark) == ((in && (before >> s & 1)) ? 1 : 0), "an external self transition leaves exactly the state and its active descendants"); } vf_reach("external_taken");
  }
  (void)two;
  sameLog(p.log, p.r->log, KB(K_TRANS) | KB(K_FAILED) | KB(K_EXIT), "callbacks of a self transition"); sameCounts(p.log, p.r->log, KALL | KB(K_FAILED), "callbacks of a self transition"); p.sameMask("active states"); alternation(m, p.log, p.k->mask());
  // history unaffected: leave and come back
  p.event(105, 1); p.sameMask("history is not changed by an internal self transition"); p.event(103, 1); p.event(104, 1); p.sameMask("active states at the end");
  vf_trace("mask", p.k->mask()); vf_trace("log", p.log.n); vf_reach("end");
}

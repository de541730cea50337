#include "kit.h"
// Reports of failed events: ignored, condition false, refused exit, refused entry, in one or several regions; with the state list, id and arguments.
static unsigned gMask; static int gCount; static int gEv; static int gN; static int64_t gArg;
extern "C" void harness() {
  const int E = vf_param("events", 2);
  Pair p; Model& m = p.m; m.states(9);
  // 1{2,3 | 4,5} 6{7, 8(second entry)} 9
  m.entry(1, 2); m.sub(1, 3); bool par = vf_bool("parallel"); if (par) m.entry(1, 4); else m.sub(1, 4); m.sub(1, 5); m.entry(6, 7); if (vf_bool("two_entries")) m.entry(6, 8); else m.sub(6, 8);
  m.tr(2, 3, 100, 0); m.tr(4, 5, 100, 1); m.tr(1, 6, 101); m.tr(6, 1, 101); m.tr(2, 3, 102); m.self(1, 103, vf_bool("internal"), 0); m.tr(1, 9, 104); m.tr(9, 6, 104, 1); m.tr(4, 5, 105);
  m.g[0] = vf_bool("cond"); m.g[1] = vf_bool("cond");
  p.k = new Kit(m, p.log); Kit& k = *p.k; k.noFailedCb = true; gCount = 0; gMask = 0;
  k.hsm.registerFailedTransitionCallback([&p](const std::list<StateID_t>& st, const EventID_t e, const VariantVector_t& a) {
    gCount++; gEv = e; gN = a.size(); gArg = argOf(a); gMask = 0; for (StateID_t s : st) { vf_assert(s >= 1 && s <= 9, "reported state exists"); gMask |= 1u << s; } p.log.add(K_FAILED, e, gN, gArg);
  });
  p.k->start(); p.r = new Ref(m); p.r->start();
  for (int i = 0; i < E; i++) {
    bool last = i + 1 == E;
    if (last) { int s = vf_pick("refusing_state", 0, 9); if (s) { if (vf_bool("refuse_entry")) m.ve[s] = true; else m.vx[s] = true; } if (par && (m.ve[3] || m.ve[5] || m.ve[7] || m.ve[8])) vf_assume(0); }
    int e = vf_i32("event"); if (!last) vf_assume(e >= 100 && e <= 105); int64_t x = vf_i64("arg"), y = vf_i64("arg"); int n = vf_pick("nargs", 0, 2);
    unsigned before = k.mask(); int c = gCount, mark = p.log.n, f = p.r->log.countKind(K_FAILED); int64_t fp = n == 0 ? 0 : n == 1 ? x : static_cast<int64_t>(static_cast<uint64_t>(x) + (static_cast<uint64_t>(y) << 11));
    if (n == 0) k.hsm.transition(e); else if (n == 1) k.hsm.transition(e, x); else k.hsm.transition(e, x, y);
    k.d->drain(); bool h = p.r->event(e, n, fp); if (!h && !last) vf_assume(0);
    vf_assert(gCount - c == p.r->log.countKind(K_FAILED) - f, "a failed event is reported exactly once and a successful one never");
    if (gCount > c) { vf_assert(gEv == e, "reported event id"); vf_assert(gN == n, "reported arguments"); vf_assert(gArg == fp, "reported argument values"); if (!m.ve[2] && !m.ve[4] && !m.ve[7] && !m.ve[8]) vf_assert(gMask == before, "reported states are those that were active"); // (a refused entry step reports the states active by then)
      vf_reach("failed");
      if (p.log.countKind(K_EXIT, mark)) vf_reach("refused_exit"); if (p.log.countKind(K_TRANS, mark)) vf_reach("refused_entry"); }
    else { vf_reach("ok"); vf_assert(p.log.countKind(K_TRANS, mark) > 0, "an event without transition is reported"); }
    p.sameMask("active states"); sameCounts(p.log, p.r->log, KALL | KB(K_FAILED), "callbacks");
  }
  vf_trace("failed", gCount); vf_trace("mask", k.mask()); vf_reach("end");
}

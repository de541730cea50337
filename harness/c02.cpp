#include "kit.h"
// machine structure chosen by the solver: state 1 leaf (initial), 2 composite, others placed anywhere; transitions between siblings
extern "C" void harness() {
  const int N = vf_param("states", 5), T = vf_param("trans", 2), E = vf_param("events", 2); const bool veto = vf_param("veto", 1), par = vf_param("parallel", 1);
  Pair p; Model& m = p.m; m.states(N);
  int sh = vf_pick("shape", 0, 5);          // parents of 3, 4, 5
  static const int par3[6] = {2, 2, 2, 2, 0, 0}, par4[6] = {2, 3, 3, 2, 2, 2}, par5[6] = {3, 3, 2, 2, 2, 4};
  if (N >= 3) m.parent[3] = par3[sh]; if (N >= 4) m.parent[4] = par4[sh]; if (N >= 5) m.parent[5] = par5[sh];
  for (int s = 3; s <= N; s++) if (m.parent[s]) {
    bool first = true; for (int i = 0; i < m.ne; i++) if (m.e[i].parent == m.parent[s]) first = false;
    if (first) m.entry(m.parent[s], s); else if (par && vf_bool("second_entry")) m.entry(m.parent[s], s);
  }
  for (int i = 0; i < T; i++) {
    int f = vf_pick("from", 1, N), t = vf_pick("to", 1, N); vf_assume(m.parent[f] == m.parent[t]);
    if (i == 0) vf_assume(f == 1);
    int e = i == 0 ? 1 : vf_i32("on");
    if (f == t) m.self(f, e, vf_bool("internal")); else m.tr(f, t, e);
  }
  if (veto) { for (int s = 1; s <= N; s++) m.vx[s] = vf_bool("refuse_exit"); }
  p.start(); wellFormed(m, *p.k); p.sameMask("active states after start");
  for (int i = 0; i < E; i++) {
    int e = i == 0 ? 1 : vf_i32("event");
    p.event(e, 0);
    wellFormed(m, *p.k); p.sameMask("active states are exactly those the transitions select");
    if (veto) for (int s = 1; s <= N; s++) m.vx[s] = false;
  }
  vf_trace("mask", p.k->mask()); vf_reach("end");
}

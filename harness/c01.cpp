#include "kit.h"
// Registration: LEN calls with arbitrary ids and kinds against a list of accepted (parent, substate) pairs.
static int P[16], S[16]; static int np = 0;
static bool parentOf(int s, int& out) { for (int i = 0; i < np; i++) if (S[i] == s) { out = P[i]; return true; } return false; }
static bool allowed(int p, int s) {
  if (p == s) return false;
  int q; if (parentOf(s, q)) return false;
  int c = p; while (parentOf(c, q)) { if (q == s) return false; c = q; }
  return true;
}
extern "C" void harness() {
  const int L = vf_param("calls", 4); const bool anyId = vf_param("any_id", 1);
  np = 0;
  Model m; m.states(5); Log log; Ref* r = nullptr;
  HierarchicalStateMachine h(1); int start = 1;
  if (!anyId) { start = vf_param("all_initial", 0) ? vf_pick("initial", 1, 4) : 1; h.setInitialState(start); m.initial = start; }
  int acc = 0, ref = 0, cyc = 0;
  for (int i = 0; i < L; i++) {
    int p, s; if (anyId) { p = vf_i32("parent"); s = vf_i32("substate"); } else { p = vf_pick("parent", 1, 4); s = vf_pick("substate", 1, 4); }
    bool entry = vf_bool("entry_point"); bool withState = anyId ? false : vf_bool("register_state");
    if (withState) h.registerState(s);
    bool want = allowed(p, s); if (!want && p != s) { int q; if (!parentOf(s, q)) cyc++; }
    bool got = entry ? h.registerSubstateEntryPoint(p, s) : h.registerSubstate(p, s);
    vf_assert(got == want, "registration accepted exactly when it keeps the structure a forest");
    if (want) { acc++; P[np] = p; S[np++] = s; if (!anyId) { if (entry) m.entry(p, s); else m.sub(p, s); } } else ref++;
  }
  // a refused registration changed nothing: any further one is judged by the accepted ones only
  if (anyId) { int p = vf_i32("parent"), s = vf_i32("substate"); vf_assert(h.registerSubstate(p, s) == allowed(p, s), "structure after refused registrations is that of the accepted ones"); }
  else {   // behaviour of the built structure: start, and a transition that leaves and re-enters it
    auto d = D::create(); h.registerTransition(start, 5, 50); h.registerTransition(5, start, 51); m.tr(start, 5, 50); m.tr(5, start, 51);
    vf_assert(h.initialize(d), "initialize"); d->drain();
    r = new Ref(m); r->start();
    auto mask = [&]() { unsigned k = 0; for (int s : h.getActiveStates()) k |= 1u << s; return k; };
    vf_assert(mask() == r->mask(), "active states after start follow the accepted registrations");
    h.transition(50); d->drain(); r->event(50, 0, 0); vf_assert(mask() == r->mask(), "leaving the structure");
    h.transition(51); d->drain(); r->event(51, 0, 0); vf_assert(mask() == r->mask(), "re-entering the structure");
    vf_trace("mask", mask()); delete r;
  }
  vf_trace("accepted", acc); vf_reach("end"); if (acc == L) vf_reach("all_accepted"); if (cyc) vf_reach("cycle_refused"); if (ref == L) vf_reach("all_refused");
}

#include "kit.h"
// The possibility query while events are pending: in a machine without composite states the answer is the one for the state that is reached
// once the pending events were processed. Guards depend on the arguments of their own event. Optionally the guards send events themselves.
struct T { int from, to, ev; bool guarded, expected; int64_t key; };
extern "C" void harness() {
  const int N = (int)vf_param("pending", 2), sends = (int)vf_param("condition_sends", 0); constexpr int NS = 4;
  HierarchicalStateMachine hsm(1); auto d = D::create(8); T t[5]; const int nt = (int)vf_param("transitions", 3); bool busy = false; int conds = 0, acts = 0, sent = 0;
  for (int s = 1; s <= NS; s++) hsm.registerState(s);
  for (int i = 0; i < nt; i++) {
    t[i].from = i < 2 ? 1 : i == 4 ? 3 : 2; t[i].to = vf_pick("to", 1, NS - 1); t[i].ev = i == 0 ? 10 : i == 1 ? 11 : vf_pick("on", 10, 12); t[i].guarded = (i % 2 == 0) && vf_bool("guarded"); t[i].expected = t[i].guarded ? vf_bool("expected") : true; t[i].key = i;
    if (i == 3 && t[3].ev == t[2].ev) vf_assume(0);
    HsmTransitionConditionCallback_t c = nullptr;
    if (t[i].guarded) c = [&, i](const VariantVector_t& a) { conds++; if (sends && busy && sent < 2) { sent++; hsm.transition(12, (int64_t)50); } return !a.empty() && a[0].toInt64() == t[i].key; };
    hsm.registerTransition(t[i].from, t[i].to, t[i].ev, [&](const VariantVector_t&) { acts++; }, c, t[i].expected);
  }
  int failed = 0; hsm.registerFailedTransitionCallback([&](const std::list<StateID_t>&, const EventID_t, const VariantVector_t&) { failed++; });
  vf_assert(hsm.initialize(d), "initialize succeeds"); d->drain();
  auto next = [&](int s, int e, int64_t a) { for (int i = 0; i < nt; i++) if (t[i].from == s && t[i].ev == e && (!t[i].guarded || ((a == t[i].key) == t[i].expected))) return t[i].to; return 0; };
  int cur = 1, n = vf_pick("events", 0, N);
  for (int i = 0; i < n; i++) { int e = vf_pick("event", 10, 12); int64_t a = vf_i64("arg"); hsm.transition(e, a); int q = next(cur, e, a); if (q) cur = q; else vf_reach("ignored"); }
  int e = vf_pick("query", 10, 13); int64_t a = vf_i64("query_arg");
  const size_t pend = d->pendingCount(); busy = true; bool possible = hsm.isTransitionPossible(e, a); busy = false;
  vf_assert(acts == 0 && failed == 0 && hsm.isStateActive(1), "the query performs no transition");
  if (!sends) {
    vf_assert(d->pendingCount() == pend, "the query queues nothing");
    vf_assert(possible == (next(cur, e, a) != 0), "the answer is the one for the state after the pending events");
    d->drain(); vf_assert(hsm.isStateActive(cur), "pending events are processed unchanged after the query");
    failed = 0; hsm.transition(e, a); d->drain(); vf_assert(possible == (failed == 0), "the query agrees with dispatching the event");
  } else { d->drain(); if (sent) vf_reach("sent"); }
  if (n) vf_reach(possible ? "possible" : "impossible"); vf_reach("end");
}

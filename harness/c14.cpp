#include "kit.h"
// Order and integrity of dispatching: sends interleaved freely with dispatcher rounds, sends from inside callbacks, argument lists of several types.
struct Sent { int ev; int n; int64_t a; };
static Sent q[64]; static int nq = 0; static int extra = 0; static int hookLeft = 0;
static HierarchicalStateMachine* H;
static bool syncSend, bare;
static void push(int ev, int64_t x) { if (bare) { q[nq++] = Sent{ev, 0, 0}; if (syncSend) { syncSend = false; H->transitionSync(ev, 1); } else H->transition(ev); return; } q[nq++] = Sent{ev, 1, x}; if (syncSend) { syncSend = false; H->transitionSync(ev, 1, x); } else H->transition(ev, x); }   // (nobody dispatches meanwhile: a synchronous send times out)
static void onCall(Kit& k, int kind, int id) { (void)k; (void)id; if (hookLeft > 0 && kind != K_EXIT && vf_bool("send_from_callback")) { hookLeft--; vf_reach("from_callback"); push(100 + vf_pick("nested_event", 0, 2), 1000 + extra++); } }
extern "C" void harness() {
  const int N = vf_param("sends", 3);
  Pair p; Model& m = p.m; m.states(6);
  m.entry(1, 2); m.sub(1, 3); m.entry(4, 5); m.final_(6, 105); m.sub(4, 6);
  m.tr(2, 3, 100); m.tr(3, 2, 101); m.tr(1, 4, 102); m.tr(4, 1, 102); m.tr(5, 6, 100); m.tr(4, 1, 105); m.self(1, 103, true); m.self(4, 103, true);
  p.k = new Kit(m, p.log); Kit& k = *p.k; H = &k.hsm; nq = 0; extra = 0; hookLeft = 0; syncSend = false; bare = vf_bool("without_arguments"); const int S = vf_bool("synchronous_send") ? N - 1 : -1;
  k.install(); k.d = D::create(); 
  int early = vf_bool("before_initialization"); if (early) { k.hsm.transition(100, 5); }             // not accepted: nothing is initialized yet
  vf_assert(k.hsm.initialize(k.d), "initialize"); p.r = new Ref(m); p.r->start();
  k.hook = onCall; hookLeft = vf_param("nested", 1);
  for (int i = 0; i < N; i++) {
    int rounds = i == 0 ? 0 : vf_pick("rounds", 0, 2); while (rounds-- > 0 && k.d->notified) k.d->run();
    syncSend = i == S; push(100 + vf_pick("event", 0, 4), vf_i64("arg"));
  }
  // distinct types in one argument list
  k.hsm.transition(103, 7, true, std::string("xy"), 2.5); q[nq++] = Sent{103, 4, 0};
  k.d->drain(); k.hook = nullptr;
  vf_assert(k.d->pendingCount() == 0, "nothing is left over");
  for (int i = 0; i < nq; i++) p.r->event(q[i].ev, q[i].n, q[i].a);
  // processing order: the outcome of each event (transition or failure report) with its argument
  int i = 0, j = 0; unsigned kinds = KB(K_TRANS) | KB(K_FAILED); const Log &a = p.log, &b = p.r->log;
  for (;;) {
    while (i < a.n && !((kinds >> a.e[i].kind) & 1)) i++;
    while (j < b.n && !((kinds >> b.e[j].kind) & 1)) j++;
    if (i == a.n || j == b.n) break;
    vf_assert(a.e[i].kind == b.e[j].kind && a.e[i].id == b.e[j].id, "events are processed once each in the order they were accepted"); vf_assert(a.e[i].nargs == b.e[j].nargs, "argument count"); if (b.e[j].nargs == 1) vf_assert(a.e[i].arg == b.e[j].arg, "argument"); i++; j++;
  }
  vf_assert(i == a.n && j == b.n, "every accepted event is processed exactly once"); sameCounts(a, b, KALL, "callbacks"); p.sameMask("active states");
  vf_trace("log", a.n); vf_reach("end");
}

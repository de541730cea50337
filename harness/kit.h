// Common parts of the state machine harnesses: a manually driven dispatcher, a declarative machine description with logging callbacks,
// and a reference interpreter of the documented semantics (class Ref) that predicts the log.
#pragma once
#include "vf.h"
#include <hsmcpp/hsm.hpp>
#include "disp.h"
#include <hsmcpp/variant.hpp>
using namespace hsmcpp;

constexpr int MS = 17, MT = 18, ME = 14, MH = 4, MG = 24;
enum Kind { K_EXIT = 1, K_ENTER, K_CHANGED, K_TRANS, K_FAILED, K_HCB, K_COND, K_START, K_STOP, K_USER };
static const EventID_t ANY = INVALID_HSM_EVENT_ID;

struct Entry { int kind, id, nargs; int64_t arg; bool refused; };
struct Log {
  Entry e[160]; int n = 0;
  void add(int kind, int id, int nargs = 0, int64_t arg = 0, bool refused = false) { if (n >= 160) vf_fail("more than 160 callbacks: runaway processing"); e[n++] = Entry{kind, id, nargs, arg, refused}; }
  int count(int kind, int id, int from = 0) const { int c = 0; for (int i = from; i < n; i++) c += (e[i].kind == kind && e[i].id == id); return c; }
  int countKind(int kind, int from = 0) const { int c = 0; for (int i = from; i < n; i++) c += (e[i].kind == kind); return c; }
  int find(int kind, int id, int from = 0) const { for (int i = from; i < n; i++) if (e[i].kind == kind && e[i].id == id) return i; return -1; }
};

struct Tr { int from, to, ev; int type; int guard; bool expected; };   // type 0 external, 1 external self, 2 internal self; guard -1 none
struct Ep { int parent, sub, ev, guard; bool expected; };
struct Hi { int parent, st; bool deep; int def; bool cb; };

struct Model {
  int ns = 0, nt = 0, ne = 0, nh = 0, initial = 1;
  int parent[MS] = {0}; bool entrySub[MS] = {false}; bool fin[MS] = {false}; int finEv[MS] = {0}; bool noCb[MS] = {false};
  Tr t[MT]; Ep e[ME]; Hi h[MH];
  bool g[MG] = {false}; bool vx[MS] = {false}, ve[MS] = {false};      // condition results, exit / entering refusals
  void states(int n) { ns = n; }
  void sub(int p, int s) { parent[s] = p; }
  void entry(int p, int s, int ev = ANY, int guard = -1, bool expected = true) { parent[s] = p; entrySub[s] = true; e[ne++] = Ep{p, s, ev, guard, expected}; }
  void tr(int from, int to, int ev, int guard = -1, bool expected = true) { t[nt++] = Tr{from, to, ev, 0, guard, expected}; }
  void self(int st, int ev, bool internal, int guard = -1, bool expected = true) { t[nt++] = Tr{st, st, ev, internal ? 2 : 1, guard, expected}; }
  void final_(int s, int ev = ANY) { fin[s] = true; finEv[s] = ev; }
  void hist(int p, int st, bool deep, int def = INVALID_HSM_STATE_ID, bool cb = false) { h[nh++] = Hi{p, st, deep, def, cb}; }
  bool inside(int anc, int s) const { for (s = parent[s]; s > 0; s = parent[s]) if (s == anc) return true; return false; }
  int histOf(int s) const { for (int i = 0; i < nh; i++) if (h[i].st == s) return i; return -1; }
  bool composite(int s) const { for (int i = 1; i <= ns; i++) if (parent[i] == s) return true; return false; }
  bool gv(int guard, bool expected) const { return guard < 0 || g[guard] == expected; }
};

// fingerprint of an argument list (a single integer argument is its own fingerprint)
inline bool argSkip = false;
inline int64_t argOf(const VariantVector_t& a) { if (argSkip) return 0; uint64_t r = 0; for (size_t i = 0; i < a.size(); i++) r += static_cast<uint64_t>(a[i].toInt64()) << (11 * i); return static_cast<int64_t>(r); }

struct Kit {
  Model& m; Log& log; HierarchicalStateMachine hsm;
  std::shared_ptr<D> d;
  void (*hook)(Kit& k, int kind, int id) = nullptr;
  bool logCond = false; bool condArgsChecked = false; int curN = 0; int64_t curArg = 0; bool noFailedCb = false;
  Kit(Model& model, Log& l) : m(model), log(l), hsm(model.initial) { for (auto& c : cbs) c = 7; for (auto& c : tcb) c = 1; }
  void ev(int kind, int id, int n = 0, int64_t a = 0, bool refused = false) { log.add(kind, id, n, a, refused); if (hook) hook(*this, kind, id); }
  HsmTransitionConditionCallback_t cond(int guard) {
    if (guard < 0) return nullptr;
    return [this, guard](const VariantVector_t& a) {
      if (condArgsChecked) { vf_assert(static_cast<int>(a.size()) == curN, "condition called with the number of arguments that were sent"); if (curN > 0) vf_assert(argOf(a) == curArg, "condition called with the argument that was sent"); }
      if (logCond) log.add(K_COND, guard, a.size(), argOf(a));
      return m.g[guard];
    };
  }
  bool members = false;                             // register member functions of handler objects instead of function objects
  unsigned char cbs[MS], tcb[MT];                   // callbacks which are registered: states 1 changed, 2 entering, 4 exiting; transitions 1
  struct Member { Kit* k; int s;
    void changed(const VariantVector_t& a) { k->ev(K_CHANGED, s, a.size(), argOf(a)); }
    bool entering(const VariantVector_t& a) { bool no = k->m.ve[s] ? true : false; k->ev(K_ENTER, s, a.size(), argOf(a), no); return !no; }
    bool exiting() { bool no = k->m.vx[s] ? true : false; k->ev(K_EXIT, s, 0, 0, no); return !no; }
    void transition(const VariantVector_t& a) { k->ev(K_TRANS, s, a.size(), argOf(a)); }
    void restored(const VariantVector_t& a) { k->ev(K_HCB, s, a.size(), argOf(a)); }
    bool allowed(const VariantVector_t& a) { return k->m.g[s]; }
    void failed(const std::list<StateID_t>& st, const EventID_t e, const VariantVector_t& a) { (void)st; k->ev(K_FAILED, e, a.size(), argOf(a)); }
  } member[MT];
  // the handler object of a transition knows its index and, as condition, its guard: two objects when they differ
  Member guardMember[MG];
  void installMembers(HierarchicalStateMachine& hsm) {
    for (int i = 0; i < MT; i++) member[i] = Member{this, i}; for (int i = 0; i < MG; i++) guardMember[i] = Member{this, i};
    for (int s = 1; s <= m.ns; s++) {
      auto ch = (cbs[s] & 1) ? &Member::changed : nullptr; auto en = (cbs[s] & 2) ? &Member::entering : nullptr; auto ex = (cbs[s] & 4) ? &Member::exiting : nullptr;
      if (m.fin[s]) hsm.registerFinalState<Member>(s, m.finEv[s], &member[s], ch, en, ex); else hsm.registerState<Member>(s, &member[s], ch, en, ex);
    }
    bool done[MS] = {false};
    for (int i = 0; i < m.ne; i++) {
      const int g = m.e[i].guard;
      vf_assert(hsm.registerSubstateEntryPoint<Member>(m.e[i].parent, m.e[i].sub, m.e[i].ev, &guardMember[g < 0 ? 0 : g], g < 0 ? nullptr : &Member::allowed, m.e[i].expected), "entry point registration accepted");
      done[m.e[i].sub] = true;
    }
    for (int s = 1; s <= m.ns; s++) if (m.parent[s] > 0 && !done[s] && m.histOf(s) < 0) vf_assert(hsm.registerSubstate(m.parent[s], s), "substate registration accepted");
    for (int i = 0; i < m.nt; i++) {
      const int g = m.t[i].guard; auto cb = tcb[i] ? &Member::transition : nullptr; auto co = g < 0 ? nullptr : &Member::allowed;
      vf_assert(g < 0 || g == i, "guards of a machine registered with member functions are numbered like its transitions");
      if (m.t[i].type == 0) hsm.registerTransition<Member>(m.t[i].from, m.t[i].to, m.t[i].ev, &member[i], cb, co, m.t[i].expected);
      else hsm.registerSelfTransition<Member>(m.t[i].from, m.t[i].ev, m.t[i].type == 2 ? TransitionType::INTERNAL_TRANSITION : TransitionType::EXTERNAL_TRANSITION, &member[i], cb, co, m.t[i].expected);
    }
    for (int i = 0; i < m.nh; i++) hsm.registerHistory<Member>(m.h[i].parent, m.h[i].st, m.h[i].deep ? HistoryType::DEEP : HistoryType::SHALLOW, m.h[i].def, &member[i], m.h[i].cb ? &Member::restored : nullptr);
    if (!noFailedCb) hsm.registerFailedTransitionCallback<Member>(&member[0], &Member::failed);
  }
  // removes the callbacks that are not registered from a log
  void dropMissing(Log& l, int from) const {
    int j = from;
    for (int i = from; i < l.n; i++) { const Entry& y = l.e[i]; bool in = y.kind == K_ENTER ? (cbs[y.id] & 2) : y.kind == K_CHANGED ? (cbs[y.id] & 1) : y.kind == K_EXIT ? (cbs[y.id] & 4) : y.kind == K_TRANS ? tcb[y.id] : true; if (in) { if (i != j) l.e[j] = l.e[i]; j++; } }
    l.n = j;
  }
  HierarchicalStateMachine* target = nullptr;      // machine on which install() registers (default: the own one)
  void install() {
    HierarchicalStateMachine& hsm = target ? *target : this->hsm;
    if (members) { installMembers(hsm); return; }
    for (int s = 1; s <= m.ns; s++) {
      if (m.noCb[s]) { if (m.fin[s]) hsm.registerFinalState(s, m.finEv[s]); else hsm.registerState(s); continue; }
      HsmStateChangedCallback_t ch = [this, s](const VariantVector_t& a) { ev(K_CHANGED, s, a.size(), argOf(a)); };
      HsmStateEnterCallback_t en = [this, s](const VariantVector_t& a) { bool no = m.ve[s] ? true : false; ev(K_ENTER, s, a.size(), argOf(a), no); return !no; };
      HsmStateExitCallback_t ex = [this, s]() { bool no = m.vx[s] ? true : false; ev(K_EXIT, s, 0, 0, no); return !no; };
      if (!(cbs[s] & 1)) ch = nullptr; if (!(cbs[s] & 2)) en = nullptr; if (!(cbs[s] & 4)) ex = nullptr;
      if (m.fin[s]) hsm.registerFinalState(s, m.finEv[s], ch, en, ex); else hsm.registerState(s, ch, en, ex);
    }
    bool done[MS] = {false};
    for (int i = 0; i < m.ne; i++) {
      vf_assert(hsm.registerSubstateEntryPoint(m.e[i].parent, m.e[i].sub, m.e[i].ev, cond(m.e[i].guard), m.e[i].expected), "entry point registration accepted");
      done[m.e[i].sub] = true;
    }
    for (int s = 1; s <= m.ns; s++) if (m.parent[s] > 0 && !done[s] && m.histOf(s) < 0) vf_assert(hsm.registerSubstate(m.parent[s], s), "substate registration accepted");
    for (int i = 0; i < m.nt; i++) {
      HsmTransitionCallback_t cb = [this, i](const VariantVector_t& a) { ev(K_TRANS, i, a.size(), argOf(a)); };
      if (!tcb[i]) cb = nullptr;
      if (m.t[i].type == 0) hsm.registerTransition(m.t[i].from, m.t[i].to, m.t[i].ev, cb, cond(m.t[i].guard), m.t[i].expected);
      else hsm.registerSelfTransition(m.t[i].from, m.t[i].ev, m.t[i].type == 2 ? TransitionType::INTERNAL_TRANSITION : TransitionType::EXTERNAL_TRANSITION, cb, cond(m.t[i].guard), m.t[i].expected);
    }
    for (int i = 0; i < m.nh; i++) {
      HsmTransitionCallback_t cb = nullptr;
      if (m.h[i].cb) cb = [this, i](const VariantVector_t& a) { ev(K_HCB, i, a.size(), argOf(a)); };
      hsm.registerHistory(m.h[i].parent, m.h[i].st, m.h[i].deep ? HistoryType::DEEP : HistoryType::SHALLOW, m.h[i].def, cb);
    }
    if (!noFailedCb) hsm.registerFailedTransitionCallback([this](const std::list<StateID_t>& st, const EventID_t e, const VariantVector_t& a) { (void)st; ev(K_FAILED, e, a.size(), argOf(a)); });
  }
  void start(size_t cache = 8) { install(); d = D::create(cache); vf_assert(hsm.initialize(d), "initialize succeeds"); d->drain(); }
  void send(int event, int64_t a) { curN = 1; curArg = a; hsm.transition(event, a); d->drain(); }
  void send0(int event) { curN = 0; hsm.transition(event); d->drain(); }
  unsigned mask() const { unsigned r = 0; for (StateID_t s : hsm.getActiveStates()) { vf_assert(s >= 1 && s <= m.ns, "active state is a known state"); unsigned b = 1u << s; if (r & b) vf_fail("duplicate entry in the active state list"); r |= b; } return r; }
};

// ---- reference interpreter
struct Ref {
  const Model& m; Log log;
  int act[24]; int na = 0;
  int hist[MH][MS]; int nhist[MH] = {0};
  struct F { int kind; int ev; int from, to; bool ignoreEp; int cb; } fu[24]; int nf = 0;   // follow-ups, last one first; kind 0 entry, 1 forced, 2 final event
  int nargs = 0; int64_t arg = 0; bool followFailed = false;
  explicit Ref(const Model& mm) : m(mm) {}
  bool active(int s) const { for (int i = 0; i < na; i++) if (act[i] == s) return true; return false; }
  void add(int s) { if (!active(s)) act[na++] = s; }
  void del(int s) { int j = 0; for (int i = 0; i < na; i++) if (act[i] != s) act[j++] = act[i]; na = j; }
  unsigned mask() const { unsigned r = 0; for (int i = 0; i < na; i++) r |= 1u << act[i]; return r; }
  void L(int kind, int id, bool withArgs = true) { if ((kind == K_ENTER || kind == K_CHANGED || kind == K_EXIT) && m.noCb[id]) return; log.add(kind, id, withArgs ? nargs : 0, withArgs ? arg : 0); }
  int eps(int s, int ev, int* out) const { int c = 0; for (int i = 0; i < m.ne; i++) if (m.e[i].parent == s && (m.e[i].ev == ANY || m.e[i].ev == ev) && m.gv(m.e[i].guard, m.e[i].expected)) out[c++] = m.e[i].sub; return c; }
  // A target can be entered when following the entry points from it reaches states without substates and no composite without matching
  // entry point. When both kinds are reachable the documentation does not say which counts: such paths are left out.
  void reach(int s, int ev, bool& leaf, bool& dead) const { if (!m.composite(s)) { leaf = true; return; } int o[ME]; int c = eps(s, ev, o); if (!c) dead = true; for (int i = 0; i < c; i++) reach(o[i], ev, leaf, dead); }
  bool enterable(int s, int ev) const { bool leaf = false, dead = false; reach(s, ev, leaf, dead); if (leaf && dead) vf_assume(0); return leaf; }
  void start() {
    nargs = 0; L(K_ENTER, m.initial); add(m.initial); L(K_CHANGED, m.initial);
    int o[ME]; if (eps(m.initial, ANY, o)) { fu[nf++] = F{0, ANY}; }
    settle();
  }
  void reenter(const int* ex, int n) { for (int i = n - 1; i >= 0; i--) { del(ex[i]); log.add(K_ENTER, ex[i]); add(ex[i]); log.add(K_CHANGED, ex[i]); } }
  // enters dst on behalf of src; false when refused
  bool enter(int dst, int ev, bool ignoreEp, bool* finalPending = nullptr) {
    if (!active(dst)) { L(K_ENTER, dst); if (m.ve[dst]) return false; add(dst); L(K_CHANGED, dst); }
    if (m.fin[dst]) {
      int p = m.parent[dst];
      if (p > 0) { bool busy = false; for (int i = 0; i < na; i++) if (m.inside(p, act[i]) && !m.fin[act[i]]) busy = true; if (!busy) { int q = nf++; for (; q > 0 && fu[q - 1].kind != 2; q--) fu[q] = fu[q - 1]; fu[q] = F{2, m.finEv[dst] == ANY ? ev : m.finEv[dst]}; } }   // after the entry points and history steps of transitions in progress
      return true;
    }
    int h = m.histOf(dst);
    if (h >= 0) { restore(h, ev); return true; }
    if (!ignoreEp) { int o[ME]; if (eps(dst, ev, o)) fu[nf++] = F{0, ev}; }
    return true;
  }
  void restore(int h, int ev) {
    const Hi& H = m.h[h];
    if (nhist[h]) {   // recorded children first exited come first: re-enter outermost first
      for (int i = 0; i < nhist[h]; i++) { int s = hist[h][i]; bool hasChild = false; for (int j = 0; j < nhist[h]; j++) hasChild |= m.inside(s, hist[h][j]); fu[nf++] = F{1, ev, H.st, s, hasChild, -1}; }
      fu[nf++] = F{1, ev, H.st, H.parent, true, -1};
      nhist[h] = 0;
    } else if (H.def != INVALID_HSM_STATE_ID) { fu[nf++] = F{1, ev, H.st, H.def, false, H.cb ? h : -1}; fu[nf++] = F{1, ev, H.st, H.parent, true, -1}; }
    else fu[nf++] = F{1, ev, H.st, H.parent, false, H.cb ? h : -1};
  }
  void settle() {
    int guard = 0;
    while (nf > 0) {
      if (++guard > 40) vf_fail("reference interpreter does not come to rest");
      F f = fu[--nf];
      if (f.kind == 2) { regular(f.ev); continue; }
      if (f.kind == 1) { if (f.cb >= 0) L(K_HCB, f.cb); del(f.from); if (!enter(f.to, f.ev, f.ignoreEp)) vf_assume(0); continue; }   // a refused history restoration has no documented outcome
      int snap[24], ns = na; for (int i = 0; i < na; i++) snap[i] = act[i];
      bool okAny = false, refusedAny = false;
      for (int i = ns - 1; i >= 0; i--) {
        int s = snap[i]; if (!active(s) || !m.composite(s)) continue;
        bool child = false; for (int j = 0; j < na; j++) child |= (m.parent[act[j]] == s);
        if (child) continue;
        int o[ME]; int c = eps(s, f.ev, o);
        for (int j = 0; j < c; j++) if (enter(o[j], f.ev, false)) okAny = true; else refusedAny = true;
      }
      // some entry steps refused and others not: the outcome is not specified
      if (refusedAny) { if (okAny) vf_assume(0); followFailed = true; L(K_FAILED, f.ev); }
    }
  }
  void record(const int* ex, int n) {
    for (int h = 0; h < m.nh; h++) {
      int P = m.h[h].parent; bool left = false; for (int i = 0; i < n; i++) left |= (ex[i] == P);
      if (!left) continue;
      const int old = nhist[h]; nhist[h] = 0;
      for (int i = 0; i < n; i++) if (m.h[h].deep ? m.inside(P, ex[i]) : m.parent[ex[i]] == P) hist[h][nhist[h]++] = ex[i];
      if (old && !nhist[h]) vf_assume(0);   // left without an active child (an entry step was refused): whether the older record stays is not specified
    }
  }
  // one regular event; true when some transition was carried out
  bool regular(int ev) {
    int snap[24], ns = na; for (int i = 0; i < na; i++) snap[i] = act[i];
    int acc[24], nacc = 0; bool ok = false;
    for (int i = ns - 1; i >= 0; i--) {
      int s = snap[i]; if (!active(s)) continue;
      bool shadowed = false; for (int j = 0; j < nacc; j++) shadowed |= m.inside(s, acc[j]);
      if (shadowed) continue;
      int M[MT], nm = 0; bool ext = false;
      for (int k = 0; k < m.nt; k++) if (m.t[k].from == s && m.t[k].ev == ev && m.gv(m.t[k].guard, m.t[k].expected) && enterable(m.t[k].to, ev)) { M[nm++] = k; ext |= m.t[k].type != 2; }
      if (!nm) continue;
      bool res = false;
      for (int k = 0; k < nm; k++) if (m.t[M[k]].type == 2) { L(K_TRANS, M[k]); res = true; }
      if (ext) {
        int ex[24], nx = 0; bool veto = false;
        for (int j = na - 1; j >= 0 && !veto; j--) if (act[j] == s || m.inside(s, act[j])) { log.add(K_EXIT, act[j]); if (m.vx[act[j]]) veto = true; else ex[nx++] = act[j]; }
        if (veto) { reenter(ex, nx); res = false; }
        else {
          for (int j = 0; j < nx; j++) del(ex[j]);
          int oh[MH], on[MH][MS]; for (int h = 0; h < m.nh; h++) { oh[h] = nhist[h]; for (int q = 0; q < oh[h]; q++) on[h][q] = hist[h][q]; }
          record(ex, nx);
          for (int k = 0; k < nm; k++) if (m.t[M[k]].type != 2) {
            L(K_TRANS, M[k]);
            if (enter(m.t[M[k]].to, ev, false)) res = true;
            else { res = false; reenter(ex, nx); (void)oh; (void)on; }
          }
        }
      }
      if (res) { ok = true; acc[nacc++] = s; }
    }
    if (!ok) L(K_FAILED, ev);
    return ok;
  }
  bool event(int ev, int n, int64_t a) { nargs = n; arg = a; followFailed = false; bool r = regular(ev); settle(); return r && !followFailed; }
};

inline void sameEntry(const Entry& a, const Entry& b, const char* what) {
  if (a.kind != b.kind || a.id != b.id) {
    if (!vf_symbolic() || vf_param("verbose", 0)) { vf_trace("got_kind", a.kind); vf_trace("got_id", a.id); vf_trace("want_kind", b.kind); vf_trace("want_id", b.id); }
    vf_fail(what);
  }
  vf_assert(a.nargs == b.nargs, "callback received the number of arguments that were sent"); if (a.nargs == b.nargs) vf_assert(a.arg == b.arg, "callback received the argument that was sent");
}
// the two logs, restricted to the kinds in kinds (bit set), are the same sequence
inline void sameLog(const Log& a, const Log& b, unsigned kinds, const char* what) {
  int i = 0, j = 0;
  for (;;) {
    while (i < a.n && !((kinds >> a.e[i].kind) & 1)) i++;
    while (j < b.n && !((kinds >> b.e[j].kind) & 1)) j++;
    if (i == a.n && j == b.n) return;
    if (i == a.n || j == b.n) { if (vf_param("verbose", 0)) { vf_trace("left_over_kind", i == a.n ? b.e[j].kind : a.e[i].kind); vf_trace("left_over_id", i == a.n ? b.e[j].id : a.e[i].id); vf_trace("in_ref", i == a.n); } vf_fail(what); }
    sameEntry(a.e[i++], b.e[j++], what);
  }
}
inline void sameCounts(const Log& a, const Log& b, unsigned kinds, const char* what) {
  for (int pass = 0; pass < 2; pass++) { const Log& x = pass ? b : a;
    for (int i = 0; i < x.n; i++) if ((kinds >> x.e[i].kind) & 1) if (a.count(x.e[i].kind, x.e[i].id) != b.count(x.e[i].kind, x.e[i].id)) { if (vf_param("verbose", 0)) { vf_trace("kind", x.e[i].kind); vf_trace("id", x.e[i].id); } vf_fail(what); } }
}
constexpr unsigned KB(int k) { return 1u << k; }
constexpr unsigned KSTATE = (1u << K_EXIT) | (1u << K_ENTER) | (1u << K_CHANGED), KALL = KSTATE | (1u << K_TRANS) | (1u << K_HCB);

// ---- monitors on the real log alone
// every state: accepted entries and exits alternate, state-changed follows each accepted entry exactly once. A refused entry counts as
// accepted when the state-changed callback follows (re-entry after a cancelled transition cannot be refused).
inline void alternation(const Model& m, const Log& l, unsigned finalMask, unsigned startMask = 0, int from = 0) {
  for (int s = 1; s <= m.ns; s++) {
    if (m.noCb[s]) continue;
    bool in = (startMask >> s) & 1, pending = false, refused = false;
    for (int i = from; i < l.n; i++) {
      if (l.e[i].id != s) continue;
      if (l.e[i].kind == K_ENTER) {
        if (in) vf_fail("state entered while it is active");
        if (pending && !refused) vf_fail("accepted entry without state-changed callback");
        pending = true; refused = l.e[i].refused;
      } else if (l.e[i].kind == K_CHANGED) { if (in || !pending) vf_fail("state-changed callback without a preceding entry"); in = true; pending = false; }
      else if (l.e[i].kind == K_EXIT) { if (!in) vf_fail("state exited while it is not active"); if (!l.e[i].refused) in = false; }
    }
    if (pending && !refused) vf_fail("accepted entry without state-changed callback");
    if (in != (((finalMask >> s) & 1) != 0)) vf_fail("active state list disagrees with the entries and exits that were accepted");
  }
}
inline void wellFormed(const Model& m, const Kit& k) {
  unsigned a = k.mask(); vf_assert(a != 0, "at least one state is active");
  for (int s = 1; s <= m.ns; s++) if ((a >> s) & 1) {
    int p = m.parent[s]; if (p > 0 && !((a >> p) & 1)) vf_fail("active state has an inactive parent");
    bool uncond = false, child = false; for (int i = 0; i < m.ne; i++) uncond |= (m.e[i].parent == s && m.e[i].ev == ANY && m.e[i].guard < 0);
    for (int c = 1; c <= m.ns; c++) child |= (m.parent[c] == s && ((a >> c) & 1));
    if (uncond && !child) vf_fail("composite state with an unconditional entry point has no active child");
    bool listed = k.hsm.isStateActive(s); vf_assert(listed, "isStateActive agrees with the active state list");
  } else vf_assert(!k.hsm.isStateActive(s), "isStateActive agrees with the active state list");
}

// real machine and reference side by side
struct Pair {
  Model m; Log log; Kit* k = nullptr; Ref* r = nullptr; int mark = 0, rmark = 0;
  ~Pair() { delete k; delete r; }
  void start(size_t cache = 8) { k = new Kit(m, log); k->start(cache); r = new Ref(m); r->start(); }
  bool event(int ev, int64_t a) { mark = log.n; rmark = r->log.n; k->send(ev, a); return r->event(ev, 1, a); }
  void sameMask(const char* what) { unsigned a = k->mask(); if (a != r->mask()) { if (vf_param("verbose", 0)) { vf_trace("got_mask", a); vf_trace("want_mask", r->mask()); } vf_fail(what); } }
};

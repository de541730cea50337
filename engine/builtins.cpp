// Models of the environment: allocation, exceptions ABI, pthreads, the harness API.
#include "builtins.h"
#include <unordered_map>
#include <errno.h>

namespace sx {
std::map<std::string, long long> g_params;
typedef void (*BF)(State&, const Inst&, std::vector<Val>&);
struct BI { const char* n; BF f; bool over; };
static inline E asE(const Val& v, unsigned w) { return v.e ? v.e : mkConst(w, v.c); }
static inline Val fromE(E e) { Val v; if (isC(e)) v.c = e->c; else v.e = e; return v; }
static inline Val C(uint64_t c) { Val v; v.c = c; return v; }
static void ret(State& st, Val v) { finishCall(st, {v}); }
static void ret0(State& st, const Inst&, std::vector<Val>&) { ret(st, C(0)); }
static std::set<std::string> strs;
static const char* intern(const std::string& s) { return strs.insert(s).first->c_str(); }
static bool str(State& st, Val p, const char*& out) {
  if (!concretize(st, p, 64)) return false;
  static std::unordered_map<uint64_t, const char*> cache;
  std::string s; if (!readCStr(st, p.c, s)) return false;
  out = intern(s); return true;
}
#define B(name) static void name(State& st, const Inst& in, std::vector<Val>& a)
#define CONC(i) do { if (!concretize(st, a[i], 64)) return; } while (0)
#define UNUSED (void)in; (void)a

// ------------------------------------------------------------ allocation
B(b_new) { CONC(0); if (a[0].c > (1u << 24)) { violation(st, "memory", "allocation of more than 16 MB"); return; } ret(st, C(st.mem.alloc((uint32_t)a[0].c, K_HEAP, nullptr, in.line))); }
B(b_delete) {
  CONC(0); UNUSED;
  uint64_t p = a[0].c;
  if (!p) { ret(st, C(0)); return; }
  Obj* o = st.mem.get((uint32_t)(p >> 32));
  if (!o || (uint32_t)p != 0 || o->kind != K_HEAP) { violation(st, "memory", "free of an invalid pointer"); return; }
  if (!o->alive) { violation(st, "memory", "double free"); return; }
  st.mem.release((uint32_t)(p >> 32));
  ret(st, C(0));
}
B(b_calloc) { CONC(0); CONC(1); UNUSED; uint64_t p = st.mem.alloc((uint32_t)(a[0].c * a[1].c), K_HEAP); st.mem.zero(p); ret(st, C(p)); }

// ------------------------------------------------------------ memory
B(b_memcpy) { UNUSED; CONC(2); CONC(0); CONC(1); uint64_t d = a[0].c; if (!memCopy(st, d, a[1].c, a[2].c)) return; ret(st, C(d)); }
B(b_memset) { UNUSED; CONC(2); CONC(0); Val b = a[1]; if (b.e) b = fromE(mkExtract(b.e, 0, 8)); if (!memFill(st, a[0].c, b, a[2].c)) return; ret(st, a[0]); }
B(b_memcmp) {
  CONC(2); CONC(0); CONC(1); UNUSED;
  uint64_t n = a[2].c; E r = mkConst(32, 0);
  if (n && (!checkAccess(st, a[0].c, n, false) || !checkAccess(st, a[1].c, n, false))) return;
  for (int64_t i = (int64_t)n - 1; i >= 0; i--) {
    Val x, y; if (!loadVal(st, C(a[0].c + (uint64_t)i), 8, x) || !loadVal(st, C(a[1].c + (uint64_t)i), 8, y)) return;
    E xe = asE(x, 8), ye = asE(y, 8);
    r = mkIte(mkBin(O_EQ, xe, ye), r, mkBin(O_SUB, mkZext(xe, 32), mkZext(ye, 32)));
  }
  ret(st, fromE(r));
}

// ------------------------------------------------------------ exceptions
B(b_exc_alloc) { CONC(0); UNUSED; uint64_t p = st.mem.alloc((uint32_t)a[0].c, K_EXC); ret(st, C(p)); }
B(b_exc_free) { CONC(0); UNUSED; st.mem.release((uint32_t)(a[0].c >> 32)); ret(st, C(0)); }
B(b_throw) { CONC(0); CONC(1); CONC(2); UNUSED; st.exc.push_back({a[0].c, a[1].c, a[2].c, 0}); unwind(st, a[0].c, a[1].c); }
B(b_begin_catch) {
  CONC(0); UNUSED;
  for (auto& x : st.exc) if (x.ptr == a[0].c) x.handlers++;
  st.th[st.cur].caught.push_back(a[0].c); ret(st, a[0]);
}
B(b_end_catch) {
  UNUSED; auto& c = st.th[st.cur].caught;
  if (!c.empty()) {
    uint64_t p = c.back(); c.pop_back();
    for (size_t i = 0; i < st.exc.size(); i++) if (st.exc[i].ptr == p && --st.exc[i].handlers == 0) { st.mem.release((uint32_t)(p >> 32)); st.exc.erase(st.exc.begin() + (long)i); break; }
  }
  ret(st, C(0));
}
B(b_rethrow) {
  UNUSED; auto& c = st.th[st.cur].caught;
  if (c.empty()) { violation(st, "terminate", "rethrow without exception"); return; }
  uint64_t p = c.back(), ty = 0; for (auto& x : st.exc) if (x.ptr == p) { ty = x.type; x.handlers++; }
  unwind(st, p, ty);
}
B(b_terminate) {
  UNUSED; std::string t;
  auto& c = st.th[st.cur].caught;
  if (!c.empty()) for (auto& x : st.exc) if (x.ptr == c.back()) t = " after " + typeName(x.type);
  violation(st, "terminate", "std::terminate called" + t);
}
B(b_abort) { UNUSED; violation(st, "terminate", "abort called"); }
B(b_pure) { UNUSED; violation(st, "terminate", "pure virtual call"); }
static void throwStd(State& st, const char* ti) {
  auto it = g_globalAddr.find(ti);
  uint64_t t = it == g_globalAddr.end() ? 8 : it->second;
  uint64_t p = st.mem.alloc(64, K_EXC); st.mem.zero(p);
  st.exc.push_back({p, t, 0, 0}); unwind(st, p, t);
}
#define THR(fn, ti) B(fn) { UNUSED; throwStd(st, ti); }
THR(t_logic, "_ZTISt11logic_error") THR(t_length, "_ZTISt12length_error") THR(t_range, "_ZTISt12out_of_range") THR(t_sys, "_ZTISt12system_error") THR(t_inv, "_ZTISt16invalid_argument")
THR(t_func, "_ZTISt17bad_function_call") THR(t_alloc, "_ZTISt9bad_alloc") THR(t_arr, "_ZTISt20bad_array_new_length")
B(b_guard_acq) { CONC(0); UNUSED; Val v; if (!loadVal(st, a[0], 8, v)) return; if (v.e) { engineError(st, "symbolic guard"); return; } ret(st, C(v.c ? 0 : 1)); }
B(b_guard_rel) { CONC(0); UNUSED; if (!storeVal(st, a[0], 8, C(1))) return; ret(st, C(0)); }

// ------------------------------------------------------------ threads
static int live(State& st) { int n = 0; for (auto& t : st.th) if (t.pend != P_DONE) n++; return n; }
static bool gate(State& st, Pend need, uint64_t obj) {
  Thread& t = st.th[st.cur];
  if (t.granted) { t.granted = false; t.atOp = false; t.pend = P_RUN; return true; }
  if (live(st) == 1 && need == P_RUN) return true;
  if (live(st) == 1 && need == P_LOCK) { auto it = st.mtx.find(obj); if (it == st.mtx.end()) return true; }
  t.pend = need; t.obj = obj; t.atOp = true;
  schedule(st);
  return false;
}
bool gatePoint(State& st) { if (live(st) == 1 && !st.th[st.cur].granted) return true; return gate(st, P_RUN, 0); }
B(b_lock) {
  CONC(0); UNUSED; uint64_t m = a[0].c;
  if (!checkAccess(st, m, 40, true)) return;
  auto it = st.mtx.find(m);
  if (it != st.mtx.end() && it->second.first == st.cur && !st.th[st.cur].granted) { violation(st, "deadlock", "thread locks a mutex it already holds"); return; }
  if (!gate(st, P_LOCK, m)) return;
  st.mtx[m] = {st.cur, 1}; st.hb.acquire(st.cur, m);
  ret(st, C(0));
}
B(b_trylock) {
  CONC(0); UNUSED; uint64_t m = a[0].c;
  if (!checkAccess(st, m, 40, true)) return;
  if (!gate(st, P_RUN, m)) return;
  if (st.mtx.count(m)) { ret(st, C(EBUSY)); return; }
  st.mtx[m] = {st.cur, 1}; st.hb.acquire(st.cur, m); ret(st, C(0));
}
B(b_unlock) {
  CONC(0); UNUSED; uint64_t m = a[0].c; Thread& t = st.th[st.cur];
  if (t.phase == 9) { t.phase = 0; t.granted = false; t.atOp = false; t.pend = P_RUN; ret(st, C(0)); return; }
  if (!checkAccess(st, m, 40, true)) return;
  auto it = st.mtx.find(m);
  if (it == st.mtx.end() || it->second.first != st.cur) { violation(st, "mutex", "unlock of a mutex the thread does not hold"); return; }
  st.mtx.erase(it); st.hb.release(st.cur, m);
  if (st.yieldUnlock && live(st) > 1) { t.phase = 9; t.pend = P_RUN; t.atOp = true; schedule(st); return; }
  ret(st, C(0));
}
B(b_mtx_destroy) { CONC(0); UNUSED; if (st.mtx.count(a[0].c)) { violation(st, "mutex", "destroying a locked mutex"); return; } ret(st, C(0)); }
static void cvWait(State& st, uint64_t cv, uint64_t m, bool timed, uint64_t deadline) {
  Thread& t = st.th[st.cur];
  if (t.phase == 2) {
    if (!t.granted) { engineError(st, "cv phase"); return; }
    t.granted = false; t.atOp = false; t.phase = 0; t.pend = P_RUN;
    st.mtx[m] = {st.cur, 1}; st.hb.acquire(st.cur, m);
    bool to = t.timedOut; t.timedOut = false;
    ret(st, C(to ? ETIMEDOUT : 0)); return;
  }
  if (!checkAccess(st, cv, 48, true)) return;
  auto it = st.mtx.find(m);
  if (it == st.mtx.end() || it->second.first != st.cur) { violation(st, "mutex", "condition wait without holding the mutex"); return; }
  if (!gate(st, P_RUN, 0)) return;
  Thread& t2 = st.th[st.cur];
  st.mtx.erase(m); st.hb.release(st.cur, m);
  t2.atOp = true; t2.cv = cv; t2.obj = m; t2.timed = timed; t2.deadline = deadline; t2.timedOut = false;
  if (timed && deadline <= st.clock) { t2.pend = P_LOCK; t2.phase = 2; t2.timedOut = true; }
  else { t2.pend = P_CVWAIT; t2.phase = 1; }
  schedule(st);
}
B(b_cv_wait) {
  CONC(0); CONC(1); UNUSED;
  Val m; if (!loadVal(st, a[1], 64, m)) return; if (!concretize(st, m, 64)) return;
  cvWait(st, a[0].c, m.c, false, 0);
}
B(b_cond_wait) { CONC(0); CONC(1); UNUSED; cvWait(st, a[0].c, a[1].c, false, 0); }
static bool rdTs(State& st, uint64_t p, uint64_t& d) {
  Val s, n; if (!loadVal(st, C(p), 64, s) || !loadVal(st, C(p + 8), 64, n)) return false;
  if (!concretize(st, s, 64) || !concretize(st, n, 64)) return false;
  d = s.c * 1000000000ull + n.c; return true;
}
B(b_cond_clockwait) { CONC(0); CONC(1); CONC(3); UNUSED; uint64_t d = 0; if (st.th[st.cur].phase != 2 && !rdTs(st, a[3].c, d)) return; cvWait(st, a[0].c, a[1].c, true, d); }
B(b_cond_timedwait) { CONC(0); CONC(1); CONC(2); UNUSED; uint64_t d = 0; if (st.th[st.cur].phase != 2 && !rdTs(st, a[2].c, d)) return; cvWait(st, a[0].c, a[1].c, true, d); }
B(b_notify_all) {
  CONC(0); UNUSED;
  if (!checkAccess(st, a[0].c, 48, true)) return;
  if (!gate(st, P_RUN, 0)) return;
  for (auto& t : st.th) if (t.pend == P_CVWAIT && t.cv == a[0].c) { t.pend = P_LOCK; t.phase = 2; }
  ret(st, C(0));
}
B(b_notify_one) {
  CONC(0); UNUSED;
  if (!checkAccess(st, a[0].c, 48, true)) return;
  if (!gate(st, P_RUN, 0)) return;
  std::vector<int> w; for (int i = 0; i < (int)st.th.size(); i++) if (st.th[i].pend == P_CVWAIT && st.th[i].cv == a[0].c) w.push_back(i);
  int k = 0;
  if (w.size() > 1) {
    E e = newInput(st, "wake", 8, 0);
    for (size_t j = 1; j < w.size(); j++) {
      State* n = new State(st); setModelSym(*n, (uint32_t)e->c, j); n->pc.push_back(mkBin(O_EQ, e, mkConst(8, j)));
      n->th[w[j]].pend = P_LOCK; n->th[w[j]].phase = 2; finishCall(*n, {C(0)}); pushState(n);
    }
    st.pc.push_back(mkBin(O_EQ, e, mkConst(8, 0)));
  }
  if (!w.empty()) { st.th[w[k]].pend = P_LOCK; st.th[w[k]].phase = 2; }
  ret(st, C(0));
}
B(b_thread_create) {
  CONC(0); UNUSED;
  uint64_t k = a[0].c - FUNC_BASE; if (a[0].c < FUNC_BASE || k / 16 >= g_funcs.size()) { violation(st, "memory", "thread entry is not a function"); return; }
  int cur = st.cur, id = (int)st.th.size();
  st.th.emplace_back(); st.cur = id;
  bool ok = pushFrame(st, g_funcs[k / 16], {a[1]});
  st.cur = cur; if (!ok) return;
  st.th[id].pend = P_RUN; if (!st.hb.w.empty()) { HB::join(st.hb.of(id), st.hb.of(cur)); st.hb.of(cur)[(size_t)cur]++; }
  ret(st, C((uint64_t)id));
}
B(b_thread_join) {
  CONC(0); UNUSED; if (a[0].c >= st.th.size()) { violation(st, "thread", "join of an unknown thread"); return; }
  if (a[0].c == (uint64_t)st.cur) { violation(st, "deadlock", "thread joins itself"); return; }
  if (!gate(st, P_JOIN, a[0].c)) return; if (!st.hb.w.empty()) { VC o = st.hb.of((int)a[0].c); HB::join(st.hb.of(st.cur), o); } ret(st, C(0));
}
B(b_self) { UNUSED; ret(st, C((uint64_t)st.cur)); }
B(b_yield) { UNUSED; st.atYield = st.yields > 0; bool g = gate(st, P_RUN, 0); st.atYield = false; if (!g) return; ret(st, C(0)); }
B(b_watch) { CONC(0); CONC(1); CONC(2); UNUSED; const char* n; if (!str(st, a[3], n)) return; st.hb.w.push_back({a[0].c, a[1].c, (int)a[2].c, n}); ret(st, C(0)); }
B(b_quiesce) { UNUSED; if (live(st) == 1) { ret(st, C(0)); return; } if (!gate(st, P_QUIESCE, 0)) return; ret(st, C(0)); }
B(b_clock) { UNUSED; ret(st, C(st.clock)); }
B(b_clock_adv) { CONC(0); UNUSED; st.clock += a[0].c; wakeExpired(st); ret(st, C(0)); }
B(b_holds) { CONC(0); UNUSED; auto it = st.mtx.find(a[0].c); ret(st, C(it != st.mtx.end())); }
B(b_nheld) { UNUSED; int n = 0; for (auto& m : st.mtx) if (m.second.first == st.cur) n++; ret(st, C((uint64_t)n)); }

// ------------------------------------------------------------ harness API
template <int W> static void b_sym(State& st, const Inst& in, std::vector<Val>& a) {
  (void)in; const char* n; if (!str(st, a[0], n)) return;
  ret(st, fromE(newInput(st, n, W, 0)));
}
B(b_range) {
  UNUSED; const char* n; if (!str(st, a[0], n)) return; CONC(1); CONC(2);
  int32_t lo = (int32_t)a[1].c, hi = (int32_t)a[2].c;
  if (lo == hi) { ret(st, a[1]); return; }
  E e = newInput(st, n, 32, (uint32_t)lo);
  st.pc.push_back(mkBin(O_ULE, mkBin(O_SUB, e, mkConst(32, (uint32_t)lo)), mkConst(32, (uint32_t)(hi - lo))));
  ret(st, fromE(e));
}
B(b_pick) {
  UNUSED; const char* n; if (!str(st, a[0], n)) return; CONC(1); CONC(2);
  int32_t lo = (int32_t)a[1].c, hi = (int32_t)a[2].c;
  if (lo >= hi) { ret(st, a[1]); return; }
  E e = newInput(st, n, 32, (uint32_t)lo);
  for (int32_t v = hi; v > lo; v--) {
    State* s = new State(st); setModelSym(*s, (uint32_t)e->c, (uint32_t)v); s->pc.push_back(mkBin(O_EQ, e, mkConst(32, (uint32_t)v)));
    finishCall(*s, {C((uint32_t)v)}); pushState(s);
  }
  st.pc.push_back(mkBin(O_EQ, e, mkConst(32, (uint32_t)lo)));
  ret(st, C((uint32_t)lo));
}
B(b_bytes) {
  UNUSED; CONC(0); CONC(1); const char* n; if (!str(st, a[2], n)) return;
  for (uint64_t i = 0; i < a[1].c; i++) if (!storeVal(st, C(a[0].c + i), 8, fromE(newInput(st, n, 8, 0)))) return;
  ret(st, C(0));
}
static E truth(const Val& v) { return v.e ? mkNot(mkBin(O_EQ, v.e, mkConst(v.e->w, 0))) : mkConst(1, v.c != 0); }
B(b_assume) {
  UNUSED; E e = truth(a[0]);
  if (isC(e)) { if (e->c) ret(st, C(0)); else endPath(st, PE_ASSUME); return; }
  if (!evalM(st, e)) {
    Model m; Res r = query(st, e, &m);
    if (r == R_UNKNOWN) { engineError(st, "solver: unknown in assume"); return; }
    if (r == R_UNSAT) { endPath(st, PE_ASSUME); return; }
    st.model = m;
  }
  st.pc.push_back(e); ret(st, C(0));
}
B(b_assert) {
  UNUSED; const char* msg; if (!str(st, a[1], msg)) return;
  E e = truth(a[0]);
  if (isC(e)) { g_st.assertC++; if (e->c) { ret(st, C(0)); return; } violation(st, "assert", msg); return; }
  g_st.assertQ++;
  Model m; Res r = query(st, mkNot(e), &m);
  if (r == R_UNKNOWN) { engineError(st, std::string("solver: unknown on assertion ") + msg); return; }
  if (r == R_UNSAT) { ret(st, C(0)); return; }
  // feasible failure: report it on a copy, continue with the assertion assumed
  Model m2; Res r2 = query(st, e, &m2);
  if (r2 == R_SAT) { State* n = new State(st); n->pc.push_back(e); n->model = m2; finishCall(*n, {C(0)}); pushState(n); }
  st.pc.push_back(mkNot(e)); st.model = m;
  violation(st, "assert", msg);
}
B(b_fail) { UNUSED; const char* msg; if (!str(st, a[0], msg)) return; violation(st, "assert", msg); }
B(b_reach) { UNUSED; const char* n; if (!str(st, a[0], n)) return; g_reached.insert(n); ret(st, C(0)); }
B(b_trace) { UNUSED; const char* n; if (!str(st, a[0], n)) return; st.trace.push({n, a[1]}); ret(st, C(0)); }
B(b_conc) { UNUSED; CONC(0); ret(st, a[0]); }
B(b_done) { UNUSED; endPath(st, PE_OK); }
B(b_symbolic) { UNUSED; ret(st, C(1)); }
B(b_heap) { UNUSED; ret(st, C(st.mem.heapLive)); }
B(b_param) { UNUSED; const char* n; if (!str(st, a[0], n)) return; CONC(1); auto it = g_params.find(n); ret(st, it == g_params.end() ? a[1] : C((uint64_t)it->second)); }
B(b_issym) { UNUSED; ret(st, C(a[0].e ? 1 : 0)); }
B(b_opt) {
  UNUSED; const char* n; if (!str(st, a[0], n)) return; CONC(1); std::string s = n; int v = (int)a[1].c;
  if (s == "preempt") st.preempt = v; else if (s == "timeouts") st.timeouts = v; else if (s == "spurious") st.spurious = v; else if (s == "yields") st.yields = v; else if (s == "yield_unlock") st.yieldUnlock = v;
  else if (s == "preempt_atomic") st.preemptAtomic = v; else if (s == "idle_timeouts") st.idleTimeouts = v; else if (s == "step_limit") { st.stepLimit = st.steps + a[1].c; st.stepViolation = true; } else if (s == "step_limit_off") { st.stepLimit = ~0ull; st.stepViolation = false; }
  else { engineError(st, "unknown option " + s); return; }
  ret(st, C(0));
}
B(b_strtod) {
  UNUSED; CONC(0); CONC(1); std::string s; if (!readCStr(st, a[0].c, s)) return;
  char* e; errno = 0; double d = strtod(s.c_str(), &e);
  if (a[1].c && !storeVal(st, a[1], 64, C(a[0].c + (uint64_t)(e - s.c_str())))) return;
  uint64_t u; memcpy(&u, &d, 8); ret(st, C(u));
}
B(b_fmtdouble) {  // vf_fmt_double(buf, n, bits) -> length, as snprintf("%f")
  UNUSED; CONC(0); CONC(1); CONC(2); double d; memcpy(&d, &a[2].c, 8);
  char b[512]; int k = snprintf(b, sizeof b, "%f", d);
  for (int i = 0; i <= k && (uint64_t)i < a[1].c; i++) if (!storeVal(st, C(a[0].c + (uint64_t)i), 8, C(i == k || (uint64_t)i + 1 == a[1].c ? 0 : (uint8_t)b[i]))) return;
  ret(st, C((uint64_t)(uint32_t)k));
}

static const BI table[] = {
  {"_Znwm", b_new, true}, {"_Znam", b_new, true}, {"malloc", b_new, true}, {"_ZnwmRKSt9nothrow_t", b_new, true}, {"_ZdlPv", b_delete, true}, {"_ZdlPvm", b_delete, true}, {"_ZdaPv", b_delete, true}, {"_ZdaPvm", b_delete, true}, {"free", b_delete, true}, {"calloc", b_calloc, true},
  {"memcpy", b_memcpy, true}, {"memmove", b_memcpy, true}, {"memset", b_memset, true}, {"memcmp", b_memcmp, true}, {"bcmp", b_memcmp, true},
  {"__cxa_allocate_exception", b_exc_alloc, true}, {"__cxa_free_exception", b_exc_free, true}, {"__cxa_throw", b_throw, true}, {"__cxa_begin_catch", b_begin_catch, true}, {"__cxa_end_catch", b_end_catch, true}, {"__cxa_rethrow", b_rethrow, true},
  {"_ZSt9terminatev", b_terminate, true}, {"abort", b_abort, true}, {"__cxa_pure_virtual", b_pure, true}, {"__cxa_atexit", ret0, true}, {"atexit", ret0, true},
  {"_ZSt19__throw_logic_errorPKc", t_logic, true}, {"_ZSt20__throw_length_errorPKc", t_length, true}, {"_ZSt20__throw_out_of_rangePKc", t_range, true}, {"_ZSt24__throw_out_of_range_fmtPKcz", t_range, true}, {"_ZSt20__throw_system_errori", t_sys, true}, {"_ZSt24__throw_invalid_argumentPKc", t_inv, true},
  {"_ZSt25__throw_bad_function_callv", t_func, true}, {"_ZSt17__throw_bad_allocv", t_alloc, true}, {"_ZSt28__throw_bad_array_new_lengthv", t_arr, true},
  {"_ZNSt12bad_weak_ptrD1Ev", ret0, true}, {"_ZNSt12bad_weak_ptrD2Ev", ret0, true}, {"_ZNSt9exceptionD2Ev", ret0, true}, {"_ZNSt9exceptionD1Ev", ret0, true},
  {"__cxa_guard_acquire", b_guard_acq, true}, {"__cxa_guard_release", b_guard_rel, true}, {"__cxa_guard_abort", ret0, true},
  {"pthread_mutex_lock", b_lock, true}, {"pthread_mutex_trylock", b_trylock, true}, {"pthread_mutex_unlock", b_unlock, true}, {"pthread_mutex_destroy", b_mtx_destroy, true}, {"pthread_mutex_init", ret0, true},
  {"_ZNSt18condition_variableC1Ev", ret0, true}, {"_ZNSt18condition_variableD1Ev", ret0, true}, {"_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE", b_cv_wait, true}, {"_ZNSt18condition_variable10notify_allEv", b_notify_all, true}, {"_ZNSt18condition_variable10notify_oneEv", b_notify_one, true},
  {"pthread_cond_wait", b_cond_wait, true}, {"pthread_cond_clockwait", b_cond_clockwait, true}, {"pthread_cond_timedwait", b_cond_timedwait, true}, {"pthread_cond_broadcast", b_notify_all, true}, {"pthread_cond_signal", b_notify_one, true},
  {"sched_yield", b_yield, true},
  {"vf_thread_create", b_thread_create, true}, {"vf_thread_join", b_thread_join, true}, {"vf_self", b_self, true}, {"vf_yield", b_yield, true}, {"vf_quiesce", b_quiesce, true}, {"vf_watch", b_watch, true}, {"vf_clock", b_clock, true}, {"vf_clock_advance", b_clock_adv, true}, {"vf_mutex_locked", b_holds, true}, {"vf_mutexes_held", b_nheld, true},
  {"vf_i32", b_sym<32>, true}, {"vf_u32", b_sym<32>, true}, {"vf_i64", b_sym<64>, true}, {"vf_u64", b_sym<64>, true}, {"vf_f64", b_sym<64>, true}, {"vf_u8", b_sym<8>, true}, {"vf_u16", b_sym<16>, true}, {"vf_bool", b_sym<1>, true},
  {"vf_range", b_range, true}, {"vf_pick", b_pick, true}, {"vf_bytes", b_bytes, true}, {"vf_assume", b_assume, true}, {"vf_assert", b_assert, true}, {"vf_fail", b_fail, true}, {"vf_reach", b_reach, true}, {"vf_trace", b_trace, true},
  {"vf_concretize", b_conc, true}, {"vf_done", b_done, true}, {"vf_symbolic", b_symbolic, true}, {"vf_heap_live", b_heap, true}, {"vf_param", b_param, true}, {"vf_opt", b_opt, true}, {"vf_is_symbolic", b_issym, true},
  {"vf_strtod", b_strtod, true}, {"vf_fmt_double", b_fmtdouble, true},
};
int builtinIndex(const std::string& n) {
  static std::unordered_map<std::string, int> m;
  if (m.empty()) for (size_t i = 0; i < sizeof table / sizeof table[0]; i++) m[table[i].n] = (int)i;
  auto it = m.find(n); return it == m.end() ? -1 : it->second;
}
bool builtinOverrides(const std::string& n) { int i = builtinIndex(n); return i >= 0 && table[i].over; }
void callBuiltin(State& st, Func* f, const Inst& in, std::vector<Val>& args) { table[f->builtin].f(st, in, args); }
}  // namespace sx

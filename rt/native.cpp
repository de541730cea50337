// Native implementation of the harness interface: replays the values of one symbolic path against the real build.
// Threads are real pthreads that run one at a time under the schedule of the path; the pthread / condition
// variable / clock calls of the code under test are redirected here with the linker's --wrap.
#include "vf.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <pthread.h>
#include <semaphore.h>
#include <errno.h>
#include <time.h>
#include <string>
#include <vector>
#include <map>
#include <fstream>
#include <sstream>
#include <exception>
#include <new>
#define private public
#include <thread>
#include <mutex>
#undef private
#include <chrono>
#include <condition_variable>

extern "C" void harness();
struct In { std::string name; int w; uint64_t v; };
static std::vector<In> ins; static size_t pos; static std::map<std::string, long long> params;
static std::string traceOut; static volatile uint64_t heapLive;
static void finish(int code, const char* what) {
  fflush(stdout);
  std::string s = traceOut + "end " + what + (pos < ins.size() && code == 0 ? " UNUSED-INPUTS" : "") + "\n";
  size_t o = 0; while (o < s.size()) { ssize_t k = write(1, s.data() + o, s.size() - o); if (k <= 0) break; o += (size_t)k; }
  _exit(code);
}
static uint64_t next(const char* n) {
  if (pos >= ins.size()) { finish(70, (std::string("DIVERGED no more inputs at ") + n).c_str()); }
  if (ins[pos].name != (n[0] ? n : "_")) { finish(70, (std::string("DIVERGED input ") + n + " expected " + ins[pos].name).c_str()); }
  return ins[pos++].v;
}
void* operator new(size_t n) { void* p = malloc(n ? n : 1); if (!p) abort(); __atomic_add_fetch(&heapLive, 1, __ATOMIC_RELAXED); return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { if (p) __atomic_sub_fetch(&heapLive, 1, __ATOMIC_RELAXED); free(p); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }

// ------------------------------------------------------------ scheduler (mirrors engine.cpp)
enum Pend { P_RUN, P_LOCK, P_CVWAIT, P_JOIN, P_QUIESCE, P_DONE };
struct Th { Pend pend = P_RUN; bool granted = false, atOp = false; uint64_t obj = 0, cv = 0, deadline = 0; bool timed = false, timedOut = false; int phase = 0, spins = 0; sem_t sem; void (*fn)(void*) = nullptr; void* arg = nullptr; };
static std::vector<Th*> th; static int cur; static std::map<uint64_t, int> mtx;
static int preempt, timeouts, spurious, yields, idleTimeouts = 40; static bool yieldUnlock, atYield; static uint64_t clk = 1000000000ull;
static bool enabled(int i) {
  Th& t = *th[i];
  if (t.pend == P_RUN) return true;
  if (t.pend == P_LOCK) return !mtx.count(t.obj);
  if (t.pend == P_JOIN) return th[t.obj]->pend == P_DONE;
  return false;
}
static void wakeExpired() { for (auto* t : th) if (t->pend == P_CVWAIT && t->timed && t->deadline <= clk) { t->timedOut = true; t->pend = P_LOCK; t->phase = 2; } }
static void choose() {
  std::vector<int> en, to;
  for (int i = 0; i < (int)th.size(); i++) { if (enabled(i)) en.push_back(i); else if (th[i]->pend == P_CVWAIT && th[i]->timed) to.push_back(i); }
  std::vector<std::pair<int, int>> ch; bool curEn = false; for (int i : en) if (i == cur) curEn = true;
  if (curEn) ch.push_back({cur, 0});
  bool fs = !curEn || th[cur]->spins > 400, yl = atYield && curEn && !fs; atYield = false;
  if (fs || yl || preempt > 0) for (int i : en) if (i != cur) ch.push_back({i, 0});
  if (th[cur]->spins > 400 && curEn && ch.size() > 1) { ch.erase(ch.begin()); th[cur]->spins = 0; }
  if (ch.empty()) for (int i = 0; i < (int)th.size(); i++) if (th[i]->pend == P_QUIESCE) { ch.push_back({i, 0}); break; }
  if (!ch.empty() && timeouts > 0 && (fs || preempt > 0)) for (int i : to) ch.push_back({i, 1});
  if (!ch.empty() && spurious > 0) for (int i = 0; i < (int)th.size(); i++) if (th[i]->pend == P_CVWAIT) ch.push_back({i, 2});
  bool forced = false;
  if (ch.empty()) {
    forced = true;
    if (to.empty()) finish(77, "VIOLATED deadlock");
    if (idleTimeouts-- <= 0) finish(77, "VIOLATED hang");
    for (int i : to) ch.push_back({i, 1});
  }
  size_t k = ch.size() > 1 ? (size_t)next("sched") : 0;
  if (k >= ch.size()) finish(70, "DIVERGED schedule choice");
  Th& t = *th[ch[k].first];
  if (ch[k].second == 1) { if (!forced) { timeouts--; if (k && curEn && !fs) preempt--; } t.timedOut = true; t.pend = P_LOCK; t.phase = 2; if (clk < t.deadline) { clk = t.deadline; wakeExpired(); } choose(); return; }
  if (ch[k].second == 2) { spurious--; t.pend = P_LOCK; t.phase = 2; choose(); return; }
  if (k && curEn && !fs && ch[k].first != cur) { if (yl) yields--; else preempt--; }
  if (ch[k].first == cur) t.spins++; else for (auto* q : th) q->spins = 0;
  cur = ch[k].first; t.granted = t.atOp;
}
static __thread int self = 0;
static void schedule() {
  int me = self; choose();
  if (cur != me) { sem_post(&th[cur]->sem); if (th[me]->pend != P_DONE) sem_wait(&th[me]->sem); }
}
static int live() { int n = 0; for (auto* t : th) if (t->pend != P_DONE) n++; return n; }
static void gate(Pend need, uint64_t obj) {
  Th& t = *th[self];
  if (live() == 1 && need == P_RUN) return;
  if (live() == 1 && need == P_LOCK && !mtx.count(obj)) return;
  t.pend = need; t.obj = obj; t.atOp = true; schedule();
  t.granted = false; t.atOp = false; t.pend = P_RUN;
}
// ---- watched memory (mirrors HB in engine.h); fed by -fsanitize-coverage=trace-loads,trace-stores
typedef std::vector<uint32_t> VC; struct Watch { uint64_t a, n; int mode; const char* name; };
struct ShW { int wt = -1; uint32_t wc = 0; VC rd; };
static std::vector<Watch> watches; static std::vector<VC> vcs; static std::map<uint64_t, VC> syncs; static std::map<uint64_t, ShW> shw;
static VC& vcOf(int t) { if ((size_t)t >= vcs.size()) vcs.resize(t + 1); VC& v = vcs[t]; if (v.size() <= (size_t)t) v.resize(t + 1); if (!v[t]) v[t] = 1; return v; }
static void vjoin(VC& a, const VC& b) { if (a.size() < b.size()) a.resize(b.size()); for (size_t i = 0; i < b.size(); i++) if (a[i] < b[i]) a[i] = b[i]; }
static void hbAcq(uint64_t m) { if (watches.empty()) return; uint64_t h = heapLive; auto it = syncs.find(m); if (it != syncs.end()) vjoin(vcOf(self), it->second); heapLive = h; }
static void hbRel(uint64_t m) { if (watches.empty()) return; uint64_t h = heapLive; vjoin(syncs[m], vcOf(self)); vcOf(self)[self]++; heapLive = h; }
static __thread bool inUser; static __thread bool inWatch = false;
static void watchedAccess(uint64_t a, uint64_t n, bool write) {
  if (watches.empty() || !inUser || inWatch || th.size() < 2) return;
  inWatch = true; uint64_t heap = heapLive;
  for (auto& w : watches) if ((w.mode & 2) && a < w.a + w.n && w.a < a + n) { gate(P_RUN, 0); break; }
  for (auto& w : watches) {
    if (!(w.mode & 1)) continue;
    uint64_t lo = a > w.a ? a : w.a, hi = a + n < w.a + w.n ? a + n : w.a + w.n;
    for (uint64_t x = lo; x < hi; x++) {
      ShW& s = shw[x]; VC& v = vcOf(self); auto seen = [&](int t, uint32_t c) { return t == self || ((size_t)t < v.size() && v[t] >= c); };
      bool bad = s.wt >= 0 && !seen(s.wt, s.wc); if (write) for (size_t t = 0; t < s.rd.size(); t++) if (s.rd[t] && !seen((int)t, s.rd[t])) bad = true;
      if (bad) finish(77, (std::string("VIOLATED race: unsynchronised access to ") + w.name).c_str());
      if (write) { s.wt = self; s.wc = v[self]; s.rd.clear(); } else { if (s.rd.size() <= (size_t)self) s.rd.resize(self + 1); s.rd[self] = v[self]; }
    }
  }
  heapLive = heap; inWatch = false;
}
extern "C" {
#define VFC(k) void __sanitizer_cov_load##k(void* p) { watchedAccess((uint64_t)p, k, false); } void __sanitizer_cov_store##k(void* p) { watchedAccess((uint64_t)p, k, true); }
VFC(1) VFC(2) VFC(4) VFC(8) VFC(16)
void vf_watch(const volatile void* p, size_t n, int mode, const char* name) { uint64_t h = heapLive; watches.push_back({(uint64_t)p, n, mode, name}); heapLive = h; }
}
static void cvWait(uint64_t cv, uint64_t m, bool timed, uint64_t dl, bool& to) {
  if (!mtx.count(m) || mtx[m] != self) finish(77, "VIOLATED mutex: wait without mutex");
  gate(P_RUN, 0); Th& t = *th[self];
  mtx.erase(m); hbRel(m); t.atOp = true; t.cv = cv; t.obj = m; t.timed = timed; t.deadline = dl; t.timedOut = false;
  if (timed && dl <= clk) { t.pend = P_LOCK; t.phase = 2; t.timedOut = true; } else { t.pend = P_CVWAIT; t.phase = 1; }
  schedule();
  t.granted = false; t.atOp = false; t.phase = 0; t.pend = P_RUN; mtx[m] = self; hbAcq(m); to = t.timedOut; t.timedOut = false;
}
extern "C" {
int __wrap_pthread_mutex_lock(pthread_mutex_t* p) {
  uint64_t m = (uint64_t)p; *(volatile char*)p = *(volatile char*)p;
  if (mtx.count(m) && mtx[m] == self) finish(77, "VIOLATED deadlock: relock");
  gate(P_LOCK, m); mtx[m] = self; hbAcq(m); return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t* p) { uint64_t m = (uint64_t)p; *(volatile char*)p = *(volatile char*)p; gate(P_RUN, m); if (mtx.count(m)) return EBUSY; mtx[m] = self; hbAcq(m); return 0; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* p) {
  uint64_t m = (uint64_t)p; *(volatile char*)p = *(volatile char*)p;
  if (!mtx.count(m) || mtx[m] != self) finish(77, "VIOLATED mutex: unlock of a mutex not held");
  mtx.erase(m); hbRel(m);
  if (yieldUnlock && live() > 1) { Th& t = *th[self]; t.phase = 9; t.pend = P_RUN; t.atOp = true; schedule(); t.phase = 0; t.granted = false; t.atOp = false; t.pend = P_RUN; }
  return 0;
}
void __wrap__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(void* cv, std::unique_lock<std::mutex>* l) { bool to; *(volatile char*)cv = *(volatile char*)cv; cvWait((uint64_t)cv, (uint64_t)l->mutex()->native_handle(), false, 0, to); }
int __wrap_pthread_cond_wait(void* cv, void* m) { bool to; cvWait((uint64_t)cv, (uint64_t)m, false, 0, to); return 0; }
int __wrap_pthread_cond_clockwait(void* cv, void* m, clockid_t, const struct timespec* ts) { bool to; *(volatile char*)cv = *(volatile char*)cv; cvWait((uint64_t)cv, (uint64_t)m, true, (uint64_t)ts->tv_sec * 1000000000ull + (uint64_t)ts->tv_nsec, to); return to ? ETIMEDOUT : 0; }
int __wrap_pthread_cond_timedwait(void* cv, void* m, const struct timespec* ts) { bool to; cvWait((uint64_t)cv, (uint64_t)m, true, (uint64_t)ts->tv_sec * 1000000000ull + (uint64_t)ts->tv_nsec, to); return to ? ETIMEDOUT : 0; }
void __wrap__ZNSt18condition_variable10notify_allEv(void* cv) { *(volatile char*)cv = *(volatile char*)cv; gate(P_RUN, 0); for (auto* t : th) if (t->pend == P_CVWAIT && t->cv == (uint64_t)cv) { t->pend = P_LOCK; t->phase = 2; } }
void __wrap__ZNSt18condition_variable10notify_oneEv(void* cv) {
  *(volatile char*)cv = *(volatile char*)cv; gate(P_RUN, 0); std::vector<int> w; for (int i = 0; i < (int)th.size(); i++) if (th[i]->pend == P_CVWAIT && th[i]->cv == (uint64_t)cv) w.push_back(i);
  if (w.empty()) return; size_t k = w.size() > 1 ? (size_t)next("wake") : 0; th[w[k]]->pend = P_LOCK; th[w[k]]->phase = 2;
}
int __wrap_sched_yield() { atYield = yields > 0; gate(P_RUN, 0); atYield = false; return 0; }
int __wrap_clock_nanosleep(clockid_t, int flags, const struct timespec* req, struct timespec*) {
  pthread_mutex_t m = PTHREAD_MUTEX_INITIALIZER; char c[64] = {0}; uint64_t d = (uint64_t)req->tv_sec * 1000000000ull + (uint64_t)req->tv_nsec;
  if (!(flags & 1)) d += clk;
  bool to = false; __wrap_pthread_mutex_lock(&m); while (clk < d && !to) cvWait((uint64_t)c, (uint64_t)&m, true, d, to); __wrap_pthread_mutex_unlock(&m); return 0;
}
int __wrap_nanosleep(const struct timespec* req, struct timespec* rem) { return __wrap_clock_nanosleep(1, 0, req, rem); }
int __wrap_usleep(unsigned us) { struct timespec t; t.tv_sec = us / 1000000u; t.tv_nsec = (long)(us % 1000000u) * 1000; return __wrap_nanosleep(&t, nullptr); }
int __wrap_clock_gettime(clockid_t, struct timespec* t) { t->tv_sec = (long)(clk / 1000000000ull); t->tv_nsec = (long)(clk % 1000000000ull); return 0; }
int64_t __wrap__ZNSt6chrono3_V212steady_clock3nowEv() { return (int64_t)clk; }
int64_t __wrap__ZNSt6chrono3_V212system_clock3nowEv() { return (int64_t)clk; }
static void tramp(void* p) { std::unique_ptr<std::thread::_State> s((std::thread::_State*)p); s->_M_run(); }
void __wrap__ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE(std::thread* self_, std::unique_ptr<std::thread::_State>* s, void (*)()) {
  uint64_t id = vf_thread_create(tramp, s->release()); memcpy(self_, &(id += 1000), 8);
}
void __wrap__ZNSt6thread4joinEv(std::thread* t) { uint64_t id; memcpy(&id, t, 8); if (!id) throw std::system_error(EINVAL, std::system_category()); vf_thread_join(id - 1000); id = 0; memcpy(t, &id, 8); }
void __wrap__ZNSt6thread6detachEv(std::thread* t) { uint64_t id; memcpy(&id, t, 8); if (!id) throw std::system_error(EINVAL, std::system_category()); id = 0; memcpy(t, &id, 8); }
extern pthread_t __real_pthread_self(); // inUser: the sanitizer runtime asks too
pthread_t __wrap_pthread_self() { return inUser ? (pthread_t)(1000 + (unsigned long)self) : __real_pthread_self(); }

static void* nativeTramp(void* p) { Th* t = (Th*)p; for (int i = 0; i < (int)th.size(); i++) if (th[i] == t) self = i; sem_wait(&t->sem); inUser = true; t->fn(t->arg); t->pend = P_DONE; schedule(); inUser = false; return nullptr; }
uint64_t vf_thread_create(void (*fn)(void*), void* arg) {
  Th* t = new Th; heapLive--; sem_init(&t->sem, 0, 0); t->fn = fn; t->arg = arg; th.push_back(t); if (!watches.empty()) { uint64_t h = heapLive; int id = (int)th.size() - 1; vjoin(vcOf(id), vcOf(self)); vcOf(self)[self]++; heapLive = h; }
  pthread_t x; pthread_create(&x, nullptr, nativeTramp, t); pthread_detach(x);
  return th.size() - 1;
}
void vf_thread_join(uint64_t id) { if (id >= th.size()) finish(77, "VIOLATED thread: join of unknown thread"); if ((int)id == self) finish(77, "VIOLATED deadlock: self join"); gate(P_JOIN, id); if (!watches.empty()) { uint64_t h = heapLive; VC o = vcOf((int)id); vjoin(vcOf(self), o); heapLive = h; } }
int vf_self() { return self; }
void vf_yield() { atYield = yields > 0; gate(P_RUN, 0); atYield = false; }
void vf_quiesce() { if (live() > 1) gate(P_QUIESCE, 0); }
uint64_t vf_clock() { return clk; }
void vf_clock_advance(uint64_t n) { clk += n; wakeExpired(); }
bool vf_mutex_locked(void* m) { return mtx.count((uint64_t)m) > 0; }
int vf_mutexes_held() { int n = 0; for (auto& m : mtx) if (m.second == self) n++; return n; }

int32_t vf_i32(const char* n) { return (int32_t)next(n); } uint32_t vf_u32(const char* n) { return (uint32_t)next(n); }
int64_t vf_i64(const char* n) { return (int64_t)next(n); } uint64_t vf_u64(const char* n) { return next(n); }
uint8_t vf_u8(const char* n) { return (uint8_t)next(n); } uint16_t vf_u16(const char* n) { return (uint16_t)next(n); } bool vf_bool(const char* n) { return next(n) & 1; }
double vf_f64(const char* n) { uint64_t u = next(n); double d; memcpy(&d, &u, 8); return d; }
int32_t vf_range(const char* n, int32_t lo, int32_t hi) { return lo == hi ? lo : (int32_t)next(n); }
int32_t vf_pick(const char* n, int32_t lo, int32_t hi) { return lo >= hi ? lo : (int32_t)next(n); }
void vf_bytes(void* p, size_t n, const char* name) { for (size_t i = 0; i < n; i++) ((uint8_t*)p)[i] = (uint8_t)next(name); }
void vf_assume(int c) { if (!c) finish(71, "ASSUME-FALSE"); }
void vf_assert(int c, const char* msg) { if (!c) finish(77, (std::string("VIOLATED assert: ") + msg).c_str()); }
void vf_fail(const char* msg) { finish(77, (std::string("VIOLATED assert: ") + msg).c_str()); }
void vf_reach(const char*) {}
void vf_trace(const char* t, int64_t v) { char b[128]; snprintf(b, sizeof b, "tr %s %lld\n", t, (long long)v); uint64_t h = heapLive; traceOut += b; heapLive = h; }
int64_t vf_concretize(int64_t v) { return v; }
void vf_done() { finish(0, "ok"); }
bool vf_symbolic() { return false; }
uint64_t vf_heap_live() { return heapLive; }
int64_t vf_param(const char* n, int64_t d) { auto it = params.find(n); return it == params.end() ? d : it->second; }
void vf_opt(const char* n, int64_t v) {
  if (!strcmp(n, "preempt")) preempt = (int)v; else if (!strcmp(n, "timeouts")) timeouts = (int)v; else if (!strcmp(n, "spurious")) spurious = (int)v; else if (!strcmp(n, "yields")) yields = (int)v; else if (!strcmp(n, "yield_unlock")) yieldUnlock = v; else if (!strcmp(n, "idle_timeouts")) idleTimeouts = (int)v;
}
int vf_fmt_double(char* b, size_t n, uint64_t u) { double d; memcpy(&d, &u, 8); return snprintf(b, n, "%f", d); }
}
static void onTerminate() { finish(79, "VIOLATED terminate"); }
int main(int argc, char** argv) {
  if (argc < 2) return 64;
  std::ifstream f(argv[1]); std::string l;
  while (std::getline(f, l)) {
    std::istringstream s(l); std::string k; s >> k;
    if (k == "in") { In i; s >> i.name >> i.w >> i.v; ins.push_back(i); }
    else if (k == "param") { std::string n; long long v; s >> n >> v; params[n] = v; }
  }
  std::set_terminate(onTerminate);
  Th* t = new Th; sem_init(&t->sem, 0, 0); th.push_back(t); th.reserve(64); traceOut.reserve(1 << 20);
  alarm(60);
  heapLive = 0;
  inUser = true; harness();
  finish(0, "ok");
}

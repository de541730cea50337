// Symbolic executor for LLVM IR: program state, memory and scheduler.
#pragma once
#include "ir.h"
#include "solver.h"
#include <map>
#include <memory>
#include <cstring>
#include <cstdlib>

namespace sx {

enum Kind : uint8_t { K_GLOBAL, K_STACK, K_HEAP, K_EXC };
static const uint64_t FUNC_BASE = 0x0000F00000000000ull;

struct SymB { E e; uint8_t idx; };
struct Obj {
  int rc; uint32_t size; Kind kind; bool alive, ro; uint8_t allocFn; 
  SymB* syms; const char* site; uint32_t siteLine;
  uint8_t* bytes() { return reinterpret_cast<uint8_t*>(this + 1); }
  uint8_t* mask() { return bytes() + size; }
};
inline void objRel(Obj* o) { if (o && --o->rc == 0) { free(o->syms); free(o); } }
struct Page { int rc; int live; Obj* o[64]; };
struct Super { int rc; int live; Page* p[64]; };

struct Memory {
  std::vector<Super*> top;
  uint32_t next = 1;
  uint32_t heapLive = 0;
  Memory() {}
  Memory(const Memory& m) : top(m.top), next(m.next), heapLive(m.heapLive) { for (Super* s : top) if (s) s->rc++; }
  Memory& operator=(const Memory&) = delete;
  ~Memory();
  Obj* get(uint32_t id) const {
    uint32_t s = id >> 12;
    if (s >= top.size() || !top[s]) return nullptr;
    Page* p = top[s]->p[(id >> 6) & 63];
    return p ? p->o[id & 63] : nullptr;
  }
  Obj** slot(uint32_t id);  // writable slot (copies shared tables)
  Obj* getW(uint32_t id);   // writable object
  uint64_t alloc(uint32_t size, Kind k, const char* site = nullptr, uint32_t line = 0);
  void release(uint32_t id);
  void zero(uint64_t addr);
  void rawWrite(uint64_t addr, const void* p, uint64_t n);
  void setReadonly(uint64_t addr);
};

struct Frame {
  Func* f; int pc; std::vector<Val> r; std::vector<uint32_t> allocas; uint64_t varargs = 0;
};

enum Pend : uint8_t { P_NONE, P_RUN, P_LOCK, P_CVWAIT, P_JOIN, P_QUIESCE, P_DONE };
struct Thread {
  std::vector<Frame> fr;
  Pend pend = P_NONE; bool granted = false, atOp = false;
  uint64_t obj = 0;        // mutex to acquire / thread to join
  uint64_t cv = 0; bool timed = false; bool timedOut = false; uint64_t deadline = 0; int phase = 0;
  std::vector<uint64_t> caught;       // stack of caught exception objects
  std::vector<uint64_t> uncaughtStk;
  uint64_t excPtr = 0; 
  int spins = 0;
};
struct Exc { uint64_t ptr, type, dtor; int handlers; };

template <class T> struct PList {  // persistent list
  struct N { T v; std::shared_ptr<N> p; int n; ~N() { while (p && p.use_count() == 1) { std::shared_ptr<N> q = std::move(p->p); p = std::move(q); } } };
  std::shared_ptr<N> h;
  void push(T v) { h = std::shared_ptr<N>(new N{v, h, h ? h->n + 1 : 1}); }
  std::vector<T> vec() const { std::vector<T> r; for (N* x = h.get(); x; x = x->p.get()) r.push_back(x->v); return std::vector<T>(r.rbegin(), r.rend()); }
  int size() const { return h ? h->n : 0; }
};
struct InputRec { const char* name; uint8_t w; E e; };
struct TraceRec { const char* tag; Val v; };

// Watched memory: bit 0 of mode - happens-before race detection, bit 1 - accesses are scheduling points.
struct Watch { uint64_t a; uint64_t n; int mode; const char* name; };
typedef std::vector<uint32_t> VC;
struct HB {
  std::vector<Watch> w; std::vector<VC> vc; std::map<uint64_t, VC> sync;
  struct Sh { int wt = -1; uint32_t wc = 0; VC rd; };
  std::map<uint64_t, Sh> sh;
  VC& of(int t) { if ((size_t)t >= vc.size()) vc.resize((size_t)t + 1); VC& v = vc[(size_t)t]; if (v.size() <= (size_t)t) v.resize((size_t)t + 1); if (!v[(size_t)t]) v[(size_t)t] = 1; return v; }
  static void join(VC& a, const VC& b) { if (a.size() < b.size()) a.resize(b.size()); for (size_t i = 0; i < b.size(); i++) if (a[i] < b[i]) a[i] = b[i]; }
  void acquire(int t, uint64_t m) { if (w.empty()) return; auto it = sync.find(m); if (it != sync.end()) join(of(t), it->second); }
  void release(int t, uint64_t m) { if (w.empty()) return; join(sync[m], of(t)); of(t)[(size_t)t]++; }
};

struct State {
  Memory mem; HB hb; bool preemptAtomic = false;
  std::vector<E> pc;
  Model model;
  std::vector<Thread> th; int cur = 0;
  std::map<uint64_t, std::pair<int, int>> mtx;   // mutex address -> owner, depth
  std::vector<Exc> exc;
  PList<InputRec> inputs; PList<TraceRec> trace;
  uint32_t uninitCount = 0;
  uint64_t steps = 0; uint32_t forks = 0;
  int preempt = 0, timeouts = 0, spurious = 0, idleTimeouts = 40, yields = 0; bool yieldUnlock = false, atYield = false;
  uint64_t clock = 1000000000ull;
  uint64_t stepLimit = 30000000; bool stepViolation = false;
  uint64_t recursiveMtx = 0;
  uint64_t heapLimit = 0;
  const char* stepMsg = nullptr;
  bool done = false;
  State() : model(new ModelV) {}
};

extern std::vector<Val> g_consts;
extern std::vector<Func*> g_funcs;
extern std::unordered_map<std::string, uint64_t> g_globalAddr;
extern std::unordered_map<uint64_t, std::string> g_addrName;
bool loadModule(const std::string& path);
void setupGlobals(State& st);
std::vector<Func*> globalCtors();
void compileFunc(Func* f);
Func* getFunc(const llvm::Function* f);
Func* funcByName(const std::string& n);
uint64_t funcAddr(Func* f);
std::string instText(Func* f, int pc);
int builtinIndex(const std::string& n);
bool builtinOverrides(const std::string& n);

}  // namespace sx

#include "engine.h"
#include "builtins.h"
#include <setjmp.h>
#include <errno.h>
#include <chrono>
#include <algorithm>
#include <set>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <dirent.h>
#include <signal.h>
#include <atomic>
#include <fstream>

namespace sx {

// ---------------------------------------------------------------- memory
static Obj* objNew(uint32_t size, Kind k) {
  Obj* o = (Obj*)malloc(sizeof(Obj) + 2 * (size_t)size);
  o->rc = 1; o->size = size; o->kind = k; o->alive = true; o->ro = false; o->allocFn = 0; o->syms = nullptr; o->site = nullptr; o->siteLine = 0;
  memset(o->bytes(), 0, size); memset(o->mask(), 2, size);
  return o;
}
static Obj* objCopy(Obj* s) {
  Obj* o = (Obj*)malloc(sizeof(Obj) + 2 * (size_t)s->size);
  memcpy(o, s, sizeof(Obj) + 2 * (size_t)s->size);
  o->rc = 1;
  if (s->syms) { o->syms = (SymB*)malloc(sizeof(SymB) * s->size); memcpy(o->syms, s->syms, sizeof(SymB) * s->size); }
  return o;
}
static void pageRel(Page* p) { if (p && --p->rc == 0) { for (auto* o : p->o) objRel(o); free(p); } }
static void superRel(Super* s) { if (s && --s->rc == 0) { for (auto* p : s->p) pageRel(p); free(s); } }
Memory::~Memory() { for (Super* s : top) superRel(s); }
static Super* superW(Super*& s) {
  if (!s) { s = (Super*)calloc(1, sizeof(Super)); s->rc = 1; return s; }
  if (s->rc > 1) { Super* n = (Super*)malloc(sizeof(Super)); *n = *s; n->rc = 1; for (auto* p : n->p) if (p) p->rc++; s->rc--; s = n; }
  return s;
}
static Page* pageW(Page*& p) {
  if (!p) { p = (Page*)calloc(1, sizeof(Page)); p->rc = 1; return p; }
  if (p->rc > 1) { Page* n = (Page*)malloc(sizeof(Page)); *n = *p; n->rc = 1; for (auto* o : n->o) if (o) o->rc++; p->rc--; p = n; }
  return p;
}
Obj** Memory::slot(uint32_t id) {
  uint32_t s = id >> 12;
  if (s >= top.size()) top.resize(s + 1, nullptr);
  Super* sp = superW(top[s]);
  Page* p = pageW(sp->p[(id >> 6) & 63]);
  return &p->o[id & 63];
}
Obj* Memory::getW(uint32_t id) {
  Obj** s = slot(id);
  if ((*s)->rc > 1) { Obj* n = objCopy(*s); (*s)->rc--; *s = n; }
  return *s;
}
uint64_t Memory::alloc(uint32_t size, Kind k, const char* site, uint32_t line) {
  uint32_t id = next++;
  Obj** s = slot(id);
  Obj* o = objNew(size, k); o->site = site; o->siteLine = line;
  *s = o;
  Super* sp = top[id >> 12]; Page* p = sp->p[(id >> 6) & 63];
  if (p->live++ == 0) sp->live++;
  if (k == K_HEAP) heapLive++;
  return (uint64_t)id << 32;
}
void Memory::release(uint32_t id) {
  Obj** s = slot(id);
  Obj* o = *s; Kind k = o->kind;
  if (k == K_HEAP) heapLive--;
  Super* sp = top[id >> 12]; Page*& p = sp->p[(id >> 6) & 63];
  if (k == K_STACK || k == K_EXC) { objRel(o); *s = nullptr; }
  else {  // keep a tombstone (for use-after-free reports)
    Obj* t = objNew(0, k); t->alive = false; t->site = o->site; t->siteLine = o->siteLine; t->ro = false; t->size = 0;
    objRel(o); *s = t;
  }
  if (--p->live == 0 && (next >> 6) != (id >> 6)) { pageRel(p); p = nullptr; }
}
void Memory::zero(uint64_t a) { Obj* o = getW((uint32_t)(a >> 32)); memset(o->bytes(), 0, o->size); memset(o->mask(), 0, o->size); }
void Memory::rawWrite(uint64_t a, const void* p, uint64_t n) { Obj* o = getW((uint32_t)(a >> 32)); uint32_t off = (uint32_t)a; memcpy(o->bytes() + off, p, n); memset(o->mask() + off, 0, n); }
void Memory::setReadonly(uint64_t a) { getW((uint32_t)(a >> 32))->ro = true; }

// ---------------------------------------------------------------- globals
long g_maxViolPaths = 400, g_memLimitKb = 6000000;
Stats g_st;
std::vector<State*> g_work;
std::set<std::string> g_reached;
std::map<std::string, ViolationRec> g_viol;
std::vector<std::string> g_errors;
std::vector<std::string> g_samples;
std::string g_outDir = "/tmp/sx";
double g_deadline = 1e18;
int g_maxSamples = 6;
struct Shared { std::atomic<int> active; std::atomic<int> stop; std::atomic<long> violPaths; std::atomic<long> paths; int maxProcs; std::atomic<int> seq; };
static Shared* g_sh;
double nowS() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

// ---------------------------------------------------------------- reporting
std::string stackText(State& st, int ti) {
  std::string s;
  if (ti < 0 || ti >= (int)st.th.size()) return s;
  auto& fr = st.th[ti].fr; int n = 0;
  for (int i = (int)fr.size() - 1; i >= 0 && n < 24; i--, n++) {
    Func* f = fr[i].f; const Inst* in = fr[i].pc < (int)f->code.size() ? &f->code[fr[i].pc] : nullptr;
    char b[64]; snprintf(b, sizeof b, "%u", in ? in->line : 0);
    s += "    T" + std::to_string(ti) + " " + f->name + " at " + (in && in->file ? in->file : "?") + ":" + b + "\n";
  }
  return s;
}
static const char* innermostRepo(State& st, std::string& buf) {
  auto& fr = st.th[st.cur].fr;
  for (int i = (int)fr.size() - 1; i >= 0; i--) {
    Func* f = fr[i].f; const Inst* in = fr[i].pc < (int)f->code.size() ? &f->code[fr[i].pc] : nullptr;
    if (f->file.find("/repo/") != std::string::npos || f->file.find("hsmcpp") != std::string::npos || f->file.find("/harness/") != std::string::npos) {
      buf = f->name; (void)in; return buf.c_str();
    }
  }
  buf = fr.empty() ? "?" : fr.back().f->name; return buf.c_str();
}
static std::string pathDump(State& st, const std::string& status) {
  std::string s = "status " + status + "\n";
  newEvalEpoch();
  for (auto& r : st.inputs.vec()) {
    uint64_t v = r.e ? evalUnder(r.e, *st.model) : 0;
    s += std::string("in ") + (r.name[0] ? r.name : "_") + " " + std::to_string(r.w) + " " + std::to_string(v) + "\n";
  }
  for (auto& t : st.trace.vec()) {
    uint64_t v = t.v.e ? evalUnder(t.v.e, *st.model) : t.v.c;
    s += std::string("tr ") + t.tag + " " + std::to_string((int64_t)v) + "\n";
  }
  return s;
}
static bool pathTainted(State& st) { for (E e : st.pc) if (e->tainted) return true; return false; }
void endPath(State& st, PathEnd why) {
  st.done = true; g_st.paths[why]++; g_sh->paths++;
  if (st.steps > g_st.maxSteps) g_st.maxSteps = st.steps;
  g_st.transitions += st.pc.size();
  if (why == PE_OK) {
    if (st.heapLimit && st.mem.heapLive > st.heapLimit) {}
    // sample paths for validation against the native build: reservoir by hash of the inputs
    if (!pathTainted(st)) {
      if ((int)g_samples.size() < g_maxSamples) g_samples.push_back(pathDump(st, "ok"));
      else {
        static uint64_t rng = 88172645463325252ull ^ (uint64_t)(getenv("VERIF_SEED") ? atoi(getenv("VERIF_SEED")) : 1) * 0x9E3779B97F4A7C15ull;
        rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17;
        uint64_t k = rng % (uint64_t)(g_st.paths[PE_OK]);
        if (k < (uint64_t)g_maxSamples) g_samples[k] = pathDump(st, "ok");
      }
    }
  }
}
void violation(State& st, const std::string& kind, const std::string& msg) {
  std::string buf; innermostRepo(st, buf);
  std::string key = kind + ": " + msg + (kind == "assert" ? "" : " @ " + buf);
  g_sh->violPaths++;
  auto& v = g_viol[key];
  if (!v.count++) {
    v.text = pathDump(st, "violation");
    v.text += "msg " + key + "\n";
    v.text += "stack\n";
    for (int i = 0; i < (int)st.th.size(); i++) if (!st.th[i].fr.empty()) v.text += stackText(st, i);
  }
  endPath(st, PE_VIOL);
}
void engineError(State& st, const std::string& msg) {
  std::string m = msg;
  if (!st.th.empty()) m += "\n" + stackText(st, st.cur);
  if (g_errors.size() < 20) g_errors.push_back(m);
  endPath(st, PE_ERROR);
}

// ---------------------------------------------------------------- constraints
static void setModel(State& st, uint32_t sym, uint64_t v) {
  auto m = std::make_shared<ModelV>(*st.model);
  auto it = std::lower_bound(m->begin(), m->end(), std::make_pair(sym, (uint64_t)0));
  if (it != m->end() && it->first == sym) it->second = v; else m->insert(it, {sym, v});
  st.model = m;
}
void setModelSym(State& st, uint32_t sym, uint64_t v) { setModel(st, sym, v); }
E newInput(State& st, const char* name, uint8_t w, uint64_t init) {
  E e = mkSym(name, (uint32_t)st.inputs.size(), w);
  st.inputs.push({name, w, e});
  setModel(st, (uint32_t)e->c, init & maskw(w));
  return e;
}
uint64_t evalM(State& st, E e) { return isC(e) ? e->c : evalUnder(e, *st.model); }
void addC(State& st, E e) { if (!isC(e)) st.pc.push_back(e); }
Res query(State& st, E q, Model* out) {
  if (isC(q)) { if (q->c) { if (out) *out = st.model; return R_SAT; } return R_UNSAT; }
  return solve(st.pc, q, st.model, out);
}
void pushState(State* s) { s->forks++; g_work.push_back(s); g_st.forks++; }
// Decide a width-1 expression; forks when both sides are feasible. Returns the side taken, -1 on error.
int decide(State& st, E e) {
  if (isC(e)) return (int)e->c;
  uint64_t side = evalM(st, e);
  E other = side ? mkNot(e) : e;
  Model m2;
  g_st.branchQ++;
  Res r = query(st, other, &m2);
  if (r == R_UNKNOWN) { engineError(st, "solver: unknown on a branch condition"); return -1; }
  if (r == R_SAT) {
    if (e->tainted) g_st.taintedBranches++;
    State* n = new State(st);
    n->pc.push_back(other); n->model = m2;
    pushState(n);
    st.pc.push_back(side ? e : mkNot(e));
  }
  return (int)side;
}
// Make a value concrete (forking over its other feasible values). Returns false if the path ended.
bool concretize(State& st, Val& v, uint8_t w, unsigned limit) {
  (void)w; (void)limit;
  if (!v.e) return true;
  if (isC(v.e)) { v.c = v.e->c; v.e = nullptr; return true; }
  uint64_t x = evalM(st, v.e);
  E eq = mkBin(O_EQ, v.e, mkConst(v.e->w, x));
  if (!isC(eq)) {
    Model m2;
    g_st.concQ++;
    Res r = query(st, mkNot(eq), &m2);
    if (r == R_UNKNOWN) { engineError(st, "solver: unknown while concretising"); return false; }
    if (r == R_SAT) {
      State* n = new State(st); n->pc.push_back(mkNot(eq)); n->model = m2; pushState(n);
      st.pc.push_back(eq);
    }
  }
  v.e = nullptr; v.c = x;
  return true;
}

// ---------------------------------------------------------------- memory access
static E byteExpr(State& st, Obj* o, uint32_t off, uint32_t id) {
  uint8_t m = o->mask()[off];
  if (m == 0) return mkConst(8, o->bytes()[off]);
  if (m == 2) {
    E e = mkSym("uninit", st.uninitCount++, 8, true);
    Obj* w = st.mem.getW(id);
    if (!w->syms) w->syms = (SymB*)calloc(w->size, sizeof(SymB));
    w->mask()[off] = 1; w->syms[off] = {e, 0};
    return e;
  }
  SymB& s = o->syms[off];
  return s.e->w <= 8 ? mkZext(s.e, 8) : mkExtract(s.e, s.idx * 8, 8);
}
static inline unsigned nbytes(unsigned w) { return (w + 7) / 8; }
static E asE(const Val& v, unsigned w) { return v.e ? v.e : mkConst(w, v.c); }

// concrete address, bounds already checked
static Val loadAt(State& st, uint32_t id, uint32_t off, unsigned w) {
  Obj* o = st.mem.get(id);
  unsigned n = nbytes(w);
  uint8_t* m = o->mask() + off;
  bool conc = true;
  for (unsigned i = 0; i < n; i++) if (m[i]) { conc = false; break; }
  Val v;
  if (conc) { v.c = 0; memcpy(&v.c, o->bytes() + off, n); v.c &= maskw(w); return v; }
  if (m[0] == 1 && o->syms[off].idx == 0 && o->syms[off].e->w == w) {
    E e = o->syms[off].e; bool same = true;
    for (unsigned i = 1; i < n; i++) if (m[i] != 1 || o->syms[off + i].e != e || o->syms[off + i].idx != i) { same = false; break; }
    if (same) { v.e = e; return v; }
  }
  E r = nullptr;
  for (unsigned i = 0; i < n; i++) {
    o = st.mem.get(id);
    E b = byteExpr(st, o, off + i, id);
    r = r ? mkConcat(b, r) : b;
  }
  if (r->w > w) r = mkExtract(r, 0, w);
  if (isC(r)) { v.c = r->c; return v; }
  v.e = r; return v;
}
static void storeAt(State& st, uint32_t id, uint32_t off, unsigned w, const Val& v) {
  Obj* o = st.mem.getW(id);
  unsigned n = nbytes(w);
  if (!v.e || isC(v.e)) { uint64_t c = v.e ? v.e->c : (v.c & maskw(w)); memcpy(o->bytes() + off, &c, n); memset(o->mask() + off, 0, n); return; }
  if (!o->syms) o->syms = (SymB*)calloc(o->size, sizeof(SymB));
  for (unsigned i = 0; i < n; i++) { o->mask()[off + i] = 1; o->syms[off + i] = {v.e, (uint8_t)i}; }
}
static std::string addrDesc(State& st, uint64_t a) {
  char b[160];
  Obj* o = st.mem.get((uint32_t)(a >> 32));
  snprintf(b, sizeof b, "address %llx (object %u%s, size %u, offset %d)", (unsigned long long)a, (unsigned)(a >> 32), o ? (o->alive ? "" : " freed") : " none", o ? o->size : 0, (int)(uint32_t)a);
  return b;
}
// Check a concrete access; reports the violation and returns null when it is bad.
Obj* checkAccess(State& st, uint64_t a, uint64_t n, bool write) {
  uint32_t id = (uint32_t)(a >> 32), off = (uint32_t)a;
  Obj* o = st.mem.get(id);
  if (o && o->alive && (uint64_t)off + n <= o->size && !(write && o->ro)) return o;
  if (n == 0) { static Obj dummy; return &dummy; }
  const char* k;
  if (a < 4096) k = "null pointer dereference";
  else if (a >= FUNC_BASE) k = "wild pointer";
  else if (!o) k = id < st.mem.next ? "use of dead stack object" : "wild pointer";
  else if (!o->alive) k = "use after free";
  else if (write && o->ro && (uint64_t)off + n <= o->size) k = "write to constant";
  else k = o->kind == K_HEAP ? "heap buffer overflow" : o->kind == K_STACK ? "stack buffer overflow" : "global buffer overflow";
  if (getenv("SX_DEBUG")) fprintf(stderr, "%s: %s\n", k, addrDesc(st, a).c_str());
  violation(st, "memory", std::string(write ? "write: " : "read: ") + k);
  return nullptr;
}
// Resolve a symbolic pointer to one object: 1 ok (base set, in-bounds constraint added), 0 path ended.
static int resolve(State& st, E addr, uint64_t n, uint64_t& base) {
  uint64_t v = evalM(st, addr);
  uint32_t id = (uint32_t)(v >> 32);
  Obj* o = st.mem.get(id);
  if (!o || !o->alive || (uint32_t)v + n > o->size) {
    // the model shows a bad access
    Val c; c.e = addr;
    if (!concretize(st, c, 64)) return 0;
    checkAccess(st, c.c, n, false);
    return 0;
  }
  base = (uint64_t)id << 32;
  E in = mkBin(O_ULE, mkBin(O_SUB, addr, mkConst(64, base)), mkConst(64, o->size - n));
  int d = decide(st, in);
  if (d < 0) return 0;
  if (d == 0) { engineError(st, "resolve: inconsistent"); return 0; }
  return 1;
}
// A pointer chosen by conditions (select of child pointers or field offsets): take the choice as a branch, so that the address becomes
// concrete. Addresses computed from symbolic indices keep no ITE and are handled below.
static E findIte(E e, int depth) {
  if (e->op == O_ITE) return e;
  if (depth <= 0 || (e->op != O_ADD && e->op != O_SHL && e->op != O_MUL && e->op != O_SEXT && e->op != O_ZEXT && e->op != O_SUB)) return nullptr;
  for (int i = 0; i < 2; i++) if (e->k[i]) if (E r = findIte(e->k[i], depth - 1)) return r;
  return nullptr;
}
static E replaceNode(E e, E from, E to) {
  if (e == from) return to;
  switch (e->op) {
    case O_ADD: case O_SUB: case O_SHL: case O_MUL: return mkBin(e->op, replaceNode(e->k[0], from, to), replaceNode(e->k[1], from, to));
    case O_SEXT: return mkSext(replaceNode(e->k[0], from, to), e->w);
    case O_ZEXT: return mkZext(replaceNode(e->k[0], from, to), e->w);
    default: return e;
  }
}
static bool deIte(State& st, Val& a) {
  while (a.e) {
    E t = findIte(a.e, 6);
    if (!t) return true;
    int d = decide(st, t->k[0]);
    if (d < 0) return false;
    E r = replaceNode(a.e, t, d ? t->k[1] : t->k[2]);
    if (isC(r)) { a.e = nullptr; a.c = r->c; } else a.e = r;
  }
  return true;
}
bool loadVal(State& st, const Val& addr0, unsigned w, Val& out) {
  Val addr = addr0;
  if (addr.e && !deIte(st, addr)) return false;
  unsigned n = nbytes(w);
  if (!addr.e) {
    if (!checkAccess(st, addr.c, n, false)) return false;
    out = loadAt(st, (uint32_t)(addr.c >> 32), (uint32_t)addr.c, w);
    return true;
  }
  uint64_t base;
  if (!resolve(st, addr.e, n, base)) return false;
  uint32_t id = (uint32_t)(base >> 32); Obj* o = st.mem.get(id);
  unsigned stride = 1u << std::min(knownZeroLow(addr.e), 6u);
  uint64_t cnt = (o->size - n) / stride + 1;
  if (cnt > 256) {
    Val a = addr; if (!concretize(st, a, 64)) return false;
    return loadVal(st, a, w, out);
  }
  E r = nullptr; 
  for (int64_t i = (int64_t)cnt - 1; i >= 0; i--) {
    Val x = loadAt(st, id, (uint32_t)(i * stride), w);
    E xe = asE(x, w);
    r = r ? mkIte(mkBin(O_EQ, addr.e, mkConst(64, base + (uint64_t)i * stride)), xe, r) : xe;
  }
  g_st.symDeref++;
  if (isC(r)) { out.e = nullptr; out.c = r->c; } else { out.e = r; out.c = 0; }
  return true;
}
bool storeVal(State& st, const Val& addr0, unsigned w, const Val& v) {
  Val addr = addr0;
  if (addr.e && !deIte(st, addr)) return false;
  unsigned n = nbytes(w);
  if (!addr.e) {
    if (!checkAccess(st, addr.c, n, true)) return false;
    storeAt(st, (uint32_t)(addr.c >> 32), (uint32_t)addr.c, w, v);
    return true;
  }
  uint64_t base;
  if (!resolve(st, addr.e, n, base)) return false;
  uint32_t id = (uint32_t)(base >> 32); Obj* o = st.mem.get(id);
  unsigned stride = 1u << std::min(knownZeroLow(addr.e), 6u);
  uint64_t cnt = (o->size - n) / stride + 1;
  if (cnt > 64 || o->ro) {
    Val a = addr; if (!concretize(st, a, 64)) return false;
    return storeVal(st, a, w, v);
  }
  for (uint64_t i = 0; i < cnt; i++) {
    Val x = loadAt(st, id, (uint32_t)(i * stride), w);
    E r = mkIte(mkBin(O_EQ, addr.e, mkConst(64, base + i * stride)), asE(v, w), asE(x, w));
    Val nv; if (isC(r)) nv.c = r->c; else nv.e = r;
    storeAt(st, id, (uint32_t)(i * stride), w, nv);
  }
  g_st.symDeref++;
  return true;
}
bool memCopy(State& st, uint64_t d, uint64_t s, uint64_t n) {
  if (!n) return true;
  Obj* so = checkAccess(st, s, n, false); if (!so) return false;
  if (!checkAccess(st, d, n, true)) return false;
  uint32_t so_ = (uint32_t)s, do_ = (uint32_t)d;
  Obj* dd = st.mem.getW((uint32_t)(d >> 32)); so = st.mem.get((uint32_t)(s >> 32));
  bool anySym = false;
  for (uint64_t i = 0; i < n; i++) if (so->mask()[so_ + i] == 1) { anySym = true; break; }
  if (anySym && !dd->syms) dd->syms = (SymB*)calloc(dd->size, sizeof(SymB));
  memmove(dd->bytes() + do_, so->bytes() + so_, n);
  memmove(dd->mask() + do_, so->mask() + so_, n);
  if (anySym) memmove(dd->syms + do_, so->syms + so_, n * sizeof(SymB));
  return true;
}
bool memFill(State& st, uint64_t d, const Val& v, uint64_t n) {
  if (!n) return true;
  if (!checkAccess(st, d, n, true)) return false;
  for (uint64_t i = 0; i < n; i++) storeAt(st, (uint32_t)(d >> 32), (uint32_t)d + (uint32_t)i, 8, v);
  return true;
}
bool readCStr(State& st, uint64_t a, std::string& s) {
  s.clear();
  for (;;) {
    if (!checkAccess(st, a, 1, false)) return false;
    Val v = loadAt(st, (uint32_t)(a >> 32), (uint32_t)a, 8);
    if (v.e && !concretize(st, v, 8)) return false;
    if (!v.c) return true;
    s += (char)v.c; a++;
  }
}

// ---------------------------------------------------------------- exceptions
static std::map<uint64_t, int> typeIds;
int typeId(uint64_t ti) { auto it = typeIds.find(ti); if (it != typeIds.end()) return it->second; int n = (int)typeIds.size() + 1; typeIds[ti] = n; return n; }
static const std::map<std::string, std::vector<std::string>> extBases = {
  {"_ZTISt12bad_weak_ptr", {"_ZTISt9exception"}}, {"_ZTISt9bad_alloc", {"_ZTISt9exception"}}, {"_ZTISt12out_of_range", {"_ZTISt11logic_error", "_ZTISt9exception"}},
  {"_ZTISt16invalid_argument", {"_ZTISt11logic_error", "_ZTISt9exception"}}, {"_ZTISt12length_error", {"_ZTISt11logic_error", "_ZTISt9exception"}},
  {"_ZTISt11logic_error", {"_ZTISt9exception"}}, {"_ZTISt13runtime_error", {"_ZTISt9exception"}}, {"_ZTISt17bad_function_call", {"_ZTISt9exception"}},
  {"_ZTISt12system_error", {"_ZTISt13runtime_error", "_ZTISt9exception"}}, {"_ZTISt8bad_cast", {"_ZTISt9exception"}},
};
bool derives(State& st, uint64_t t, uint64_t base, int64_t* off) {
  if (t == base) return true;
  std::string n = g_addrName.count(t) ? g_addrName[t] : "";
  auto it = extBases.find(n);
  if (it != extBases.end()) { for (auto& b : it->second) if (g_addrName.count(base) && g_addrName[base] == b) return true; return false; }
  Obj* o = st.mem.get((uint32_t)(t >> 32));
  if (!o || o->size < 8) return false;
  uint64_t vp; memcpy(&vp, o->bytes(), 8);
  std::string vn = g_addrName.count(vp & ~0xffffffffull) ? g_addrName[vp & ~0xffffffffull] : "";
  if (vn == "_ZTVN10__cxxabiv120__si_class_type_infoE" && o->size >= 24) { uint64_t b; memcpy(&b, o->bytes() + 16, 8); return derives(st, b, base, off); }
  if (vn == "_ZTVN10__cxxabiv121__vmi_class_type_infoE") {
    uint32_t c; memcpy(&c, o->bytes() + 20, 4);
    for (uint32_t i = 0; i < c; i++) { uint64_t b; int64_t fl; memcpy(&b, o->bytes() + 24 + i * 16, 8); memcpy(&fl, o->bytes() + 32 + i * 16, 8); if (derives(st, b, base, off)) { if (off) *off += fl >> 8; return true; } }
  }
  return false;
}
static void popFrame(State& st, Thread& t) {
  for (uint32_t a : t.fr.back().allocas) st.mem.release(a);
  t.fr.pop_back();
}
static void takeEdge(Frame& fr, const Edge& e);
std::string typeName(uint64_t ti) { auto it = g_addrName.find(ti); return it == g_addrName.end() ? "?" : it->second; }
// Unwind the current thread with the exception; the current frame's instruction is the throwing call.
void unwind(State& st, uint64_t exc, uint64_t type) {
  Thread& t = st.th[st.cur];
  std::string origin; innermostRepo(st, origin);
  while (!t.fr.empty()) {
    Frame& fr = t.fr.back();
    const Inst& in = fr.f->code[fr.pc];
    if (in.op == I_CALL && in.call && in.call->invoke) {
      const Inst& lp = fr.f->code[in.call->unwind.target];
      if (lp.op == I_LANDINGPAD) {
        int sel = 0; bool take = lp.cleanup;
        for (auto& c : lp.clauses) {
          if (c.isCatch) {
            if (c.isNull) { sel = typeId(0); take = true; break; }
            uint64_t ct = g_consts[-1 - c.val].c;
            if (derives(st, type, ct, nullptr)) { sel = typeId(ct); take = true; break; }
          } else if (c.filter.empty()) { sel = -1; take = true; break; }
        }
        if (take) {
          takeEdge(fr, in.call->unwind);
          Val p; p.c = exc; Val s; s.c = (uint32_t)sel;
          fr.r[lp.dst] = p; fr.r[lp.dst + 1] = s;
          fr.pc++;
          return;
        }
      }
    }
    if (fr.f->lf->doesNotThrow()) { violation(st, "terminate", "exception " + typeName(type) + " leaves noexcept function " + fr.f->name); return; }
    popFrame(st, t);
  }
  // rebuild a frame-less report
  std::string key = "uncaught exception " + typeName(type) + " from " + origin;
  violation(st, "terminate", key);
}

// ---------------------------------------------------------------- scheduler
static bool enabled(State& st, int i) {
  Thread& t = st.th[i];
  switch (t.pend) {
    case P_RUN: return true;
    case P_LOCK: { auto it = st.mtx.find(t.obj); return it == st.mtx.end() || it->second.first < 0; }
    case P_JOIN: return st.th[t.obj].pend == P_DONE;
    default: return false;
  }
}
static std::string blockedDesc(State& st) {
  std::string s;
  for (int i = 0; i < (int)st.th.size(); i++) {
    Thread& t = st.th[i]; if (t.pend == P_DONE) continue;
    std::string b; int c = st.cur; st.cur = i; innermostRepo(st, b); st.cur = c;
    const char* k = t.pend == P_LOCK ? "mutex" : t.pend == P_CVWAIT ? "condition" : t.pend == P_JOIN ? "join" : "?";
    s += std::string(s.empty() ? "" : "; ") + "T" + std::to_string(i) + " waits for " + k + " in " + b;
  }
  return s;
}
// Timed waits whose deadline has passed end.
void wakeExpired(State& st) { for (auto& t : st.th) if (t.pend == P_CVWAIT && t.timed && t.deadline <= st.clock) { t.timedOut = true; t.pend = P_LOCK; t.phase = 2; } }
// Choose the next thread to run. Every thread has its pending operation recorded.
void schedule(State& st) {
  std::vector<int> en, to;
  for (int i = 0; i < (int)st.th.size(); i++) { if (enabled(st, i)) en.push_back(i); else if (st.th[i].pend == P_CVWAIT && st.th[i].timed) to.push_back(i); }
  std::vector<std::pair<int, int>> ch;  // thread, 0 run / 1 timeout / 2 spurious
  bool curEn = std::find(en.begin(), en.end(), st.cur) != en.end();
  if (curEn) ch.push_back({st.cur, 0});
  bool freeSwitch = !curEn || st.th[st.cur].spins > 400, yielding = st.atYield && curEn && !freeSwitch; st.atYield = false;
  if (freeSwitch || yielding || st.preempt > 0) for (int i : en) if (i != st.cur) ch.push_back({i, 0});
  if (st.th[st.cur].spins > 400 && curEn && ch.size() > 1) { ch.erase(ch.begin()); st.th[st.cur].spins = 0; }
  if (ch.empty()) {
    for (int i = 0; i < (int)st.th.size(); i++) if (st.th[i].pend == P_QUIESCE) { ch.push_back({i, 0}); break; }
  }
  if (!ch.empty() && st.timeouts > 0 && (freeSwitch || st.preempt > 0)) for (int i : to) ch.push_back({i, 1});
  if (!ch.empty() && st.spurious > 0) for (int i = 0; i < (int)st.th.size(); i++) if (st.th[i].pend == P_CVWAIT) ch.push_back({i, 2});
  bool forced = false;
  if (ch.empty()) {
    forced = true;
    if (to.empty()) { violation(st, "deadlock", blockedDesc(st)); return; }
    if (st.idleTimeouts-- <= 0) { violation(st, "hang", "only timed waits make progress: " + blockedDesc(st)); return; }
    for (int i : to) ch.push_back({i, 1});
  }
  size_t k = 0;
  if (ch.size() > 1) {
    State* base = &st;
    // one symbolic choice variable, one state per value (all values feasible: the variable is fresh)
    E e = newInput(*base, "sched", 8, 0);
    for (size_t j = ch.size() - 1; j >= 1; j--) {
      State* n = new State(st);
      setModel(*n, (uint32_t)e->c, j);
      n->pc.push_back(mkBin(O_EQ, e, mkConst(8, j)));
      pushState(n);
      Thread& t = n->th[ch[j].first];
      if (ch[j].second == 0 && curEn && !freeSwitch && ch[j].first != n->cur) { if (yielding) n->yields--; else n->preempt--; }
      if (ch[j].second == 1) { if (!forced) n->timeouts--; if (!forced && curEn && !freeSwitch) n->preempt--; t.timedOut = true; t.pend = P_LOCK; t.phase = 2; if (n->clock < t.deadline) { n->clock = t.deadline; wakeExpired(*n); } }
      if (ch[j].second == 2) { n->spurious--; t.pend = P_LOCK; t.phase = 2; }
      if (ch[j].second == 0) { n->cur = ch[j].first; n->th[n->cur].granted = n->th[n->cur].atOp; if (n->cur == st.cur) n->th[n->cur].spins++; else for (auto& q : n->th) q.spins = 0; }
      else { schedule(*n); }
      if (n->done) { g_work.erase(std::remove(g_work.begin(), g_work.end(), n), g_work.end()); delete n; }
    }
    st.pc.push_back(mkBin(O_EQ, e, mkConst(8, 0)));
    g_st.schedChoices++;
  }
  Thread& t = st.th[ch[k].first];
  if (ch[k].second == 1) { if (!forced) st.timeouts--; t.timedOut = true; t.pend = P_LOCK; t.phase = 2; if (st.clock < t.deadline) { st.clock = t.deadline; wakeExpired(st); } schedule(st); return; }
  if (ch[k].second == 2) { st.spurious--; t.pend = P_LOCK; t.phase = 2; schedule(st); return; }
  if (ch[k].first == st.cur) t.spins++; else for (auto& q : st.th) q.spins = 0;
  st.cur = ch[k].first; t.granted = t.atOp;
}

// ---------------------------------------------------------------- watched memory
// Reference counts of shared_ptr (acquire-release add and compare-exchange) are not taken as synchronisation: code must not rely on them.
static bool racy(State& st, uint64_t a, uint64_t n, bool write) {
  HB& h = st.hb; int me = st.cur;
  for (auto& w : h.w) {
    if (!(w.mode & 1)) continue;
    uint64_t lo = std::max(a, w.a), hi = std::min(a + n, w.a + w.n);
    for (uint64_t x = lo; x < hi; x++) {
      auto& s = h.sh[x]; VC& v = h.of(me);
      auto seen = [&](int t, uint32_t c) { return t == me || ((size_t)t < v.size() && v[(size_t)t] >= c); };
      bool bad = s.wt >= 0 && !seen(s.wt, s.wc); int other = s.wt;
      if (write) for (size_t t = 0; t < s.rd.size() && !bad; t++) if (s.rd[t] && !seen((int)t, s.rd[t])) { bad = true; other = (int)t; }
      if (bad) { violation(st, "race", std::string("unsynchronised ") + (write ? "write" : "read") + " of " + w.name + " by T" + std::to_string(me) + ", last accessed by T" + std::to_string(other)); return true; }
      if (write) { s.wt = me; s.wc = v[(size_t)me]; s.rd.clear(); } else { if (s.rd.size() <= (size_t)me) s.rd.resize((size_t)me + 1); s.rd[(size_t)me] = v[(size_t)me]; }
    }
  }
  return false;
}
// kind: 0 plain, 1 synchronising atomic, 2 other atomic; op: 1 read, 2 write, 3 both. False: the access is not executed now.
static bool watched(State& st, const Val& addr, uint64_t n, int op, int kind) {
  if (addr.e) return true;
  if (st.preemptAtomic && kind == 1) { if (!gatePoint(st)) return false; }
  else if (op != 3) for (auto& w : st.hb.w) if ((w.mode & 2) && addr.c < w.a + w.n && w.a < addr.c + n) { if (!gatePoint(st)) return false; break; }
  if (st.hb.w.empty()) return true;
  if (kind == 0) return !racy(st, addr.c, n, (op & 2) != 0);
  if (kind == 1) { if (op & 1) st.hb.acquire(st.cur, addr.c); if (op & 2) st.hb.release(st.cur, addr.c); }
  return true;
}
#define WATCHED(addr, n, op, kind) if ((st.preemptAtomic || !st.hb.w.empty()) && st.th.size() > 1 && !watched(st, addr, n, op, kind)) { if (st.done) return; break; }
// ---------------------------------------------------------------- interpreter
static inline const Val& opv(const Frame& fr, int i) { return i >= 0 ? fr.r[i] : g_consts[-1 - i]; }
static void takeEdge(Frame& fr, const Edge& e) {
  size_t n = e.copies.size();
  if (n == 1) fr.r[e.copies[0].dst] = opv(fr, e.copies[0].src);
  else if (n) {
    Val tmp[64]; std::vector<Val> big; Val* t = tmp; if (n > 64) { big.resize(n); t = big.data(); }
    for (size_t i = 0; i < n; i++) t[i] = opv(fr, e.copies[i].src);
    for (size_t i = 0; i < n; i++) fr.r[e.copies[i].dst] = t[i];
  }
  fr.pc = e.target;
}
static inline Val fromE(E e) { Val v; if (isC(e)) v.c = e->c; else v.e = e; return v; }
void finishCall(State& st, const std::vector<Val>& ret) {
  Frame& fr = st.th[st.cur].fr.back();
  const Inst& in = fr.f->code[fr.pc];
  if (in.dst >= 0) for (size_t i = 0; i < ret.size() && i < in.slots.size(); i++) fr.r[in.dst + i] = ret[i];
  if (in.call->invoke) takeEdge(fr, in.call->normal); else fr.pc++;
}
bool pushFrame(State& st, Func* f, const std::vector<Val>& args) {
  if (f->isDecl) { engineError(st, "call to undefined function " + f->name); return false; }
  compileFunc(f); f->executed = true;
  Thread& t = st.th[st.cur];
  if (t.fr.size() > 400) { violation(st, "memory", "stack overflow (call depth 400)"); return false; }
  t.fr.emplace_back();
  Frame& fr = t.fr.back(); fr.f = f; fr.pc = 0; fr.r.resize(f->nregs);
  for (size_t i = 0; i < args.size() && i < (size_t)f->nargs; i++) fr.r[i] = args[i];
  if (f->lf->isVarArg() && args.size() > (size_t)f->nargs) {
    uint64_t a = st.mem.alloc((uint32_t)(8 * (args.size() - (size_t)f->nargs)), K_STACK);
    fr.allocas.push_back((uint32_t)(a >> 32)); fr.varargs = a;
    for (size_t i = (size_t)f->nargs; i < args.size(); i++) { Val p; p.c = a + 8 * (i - (size_t)f->nargs); storeVal(st, p, 64, args[i].e ? fromE(mkZext(args[i].e, 64)) : args[i]); }
  }
  return true;
}
static bool overflowBits(unsigned w, const std::string& n, uint64_t a, uint64_t b, uint64_t& r) {
  __int128 x, y; bool sg = n.find("llvm.s") == 0;
  if (sg) { x = sextw(a, w); y = sextw(b, w); } else { x = (unsigned __int128)(a & maskw(w)); y = (unsigned __int128)(b & maskw(w)); }
  __int128 z = n.find("add") != std::string::npos ? x + y : n.find("sub") != std::string::npos ? x - y : 0;
  if (n.find("mul") != std::string::npos) { if (sg) z = x * y; else { unsigned __int128 u = (unsigned __int128)x * (unsigned __int128)y; r = (uint64_t)u & maskw(w); return u > maskw(w); } }
  r = (uint64_t)z & maskw(w);
  if (sg) { __int128 lo = -((__int128)1 << (w - 1)), hi = ((__int128)1 << (w - 1)) - 1; return z < lo || z > hi; }
  return z < 0 || z > (__int128)maskw(w);
}
static bool startsWith(const std::string& s, const char* p) { return s.compare(0, strlen(p), p) == 0; }
// returns: 1 done (finishCall executed), 0 path ended
static int intrinsic(State& st, const Inst& in, const std::vector<Val>& a) {
  const std::string& n = in.call->intrName;
  auto W = [&](int i) { return (unsigned)in.call->argw[i]; };
  auto X = [&](int i) { return asE(a[i], W(i)); };
  std::vector<Val> ret;
  if (startsWith(n, "llvm.memcpy") || startsWith(n, "llvm.memmove")) {
    Val d = a[0], s = a[1], l = a[2];
    if (!concretize(st, l, 64) || !concretize(st, d, 64) || !concretize(st, s, 64)) return 0;
    if (!st.hb.w.empty() && st.th.size() > 1 && l.c && (racy(st, s.c, l.c, false) || racy(st, d.c, l.c, true))) return 0;
    if (!memCopy(st, d.c, s.c, l.c)) return 0;
  } else if (startsWith(n, "llvm.memset")) {
    Val d = a[0], l = a[2];
    if (!concretize(st, l, 64) || !concretize(st, d, 64)) return 0;
    if (!st.hb.w.empty() && st.th.size() > 1 && l.c && racy(st, d.c, l.c, true)) return 0;
    if (!memFill(st, d.c, a[1], l.c)) return 0;
  } else if (n.find(".with.overflow.") != std::string::npos) {
    unsigned w = W(0);
    if (!a[0].e && !a[1].e) { uint64_t r; bool o = overflowBits(w, n, a[0].c, a[1].c, r); Val v; v.c = r; Val q; q.c = o; ret = {v, q}; }
    else {
      E x = X(0), y = X(1);
      if (startsWith(n, "llvm.uadd")) { E s = mkBin(O_ADD, x, y); ret = {fromE(s), fromE(mkBin(O_ULT, s, x))}; }
      else if (startsWith(n, "llvm.usub")) { ret = {fromE(mkBin(O_SUB, x, y)), fromE(mkBin(O_ULT, x, y))}; }
      else if (startsWith(n, "llvm.umul")) {
        E s = mkBin(O_MUL, x, y);
        if (w <= 32) { E z = mkBin(O_MUL, mkZext(x, 2 * w), mkZext(y, 2 * w)); ret = {fromE(s), fromE(mkBin(O_ULT, mkConst(2 * w, maskw(w)), z))}; }
        else { E yz = mkBin(O_EQ, y, mkConst(w, 0)); E q = mkBin(O_UDIV, mkConst(w, maskw(w)), mkIte(yz, mkConst(w, 1), y)); ret = {fromE(s), fromE(mkBin(O_AND, mkNot(yz), mkBin(O_ULT, q, x)))}; }
      } else if (startsWith(n, "llvm.sadd")) {
        E s = mkBin(O_ADD, x, y), z = mkConst(w, 0);
        E xn = mkBin(O_SLT, x, z), yn = mkBin(O_SLT, y, z), sn = mkBin(O_SLT, s, z);
        ret = {fromE(s), fromE(mkBin(O_AND, mkBin(O_EQ, xn, yn), mkNot(mkBin(O_EQ, xn, sn))))};
      } else if (startsWith(n, "llvm.ssub")) {
        E s = mkBin(O_SUB, x, y), z = mkConst(w, 0);
        E xn = mkBin(O_SLT, x, z), yn = mkBin(O_SLT, y, z), sn = mkBin(O_SLT, s, z);
        ret = {fromE(s), fromE(mkBin(O_AND, mkNot(mkBin(O_EQ, xn, yn)), mkNot(mkBin(O_EQ, xn, sn))))};
      } else if (startsWith(n, "llvm.smul") && w <= 32) {
        E z = mkBin(O_MUL, mkSext(x, 2 * w), mkSext(y, 2 * w)); E s = mkBin(O_MUL, x, y);
        ret = {fromE(s), fromE(mkNot(mkBin(O_EQ, z, mkSext(s, 2 * w))))};
      } else { engineError(st, "intrinsic " + n); return 0; }
    }
  } else if (startsWith(n, "llvm.smax") ) ret = {fromE(mkIte(mkBin(O_SLT, X(0), X(1)), X(1), X(0)))};
  else if (startsWith(n, "llvm.smin")) ret = {fromE(mkIte(mkBin(O_SLT, X(0), X(1)), X(0), X(1)))};
  else if (startsWith(n, "llvm.umax")) ret = {fromE(mkIte(mkBin(O_ULT, X(0), X(1)), X(1), X(0)))};
  else if (startsWith(n, "llvm.umin")) ret = {fromE(mkIte(mkBin(O_ULT, X(0), X(1)), X(0), X(1)))};
  else if (startsWith(n, "llvm.usub.sat")) ret = {fromE(mkIte(mkBin(O_ULT, X(0), X(1)), mkConst(W(0), 0), mkBin(O_SUB, X(0), X(1))))};
  else if (startsWith(n, "llvm.uadd.sat")) { E s = mkBin(O_ADD, X(0), X(1)); ret = {fromE(mkIte(mkBin(O_ULT, s, X(0)), mkConst(W(0), maskw(W(0))), s))}; }
  else if (startsWith(n, "llvm.abs")) ret = {fromE(mkIte(mkBin(O_SLT, X(0), mkConst(W(0), 0)), mkBin(O_SUB, mkConst(W(0), 0), X(0)), X(0)))};
  else if (startsWith(n, "llvm.fabs")) ret = {fromE(mkBin(O_AND, X(0), mkConst(W(0), maskw(W(0)) >> 1)))};
  else if (startsWith(n, "llvm.fmuladd") || startsWith(n, "llvm.fma.")) ret = {fromE(mkBin(O_FADD, mkBin(O_FMUL, X(0), X(1)), X(2)))};
  else if (startsWith(n, "llvm.copysign")) { E m = mkConst(W(0), maskw(W(0)) >> 1); ret = {fromE(mkBin(O_OR, mkBin(O_AND, X(0), m), mkBin(O_AND, X(1), mkConst(W(0), maskw(W(0)) ^ (maskw(W(0)) >> 1)))))}; }
  else if (startsWith(n, "llvm.expect")) ret = {a[0]};
  else if (startsWith(n, "llvm.is.constant")) { Val v; v.c = 0; ret = {v}; }
  else if (startsWith(n, "llvm.objectsize")) { Val v; v.c = ~0ull; ret = {v}; }
  else if (startsWith(n, "llvm.eh.typeid.for")) { Val v; v.c = (uint64_t)typeId(a[0].c); ret = {v}; }
  else if (startsWith(n, "llvm.fshl") || startsWith(n, "llvm.fshr")) {
    unsigned w = W(0); Val s = a[2]; if (!concretize(st, s, w)) return 0;
    unsigned k = (unsigned)(s.c % w); E x = X(0), y = X(1);
    if (n[8] == 'l') ret = {k ? fromE(mkBin(O_OR, mkBin(O_SHL, x, mkConst(w, k)), mkBin(O_LSHR, y, mkConst(w, w - k)))) : a[0]};
    else ret = {k ? fromE(mkBin(O_OR, mkBin(O_SHL, x, mkConst(w, w - k)), mkBin(O_LSHR, y, mkConst(w, k)))) : a[1]};
  } else if (startsWith(n, "llvm.ctlz") || startsWith(n, "llvm.cttz") || startsWith(n, "llvm.ctpop")) {
    unsigned w = W(0); E x = X(0);
    E r = mkConst(w, startsWith(n, "llvm.ctpop") ? 0 : w);
    if (startsWith(n, "llvm.ctpop")) for (unsigned i = 0; i < w; i++) r = mkBin(O_ADD, r, mkZext(mkExtract(x, i, 1), w));
    else if (startsWith(n, "llvm.cttz")) for (int i = (int)w - 1; i >= 0; i--) r = mkIte(mkExtract(x, (unsigned)i, 1), mkConst(w, (uint64_t)i), r);
    else for (unsigned i = 0; i < w; i++) r = mkIte(mkExtract(x, i, 1), mkConst(w, w - 1 - i), r);
    ret = {fromE(r)};
  } else if (startsWith(n, "llvm.bswap")) {
    unsigned w = W(0); E x = X(0); E r = nullptr;
    for (unsigned i = 0; i < w / 8; i++) { E b = mkExtract(x, i * 8, 8); r = r ? mkConcat(r, b) : b; }
    ret = {fromE(r)};
  } else if (startsWith(n, "llvm.trap")) { violation(st, "trap", "llvm.trap"); return 0; }
  else if (startsWith(n, "llvm.stacksave")) { Val v; ret = {v}; }
  else if (startsWith(n, "llvm.stackrestore") || startsWith(n, "llvm.va_end") || startsWith(n, "llvm.sideeffect")) {}
  else if (startsWith(n, "llvm.va_start")) {
    Val p = a[0], v; uint64_t va = st.th[st.cur].fr.back().varargs;
    v.c = 48; if (!storeVal(st, p, 32, v)) return 0; p.c += 4; v.c = 176; if (!storeVal(st, p, 32, v)) return 0;
    p.c += 4; v.c = va; if (!storeVal(st, p, 64, v)) return 0; p.c += 8; v.c = 0; if (!storeVal(st, p, 64, v)) return 0;
  } else if (startsWith(n, "llvm.va_copy")) { if (!memCopy(st, a[0].c, a[1].c, 24)) return 0; }
  else if (startsWith(n, "llvm.load.relative")) {
    Val d; Val p = a[0]; if (a[1].e) { engineError(st, "load.relative"); return 0; } p.c += a[1].c; if (!loadVal(st, p, 32, d)) return 0;
    Val v; v.c = a[0].c + (uint64_t)(int64_t)(int32_t)d.c; ret = {v};
  }
  else { engineError(st, "unsupported intrinsic " + n); return 0; }
  finishCall(st, ret);
  return 1;
}

void threadExit(State& st) {
  Thread& t = st.th[st.cur];
  t.pend = P_DONE;
  if (st.cur == 0) { endPath(st, PE_OK); return; }
  schedule(st);
}

static inline Val binop(const Inst& in, const Val& a, const Val& b) {
  Val r; Op op = (Op)in.sub; unsigned w = in.w;
  if (!a.e && !b.e) {
    switch (op) {
      case O_ADD: r.c = (a.c + b.c) & maskw(w); return r;
      case O_SUB: r.c = (a.c - b.c) & maskw(w); return r;
      case O_MUL: r.c = (a.c * b.c) & maskw(w); return r;
      case O_AND: r.c = a.c & b.c; return r;
      case O_OR: r.c = a.c | b.c; return r;
      case O_XOR: r.c = a.c ^ b.c; return r;
      default: r.c = foldBin(op, w, a.c, b.c); return r;
    }
  }
  return fromE(mkBin(op, asE(a, w), asE(b, w)));
}
static inline Val icmp(unsigned pred, unsigned w, const Val& a, const Val& b) {
  using P = llvm::CmpInst;
  Val r;
  if (!a.e && !b.e) {
    int64_t x = sextw(a.c, w), y = sextw(b.c, w); uint64_t u = a.c & maskw(w), v = b.c & maskw(w);
    switch (pred) {
      case P::ICMP_EQ: r.c = u == v; break; case P::ICMP_NE: r.c = u != v; break;
      case P::ICMP_UGT: r.c = u > v; break; case P::ICMP_UGE: r.c = u >= v; break; case P::ICMP_ULT: r.c = u < v; break; case P::ICMP_ULE: r.c = u <= v; break;
      case P::ICMP_SGT: r.c = x > y; break; case P::ICMP_SGE: r.c = x >= y; break; case P::ICMP_SLT: r.c = x < y; break; case P::ICMP_SLE: r.c = x <= y; break;
    }
    return r;
  }
  E x = asE(a, w), y = asE(b, w);
  switch (pred) {
    case P::ICMP_EQ: return fromE(mkBin(O_EQ, x, y)); case P::ICMP_NE: return fromE(mkNot(mkBin(O_EQ, x, y)));
    case P::ICMP_UGT: return fromE(mkBin(O_ULT, y, x)); case P::ICMP_UGE: return fromE(mkBin(O_ULE, y, x)); case P::ICMP_ULT: return fromE(mkBin(O_ULT, x, y)); case P::ICMP_ULE: return fromE(mkBin(O_ULE, x, y));
    case P::ICMP_SGT: return fromE(mkBin(O_SLT, y, x)); case P::ICMP_SGE: return fromE(mkBin(O_SLE, y, x)); case P::ICMP_SLT: return fromE(mkBin(O_SLT, x, y)); default: return fromE(mkBin(O_SLE, x, y));
  }
}
static Val fcmp(unsigned pred, E x, E y) {
  using P = llvm::CmpInst;
  E uno = mkBin(O_FUNO, x, y), r;
  switch (pred) {
    case P::FCMP_FALSE: r = mkConst(1, 0); break; case P::FCMP_TRUE: r = mkConst(1, 1); break;
    case P::FCMP_OEQ: r = mkBin(O_FOEQ, x, y); break; case P::FCMP_OGT: r = mkBin(O_FOLT, y, x); break; case P::FCMP_OGE: r = mkBin(O_FOLE, y, x); break;
    case P::FCMP_OLT: r = mkBin(O_FOLT, x, y); break; case P::FCMP_OLE: r = mkBin(O_FOLE, x, y); break;
    case P::FCMP_ONE: r = mkBin(O_AND, mkNot(mkBin(O_FOEQ, x, y)), mkNot(uno)); break;
    case P::FCMP_ORD: r = mkNot(uno); break; case P::FCMP_UNO: r = uno; break;
    case P::FCMP_UEQ: r = mkBin(O_OR, mkBin(O_FOEQ, x, y), uno); break; case P::FCMP_UNE: r = mkNot(mkBin(O_FOEQ, x, y)); break;
    case P::FCMP_UGT: r = mkNot(mkBin(O_FOLE, x, y)); break; case P::FCMP_UGE: r = mkNot(mkBin(O_FOLT, x, y)); break;
    case P::FCMP_ULT: r = mkNot(mkBin(O_FOLE, y, x)); break; default: r = mkNot(mkBin(O_FOLT, y, x)); break;
  }
  return fromE(r);
}

static void maybeSpawn();
static double g_lastCheck = 0;

void runState(State& st) {
  uint32_t tick = 0;
  while (!st.done) {
    if ((++tick & 0x3fff) == 0) {
      double t = nowS();
      if (t > g_deadline || g_sh->stop) { g_st.timedOut = true; endPath(st, PE_TIME); return; }
      if (t - g_lastCheck > 0.02) { g_lastCheck = t; maybeSpawn(); }
    }
    Thread& t = st.th[st.cur];
    Frame& fr = t.fr.back();
    const Inst& in = fr.f->code[fr.pc];
    st.steps++; g_st.insts++;
    if (st.steps > st.stepLimit) {
      if (st.stepViolation) { violation(st, "nontermination", st.stepMsg ? st.stepMsg : "step limit exceeded"); return; }
      engineError(st, "path exceeds the instruction limit"); return;
    }
    switch (in.op) {
      case I_BIN: {
        const Val &a = opv(fr, in.a), &b = opv(fr, in.b);
        if (in.sub == O_UDIV || in.sub == O_SDIV || in.sub == O_UREM || in.sub == O_SREM) {
          if (!b.e) { if ((b.c & maskw(in.w)) == 0) { violation(st, "arith", "division by zero"); return; } }
          else { int d = decide(st, mkBin(O_EQ, b.e, mkConst(in.w, 0))); if (d < 0) return; if (d == 1) { violation(st, "arith", "division by zero"); return; } }
        }
        fr.r[in.dst] = binop(in, a, b); fr.pc++; break;
      }
      case I_CMP: fr.r[in.dst] = icmp(in.sub, in.w, opv(fr, in.a), opv(fr, in.b)); fr.pc++; break;
      case I_FCMP: fr.r[in.dst] = fcmp(in.sub, asE(opv(fr, in.a), in.w), asE(opv(fr, in.b), in.w)); fr.pc++; break;
      case I_FNEG: fr.r[in.dst] = fromE(mkBin(O_XOR, asE(opv(fr, in.a), in.w), mkConst(in.w, 1ull << (in.w - 1)))); fr.pc++; break;
      case I_CAST_ZEXT: { const Val& a = opv(fr, in.a); Val r; if (a.e) r = fromE(mkZext(a.e, in.w)); else r.c = a.c & maskw(in.w2); fr.r[in.dst] = r; fr.pc++; break; }
      case I_CAST_SEXT: { const Val& a = opv(fr, in.a); Val r; if (a.e) r = fromE(mkSext(a.e, in.w)); else r.c = (uint64_t)sextw(a.c, in.w2) & maskw(in.w); fr.r[in.dst] = r; fr.pc++; break; }
      case I_CAST_TRUNC: { const Val& a = opv(fr, in.a); Val r; if (a.e) r = fromE(mkExtract(a.e, 0, in.w)); else r.c = a.c & maskw(in.w); fr.r[in.dst] = r; fr.pc++; break; }
      case I_CAST_F: { const Val& a = opv(fr, in.a); Val r; if (a.e) r = fromE(mkFUn((Op)in.sub, a.e, in.w)); else r.c = foldFUn((Op)in.sub, in.w2, in.w, a.c); fr.r[in.dst] = r; fr.pc++; break; }
      case I_MOVE: {
        if (in.ops.size() == 1) fr.r[in.dst] = opv(fr, in.ops[0]);
        else { Val tmp[16]; std::vector<Val> big; Val* q = tmp; if (in.ops.size() > 16) { big.resize(in.ops.size()); q = big.data(); } for (size_t i = 0; i < in.ops.size(); i++) q[i] = opv(fr, in.ops[i]); for (size_t i = 0; i < in.ops.size(); i++) fr.r[in.dst + i] = q[i]; }
        fr.pc++; break;
      }
      case I_SELECT: {
        const Val c = opv(fr, in.a); size_t n = in.slots.size();
        for (size_t i = 0; i < n; i++) {
          const Val &x = opv(fr, in.ops[i]), &y = opv(fr, in.ops[n + i]);
          if (!c.e) fr.r[in.dst + i] = (c.c & 1) ? x : y;
          else fr.r[in.dst + i] = fromE(mkIte(c.e, asE(x, in.slots[i].w), asE(y, in.slots[i].w)));
        }
        fr.pc++; break;
      }
      case I_GEP: {
        const Val& b = opv(fr, in.a);
        uint64_t c = (uint64_t)in.imm; E e = nullptr;
        if (b.e) e = b.e; else c += b.c;
        for (auto& tm : in.terms) {
          const Val& x = opv(fr, tm.idx);
          if (!x.e) c += (uint64_t)(sextw(x.c, tm.w) * tm.scale);
          else { E y = mkBin(O_MUL, mkSext(x.e, 64), mkConst(64, (uint64_t)tm.scale)); e = e ? mkBin(O_ADD, e, y) : y; }
        }
        Val r;
        if (!e) r.c = c; else r = fromE(c ? mkBin(O_ADD, e, mkConst(64, c)) : e);
        fr.r[in.dst] = r; fr.pc++; break;
      }
      case I_LOAD: {
        Val a = opv(fr, in.a);
        if (in.slots.size() > 1 && a.e) { if (!concretize(st, a, 64)) return; }
        if (!in.slots.empty()) WATCHED(a, in.slots.back().off + nbytes(in.slots.back().w), 1, in.sub);
        for (size_t i = 0; i < in.slots.size(); i++) {
          Val p = a; if (in.slots[i].off) { if (p.e) p = fromE(mkBin(O_ADD, p.e, mkConst(64, in.slots[i].off))); else p.c += in.slots[i].off; }
          Val v; if (!loadVal(st, p, in.slots[i].w, v)) return;
          fr.r[in.dst + i] = v;
        }
        fr.pc++; break;
      }
      case I_STORE: {
        Val a = opv(fr, in.a);
        if (in.slots.size() > 1 && a.e) { if (!concretize(st, a, 64)) return; }
        if (!in.slots.empty()) WATCHED(a, in.slots.back().off + nbytes(in.slots.back().w), 2, in.sub);
        for (size_t i = 0; i < in.slots.size(); i++) {
          Val p = a; p.c += p.e ? 0 : in.slots[i].off;
          if (!storeVal(st, p, in.slots[i].w, opv(fr, in.ops[i]))) return;
        }
        fr.pc++; break;
      }
      case I_ALLOCA: {
        Val n = opv(fr, in.a); if (!concretize(st, n, 64)) return;
        uint64_t a = st.mem.alloc((uint32_t)(n.c * (uint64_t)in.imm), K_STACK);
        fr.allocas.push_back((uint32_t)(a >> 32));
        Val r; r.c = a; fr.r[in.dst] = r; fr.pc++; break;
      }
      case I_BR: takeEdge(fr, in.edges[0]); break;
      case I_CBR: {
        const Val c = opv(fr, in.a);
        int side;
        if (!c.e) side = (int)(c.c & 1);
        else { side = decide(st, c.e); if (side < 0) return; }
        takeEdge(fr, in.edges[side ? 0 : 1]);
        break;
      }
      case I_SWITCH: {
        Val c = opv(fr, in.a);
        if (!c.e) {
          int e = 0; for (auto& cs : in.cases) if (cs.first == (c.c & maskw(in.w))) { e = cs.second; break; }
          takeEdge(fr, in.edges[e]); break;
        }
        // decide edge by edge
        int taken = -1;
        for (size_t k = 1; k < in.edges.size() && taken < 0; k++) {
          E m = mkConst(1, 0);
          for (auto& cs : in.cases) if (cs.second == (int)k) m = mkBin(O_OR, m, mkBin(O_EQ, c.e, mkConst(in.w, cs.first)));
          int d = decide(st, m); if (d < 0) return;
          if (d) taken = (int)k;
        }
        if (taken < 0) taken = 0;
        takeEdge(fr, in.edges[taken]); break;
      }
      case I_RET: {
        std::vector<Val> ret; for (int o : in.ops) ret.push_back(opv(fr, o));
        popFrame(st, t);
        if (t.fr.empty()) { threadExit(st); break; }
        finishCall(st, ret); break;
      }
      case I_CALL: {
        const CallInfo& ci = *in.call;
        Func* f = ci.callee;
        if (ci.indirect) {
          Val p = opv(fr, ci.calleeOp);
          if (!concretize(st, p, 64)) return;
          uint64_t k = p.c - FUNC_BASE;
          if (p.c < FUNC_BASE || (k & 15) || k / 16 >= g_funcs.size()) { violation(st, "memory", p.c < 4096 ? "call through null function pointer" : "call through wild function pointer"); return; }
          f = g_funcs[k / 16];
        }
        std::vector<Val> args; args.reserve(ci.args.size());
        for (int o : ci.args) args.push_back(opv(fr, o));
        if (ci.intrinsic) { if (!intrinsic(st, in, args)) return; break; }
        if (f->builtin >= 0) { f->executed = true; callBuiltin(st, f, in, args); break; }
        for (size_t i = 0; i < args.size(); i++) if (i < ci.byvalSize.size() && ci.byvalSize[i]) {
          uint64_t cp = st.mem.alloc(ci.byvalSize[i], K_STACK); fr.allocas.push_back((uint32_t)(cp >> 32));
          if (!concretize(st, args[i], 64) || !memCopy(st, cp, args[i].c, ci.byvalSize[i])) return;
          args[i].c = cp;
        }
        if (!pushFrame(st, f, args)) return;
        break;
      }
      case I_UNREACHABLE: violation(st, "ub", "unreachable code executed"); return;
      case I_LANDINGPAD: fr.pc++; break;  // registers set by unwind()
      case I_RESUME: {
        Val p = opv(fr, in.ops[0]);
        uint64_t type = 0; for (auto& x : st.exc) if (x.ptr == p.c) type = x.type;
        // resume: the current frame is abandoned
        if (fr.f->lf->doesNotThrow()) { violation(st, "terminate", "exception leaves noexcept function " + fr.f->name); return; }
        popFrame(st, t);
        if (t.fr.empty()) { violation(st, "terminate", "uncaught exception " + typeName(type)); return; }
        unwind(st, p.c, type); break;
      }
      case I_CMPXCHG: {
        Val a = opv(fr, in.a); if (!concretize(st, a, 64)) return;
        WATCHED(a, nbytes(in.w), 3, in.imm ? 1 : 2);
        Val old; if (!loadVal(st, a, in.w, old)) return;
        const Val& cmp = opv(fr, in.b); const Val nv = opv(fr, in.c);
        E eq = mkBin(O_EQ, asE(old, in.w), asE(cmp, in.w));
        int d = decide(st, eq); if (d < 0) return;
        if (d && !storeVal(st, a, in.w, nv)) return;
        Val s; s.c = (uint64_t)d; fr.r[in.dst] = old; fr.r[in.dst + 1] = s; fr.pc++; break;
      }
      case I_RMW: {
        Val a = opv(fr, in.a); if (!concretize(st, a, 64)) return;
        WATCHED(a, nbytes(in.w), 3, in.imm ? 1 : 2);
        Val old; if (!loadVal(st, a, in.w, old)) return;
        const Val nv = opv(fr, in.b); Val x;
        if (in.sub == 0) x = nv; else { Inst tmp; tmp.sub = in.sub; tmp.w = in.w; x = binop(tmp, old, nv); }
        if (!storeVal(st, a, in.w, x)) return;
        fr.r[in.dst] = old; fr.pc++; break;
      }
      case I_FENCE: fr.pc++; break;
      default:
        engineError(st, "unsupported instruction: " + instText(fr.f, fr.pc)); return;
    }
  }
}

// ---------------------------------------------------------------- exploration
static bool g_isChild = false;
static void maybeSpawn() {
  if (g_work.size() < 2) return;
  int a = g_sh->active.load();
  if (a >= g_sh->maxProcs) return;
  if (!g_sh->active.compare_exchange_strong(a, a + 1)) return;
  fflush(nullptr);
  pid_t p = fork();
  if (p < 0) { g_sh->active--; return; }
  size_t half = g_work.size() / 2;
  if (p == 0) {
    // child: keeps the older half, nothing of the parent's results
    g_isChild = true;
    for (size_t i = half; i < g_work.size(); i++) delete g_work[i];
    g_work.resize(half);
    g_st = Stats(); g_ss = SolverStats(); g_reached.clear(); g_viol.clear(); g_errors.clear(); g_samples.clear();
    for (Func* f : g_funcs) f->executed = false;
    longjmp_child();
  }
  std::vector<State*> rest;
  for (size_t i = 0; i < half; i++) delete g_work[i];
  g_work.erase(g_work.begin(), g_work.begin() + (long)half);
}
}  // namespace sx

#include <setjmp.h>
namespace sx {
static jmp_buf g_childJmp;
void longjmp_child() { longjmp(g_childJmp, 1); }

static void writeResults() {
  int id = g_sh->seq++;
  std::ofstream o(g_outDir + "/part." + std::to_string(id));
  Stats& s = g_st;
  o << "stat insts " << s.insts << "\nstat forks " << s.forks << "\nstat branchq " << s.branchQ << "\nstat concq " << s.concQ << "\nstat assertq " << s.assertQ << "\nstat assertconc " << s.assertC
    << "\nstat tainted " << s.taintedBranches << "\nstat sched " << s.schedChoices << "\nstat symderef " << s.symDeref << "\nstat transitions " << s.transitions << "\nmax steps " << s.maxSteps << "\n";
  static const char* nm[] = {"ok", "viol", "error", "assume", "time", "cut"};
  for (int i = 0; i < PE_N; i++) o << "stat paths_" << nm[i] << " " << s.paths[i] << "\n";
  o << "stat queries " << g_ss.queries << "\nstat cachehits " << g_ss.cacheHits << "\nstat z3calls " << g_ss.z3calls << "\nstat sat " << g_ss.sat << "\nstat unsat " << g_ss.unsat << "\nstat unknown " << g_ss.unknown << "\n";
  o << "fstat z3time " << g_ss.z3time << "\nfmax z3max " << g_ss.maxTime << "\n";
  for (auto& r : g_reached) o << "reach " << r << "\n";
  for (Func* f : g_funcs) if (f->executed && f->builtin < 0) o << "func " << f->name << " " << f->file << ":" << f->line << "\n";
  for (Func* f : g_funcs) if (f->executed && f->builtin >= 0) o << "model " << f->name << "\n";
  for (auto& c : s.cuts) o << "cut " << c.first << " " << c.second << "\n";
  for (auto& e : g_errors) o << "BEGIN error\n" << e << "\nEND\n";
  for (auto& v : g_viol) o << "BEGIN viol " << v.second.count << "\n" << v.second.text << "END\n";
  for (auto& v : g_samples) o << "BEGIN sample\n" << v << "END\n";
}
static void drain() {
  while (!g_work.empty()) {
    State* s = g_work.back(); g_work.pop_back();
    if (nowS() > g_deadline || g_sh->stop) { g_st.timedOut = true; g_st.paths[PE_TIME]++; delete s; continue; }
    if (g_sh->violPaths > g_maxViolPaths) { g_st.paths[PE_CUT]++; g_st.cuts["enough violations"]++; delete s; continue; }
    runState(*s);
    delete s;
    static struct rusage ru; static int cnt = 0;
    if ((++cnt & 63) == 0) {
      double t = nowS(); if (t - g_lastCheck > 0.02) { g_lastCheck = t; maybeSpawn(); }
      getrusage(RUSAGE_SELF, &ru);
      if (ru.ru_maxrss > g_memLimitKb) { g_errors.push_back("memory limit per process reached"); g_sh->stop = 1; }
    }
  }
}
int engineMain(int argc, char** argv) {
  std::string mod, entry = "harness"; int procs = 8; double tmo = 600;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--out") g_outDir = argv[++i]; else if (a == "--entry") entry = argv[++i]; else if (a == "--procs") procs = atoi(argv[++i]);
    else if (a == "--timeout") tmo = atof(argv[++i]); else if (a == "--samples") g_maxSamples = atoi(argv[++i]); else if (a == "--solver-ms") g_solverTimeoutMs = (unsigned)atoi(argv[++i]);
    else if (a == "--dump") { g_dumpDir = strdup(argv[++i]); } else if (a == "--dump-every") g_dumpEvery = (unsigned)atoi(argv[++i]);
    else if (a == "--maxviol") g_maxViolPaths = atol(argv[++i]);
    else if (a == "--param") { std::string kv = argv[++i]; auto p = kv.find('='); g_params[kv.substr(0, p)] = atoll(kv.c_str() + p + 1); }
    else mod = a;
  }
  mkdir(g_outDir.c_str(), 0755);
  if (!loadModule(mod)) return 3;
  g_sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  new (g_sh) Shared(); g_sh->active = 1; g_sh->maxProcs = procs;
  g_deadline = nowS() + tmo;
  prctl(PR_SET_CHILD_SUBREAPER, 1);
  State* st = new State;
  st->mem.next = 16;
  setupGlobals(*st);
  Func* h = funcByName(entry);
  if (!h) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 3; }
  st->th.emplace_back();
  st->th[0].pend = P_RUN;
  // constructors of globals, then the harness: pushed in reverse through a driver list
  auto lsc = g_globalAddr.find("__libc_single_threaded");
  if (lsc != g_globalAddr.end()) { uint8_t one = 1; st->mem.rawWrite(lsc->second, &one, 1); }
  auto ctors = globalCtors();
  for (Func* c : ctors) {
    pushFrame(*st, c, {});
    // run to completion in isolation: main thread returning from the last frame ends the path
    runState(*st);
    if (g_st.paths[PE_ERROR] || g_st.paths[PE_VIOL]) { for (auto& e : g_errors) fprintf(stderr, "%s\n", e.c_str()); for (auto& v : g_viol) fprintf(stderr, "%s\n", v.second.text.c_str()); return 3; }
    st->done = false; st->th[0].pend = P_RUN; st->cur = 0;
  }
  g_st = Stats(); g_samples.clear(); g_sh->paths = 0;
  for (Func* f : g_funcs) f->executed = false;
  st->steps = 0;
  pushFrame(*st, h, {});
  g_work.push_back(st);
  double t0 = nowS();
  if (setjmp(g_childJmp)) {}
  drain();
  writeResults();
  g_sh->active--;
  if (g_isChild) _exit(0);
  int stt; bool bad = false;
  for (;;) { pid_t p = wait(&stt); if (p < 0) { if (errno == EINTR) continue; break; } if (!WIFEXITED(stt) || WEXITSTATUS(stt)) bad = true; }
  if (g_sh->stop) bad = true;
  std::ofstream o(g_outDir + "/done");
  o << (bad ? "abnormal" : "complete") << " " << nowS() - t0 << "\n";
  return bad ? 4 : 0;
}
}  // namespace sx
int main(int argc, char** argv) { return sx::engineMain(argc, argv); }

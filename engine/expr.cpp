#include "expr.h"
#include <cstring>
#include <cmath>
#include <algorithm>
#include <unordered_set>
#include <map>

namespace sx {

std::vector<SymInfo> g_syms;

struct KeyHash {
  size_t operator()(const Expr* e) const {
    uint64_t h = e->op * 0x9E3779B97F4A7C15ull + e->w;
    h = (h ^ e->c) * 0xff51afd7ed558ccdull; h ^= h >> 32;
    for (int i = 0; i < 3; i++) { h = (h ^ (uint64_t)(e->k[i] ? e->k[i]->id + 1 : 0)) * 0xc4ceb9fe1a85ec53ull; h ^= h >> 29; }
    return h;
  }
};
struct KeyEq {
  bool operator()(const Expr* a, const Expr* b) const {
    return a->op == b->op && a->w == b->w && a->c == b->c && a->k[0] == b->k[0] && a->k[1] == b->k[1] && a->k[2] == b->k[2];
  }
};
static std::unordered_set<const Expr*, KeyHash, KeyEq>& table() { static auto* t = new std::unordered_set<const Expr*, KeyHash, KeyEq>(1 << 16); return *t; }
static uint32_t g_nextId = 0;
size_t exprCount() { return g_nextId; }

static Expr* arenaAlloc() {
  static Expr* chunk = nullptr; static size_t used = 0;
  if (!chunk || used == 4096) { chunk = (Expr*)calloc(4096, sizeof(Expr)); used = 0; }
  return &chunk[used++];
}

static E intern(Op op, unsigned w, uint64_t c, E a = nullptr, E b = nullptr, E d = nullptr) {
  Expr tmp; memset(&tmp, 0, sizeof tmp);
  tmp.op = op; tmp.w = (uint8_t)w; tmp.c = c; tmp.k[0] = a; tmp.k[1] = b; tmp.k[2] = d;
  auto& t = table();
  auto it = t.find(&tmp);
  if (it != t.end()) return *it;
  Expr* e = arenaAlloc();
  *e = tmp;
  e->id = g_nextId++;
  e->hasFP = (op >= O_FADD);
  e->tainted = (op == O_SYM) && g_syms[c].uninit;
  for (int i = 0; i < 3; i++) if (e->k[i]) { e->hasFP |= e->k[i]->hasFP; e->tainted |= e->k[i]->tainted; }
  t.insert(e);
  return e;
}

E mkConst(unsigned w, uint64_t v) { return intern(O_CONST, w, v & maskw(w)); }

E mkSym(const std::string& name, uint32_t seq, unsigned w, bool uninit) {
  static auto* ids = new std::map<std::pair<std::string, uint64_t>, uint32_t>;
  auto key = std::make_pair(name, ((uint64_t)seq << 8) | w);
  auto it = ids->find(key);
  uint32_t id;
  if (it == ids->end()) { id = (uint32_t)g_syms.size(); g_syms.push_back({name, seq, (uint8_t)w, uninit}); (*ids)[key] = id; }
  else id = it->second;
  return intern(O_SYM, w, id);
}

static double asD(uint64_t v) { double d; memcpy(&d, &v, 8); return d; }
static float asF(uint64_t v) { uint32_t x = (uint32_t)v; float d; memcpy(&d, &x, 4); return d; }
static uint64_t fromD(double d) { uint64_t v; memcpy(&v, &d, 8); return v; }
static uint64_t fromF(float d) { uint32_t v; memcpy(&v, &d, 4); return v; }

uint64_t foldBin(Op op, unsigned w, uint64_t a, uint64_t b) {
  uint64_t m = maskw(w);
  switch (op) {
    case O_ADD: return (a + b) & m;
    case O_SUB: return (a - b) & m;
    case O_MUL: return (a * b) & m;
    case O_UDIV: return b ? (a / b) & m : m;
    case O_UREM: return b ? (a % b) & m : a;
    case O_SDIV: { int64_t x = sextw(a, w), y = sextw(b, w); if (!y) return (x < 0 ? 1 : m) & m; if (y == -1) return (0 - (uint64_t)x) & m; return (uint64_t)(x / y) & m; }
    case O_SREM: { int64_t x = sextw(a, w), y = sextw(b, w); if (!y) return a; if (y == -1) return 0; return (uint64_t)(x % y) & m; }
    case O_AND: return a & b;
    case O_OR: return a | b;
    case O_XOR: return a ^ b;
    case O_SHL: return b >= w ? 0 : (a << b) & m;
    case O_LSHR: return b >= w ? 0 : (a >> b);
    case O_ASHR: { int64_t x = sextw(a, w); return (uint64_t)(b >= w ? (x < 0 ? -1 : 0) : (x >> b)) & m; }
    case O_EQ: return a == b;
    case O_ULT: return a < b;
    case O_ULE: return a <= b;
    case O_SLT: return sextw(a, w) < sextw(b, w);
    case O_SLE: return sextw(a, w) <= sextw(b, w);
    case O_FADD: return w == 64 ? fromD(asD(a) + asD(b)) : fromF(asF(a) + asF(b));
    case O_FSUB: return w == 64 ? fromD(asD(a) - asD(b)) : fromF(asF(a) - asF(b));
    case O_FMUL: return w == 64 ? fromD(asD(a) * asD(b)) : fromF(asF(a) * asF(b));
    case O_FDIV: return w == 64 ? fromD(asD(a) / asD(b)) : fromF(asF(a) / asF(b));
    case O_FOEQ: return w == 64 ? asD(a) == asD(b) : asF(a) == asF(b);
    case O_FOLT: return w == 64 ? asD(a) < asD(b) : asF(a) < asF(b);
    case O_FOLE: return w == 64 ? asD(a) <= asD(b) : asF(a) <= asF(b);
    case O_FUNO: return w == 64 ? (std::isnan(asD(a)) || std::isnan(asD(b))) : (std::isnan(asF(a)) || std::isnan(asF(b)));
    default: abort();
  }
}

uint64_t foldFUn(Op op, unsigned wi, unsigned wo, uint64_t a) {
  auto in = [&]() -> double { return wi == 64 ? asD(a) : (double)asF(a); };
  switch (op) {
    case O_FPTOSI: { double d = std::trunc(in()); if (std::isnan(d)) return 0; if (d >= 9223372036854775808.0 || d < -9223372036854775808.0) return (uint64_t)INT64_MIN & maskw(wo); return (uint64_t)(int64_t)d & maskw(wo); }
    case O_FPTOUI: { double d = std::trunc(in()); if (std::isnan(d) || d < 0) { if (!(d < 0)) return 0; return (uint64_t)(int64_t)d & maskw(wo);} if (d >= 18446744073709551616.0) return maskw(wo); return (uint64_t)d & maskw(wo); }
    case O_SITOFP: { int64_t v = sextw(a, wi); return wo == 64 ? fromD((double)v) : fromF((float)v); }
    case O_UITOFP: return wo == 64 ? fromD((double)a) : fromF((float)a);
    case O_FPEXT: return fromD((double)asF(a));
    case O_FPTRUNC: return fromF((float)asD(a));
    default: abort();
  }
}

E mkNot(E a) { return mkBin(O_XOR, a, mkConst(1, 1)); }
static bool isNotOf(E a, E& x) { if (a->op == O_XOR && a->w == 1 && isC(a->k[1]) && a->k[1]->c == 1) { x = a->k[0]; return true; } return false; }

unsigned knownZeroLow(E e) {
  switch (e->op) {
    case O_CONST: return e->c == 0 ? e->w : (unsigned)__builtin_ctzll(e->c);
    case O_ADD: case O_SUB: case O_OR: case O_XOR: return std::min(knownZeroLow(e->k[0]), knownZeroLow(e->k[1]));
    case O_AND: return std::max(knownZeroLow(e->k[0]), knownZeroLow(e->k[1]));
    case O_MUL: return std::min<unsigned>(e->w, knownZeroLow(e->k[0]) + knownZeroLow(e->k[1]));
    case O_SHL: return isC(e->k[1]) ? (unsigned)std::min<uint64_t>(e->w, knownZeroLow(e->k[0]) + e->k[1]->c) : 0;
    case O_ZEXT: case O_SEXT: { unsigned k = knownZeroLow(e->k[0]); return k == e->k[0]->w ? e->w : k; }
    case O_ITE: return std::min(knownZeroLow(e->k[1]), knownZeroLow(e->k[2]));
    default: return 0;
  }
}
uint64_t umaxOf(E e) {
  switch (e->op) {
    case O_CONST: return e->c;
    case O_ZEXT: return umaxOf(e->k[0]);
    case O_AND: return std::min(umaxOf(e->k[0]), umaxOf(e->k[1]));
    case O_UREM: return isC(e->k[1]) && e->k[1]->c ? e->k[1]->c - 1 : maskw(e->w);
    case O_UDIV: return isC(e->k[1]) && e->k[1]->c ? umaxOf(e->k[0]) / e->k[1]->c : maskw(e->w);
    case O_LSHR: return isC(e->k[1]) && e->k[1]->c < 64 ? umaxOf(e->k[0]) >> e->k[1]->c : maskw(e->w);
    case O_ITE: return std::max(umaxOf(e->k[1]), umaxOf(e->k[2]));
    case O_EXTRACT: { uint64_t m = maskw(e->w); if (e->c == 0) return std::min(m, umaxOf(e->k[0])); return m; }
    default: return maskw(e->w);
  }
}

E mkBin(Op op, E a, E b) {
  unsigned w = a->w;
  bool cmp = (op >= O_EQ && op <= O_SLE) || (op >= O_FOEQ && op <= O_FUNO);
  unsigned rw = cmp ? 1 : w;
  if (isC(a) && isC(b)) return mkConst(rw, foldBin(op, w, a->c, b->c));
  if (op >= O_FADD) return intern(op, rw, 0, a, b);
  bool comm = op == O_ADD || op == O_MUL || op == O_AND || op == O_OR || op == O_XOR || op == O_EQ;
  if (comm && (isC(a) || (!isC(b) && a->id > b->id))) std::swap(a, b);
  uint64_t m = maskw(w);
  switch (op) {
    case O_ADD:
      if (isC(b)) {
        if (b->c == 0) return a;
        if (a->op == O_ADD && isC(a->k[1])) return mkBin(O_ADD, a->k[0], mkConst(w, a->k[1]->c + b->c));
        if (a->op == O_ITE && isC(a->k[1]) && isC(a->k[2])) return mkIte(a->k[0], mkConst(w, a->k[1]->c + b->c), mkConst(w, a->k[2]->c + b->c));
      }
      break;
    case O_SUB:
      if (a == b) return mkConst(w, 0);
      if (isC(b)) return mkBin(O_ADD, a, mkConst(w, 0 - b->c));
      if (a->op == O_ADD && a->k[0] == b) return a->k[1];
      if (a->op == O_ADD && a->k[1] == b) return a->k[0];
      break;
    case O_MUL:
      if (isC(b)) { if (b->c == 0) return b; if (b->c == 1) return a;
        if ((b->c & (b->c - 1)) == 0) return mkBin(O_SHL, a, mkConst(w, __builtin_ctzll(b->c))); }
      break;
    case O_UDIV: if (isC(b)) { if (b->c == 1) return a; if (b->c && (b->c & (b->c - 1)) == 0) return mkBin(O_LSHR, a, mkConst(w, __builtin_ctzll(b->c))); if (b->c && umaxOf(a) < b->c) return mkConst(w, 0);
        if (a->op == O_ZEXT && b->c <= maskw(a->k[0]->w)) return mkZext(mkBin(O_UDIV, a->k[0], mkConst(a->k[0]->w, b->c)), w); } break;
    case O_UREM: if (isC(b)) { if (b->c == 1) return mkConst(w, 0); if (b->c && (b->c & (b->c - 1)) == 0) return mkBin(O_AND, a, mkConst(w, b->c - 1)); if (b->c && umaxOf(a) < b->c) return a;
        if (a->op == O_ZEXT && b->c <= maskw(a->k[0]->w)) return mkZext(mkBin(O_UREM, a->k[0], mkConst(a->k[0]->w, b->c)), w); } break;
    case O_SDIV: if (isC(b) && b->c == 1 && w > 1) return a; break;
    case O_AND:
      if (a == b) return a;
      if (isC(b)) {
        if (b->c == 0) return b;
        if (b->c == m) return a;
        if (a->op == O_ZEXT) {
          unsigned iw = a->k[0]->w;
          return mkZext(mkBin(O_AND, a->k[0], mkConst(iw, b->c)), w);
        }
        if (a->op == O_AND && isC(a->k[1])) return mkBin(O_AND, a->k[0], mkConst(w, a->k[1]->c & b->c));
        // low-bits mask -> zext(extract)
        if ((b->c & (b->c + 1)) == 0) { unsigned n = (unsigned)__builtin_popcountll(b->c); return mkZext(mkExtract(a, 0, n), w); }
      }
      if (w == 1) { E x; if (isNotOf(a, x) && x == b) return mkConst(1, 0); if (isNotOf(b, x) && x == a) return mkConst(1, 0);
        if (b->op == O_AND && (b->k[0] == a || b->k[1] == a)) return b; if (a->op == O_AND && (a->k[0] == b || a->k[1] == b)) return a; }
      break;
    case O_OR:
      if (a == b) return a;
      if (isC(b)) { if (b->c == 0) return a; if (b->c == m) return b; }
      if (w == 1) { E x; if (isNotOf(a, x) && x == b) return mkConst(1, 1); if (isNotOf(b, x) && x == a) return mkConst(1, 1); }
      // or(zext(x), shl(zext(y), k)) with disjoint bits: concat
      for (int sw = 0; sw < 2; sw++) {
        E lo = sw ? b : a, hi = sw ? a : b;
        if (lo->op == O_ZEXT && hi->op == O_SHL && isC(hi->k[1])) {
          unsigned k = (unsigned)hi->k[1]->c;
          if (k < w && lo->k[0]->w <= k) {
            E top = mkExtract(hi->k[0], 0, w - k);
            return mkConcat(top, mkZext(lo->k[0], k));
          }
        }
      }
      break;
    case O_XOR:
      if (a == b) return mkConst(w, 0);
      if (isC(b)) {
        if (b->c == 0) return a;
        if (a->op == O_XOR && isC(a->k[1])) return mkBin(O_XOR, a->k[0], mkConst(w, a->k[1]->c ^ b->c));
        if (w == 1 && b->c == 1) {
          if (a->op == O_ULT) return mkBin(O_ULE, a->k[1], a->k[0]);
          if (a->op == O_ULE) return mkBin(O_ULT, a->k[1], a->k[0]);
          if (a->op == O_SLT) return mkBin(O_SLE, a->k[1], a->k[0]);
          if (a->op == O_SLE) return mkBin(O_SLT, a->k[1], a->k[0]);
        }
        if (a->op == O_ZEXT && b->c <= maskw(a->k[0]->w)) return mkZext(mkBin(O_XOR, a->k[0], mkConst(a->k[0]->w, b->c)), w);
      }
      break;
    case O_SHL: if (isC(b)) { if (b->c == 0) return a; if (b->c >= w) return mkConst(w, 0);
        return mkConcat(mkExtract(a, 0, w - (unsigned)b->c), mkConst((unsigned)b->c, 0)); }
      break;
    case O_LSHR: if (isC(b)) { if (b->c == 0) return a; if (b->c >= w) return mkConst(w, 0);
        return mkZext(mkExtract(a, (unsigned)b->c, w - (unsigned)b->c), w); }
      break;
    case O_ASHR: if (isC(b)) { if (b->c == 0) return a; unsigned s = b->c >= w ? w - 1 : (unsigned)b->c; return mkSext(mkExtract(a, s, w - s), w); }
      break;
    case O_EQ:
      if (a == b) return mkConst(1, 1);
      if (w == 1) { if (isC(b)) return b->c ? a : mkNot(a); }
      if (isC(b)) {
        uint64_t c = b->c;
        if (a->op == O_ZEXT) { if (c > maskw(a->k[0]->w)) return mkConst(1, 0); return mkBin(O_EQ, a->k[0], mkConst(a->k[0]->w, c)); }
        if (a->op == O_SEXT) { unsigned iw = a->k[0]->w; if ((uint64_t)sextw(c & maskw(iw), iw) % 1 == 0 && ((uint64_t)sextw(c & maskw(iw), iw) & m) != c) return mkConst(1, 0); return mkBin(O_EQ, a->k[0], mkConst(iw, c)); }
        if (a->op == O_ITE) {
          bool c1 = isC(a->k[1]), c2 = isC(a->k[2]);
          if (c1 && c2) { bool t = a->k[1]->c == c, f = a->k[2]->c == c; if (t && f) return mkConst(1, 1); if (t) return a->k[0]; if (f) return mkNot(a->k[0]); return mkConst(1, 0); }
          if (c1 || c2) return mkIte(a->k[0], mkBin(O_EQ, a->k[1], b), mkBin(O_EQ, a->k[2], b));
        }
        if (a->op == O_ADD && isC(a->k[1])) return mkBin(O_EQ, a->k[0], mkConst(w, c - a->k[1]->c));
        if (a->op == O_XOR && isC(a->k[1])) return mkBin(O_EQ, a->k[0], mkConst(w, c ^ a->k[1]->c));
        if (a->op == O_CONCAT) {
          unsigned lw = a->k[1]->w;
          E h = mkBin(O_EQ, a->k[0], mkConst(a->k[0]->w, c >> lw));
          if (isC(h) && h->c == 0) return h;
          E l = mkBin(O_EQ, a->k[1], mkConst(lw, c));
          return mkBin(O_AND, h, l);
        }
        if (umaxOf(a) < c) return mkConst(1, 0);
      } else {
        if (a->op == O_ZEXT && b->op == O_ZEXT && a->k[0]->w == b->k[0]->w) return mkBin(O_EQ, a->k[0], b->k[0]);
        if (a->op == O_SEXT && b->op == O_SEXT && a->k[0]->w == b->k[0]->w) return mkBin(O_EQ, a->k[0], b->k[0]);
        if (a->op == O_CONCAT && b->op == O_CONCAT && a->k[0]->w == b->k[0]->w) return mkBin(O_AND, mkBin(O_EQ, a->k[0], b->k[0]), mkBin(O_EQ, a->k[1], b->k[1]));
      }
      break;
    case O_ULT:
      if (a == b) return mkConst(1, 0);
      if (isC(b)) { if (b->c == 0) return mkConst(1, 0); if (b->c == 1) return mkBin(O_EQ, a, mkConst(w, 0)); if (umaxOf(a) < b->c) return mkConst(1, 1);
        if (a->op == O_ZEXT) { unsigned iw = a->k[0]->w; if (b->c > maskw(iw)) return mkConst(1, 1); return mkBin(O_ULT, a->k[0], mkConst(iw, b->c)); } }
      if (isC(a)) { if (a->c == m) return mkConst(1, 0); if (umaxOf(b) <= a->c) return mkConst(1, 0);
        if (b->op == O_ZEXT) { unsigned iw = b->k[0]->w; return mkBin(O_ULT, mkConst(iw, a->c), b->k[0]); } }
      if (a->op == O_ZEXT && b->op == O_ZEXT && a->k[0]->w == b->k[0]->w) return mkBin(O_ULT, a->k[0], b->k[0]);
      break;
    case O_ULE:
      if (a == b) return mkConst(1, 1);
      if (isC(b)) { if (b->c == m) return mkConst(1, 1); return mkBin(O_ULT, a, mkConst(w, b->c + 1)); }
      if (isC(a)) { if (a->c == 0) return mkConst(1, 1); return mkBin(O_ULT, mkConst(w, a->c - 1), b); }
      if (a->op == O_ZEXT && b->op == O_ZEXT && a->k[0]->w == b->k[0]->w) return mkBin(O_ULE, a->k[0], b->k[0]);
      break;
    case O_SLT: case O_SLE: {
      if (a == b) return mkConst(1, op == O_SLE);
      if (a->op == O_ZEXT && b->op == O_ZEXT) return mkBin(op == O_SLT ? O_ULT : O_ULE, a, b);
      if (a->op == O_SEXT && b->op == O_SEXT && a->k[0]->w == b->k[0]->w) return mkBin(op, a->k[0], b->k[0]);
      if (isC(b) && a->op == O_ZEXT) { int64_t c = sextw(b->c, w); if (c < 0) return mkConst(1, 0); return mkBin(op == O_SLT ? O_ULT : O_ULE, a, b); }
      if (isC(a) && b->op == O_ZEXT) { int64_t c = sextw(a->c, w); if (c < 0) return mkConst(1, 1); return mkBin(op == O_SLT ? O_ULT : O_ULE, a, b); }
      if (a->op == O_SEXT && isC(b)) { unsigned iw = a->k[0]->w; int64_t c = sextw(b->c, w); int64_t hi = (int64_t)(maskw(iw) >> 1), lo = -hi - 1; if (c > hi) return mkConst(1, 1); if (c < lo) return mkConst(1, 0); return mkBin(op, a->k[0], mkConst(iw, b->c)); }
      if (b->op == O_SEXT && isC(a)) { unsigned iw = b->k[0]->w; int64_t c = sextw(a->c, w); int64_t hi = (int64_t)(maskw(iw) >> 1), lo = -hi - 1; if (c > hi) return mkConst(1, 0); if (c < lo) return mkConst(1, 1); return mkBin(op, mkConst(iw, a->c), b->k[0]); }
      if (op == O_SLE) {
        if (isC(b)) { if (sextw(b->c, w) == (int64_t)(m >> 1)) return mkConst(1, 1); return mkBin(O_SLT, a, mkConst(w, b->c + 1)); }
        if (isC(a)) { if (a->c == ((m >> 1) + 1)) return mkConst(1, 1); return mkBin(O_SLT, mkConst(w, a->c - 1), b); }
      }
      break;
    }
    default: break;
  }
  return intern(op, rw, 0, a, b);
}

E mkIte(E c, E a, E b) {
  if (isC(c)) return c->c ? a : b;
  if (a == b) return a;
  E x;
  if (isNotOf(c, x)) { return mkIte(x, b, a); }
  if (a->w == 1) {
    if (isC(a) && isC(b)) return a->c ? c : mkNot(c);
    if (isC(a)) return a->c ? mkBin(O_OR, c, b) : mkBin(O_AND, mkNot(c), b);
    if (isC(b)) return b->c ? mkBin(O_OR, mkNot(c), a) : mkBin(O_AND, c, a);
  }
  if (a->op == O_ITE && a->k[0] == c) a = a->k[1];
  if (b->op == O_ITE && b->k[0] == c) b = b->k[2];
  if (a == b) return a;
  return intern(O_ITE, a->w, 0, c, a, b);
}

E mkExtract(E a, unsigned lo, unsigned w) {
  if (lo == 0 && w == a->w) return a;
  switch (a->op) {
    case O_CONST: return mkConst(w, a->c >> lo);
    case O_EXTRACT: return mkExtract(a->k[0], lo + (unsigned)a->c, w);
    case O_CONCAT: {
      unsigned lw = a->k[1]->w;
      if (lo >= lw) return mkExtract(a->k[0], lo - lw, w);
      if (lo + w <= lw) return mkExtract(a->k[1], lo, w);
      return mkConcat(mkExtract(a->k[0], 0, lo + w - lw), mkExtract(a->k[1], lo, lw - lo));
    }
    case O_ZEXT: {
      unsigned iw = a->k[0]->w;
      if (lo >= iw) return mkConst(w, 0);
      if (lo + w <= iw) return mkExtract(a->k[0], lo, w);
      return mkZext(mkExtract(a->k[0], lo, iw - lo), w);
    }
    case O_SEXT: {
      unsigned iw = a->k[0]->w;
      if (lo + w <= iw) return mkExtract(a->k[0], lo, w);
      if (lo == 0) return mkSext(a->k[0], w);
      break;
    }
    case O_ITE:
      if (isC(a->k[1]) || isC(a->k[2])) return mkIte(a->k[0], mkExtract(a->k[1], lo, w), mkExtract(a->k[2], lo, w));
      break;
    case O_AND: case O_OR: case O_XOR: return mkBin(a->op, mkExtract(a->k[0], lo, w), mkExtract(a->k[1], lo, w));
    case O_ADD: case O_SUB: case O_MUL:
      if (lo == 0) return mkBin(a->op, mkExtract(a->k[0], 0, w), mkExtract(a->k[1], 0, w));
      break;
    default: break;
  }
  return intern(O_EXTRACT, w, lo, a);
}

E mkConcat(E hi, E lo) {
  unsigned w = hi->w + lo->w;
  if (isC(hi) && isC(lo)) return mkConst(w, (hi->c << lo->w) | lo->c);
  if (isC(hi) && hi->c == 0) return mkZext(lo, w);
  if (hi->op == O_EXTRACT && lo->op == O_EXTRACT && hi->k[0] == lo->k[0] && hi->c == lo->c + lo->w) return mkExtract(hi->k[0], (unsigned)lo->c, w);
  if (hi->op == O_EXTRACT && hi->k[0] == lo && hi->c == lo->w) return mkExtract(lo, 0, w);
  if (lo->op == O_CONCAT && hi->op == O_EXTRACT && lo->k[0]->op == O_EXTRACT && lo->k[0]->k[0] == hi->k[0] && hi->c == lo->k[0]->c + lo->k[0]->w)
    return mkConcat(mkConcat(hi, lo->k[0]), lo->k[1]);
  return intern(O_CONCAT, w, 0, hi, lo);
}

E mkZext(E a, unsigned w) {
  if (a->w == w) return a;
  if (isC(a)) return mkConst(w, a->c);
  if (a->op == O_ZEXT) return mkZext(a->k[0], w);
  if (a->op == O_ITE && isC(a->k[1]) && isC(a->k[2])) return mkIte(a->k[0], mkConst(w, a->k[1]->c), mkConst(w, a->k[2]->c));
  return intern(O_ZEXT, w, 0, a);
}
E mkSext(E a, unsigned w) {
  if (a->w == w) return a;
  if (isC(a)) return mkConst(w, (uint64_t)sextw(a->c, a->w));
  if (a->op == O_ZEXT) return mkZext(a->k[0], w);
  if (a->op == O_SEXT) return mkSext(a->k[0], w);
  if (a->op == O_ITE && isC(a->k[1]) && isC(a->k[2])) return mkIte(a->k[0], mkSext(a->k[1], w), mkSext(a->k[2], w));
  return intern(O_SEXT, w, 0, a);
}
E mkFUn(Op op, E a, unsigned w) {
  if (isC(a)) return mkConst(w, foldFUn(op, a->w, w, a->c));
  return intern(op, w, 0, a);
}

const std::vector<uint32_t>& symsOf(E e) {
  static const std::vector<uint32_t> empty;
  if (e->syms) return *e->syms;
  if (e->op == O_CONST) return empty;
  if (e->op == O_SYM) { e->syms = new std::vector<uint32_t>{(uint32_t)e->c}; return *e->syms; }
  const std::vector<uint32_t>* acc = &empty;
  std::vector<uint32_t> tmp;
  for (int i = 0; i < 3; i++) if (e->k[i]) {
    const auto& s = symsOf(e->k[i]);
    if (s.empty() || &s == acc) continue;
    if (acc->empty()) { acc = &s; continue; }
    if (std::includes(acc->begin(), acc->end(), s.begin(), s.end())) continue;
    if (std::includes(s.begin(), s.end(), acc->begin(), acc->end())) { acc = &s; continue; }
    std::vector<uint32_t> r; r.reserve(acc->size() + s.size());
    std::set_union(acc->begin(), acc->end(), s.begin(), s.end(), std::back_inserter(r));
    if (acc == &tmp) { tmp.swap(r); } else { tmp.swap(r); acc = &tmp; }
  }
  e->syms = (acc == &tmp) ? new std::vector<uint32_t>(tmp) : acc;
  return *e->syms;
}

static uint32_t g_epoch = 0;
void newEvalEpoch() { g_epoch++; }
static uint64_t modelGet(const ModelV& m, uint32_t id) {
  auto it = std::lower_bound(m.begin(), m.end(), std::make_pair(id, (uint64_t)0));
  return (it != m.end() && it->first == id) ? it->second : 0;
}
uint64_t evalEpoch(E e, const ModelV& m) {
  if (e->op == O_CONST) return e->c;
  if (e->epoch == g_epoch) return e->val;
  uint64_t r;
  switch (e->op) {
    case O_SYM: r = modelGet(m, (uint32_t)e->c) & maskw(e->w); break;
    case O_ITE: r = evalEpoch(e->k[0], m) ? evalEpoch(e->k[1], m) : evalEpoch(e->k[2], m); break;
    case O_CONCAT: r = (evalEpoch(e->k[0], m) << e->k[1]->w) | evalEpoch(e->k[1], m); break;
    case O_EXTRACT: r = (evalEpoch(e->k[0], m) >> e->c) & maskw(e->w); break;
    case O_ZEXT: r = evalEpoch(e->k[0], m); break;
    case O_SEXT: r = (uint64_t)sextw(evalEpoch(e->k[0], m), e->k[0]->w) & maskw(e->w); break;
    case O_FPTOSI: case O_FPTOUI: case O_SITOFP: case O_UITOFP: case O_FPEXT: case O_FPTRUNC:
      r = foldFUn(e->op, e->k[0]->w, e->w, evalEpoch(e->k[0], m)); break;
    default: r = foldBin(e->op, e->k[0]->w, evalEpoch(e->k[0], m), evalEpoch(e->k[1], m)); break;
  }
  e->epoch = g_epoch; e->val = r;
  return r;
}
uint64_t evalUnder(E e, const ModelV& m) { if (isC(e)) return e->c; newEvalEpoch(); return evalEpoch(e, m); }

static const char* opn[] = {"const","sym","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","eq","ult","ule","slt","sle","ite","concat","extract","zext","sext","fadd","fsub","fmul","fdiv","foeq","folt","fole","funo","fptosi","fptoui","sitofp","uitofp","fpext","fptrunc"};
std::string exprStr(E e, int depth) {
  if (e->op == O_CONST) return std::to_string(e->c) + ":" + std::to_string(e->w);
  if (e->op == O_SYM) return g_syms[e->c].name + "#" + std::to_string(g_syms[e->c].seq);
  if (depth == 0) return "...";
  std::string s = std::string("(") + opn[e->op];
  if (e->op == O_EXTRACT) s += "[" + std::to_string(e->c) + "+" + std::to_string(e->w) + "]";
  for (int i = 0; i < 3; i++) if (e->k[i]) s += " " + exprStr(e->k[i], depth - 1);
  return s + ")";
}

}  // namespace sx

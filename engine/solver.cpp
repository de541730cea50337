#include "solver.h"
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <unistd.h>

namespace sx {
SolverStats g_ss;
unsigned g_solverTimeoutMs = 60000;
const char* g_dumpDir = nullptr; unsigned g_dumpEvery = 0;
static Z3_context C;
static Z3_solver inc;
static std::vector<Z3_ast> memo;   // by expr id

static void errh(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); abort(); }
static void init() {
  if (C) return;
  Z3_config cfg = Z3_mk_config();
  Z3_set_param_value(cfg, "model", "true");
  C = Z3_mk_context_rc(cfg);
  Z3_set_error_handler(C, errh);
  inc = Z3_mk_simple_solver(C);
  Z3_solver_inc_ref(C, inc);
}
static Z3_ast keep(Z3_ast a) { Z3_inc_ref(C, a); return a; }
// every intermediate term is referenced: in this kind of context a term without reference may die with the next call
template <class F, class... A> static Z3_ast mk(F f, A... a) { return keep(f(C, a...)); }
static Z3_sort bvs(unsigned w) { static Z3_sort t[65]; if (!t[w]) { t[w] = Z3_mk_bv_sort(C, w); Z3_inc_ref(C, Z3_sort_to_ast(C, t[w])); } return t[w]; }
static Z3_sort fs(unsigned w) { static Z3_sort t[2]; Z3_sort& s = t[w == 64]; if (!s) { s = w == 64 ? Z3_mk_fpa_sort_double(C) : Z3_mk_fpa_sort_single(C); Z3_inc_ref(C, Z3_sort_to_ast(C, s)); } return s; }
static Z3_ast tofp(Z3_ast a, unsigned w) { return mk(Z3_mk_fpa_to_fp_bv, a, fs(w)); }
static Z3_ast b2bv(Z3_ast b) {
  Z3_sort s = bvs(1);
  return mk(Z3_mk_ite, b, mk(Z3_mk_unsigned_int64, 1, s), mk(Z3_mk_unsigned_int64, 0, s));
}
// width-1 expressions are translated to Bool; trB gives Bool, trV gives bit-vector
static Z3_ast trB(E e);
static Z3_ast trV(E e);
static Z3_ast tr0(E e) {  // native: Bool for width 1, else BV
  if (e->id < memo.size() && memo[e->id]) return memo[e->id];
  if (memo.size() <= e->id) memo.resize(std::max<size_t>(e->id + 1, memo.size() * 2 + 1024), nullptr);
  Z3_ast r = nullptr;
  bool b1 = e->w == 1;
  switch (e->op) {
    case O_CONST: r = b1 ? (e->c ? mk(Z3_mk_true) : mk(Z3_mk_false)) : mk(Z3_mk_unsigned_int64, e->c, bvs(e->w)); break;
    case O_SYM: {
      std::string n = g_syms[e->c].name + "!" + std::to_string(e->c);
      Z3_sort s = b1 ? Z3_mk_bool_sort(C) : bvs(e->w);
      r = mk(Z3_mk_const, Z3_mk_string_symbol(C, n.c_str()), s); break;
    }
    case O_AND: if (b1) { Z3_ast a[2] = {trB(e->k[0]), trB(e->k[1])}; r = mk(Z3_mk_and, 2, a); } else r = mk(Z3_mk_bvand, trV(e->k[0]), trV(e->k[1])); break;
    case O_OR: if (b1) { Z3_ast a[2] = {trB(e->k[0]), trB(e->k[1])}; r = mk(Z3_mk_or, 2, a); } else r = mk(Z3_mk_bvor, trV(e->k[0]), trV(e->k[1])); break;
    case O_XOR: if (b1) r = (isC(e->k[1]) && e->k[1]->c) ? mk(Z3_mk_not, trB(e->k[0])) : mk(Z3_mk_xor, trB(e->k[0]), trB(e->k[1])); else r = mk(Z3_mk_bvxor, trV(e->k[0]), trV(e->k[1])); break;
    case O_EQ: r = e->k[0]->w == 1 ? mk(Z3_mk_iff, trB(e->k[0]), trB(e->k[1])) : mk(Z3_mk_eq, trV(e->k[0]), trV(e->k[1])); break;
    case O_ULT: r = mk(Z3_mk_bvult, trV(e->k[0]), trV(e->k[1])); break;
    case O_ULE: r = mk(Z3_mk_bvule, trV(e->k[0]), trV(e->k[1])); break;
    case O_SLT: r = mk(Z3_mk_bvslt, trV(e->k[0]), trV(e->k[1])); break;
    case O_SLE: r = mk(Z3_mk_bvsle, trV(e->k[0]), trV(e->k[1])); break;
    case O_ITE: r = b1 ? mk(Z3_mk_ite, trB(e->k[0]), trB(e->k[1]), trB(e->k[2])) : mk(Z3_mk_ite, trB(e->k[0]), trV(e->k[1]), trV(e->k[2])); break;
    case O_FOEQ: r = mk(Z3_mk_fpa_eq, tofp(trV(e->k[0]), e->k[0]->w), tofp(trV(e->k[1]), e->k[1]->w)); break;
    case O_FOLT: r = mk(Z3_mk_fpa_lt, tofp(trV(e->k[0]), e->k[0]->w), tofp(trV(e->k[1]), e->k[1]->w)); break;
    case O_FOLE: r = mk(Z3_mk_fpa_leq, tofp(trV(e->k[0]), e->k[0]->w), tofp(trV(e->k[1]), e->k[1]->w)); break;
    case O_FUNO: { Z3_ast a[2] = {mk(Z3_mk_fpa_is_nan, tofp(trV(e->k[0]), e->k[0]->w)), mk(Z3_mk_fpa_is_nan, tofp(trV(e->k[1]), e->k[1]->w))}; r = mk(Z3_mk_or, 2, a); break; }
    default: {
      auto A = [&](int i) { return trV(e->k[i]); };
      Z3_ast v = nullptr;
      switch (e->op) {
        case O_ADD: v = mk(Z3_mk_bvadd, A(0), A(1)); break;
        case O_SUB: v = mk(Z3_mk_bvsub, A(0), A(1)); break;
        case O_MUL: v = mk(Z3_mk_bvmul, A(0), A(1)); break;
        case O_UDIV: v = mk(Z3_mk_bvudiv, A(0), A(1)); break;
        case O_SDIV: v = mk(Z3_mk_bvsdiv, A(0), A(1)); break;
        case O_UREM: v = mk(Z3_mk_bvurem, A(0), A(1)); break;
        case O_SREM: v = mk(Z3_mk_bvsrem, A(0), A(1)); break;
        case O_SHL: v = mk(Z3_mk_bvshl, A(0), A(1)); break;
        case O_LSHR: v = mk(Z3_mk_bvlshr, A(0), A(1)); break;
        case O_ASHR: v = mk(Z3_mk_bvashr, A(0), A(1)); break;
        case O_CONCAT: v = mk(Z3_mk_concat, A(0), A(1)); break;
        case O_EXTRACT: v = mk(Z3_mk_extract, (unsigned)(e->c + e->w - 1), (unsigned)e->c, A(0)); break;
        case O_ZEXT: v = mk(Z3_mk_zero_ext, e->w - e->k[0]->w, A(0)); break;
        case O_SEXT: v = mk(Z3_mk_sign_ext, e->w - e->k[0]->w, A(0)); break;
        case O_FADD: v = mk(Z3_mk_fpa_to_ieee_bv, mk(Z3_mk_fpa_add, mk(Z3_mk_fpa_rne), tofp(A(0), e->w), tofp(A(1), e->w))); break;
        case O_FSUB: v = mk(Z3_mk_fpa_to_ieee_bv, mk(Z3_mk_fpa_sub, mk(Z3_mk_fpa_rne), tofp(A(0), e->w), tofp(A(1), e->w))); break;
        case O_FMUL: v = mk(Z3_mk_fpa_to_ieee_bv, mk(Z3_mk_fpa_mul, mk(Z3_mk_fpa_rne), tofp(A(0), e->w), tofp(A(1), e->w))); break;
        case O_FDIV: v = mk(Z3_mk_fpa_to_ieee_bv, mk(Z3_mk_fpa_div, mk(Z3_mk_fpa_rne), tofp(A(0), e->w), tofp(A(1), e->w))); break;
        case O_FPTOSI: v = mk(Z3_mk_fpa_to_sbv, mk(Z3_mk_fpa_rtz), tofp(A(0), e->k[0]->w), e->w); break;
        case O_FPTOUI: v = mk(Z3_mk_fpa_to_ubv, mk(Z3_mk_fpa_rtz), tofp(A(0), e->k[0]->w), e->w); break;
        case O_SITOFP: v = mk(Z3_mk_fpa_to_ieee_bv, mk(Z3_mk_fpa_to_fp_signed, mk(Z3_mk_fpa_rne), A(0), fs(e->w))); break;
        case O_UITOFP: v = mk(Z3_mk_fpa_to_ieee_bv, mk(Z3_mk_fpa_to_fp_unsigned, mk(Z3_mk_fpa_rne), A(0), fs(e->w))); break;
        case O_FPEXT: case O_FPTRUNC: v = mk(Z3_mk_fpa_to_ieee_bv, mk(Z3_mk_fpa_to_fp_float, mk(Z3_mk_fpa_rne), tofp(A(0), e->k[0]->w), fs(e->w))); break;
        default: fprintf(stderr, "untranslatable op %d\n", e->op); abort();
      }
      r = b1 ? mk(Z3_mk_eq, v, mk(Z3_mk_unsigned_int64, 1, bvs(1))) : v;
    }
  }
  memo[e->id] = keep(r);
  return r;
}
static Z3_ast trB(E e) { return tr0(e); }
static Z3_ast trV(E e) { Z3_ast r = tr0(e); return e->w == 1 ? b2bv(r) : r; }

struct CacheEnt { Res r; ModelV m; };
struct VH { size_t operator()(const std::vector<uint32_t>& v) const { uint64_t h = 1469598103934665603ull; for (uint32_t x : v) { h ^= x; h *= 1099511628211ull; h ^= h >> 31; } return h; } };
static std::unordered_map<std::vector<uint32_t>, CacheEnt, VH>& cache() { static auto* c = new std::unordered_map<std::vector<uint32_t>, CacheEnt, VH>(1 << 14); return *c; }

static void getModel(Z3_model m, const std::vector<uint32_t>& syms, ModelV& out) {
  Z3_model_inc_ref(C, m);
  for (uint32_t s : syms) {
    E se = mkSym(g_syms[s].name, g_syms[s].seq, g_syms[s].w, g_syms[s].uninit);
    Z3_ast v = nullptr;
    Z3_model_eval(C, m, tr0(se), true, &v);
    Z3_inc_ref(C, v);
    uint64_t u = 0;
    if (g_syms[s].w == 1) u = Z3_get_bool_value(C, v) == Z3_L_TRUE;
    else Z3_get_numeral_uint64(C, v, &u);
    Z3_dec_ref(C, v);
    out.push_back({s, u});
  }
  Z3_model_dec_ref(C, m);
}

Res solve(const std::vector<E>& constraints, E q, const Model& base, Model* out) {
  g_ss.queries++;
  if (isC(q)) { if (!q->c) return R_UNSAT; if (out) *out = base; return R_SAT; }
  init();
  // slice
  std::vector<uint32_t> syms = symsOf(q);
  std::vector<E> slice{q};
  std::vector<char> used(constraints.size(), 0);
  for (bool ch = true; ch;) {
    ch = false;
    for (size_t i = 0; i < constraints.size(); i++) if (!used[i]) {
      const auto& s = symsOf(constraints[i]);
      bool hit = false;
      for (uint32_t x : s) if (std::binary_search(syms.begin(), syms.end(), x)) { hit = true; break; }
      if (!hit) continue;
      used[i] = 1; slice.push_back(constraints[i]);
      if (!std::includes(syms.begin(), syms.end(), s.begin(), s.end())) {
        std::vector<uint32_t> r; std::set_union(syms.begin(), syms.end(), s.begin(), s.end(), std::back_inserter(r)); syms.swap(r); ch = true;
      }
    }
  }
  std::vector<uint32_t> key; for (E e : slice) key.push_back(e->id);
  std::sort(key.begin(), key.end()); key.erase(std::unique(key.begin(), key.end()), key.end());
  auto it = cache().find(key);
  if (it == cache().end()) {
    auto t0 = std::chrono::steady_clock::now();
    CacheEnt ent; bool fp = false;
    for (E e : slice) fp |= e->hasFP;
    Z3_lbool r = Z3_L_UNDEF;
    g_ss.z3calls++;
    if (!fp) {
      Z3_solver_push(C, inc);
      Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p);
      Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), std::min(1500u, g_solverTimeoutMs));
      Z3_solver_set_params(C, inc, p); Z3_params_dec_ref(C, p);
      for (E e : slice) Z3_solver_assert(C, inc, tr0(e));
      r = Z3_solver_check(C, inc);
      if (r == Z3_L_TRUE) getModel(Z3_solver_get_model(C, inc), syms, ent.m);
      if (g_dumpDir && g_dumpEvery && (g_ss.z3calls % g_dumpEvery) == 1 && r != Z3_L_UNDEF) {
        char fn[512]; snprintf(fn, sizeof fn, "%s/q%d_%llu.%s.smt2", g_dumpDir, (int)getpid(), (unsigned long long)g_ss.z3calls, r == Z3_L_TRUE ? "sat" : "unsat");
        std::ofstream f(fn); f << "(set-logic QF_BV)\n" << Z3_solver_to_string(C, inc) << "(check-sat)\n";
      }
      Z3_solver_pop(C, inc, 1);
    }
    if (r == Z3_L_UNDEF) {
      Z3_tactic t = Z3_mk_tactic(C, fp ? "qffpbv" : "qfbv"); Z3_tactic_inc_ref(C, t);
      Z3_solver s = Z3_mk_solver_from_tactic(C, t); Z3_solver_inc_ref(C, s);
      Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p);
      Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), g_solverTimeoutMs);
      Z3_solver_set_params(C, s, p); Z3_params_dec_ref(C, p);
      for (E e : slice) Z3_solver_assert(C, s, tr0(e));
      r = Z3_solver_check(C, s);
      if (r == Z3_L_TRUE) getModel(Z3_solver_get_model(C, s), syms, ent.m);
      Z3_solver_dec_ref(C, s); Z3_tactic_dec_ref(C, t);
    }
    ent.r = r == Z3_L_TRUE ? R_SAT : r == Z3_L_FALSE ? R_UNSAT : R_UNKNOWN;
    if (ent.r == R_SAT) {
      // independent check of the model with our own evaluator
      newEvalEpoch();
      for (E e : slice) if (!evalEpoch(e, ent.m)) {
        fprintf(stderr, "solver/evaluator disagreement on %s\n", exprStr(e, 12).c_str());
        ent.r = R_UNKNOWN; break;
      }
    }
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    g_ss.z3time += dt; if (dt > g_ss.maxTime) g_ss.maxTime = dt;
    if (dt > 10) fprintf(stderr, "slow query %.1fs res=%d slice=%zu: %s\n", dt, ent.r, slice.size(), exprStr(q, 5).c_str());
    it = cache().emplace(std::move(key), std::move(ent)).first;
  } else g_ss.cacheHits++;
  const CacheEnt& ce = it->second;
  if (ce.r == R_SAT) g_ss.sat++; else if (ce.r == R_UNSAT) g_ss.unsat++; else g_ss.unknown++;
  if (ce.r == R_SAT && out) {
    auto m = std::make_shared<ModelV>();
    const ModelV& b = *base;
    m->reserve(b.size() + ce.m.size());
    size_t i = 0, j = 0;
    while (i < b.size() || j < ce.m.size()) {
      if (j >= ce.m.size() || (i < b.size() && b[i].first < ce.m[j].first)) m->push_back(b[i++]);
      else { if (i < b.size() && b[i].first == ce.m[j].first) i++; m->push_back(ce.m[j++]); }
    }
    *out = m;
  }
  return ce.r;
}
}  // namespace sx

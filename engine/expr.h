// Hash-consed bit-vector / floating-point expressions (width <= 64).
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <memory>
#include <unordered_map>

namespace sx {

enum Op : uint8_t {
  O_CONST, O_SYM,
  O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM,
  O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR,
  O_EQ, O_ULT, O_ULE, O_SLT, O_SLE,
  O_ITE, O_CONCAT, O_EXTRACT, O_ZEXT, O_SEXT,
  // floating point (operands are the IEEE bit patterns)
  O_FADD, O_FSUB, O_FMUL, O_FDIV,
  O_FOEQ, O_FOLT, O_FOLE, O_FUNO,
  O_FPTOSI, O_FPTOUI, O_SITOFP, O_UITOFP, O_FPEXT, O_FPTRUNC,
};

struct Expr {
  Op op;
  uint8_t w;
  bool hasFP;
  bool tainted;          // depends on uninitialised memory
  uint32_t id;
  uint64_t c;            // constant value / symbol id / extract low bit
  const Expr* k[3];
  mutable const std::vector<uint32_t>* syms;  // sorted symbol ids (lazy)
  mutable uint32_t epoch;
  mutable uint64_t val;
};
typedef const Expr* E;

struct SymInfo { std::string name; uint32_t seq; uint8_t w; bool uninit; };
extern std::vector<SymInfo> g_syms;

inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline int64_t sextw(uint64_t v, unsigned w) { return w >= 64 ? (int64_t)v : ((int64_t)(v << (64 - w)) >> (64 - w)); }

E mkConst(unsigned w, uint64_t v);
E mkSym(const std::string& name, uint32_t seq, unsigned w, bool uninit = false);
E mkBin(Op op, E a, E b);
E mkIte(E c, E a, E b);
E mkExtract(E a, unsigned lo, unsigned w);
E mkConcat(E hi, E lo);
E mkZext(E a, unsigned w);
E mkSext(E a, unsigned w);
E mkNot(E a);  // width 1
E mkFUn(Op op, E a, unsigned w);  // conversions
inline bool isC(E e) { return e->op == O_CONST; }

const std::vector<uint32_t>& symsOf(E e);
uint64_t foldBin(Op op, unsigned w, uint64_t a, uint64_t b);
uint64_t foldFUn(Op op, unsigned wi, unsigned wo, uint64_t a);

typedef std::vector<std::pair<uint32_t, uint64_t>> ModelV;  // sorted by symbol id
typedef std::shared_ptr<const ModelV> Model;
uint64_t evalUnder(E e, const ModelV& m);
void newEvalEpoch();
uint64_t evalEpoch(E e, const ModelV& m);  // reuse epoch

std::string exprStr(E e, int depth = 6);
size_t exprCount();
unsigned knownZeroLow(E e);
uint64_t umaxOf(E e);

}  // namespace sx

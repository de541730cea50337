// LLVM IR lowered to a compact register form.
#pragma once
#include "expr.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <unordered_map>
#include <string>
#include <vector>

namespace sx {

struct Val { E e = nullptr; uint64_t c = 0; };  // e == nullptr: concrete

enum IOp : uint16_t {
  I_BIN, I_CMP, I_FCMP, I_FNEG, I_CAST_ZEXT, I_CAST_SEXT, I_CAST_TRUNC, I_CAST_F, I_MOVE, I_SELECT,
  I_GEP, I_LOAD, I_STORE, I_ALLOCA, I_BR, I_CBR, I_SWITCH, I_RET, I_CALL, I_UNREACHABLE,
  I_LANDINGPAD, I_RESUME, I_CMPXCHG, I_RMW, I_FENCE, I_UNSUPPORTED,
};

struct Func; struct Inst;
struct Slot { uint8_t w; uint32_t off; };

struct PhiCopy { int dst; int src; };
struct Edge { int target = 0; std::vector<PhiCopy> copies; };   // target: instruction index

struct GepTerm { int idx; uint8_t w; int64_t scale; };

struct Clause { bool isCatch; bool isNull; int val; std::vector<int> filter; };

struct CallInfo {
  Func* callee = nullptr; int calleeOp = 0; bool indirect = false;
  std::vector<int> args; std::vector<uint8_t> argw;
  std::vector<uint32_t> byvalSize;   // 0 = not byval, per flattened arg
  bool invoke = false; Edge normal, unwind;
  int intrinsic = 0;                 // llvm intrinsic handled inline
  std::string intrName;
  int nfixed = 0;
};

struct Inst {
  IOp op; uint8_t w = 0, w2 = 0; uint16_t sub = 0;
  int dst = -1; int a = 0, b = 0, c = 0;
  int64_t imm = 0;
  uint32_t line = 0; const char* file = nullptr;
  std::vector<Slot> slots;           // load/store/ret/select of (possibly aggregate) values
  std::vector<int> ops;              // flattened operands
  std::vector<GepTerm> terms;
  std::vector<Edge> edges;
  std::vector<std::pair<uint64_t, int>> cases;
  std::vector<Clause> clauses; bool cleanup = false;
  CallInfo* call = nullptr;
};

typedef void (*Builtin)();

struct Func {
  std::string name; llvm::Function* lf = nullptr;
  bool compiled = false; bool isDecl = false;
  int id = 0;
  int nregs = 0; int nargs = 0;
  std::vector<Slot> retSlots;
  std::vector<Inst> code;
  int builtin = -1;
  mutable bool executed = false;
  std::string file; uint32_t line = 0;
};

}  // namespace sx

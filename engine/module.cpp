#include "engine.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/Support/raw_ostream.h>
#include <set>

using namespace llvm;
namespace sx {

std::vector<Val> g_consts;
std::vector<Func*> g_funcs;
static std::unordered_map<const Function*, Func*> fmap;
static std::unordered_map<const GlobalVariable*, uint64_t> gmap;
static const DataLayout* DL;
static LLVMContext ctx;
static std::unique_ptr<Module> M;
static std::map<std::pair<uint64_t, int>, int> constIdx;
std::unordered_map<std::string, uint64_t> g_globalAddr;
std::unordered_map<uint64_t, std::string> g_addrName;

static int constOp(uint64_t v) {
  auto k = std::make_pair(v, 0);
  auto it = constIdx.find(k);
  if (it != constIdx.end()) return it->second;
  Val x; x.c = v; g_consts.push_back(x);
  int r = -(int)g_consts.size();
  constIdx[k] = r;
  return r;
}

static void flattenType(Type* t, uint32_t off, std::vector<Slot>& out) {
  if (t->isVoidTy()) return;
  if (t->isIntegerTy()) { if (t->getIntegerBitWidth() > 64) { out.push_back({255, off}); return; } out.push_back({(uint8_t)t->getIntegerBitWidth(), off}); return; }
  if (t->isPointerTy()) { out.push_back({64, off}); return; }
  if (t->isDoubleTy()) { out.push_back({64, off}); return; }
  if (t->isFloatTy()) { out.push_back({32, off}); return; }
  if (auto* s = dyn_cast<StructType>(t)) {
    const StructLayout* sl = DL->getStructLayout(s);
    for (unsigned i = 0; i < s->getNumElements(); i++) flattenType(s->getElementType(i), off + (uint32_t)sl->getElementOffset(i), out);
    return;
  }
  if (auto* a = dyn_cast<ArrayType>(t)) {
    uint64_t es = DL->getTypeAllocSize(a->getElementType());
    for (uint64_t i = 0; i < a->getNumElements(); i++) flattenType(a->getElementType(), off + (uint32_t)(i * es), out);
    return;
  }
  if (auto* v = dyn_cast<FixedVectorType>(t)) {
    uint64_t es = DL->getTypeAllocSize(v->getElementType());
    for (uint64_t i = 0; i < v->getNumElements(); i++) flattenType(v->getElementType(), off + (uint32_t)(i * es), out);
    return;
  }
  out.push_back({255, off});  // unsupported
}
static unsigned nslots(Type* t) { std::vector<Slot> s; flattenType(t, 0, s); return (unsigned)s.size(); }

Func* getFunc(const Function* f) {
  auto it = fmap.find(f);
  if (it != fmap.end()) return it->second;
  Func* x = new Func; x->name = f->getName().str(); x->lf = const_cast<Function*>(f); x->id = (int)g_funcs.size();
  x->isDecl = f->isDeclaration();
  if (auto* sp = f->getSubprogram()) { x->file = sp->getFilename().str(); x->line = sp->getLine(); }
  g_funcs.push_back(x); fmap[f] = x;
  x->builtin = builtinIndex(x->name);
  if (x->builtin >= 0 && !x->isDecl && !builtinOverrides(x->name)) x->builtin = -1;
  return x;
}
Func* funcByName(const std::string& n) { Function* f = M->getFunction(n); return f ? getFunc(f) : nullptr; }
uint64_t funcAddr(Func* f) { return FUNC_BASE + (uint64_t)f->id * 16; }

static uint64_t evalConst(const Constant* c);
static int64_t constGepOffset(const GEPOperator* g) {
  APInt off(64, 0);
  if (!g->accumulateConstantOffset(*DL, off)) { errs() << "non-const gep const: " << *g << "\n"; abort(); }
  return off.getSExtValue();
}
static uint64_t evalConst(const Constant* c) {
  if (auto* ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() > 64) return ci->getValue().extractBitsAsZExtValue(64, 0); return ci->getZExtValue(); }
  if (auto* cf = dyn_cast<ConstantFP>(c)) return cf->getValueAPF().bitcastToAPInt().getZExtValue();
  if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return 0;
  if (auto* f = dyn_cast<Function>(c)) return funcAddr(getFunc(f));
  if (auto* g = dyn_cast<GlobalVariable>(c)) { auto it = gmap.find(g); if (it == gmap.end()) { errs() << "unknown global " << g->getName() << "\n"; abort(); } return it->second; }
  if (auto* a = dyn_cast<GlobalAlias>(c)) return evalConst(a->getAliasee());
  if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: return evalConst(ce->getOperand(0)) + (uint64_t)constGepOffset(cast<GEPOperator>(ce));
      case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: return evalConst(ce->getOperand(0));
      case Instruction::Trunc: return evalConst(ce->getOperand(0)) & maskw(ce->getType()->getIntegerBitWidth());
      case Instruction::Sub: return evalConst(ce->getOperand(0)) - evalConst(ce->getOperand(1));
      case Instruction::Add: return evalConst(ce->getOperand(0)) + evalConst(ce->getOperand(1));
      default: break;
    }
  }
  if (auto* de = dyn_cast<DSOLocalEquivalent>(c)) return evalConst(de->getGlobalValue());
  errs() << "unsupported constant " << *c << "\n"; abort();
}
static void flattenConst(const Constant* c, std::vector<int>& out) {
  Type* t = c->getType();
  if (t->isStructTy() || t->isArrayTy() || t->isVectorTy()) {
    unsigned n = t->isStructTy() ? t->getStructNumElements() : t->isArrayTy() ? (unsigned)t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
    for (unsigned i = 0; i < n; i++) {
      Constant* e = c->getAggregateElement(i);
      if (!e) { errs() << "bad aggregate const\n"; abort(); }
      flattenConst(e, out);
    }
    return;
  }
  out.push_back(constOp(evalConst(c)));
}
static void initBytes(const Constant* c, uint64_t off, std::vector<uint8_t>& b) {
  Type* t = c->getType();
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
  if (auto* ds = dyn_cast<ConstantDataSequential>(c)) { StringRef r = ds->getRawDataValues(); memcpy(&b[off], r.data(), r.size()); return; }
  if (t->isStructTy()) {
    const StructLayout* sl = DL->getStructLayout(cast<StructType>(t));
    for (unsigned i = 0; i < t->getStructNumElements(); i++) initBytes(c->getAggregateElement(i), off + sl->getElementOffset(i), b);
    return;
  }
  if (t->isArrayTy()) {
    uint64_t es = DL->getTypeAllocSize(t->getArrayElementType());
    for (unsigned i = 0; i < t->getArrayNumElements(); i++) initBytes(c->getAggregateElement(i), off + i * es, b);
    return;
  }
  if (t->isVectorTy()) {
    uint64_t es = DL->getTypeAllocSize(cast<FixedVectorType>(t)->getElementType());
    for (unsigned i = 0; i < cast<FixedVectorType>(t)->getNumElements(); i++) initBytes(c->getAggregateElement(i), off + i * es, b);
    return;
  }
  uint64_t v = evalConst(c); uint64_t n = DL->getTypeStoreSize(t);
  memcpy(&b[off], &v, n);
}

bool loadModule(const std::string& path) {
  SMDiagnostic err;
  M = parseIRFile(path, err, ctx);
  if (!M) { err.print("sx", errs()); return false; }
  DL = &M->getDataLayout();
  return true;
}
// allocate globals, then initialise
void setupGlobals(State& st) {
  for (GlobalVariable& g : M->globals()) {
    if (g.getName() == "llvm.global_ctors" || g.getName() == "llvm.global_dtors" || g.getName() == "llvm.used" || g.getName() == "llvm.compiler.used") continue;
    uint64_t sz = g.getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(g.getValueType()) : 0;
    if (g.isDeclaration() && sz < 128) sz = 128;
    uint64_t a = st.mem.alloc((uint32_t)sz, K_GLOBAL);
    gmap[&g] = a; g_globalAddr[g.getName().str()] = a; g_addrName[a] = g.getName().str();
    st.mem.zero(a);
  }
  for (GlobalVariable& g : M->globals()) {
    auto it = gmap.find(&g);
    if (it == gmap.end() || g.isDeclaration()) continue;
    uint64_t sz = DL->getTypeAllocSize(g.getValueType());
    std::vector<uint8_t> b(sz, 0);
    initBytes(g.getInitializer(), 0, b);
    st.mem.rawWrite(it->second, b.data(), sz);
  }
  for (GlobalVariable& g : M->globals()) if (gmap.count(&g) && g.isConstant() && !g.isDeclaration()) st.mem.setReadonly(gmap[&g]);
}
std::vector<Func*> globalCtors() {
  std::vector<std::pair<uint64_t, Func*>> v;
  if (GlobalVariable* g = M->getGlobalVariable("llvm.global_ctors"))
    if (auto* a = dyn_cast<ConstantArray>(g->getInitializer()))
      for (auto& o : a->operands()) {
        auto* s = cast<ConstantStruct>(o);
        v.push_back({cast<ConstantInt>(s->getOperand(0))->getZExtValue(), getFunc(cast<Function>(s->getOperand(1)->stripPointerCasts()))});
      }
  std::stable_sort(v.begin(), v.end(), [](auto& x, auto& y) { return x.first < y.first; });
  std::vector<Func*> r; for (auto& p : v) r.push_back(p.second);
  return r;
}

struct FC {
  Func* f;
  std::unordered_map<const Value*, int> base;
  std::unordered_map<const BasicBlock*, int> bbStart;
  std::vector<std::pair<size_t, std::pair<const BasicBlock*, const BasicBlock*>>> fixups;
  std::vector<int> ops(const Value* v) {
    std::vector<int> r;
    if (auto* c = dyn_cast<Constant>(v)) { flattenConst(c, r); return r; }
    auto it = base.find(v);
    if (it == base.end()) { errs() << "no reg for " << *v << "\n"; abort(); }
    unsigned n = nslots(v->getType());
    for (unsigned i = 0; i < n; i++) r.push_back(it->second + (int)i);
    return r;
  }
  int op(const Value* v) { auto o = ops(v); if (o.size() != 1) { errs() << "aggregate operand " << *v << "\n"; abort(); } return o[0]; }
};

static uint8_t tw(Type* t) { std::vector<Slot> s; flattenType(t, 0, s); return s.empty() ? 0 : s[0].w; }

static std::set<std::string> fileNames;
static const char* internStr(const std::string& s) { return fileNames.insert(s).first->c_str(); }

void compileFunc(Func* f) {
  if (f->compiled) return;
  f->compiled = true;
  Function* F = f->lf;
  FC fc; fc.f = f;
  int nr = 0;
  for (Argument& a : F->args()) { fc.base[&a] = nr; nr += (int)nslots(a.getType()); }
  f->nargs = nr;
  flattenType(F->getReturnType(), 0, f->retSlots);
  for (BasicBlock& bb : *F) for (Instruction& i : bb) if (!i.getType()->isVoidTy()) { fc.base[&i] = nr; nr += (int)nslots(i.getType()); }
  f->nregs = nr;
  auto mkEdge = [&](BasicBlock* from, BasicBlock* to) {
    Edge e; 
    for (PHINode& p : to->phis()) {
      auto src = fc.ops(p.getIncomingValueForBlock(from));
      int d = fc.base[&p];
      for (size_t k = 0; k < src.size(); k++) e.copies.push_back({d + (int)k, src[k]});
    }
    // target resolved later: store block pointer index through bbStart after layout
    e.target = -1;
    return e;
  };
  struct Fix { size_t inst; int which; BasicBlock* to; };
  std::vector<Fix> fixes;
  for (BasicBlock& bb : *F) {
    fc.bbStart[&bb] = (int)f->code.size();
    for (Instruction& I : bb) {
      if (isa<PHINode>(I)) continue;
      Inst n; n.op = I_UNSUPPORTED;
      if (const DebugLoc& dl = I.getDebugLoc()) { n.line = dl.getLine(); if (auto* sc = dyn_cast_or_null<DIScope>(dl.getScope())) n.file = internStr(sc->getFilename().str()); }
      auto bit = fc.base.find(&I);
      if (bit != fc.base.end()) n.dst = bit->second;
      Type* T = I.getType();
      bool vec = T->isVectorTy();
      for (Use& u : I.operands()) if (u->getType()->isVectorTy()) vec = true;
      if (vec && !isa<LoadInst>(I) && !isa<StoreInst>(I) && !isa<ExtractElementInst>(I) && !isa<InsertElementInst>(I) && !isa<SelectInst>(I)) { f->code.push_back(n); continue; }
      if (auto* bo = dyn_cast<BinaryOperator>(&I)) {
        n.op = I_BIN; n.w = tw(T); n.a = fc.op(bo->getOperand(0)); n.b = fc.op(bo->getOperand(1));
        switch (bo->getOpcode()) {
          case Instruction::Add: n.sub = O_ADD; break; case Instruction::Sub: n.sub = O_SUB; break; case Instruction::Mul: n.sub = O_MUL; break;
          case Instruction::UDiv: n.sub = O_UDIV; break; case Instruction::SDiv: n.sub = O_SDIV; break; case Instruction::URem: n.sub = O_UREM; break; case Instruction::SRem: n.sub = O_SREM; break;
          case Instruction::And: n.sub = O_AND; break; case Instruction::Or: n.sub = O_OR; break; case Instruction::Xor: n.sub = O_XOR; break;
          case Instruction::Shl: n.sub = O_SHL; break; case Instruction::LShr: n.sub = O_LSHR; break; case Instruction::AShr: n.sub = O_ASHR; break;
          case Instruction::FAdd: n.sub = O_FADD; break; case Instruction::FSub: n.sub = O_FSUB; break; case Instruction::FMul: n.sub = O_FMUL; break; case Instruction::FDiv: n.sub = O_FDIV; break;
          default: n.op = I_UNSUPPORTED;
        }
        if (n.w == 255) n.op = I_UNSUPPORTED;
        f->code.push_back(n);
      } else if (auto* ic = dyn_cast<ICmpInst>(&I)) {
        n.op = I_CMP; n.w = tw(ic->getOperand(0)->getType()); n.a = fc.op(ic->getOperand(0)); n.b = fc.op(ic->getOperand(1)); n.sub = ic->getPredicate();
        if (n.w == 255) n.op = I_UNSUPPORTED;
        f->code.push_back(n);
      } else if (auto* fcmp = dyn_cast<FCmpInst>(&I)) {
        n.op = I_FCMP; n.w = tw(fcmp->getOperand(0)->getType()); n.a = fc.op(fcmp->getOperand(0)); n.b = fc.op(fcmp->getOperand(1)); n.sub = fcmp->getPredicate();
        f->code.push_back(n);
      } else if (auto* u = dyn_cast<UnaryOperator>(&I)) {
        if (u->getOpcode() == Instruction::FNeg) { n.op = I_FNEG; n.w = tw(T); n.a = fc.op(u->getOperand(0)); }
        f->code.push_back(n);
      } else if (auto* ca = dyn_cast<CastInst>(&I)) {
        n.w2 = tw(ca->getOperand(0)->getType()); n.w = tw(T); n.a = fc.op(ca->getOperand(0));
        switch (ca->getOpcode()) {
          case Instruction::ZExt: n.op = I_CAST_ZEXT; break;
          case Instruction::SExt: n.op = I_CAST_SEXT; break;
          case Instruction::Trunc: n.op = I_CAST_TRUNC; break;
          case Instruction::PtrToInt: n.op = n.w < 64 ? I_CAST_TRUNC : I_MOVE; break;
          case Instruction::IntToPtr: n.op = n.w2 < 64 ? I_CAST_ZEXT : I_MOVE; break;
          case Instruction::BitCast: case Instruction::AddrSpaceCast: n.op = I_MOVE; break;
          case Instruction::FPToSI: n.op = I_CAST_F; n.sub = O_FPTOSI; break;
          case Instruction::FPToUI: n.op = I_CAST_F; n.sub = O_FPTOUI; break;
          case Instruction::SIToFP: n.op = I_CAST_F; n.sub = O_SITOFP; break;
          case Instruction::UIToFP: n.op = I_CAST_F; n.sub = O_UITOFP; break;
          case Instruction::FPExt: n.op = I_CAST_F; n.sub = O_FPEXT; break;
          case Instruction::FPTrunc: n.op = I_CAST_F; n.sub = O_FPTRUNC; break;
          default: break;
        }
        if (n.w == 255 || n.w2 == 255) n.op = I_UNSUPPORTED;
        if (n.op == I_MOVE) { n.ops = {n.a}; }
        f->code.push_back(n);
      } else if (auto* fr = dyn_cast<FreezeInst>(&I)) {
        n.op = I_MOVE; n.ops = fc.ops(fr->getOperand(0)); f->code.push_back(n);
      } else if (auto* sel = dyn_cast<SelectInst>(&I)) {
        n.op = I_SELECT;
        if (sel->getCondition()->getType()->isVectorTy()) { n.op = I_UNSUPPORTED; f->code.push_back(n); continue; }
        n.a = fc.op(sel->getCondition()); auto x = fc.ops(sel->getTrueValue()), y = fc.ops(sel->getFalseValue());
        flattenType(T, 0, n.slots);
        n.ops = x; n.ops.insert(n.ops.end(), y.begin(), y.end());
        f->code.push_back(n);
      } else if (auto* ev = dyn_cast<ExtractValueInst>(&I)) {
        auto src = fc.ops(ev->getAggregateOperand());
        Type* t = ev->getAggregateOperand()->getType(); unsigned start = 0;
        for (unsigned ix : ev->indices()) {
          for (unsigned k = 0; k < ix; k++) start += nslots(t->isStructTy() ? t->getStructElementType(k) : t->getArrayElementType());
          t = t->isStructTy() ? t->getStructElementType(ix) : t->getArrayElementType();
        }
        n.op = I_MOVE; for (unsigned k = 0; k < nslots(T); k++) n.ops.push_back(src[start + k]);
        f->code.push_back(n);
      } else if (auto* iv = dyn_cast<InsertValueInst>(&I)) {
        auto src = fc.ops(iv->getAggregateOperand()); auto v = fc.ops(iv->getInsertedValueOperand());
        Type* t = T; unsigned start = 0;
        for (unsigned ix : iv->indices()) {
          for (unsigned k = 0; k < ix; k++) start += nslots(t->isStructTy() ? t->getStructElementType(k) : t->getArrayElementType());
          t = t->isStructTy() ? t->getStructElementType(ix) : t->getArrayElementType();
        }
        for (size_t k = 0; k < v.size(); k++) src[start + k] = v[k];
        n.op = I_MOVE; n.ops = src; f->code.push_back(n);
      } else if (auto* ee = dyn_cast<ExtractElementInst>(&I)) {
        if (auto* ix = dyn_cast<ConstantInt>(ee->getIndexOperand())) { auto src = fc.ops(ee->getVectorOperand()); n.op = I_MOVE; n.ops = {src[ix->getZExtValue()]}; }
        f->code.push_back(n);
      } else if (auto* ie = dyn_cast<InsertElementInst>(&I)) {
        if (auto* ix = dyn_cast<ConstantInt>(ie->getOperand(2))) { auto src = fc.ops(ie->getOperand(0)); src[ix->getZExtValue()] = fc.op(ie->getOperand(1)); n.op = I_MOVE; n.ops = src; }
        f->code.push_back(n);
      } else if (auto* g = dyn_cast<GetElementPtrInst>(&I)) {
        n.op = I_GEP; n.a = fc.op(g->getPointerOperand()); n.imm = 0;
        for (gep_type_iterator it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
          Value* ix = it.getOperand();
          if (StructType* s = it.getStructTypeOrNull()) { n.imm += (int64_t)DL->getStructLayout(s)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
          int64_t sc = (int64_t)(uint64_t)DL->getTypeAllocSize(it.getIndexedType());
          if (auto* ci = dyn_cast<ConstantInt>(ix)) { n.imm += ci->getSExtValue() * sc; continue; }
          n.terms.push_back({fc.op(ix), tw(ix->getType()), sc});
        }
        f->code.push_back(n);
      } else if (auto* ld = dyn_cast<LoadInst>(&I)) {
        n.op = I_LOAD; n.sub = !ld->isAtomic() ? 0 : isAtLeastOrStrongerThan(ld->getOrdering(), AtomicOrdering::Acquire) ? 1 : 2; n.a = fc.op(ld->getPointerOperand()); flattenType(T, 0, n.slots);
        for (auto& s : n.slots) if (s.w == 255) n.op = I_UNSUPPORTED;
        f->code.push_back(n);
      } else if (auto* stt = dyn_cast<StoreInst>(&I)) {
        n.op = I_STORE; n.sub = !stt->isAtomic() ? 0 : isAtLeastOrStrongerThan(stt->getOrdering(), AtomicOrdering::Release) ? 1 : 2; n.a = fc.op(stt->getPointerOperand()); n.ops = fc.ops(stt->getValueOperand()); flattenType(stt->getValueOperand()->getType(), 0, n.slots);
        for (auto& s : n.slots) if (s.w == 255) n.op = I_UNSUPPORTED;
        f->code.push_back(n);
      } else if (auto* al = dyn_cast<AllocaInst>(&I)) {
        n.op = I_ALLOCA; n.imm = (int64_t)(uint64_t)DL->getTypeAllocSize(al->getAllocatedType()); n.a = fc.op(al->getArraySize());
        f->code.push_back(n);
      } else if (auto* br = dyn_cast<BranchInst>(&I)) {
        if (br->isConditional()) {
          n.op = I_CBR; n.a = fc.op(br->getCondition());
          n.edges.push_back(mkEdge(&bb, br->getSuccessor(0))); n.edges.push_back(mkEdge(&bb, br->getSuccessor(1)));
          f->code.push_back(n);
          fixes.push_back({f->code.size() - 1, 0, br->getSuccessor(0)}); fixes.push_back({f->code.size() - 1, 1, br->getSuccessor(1)});
        } else {
          n.op = I_BR; n.edges.push_back(mkEdge(&bb, br->getSuccessor(0)));
          f->code.push_back(n); fixes.push_back({f->code.size() - 1, 0, br->getSuccessor(0)});
        }
      } else if (auto* sw = dyn_cast<SwitchInst>(&I)) {
        n.op = I_SWITCH; n.a = fc.op(sw->getCondition()); n.w = tw(sw->getCondition()->getType());
        n.edges.push_back(mkEdge(&bb, sw->getDefaultDest()));
        std::vector<BasicBlock*> tg{sw->getDefaultDest()};
        for (auto& cs : sw->cases()) {
          BasicBlock* s = cs.getCaseSuccessor(); int ix = -1;
          for (size_t k = 0; k < tg.size(); k++) if (tg[k] == s) ix = (int)k;
          if (ix < 0) { ix = (int)tg.size(); tg.push_back(s); n.edges.push_back(mkEdge(&bb, s)); }
          n.cases.push_back({cs.getCaseValue()->getZExtValue(), ix});
        }
        f->code.push_back(n);
        for (size_t k = 0; k < tg.size(); k++) fixes.push_back({f->code.size() - 1, (int)k, tg[k]});
      } else if (auto* rt = dyn_cast<ReturnInst>(&I)) {
        n.op = I_RET; if (rt->getReturnValue()) n.ops = fc.ops(rt->getReturnValue());
        f->code.push_back(n);
      } else if (isa<UnreachableInst>(I)) { n.op = I_UNREACHABLE; f->code.push_back(n);
      } else if (auto* lp = dyn_cast<LandingPadInst>(&I)) {
        n.op = I_LANDINGPAD; n.cleanup = lp->isCleanup();
        for (unsigned k = 0; k < lp->getNumClauses(); k++) {
          Clause c; c.isCatch = lp->isCatch(k); c.isNull = false; c.val = 0;
          Constant* cc = lp->getClause(k);
          if (c.isCatch) { c.isNull = isa<ConstantPointerNull>(cc); c.val = constOp(evalConst(cc)); }
          else flattenConst(cc, c.filter);
          n.clauses.push_back(c);
        }
        f->code.push_back(n);
      } else if (auto* rs = dyn_cast<ResumeInst>(&I)) { n.op = I_RESUME; n.ops = fc.ops(rs->getValue()); f->code.push_back(n);
      } else if (isa<FenceInst>(I)) { n.op = I_FENCE; f->code.push_back(n);
      } else if (auto* cx = dyn_cast<AtomicCmpXchgInst>(&I)) {
        n.op = I_CMPXCHG; n.imm = cx->getSuccessOrdering() == AtomicOrdering::SequentiallyConsistent; n.a = fc.op(cx->getPointerOperand()); n.b = fc.op(cx->getCompareOperand()); n.c = fc.op(cx->getNewValOperand()); n.w = tw(cx->getCompareOperand()->getType());
        f->code.push_back(n);
      } else if (auto* rw = dyn_cast<AtomicRMWInst>(&I)) {
        n.op = I_RMW; n.imm = rw->getOperation() == AtomicRMWInst::Xchg || rw->getOrdering() == AtomicOrdering::SequentiallyConsistent; n.a = fc.op(rw->getPointerOperand()); n.b = fc.op(rw->getValOperand()); n.w = tw(T);
        switch (rw->getOperation()) {
          case AtomicRMWInst::Xchg: n.sub = 0; break; case AtomicRMWInst::Add: n.sub = O_ADD; break; case AtomicRMWInst::Sub: n.sub = O_SUB; break;
          case AtomicRMWInst::And: n.sub = O_AND; break; case AtomicRMWInst::Or: n.sub = O_OR; break; case AtomicRMWInst::Xor: n.sub = O_XOR; break;
          default: n.op = I_UNSUPPORTED;
        }
        f->code.push_back(n);
      } else if (auto* cb = dyn_cast<CallBase>(&I)) {
        if (auto* ii = dyn_cast<IntrinsicInst>(cb)) {
          Intrinsic::ID id = ii->getIntrinsicID();
          if (isa<DbgInfoIntrinsic>(ii) || id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end || id == Intrinsic::assume || id == Intrinsic::experimental_noalias_scope_decl || id == Intrinsic::donothing || id == Intrinsic::invariant_start || id == Intrinsic::invariant_end || id == Intrinsic::prefetch) continue;
        }
        CallInfo* ci = new CallInfo; n.call = ci; n.op = I_CALL;
        flattenType(T, 0, n.slots);
        Value* cv = cb->getCalledOperand()->stripPointerCasts();
        if (auto* al = dyn_cast<GlobalAlias>(cv)) cv = al->getAliasee()->stripPointerCasts();
        if (auto* cf = dyn_cast<Function>(cv)) {
          ci->callee = getFunc(cf);
          if (cf->isIntrinsic()) { ci->intrinsic = (int)cf->getIntrinsicID(); ci->intrName = cf->getName().str(); }
          ci->nfixed = (int)cf->arg_size();
        } else { ci->indirect = true; if (isa<InlineAsm>(cv)) { n.op = I_UNSUPPORTED; f->code.push_back(n); continue; } ci->calleeOp = fc.op(cb->getCalledOperand()); }
        for (unsigned k = 0; k < cb->arg_size(); k++) {
          Value* av = cb->getArgOperand(k);
          if (av->getType()->isMetadataTy()) { continue; }
          auto o = fc.ops(av); std::vector<Slot> ss; flattenType(av->getType(), 0, ss);
          uint32_t bv = cb->isByValArgument(k) ? (uint32_t)(uint64_t)DL->getTypeAllocSize(cb->getParamByValType(k)) : 0;
          for (size_t q = 0; q < o.size(); q++) { ci->args.push_back(o[q]); ci->argw.push_back(ss[q].w); ci->byvalSize.push_back(bv); }
        }
        if (auto* inv = dyn_cast<InvokeInst>(cb)) {
          ci->invoke = true;
          ci->normal = mkEdge(&bb, inv->getNormalDest()); ci->unwind = mkEdge(&bb, inv->getUnwindDest());
          f->code.push_back(n);
          fixes.push_back({f->code.size() - 1, -1, inv->getNormalDest()}); fixes.push_back({f->code.size() - 1, -2, inv->getUnwindDest()});
        } else f->code.push_back(n);
      } else f->code.push_back(n);
    }
  }
  for (auto& fx : fixes) {
    int t = fc.bbStart[fx.to];
    if (fx.which == -1) f->code[fx.inst].call->normal.target = t;
    else if (fx.which == -2) f->code[fx.inst].call->unwind.target = t;
    else f->code[fx.inst].edges[fx.which].target = t;
  }
}
std::string instText(Func* f, int pc) {
  int k = 0; std::string s; raw_string_ostream os(s);
  for (BasicBlock& bb : *f->lf) for (Instruction& I : bb) {
    if (isa<PHINode>(I)) continue;
    if (auto* ii = dyn_cast<IntrinsicInst>(&I)) { auto id = ii->getIntrinsicID(); if (isa<DbgInfoIntrinsic>(ii) || id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end || id == Intrinsic::assume || id == Intrinsic::experimental_noalias_scope_decl || id == Intrinsic::donothing || id == Intrinsic::invariant_start || id == Intrinsic::invariant_end || id == Intrinsic::prefetch) continue; }
    if (k++ == pc) { os << I; return os.str(); }
  }
  return "?";
}
}  // namespace sx

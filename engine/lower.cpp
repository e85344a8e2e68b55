// LLVM IR -> sx bytecode.
#include "sx.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
using namespace llvm;

namespace {
static Expr* const UNDEFV = (Expr*)1;  // marker in constant pools; replaced at load by exec
struct Lower {
  Module& M; const DataLayout& DL; Program& P;
  std::unordered_map<const GlobalValue*, u64> gaddr;
  Lower(Module& m, Program& p) : M(m), DL(m.getDataLayout()), P(p) {}

  unsigned slots(Type* T) {
    if (T->isVoidTy()) return 0;
    if (auto* S = dyn_cast<StructType>(T)) { unsigned n = 0; for (Type* t : S->elements()) n += slots(t); return n; }
    if (auto* A = dyn_cast<ArrayType>(T)) return A->getNumElements() * slots(A->getElementType());
    return 1;
  }
  unsigned bits(Type* T) {
    if (T->isPointerTy()) return 64;
    if (T->isIntegerTy()) return T->getIntegerBitWidth();
    if (T->isDoubleTy()) return 64; if (T->isFloatTy()) return 32;
    return 0;
  }
  unsigned slotOffset(Type* T, ArrayRef<unsigned> idx, Type** out) {
    unsigned off = 0;
    for (unsigned i : idx) {
      if (auto* S = dyn_cast<StructType>(T)) { for (unsigned j = 0; j < i; j++) off += slots(S->getElementType(j)); T = S->getElementType(i); }
      else { auto* A = cast<ArrayType>(T); off += i * slots(A->getElementType()); T = A->getElementType(); }
    }
    *out = T; return off;
  }
  // Evaluate a scalar constant. Returns false if it is undef.
  bool cval(const Constant* C, u64& v) {
    v = 0;
    if (isa<UndefValue>(C)) return false;
    if (auto* I = dyn_cast<ConstantInt>(C)) { v = I->getValue().getLimitedValue(); if (I->getBitWidth() > 64) return false; v = I->getValue().zextOrTrunc(64).getZExtValue(); return true; }
    if (isa<ConstantPointerNull>(C)) return true;
    if (auto* F = dyn_cast<ConstantFP>(C)) { v = F->getValueAPF().bitcastToAPInt().getLimitedValue(); return true; }
    if (auto* G = dyn_cast<GlobalValue>(C)) { if (auto* A = dyn_cast<GlobalAlias>(G)) return cval(A->getAliasee(), v); auto it = gaddr.find(G); if (it == gaddr.end()) { errs() << "no address for " << G->getName() << "\n"; return true; } v = it->second; return true; }
    if (auto* E = dyn_cast<ConstantExpr>(C)) {
      if (auto* GEP = dyn_cast<GEPOperator>(E)) {
        u64 b; if (!cval(cast<Constant>(GEP->getPointerOperand()), b)) return false;
        APInt off(64, 0); if (GEP->accumulateConstantOffset(DL, off)) { v = b + off.getSExtValue(); return true; }
        return true;
      }
      u64 a, b;
      switch (E->getOpcode()) {
        case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: return cval(E->getOperand(0), v);
        case Instruction::Trunc: if (!cval(E->getOperand(0), a)) return false; v = a & maskw(bits(E->getType())); return true;
        case Instruction::Add: if (!cval(E->getOperand(0), a) || !cval(E->getOperand(1), b)) return false; v = a + b; return true;
        case Instruction::Sub: if (!cval(E->getOperand(0), a) || !cval(E->getOperand(1), b)) return false; v = a - b; return true;
        default: errs() << "constexpr? " << *E << "\n"; return true;
      }
    }
    errs() << "const? " << *C << "\n"; return true;
  }
  void initBytes(const Constant* C, std::vector<u8>& d, std::vector<u8>& un, u64 off) {
    Type* T = C->getType();
    if (isa<UndefValue>(C)) { for (u64 i = 0; i < DL.getTypeStoreSize(T); i++) un[off + i] = 1; return; }
    if (isa<ConstantAggregateZero>(C)) return;
    if (auto* CD = dyn_cast<ConstantDataSequential>(C)) { u64 es = DL.getTypeAllocSize(CD->getElementType()); for (unsigned i = 0; i < CD->getNumElements(); i++) { u64 v = 0; cval(CD->getElementAsConstant(i), v); memcpy(&d[off + i * es], &v, es); } return; }
    if (auto* S = dyn_cast<ConstantStruct>(C)) { auto* L = DL.getStructLayout(S->getType()); for (unsigned i = 0; i < S->getNumOperands(); i++) initBytes(S->getOperand(i), d, un, off + L->getElementOffset(i)); return; }
    if (auto* A = dyn_cast<ConstantArray>(C)) { u64 es = DL.getTypeAllocSize(A->getType()->getElementType()); for (unsigned i = 0; i < A->getNumOperands(); i++) initBytes(A->getOperand(i), d, un, off + i * es); return; }
    u64 v; if (!cval(C, v)) { for (u64 i = 0; i < DL.getTypeStoreSize(T); i++) un[off + i] = 1; return; }
    memcpy(&d[off], &v, std::min<u64>(8, DL.getTypeStoreSize(T)));
  }

  struct FL {
    Lower& L; Function& F; Func& O;
    std::unordered_map<const Value*, i32> slot;
    std::map<std::pair<u64, bool>, i32> cpool;
    u32 nslots = 0, maxTemp = 0, tempBase = 0;
    std::unordered_map<const BasicBlock*, u32> bstart;
    struct Fix { u32 ins; int which; const BasicBlock* from; const BasicBlock* to; u32 sw; int ci; };
    std::vector<Fix> fixes;
    FL(Lower& l, Function& f, Func& o) : L(l), F(f), O(o) {}
    i32 cst(u64 v, bool undef = false) {
      auto it = cpool.find({v, undef}); if (it != cpool.end()) return it->second;
      i32 id = ~(i32)O.consts.size(); O.consts.push_back(Val{v, undef ? UNDEFV : nullptr}); cpool[{v, undef}] = id; return id;
    }
    i32 opnd(const Value* V, unsigned sub = 0) {
      if (auto* C = dyn_cast<Constant>(V)) {
        if (C->getType()->isAggregateType()) {
          if (isa<UndefValue>(C)) return cst(0, true);
          if (isa<ConstantAggregateZero>(C)) return cst(0);
          // find sub
          unsigned k = 0; for (unsigned i = 0; i < C->getNumOperands(); i++) { unsigned n = L.slots(C->getOperand(i)->getType()); if (sub < k + n) return opnd(C->getOperand(i), sub - k); k += n; }
        }
        u64 v; bool ok = L.cval(C, v); unsigned w = L.bits(C->getType()); return cst(v & maskw(w ? w : 64), !ok);
      }
      auto it = slot.find(V);
      if (it == slot.end()) { L.P.unsup.push_back("operand in " + O.name); return cst(0); }
      return it->second + sub;
    }
    Ins& emit(u16 op) { O.code.push_back(Ins{}); O.code.back().op = op; return O.code.back(); }
    void unsup(const Instruction& I) { std::string s; raw_string_ostream os(s); os << I; Ins& n = emit(I_UNSUP); n.x = L.P.unsup.size(); L.P.unsup.push_back(O.name + ": " + s); }

    void assignSlots() {
      for (auto& A : F.args()) { slot[&A] = nslots; nslots += L.slots(A.getType()); }
      O.nparams = nslots;
      // Values used only inside their own block share per-block temporaries.
      std::vector<std::pair<const BasicBlock*, std::vector<const Instruction*>>> temps;
      for (auto& B : F) {
        std::vector<const Instruction*> tv;
        for (auto& I : B) {
          unsigned n = L.slots(I.getType()); if (!n) continue;
          bool local = !isa<PHINode>(I);
          if (local) for (auto* U : I.users()) { auto* UI = cast<Instruction>(U); if (UI->getParent() != &B || isa<PHINode>(UI)) { local = false; break; } }
          if (local) tv.push_back(&I); else { slot[&I] = nslots; nslots += n; }
        }
        temps.push_back({&B, tv});
      }
      tempBase = nslots; u32 mx = 0;
      for (auto& p : temps) {
        // linear scan with free list per slot count 1
        std::unordered_map<const Instruction*, const Instruction*> lastUse; std::vector<i32> freeS; u32 top = 0;
        std::unordered_map<const Instruction*, std::vector<const Instruction*>> dies; std::set<const Instruction*> isT(p.second.begin(), p.second.end());
        for (auto& I : *p.first) for (auto& op : I.operands()) if (auto* OI = dyn_cast<Instruction>(op)) if (isT.count(OI)) lastUse[OI] = &I;
        for (auto& kv : lastUse) dies[kv.second].push_back(kv.first);
        for (auto& I : *p.first) {
          // allocate result before freeing operands so that multi-step lowerings never clobber an operand
          if (isT.count(&I)) { unsigned n = L.slots(I.getType()); if (n == 1 && !freeS.empty()) { slot[&I] = freeS.back(); freeS.pop_back(); } else { slot[&I] = tempBase + top; top += n; } }
          auto d = dies.find(&I); if (d != dies.end()) for (auto* x : d->second) if (L.slots(x->getType()) == 1) freeS.push_back(slot[x]);
          if (isT.count(&I) && !lastUse.count(&I) && L.slots(I.getType()) == 1) freeS.push_back(slot[&I]);
        }
        mx = std::max(mx, top);
      }
      nslots = tempBase + mx;
    }
    void edgeMoves(const BasicBlock* from, const BasicBlock* to, u32 scratch, u32& maxScratch) {
      std::vector<std::pair<i32, i32>> mv;
      for (auto& Phi : to->phis()) { const Value* V = Phi.getIncomingValueForBlock(from); unsigned n = L.slots(Phi.getType()); for (unsigned i = 0; i < n; i++) { i32 s = opnd(V, i), d = slot[&Phi] + i; if (s != d) mv.push_back({d, s}); } }
      std::set<i32> dsts; for (auto& m : mv) dsts.insert(m.first);
      bool hazard = false; for (auto& m : mv) if (m.second >= 0 && dsts.count(m.second)) hazard = true;
      if (!hazard) { for (auto& m : mv) { Ins& n = emit(I_MOV); n.dst = m.first; n.a = m.second; } }
      else { u32 k = 0; for (auto& m : mv) { Ins& n = emit(I_MOV); n.dst = scratch + k++; n.a = m.second; } k = 0; for (auto& m : mv) { Ins& n = emit(I_MOV); n.dst = m.first; n.a = scratch + k++; } maxScratch = std::max(maxScratch, k); }
    }
    void gep(GEPOperator* G, i32 dst) {
      Ins n{}; n.op = I_GEP; n.dst = dst; n.a = opnd(G->getPointerOperand()); n.x = O.geps.size(); i64 off = 0; u16 cnt = 0;
      for (auto GTI = gep_type_begin(G), E = gep_type_end(G); GTI != E; ++GTI) {
        Value* Idx = GTI.getOperand();
        if (StructType* S = GTI.getStructTypeOrNull()) { off += L.DL.getStructLayout(S)->getElementOffset(cast<ConstantInt>(Idx)->getZExtValue()); continue; }
        u64 es = GTI.getSequentialElementStride(L.DL);
        if (auto* CI = dyn_cast<ConstantInt>(Idx)) { off += CI->getSExtValue() * (i64)es; continue; }
        O.geps.push_back(GepTerm{opnd(Idx), (i64)es, (u8)L.bits(Idx->getType())}); cnt++;
      }
      n.imm = (u64)off; n.n = cnt; O.code.push_back(n);
    }
    void call(CallBase& CB) {
      Value* callee = CB.getCalledOperand()->stripPointerCasts();
      i32 dst = CB.getType()->isVoidTy() ? -1 : slot[&CB];
      if (auto* II = dyn_cast<IntrinsicInst>(&CB)) {
        switch (II->getIntrinsicID()) {
          case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label:
          case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::donothing: case Intrinsic::prefetch: case Intrinsic::stackrestore: return;
          case Intrinsic::stacksave: { Ins& n = emit(I_MOV); n.dst = dst; n.a = cst(0); return; }
          case Intrinsic::memcpy: case Intrinsic::memcpy_inline: case Intrinsic::memmove: case Intrinsic::memset: {
            Ins n{}; n.op = II->getIntrinsicID() == Intrinsic::memset ? I_MEMSET : II->getIntrinsicID() == Intrinsic::memmove ? I_MEMMOVE : I_MEMCPY;
            n.a = opnd(CB.getArgOperand(0)); n.b = opnd(CB.getArgOperand(1)); n.c = opnd(CB.getArgOperand(2)); O.code.push_back(n); return; }
          case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::threadlocal_address: case Intrinsic::expect_with_probability: case Intrinsic::annotation: case Intrinsic::ptr_annotation: {
            i32 a = opnd(CB.getArgOperand(0)); Ins& n = emit(I_MOV); n.dst = dst; n.a = a; return; }
          case Intrinsic::is_constant: case Intrinsic::eh_typeid_for: { Ins& n = emit(I_MOV); n.dst = dst; n.a = cst(0); return; }
          case Intrinsic::objectsize: { Ins& n = emit(I_MOV); n.dst = dst; n.a = cst(~0ull); return; }
          case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: { Ins& n = emit(I_UNREACHABLE); n.imm = 1; return; }
          case Intrinsic::umax: case Intrinsic::umin: case Intrinsic::smax: case Intrinsic::smin: case Intrinsic::abs: case Intrinsic::usub_sat: case Intrinsic::uadd_sat: {
            Ins n{}; n.op = I_MINMAX; n.dst = dst; n.a = opnd(CB.getArgOperand(0)); n.b = opnd(CB.getArgOperand(1)); n.w = L.bits(CB.getType());
            switch (II->getIntrinsicID()) { case Intrinsic::umax: n.sub = 0; break; case Intrinsic::umin: n.sub = 1; break; case Intrinsic::smax: n.sub = 2; break; case Intrinsic::smin: n.sub = 3; break; case Intrinsic::abs: n.sub = 4; break; case Intrinsic::usub_sat: n.sub = 5; break; default: n.sub = 6; }
            if (n.w == 0) { unsup(CB); return; } O.code.push_back(n); return; }
          case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
            Ins n{}; n.op = I_OVF; n.dst = dst; n.a = opnd(CB.getArgOperand(0)); n.b = opnd(CB.getArgOperand(1)); n.w = L.bits(CB.getArgOperand(0)->getType());
            switch (II->getIntrinsicID()) { case Intrinsic::uadd_with_overflow: n.sub = 0; break; case Intrinsic::usub_with_overflow: n.sub = 1; break; case Intrinsic::umul_with_overflow: n.sub = 2; break; case Intrinsic::sadd_with_overflow: n.sub = 3; break; case Intrinsic::ssub_with_overflow: n.sub = 4; break; default: n.sub = 5; }
            O.code.push_back(n); return; }
          case Intrinsic::ctlz: case Intrinsic::cttz: case Intrinsic::ctpop: case Intrinsic::bswap: case Intrinsic::fshl: case Intrinsic::fshr: {
            Ins n{}; n.op = I_BITOP; n.dst = dst; n.w = L.bits(CB.getType()); n.a = opnd(CB.getArgOperand(0)); if (CB.arg_size() > 1) n.b = opnd(CB.getArgOperand(1)); if (CB.arg_size() > 2) n.c = opnd(CB.getArgOperand(2));
            switch (II->getIntrinsicID()) { case Intrinsic::ctlz: n.sub = 0; break; case Intrinsic::cttz: n.sub = 1; break; case Intrinsic::ctpop: n.sub = 2; break; case Intrinsic::bswap: n.sub = 3; break; case Intrinsic::fshl: n.sub = 4; break; default: n.sub = 5; }
            O.code.push_back(n); return; }
          case Intrinsic::fabs: case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::trunc: case Intrinsic::sqrt: {
            Ins n{}; n.op = I_FBIN; n.dst = dst; n.w = L.bits(CB.getType()); n.a = n.b = opnd(CB.getArgOperand(0)); n.sub = II->getIntrinsicID() == Intrinsic::fabs ? 10 : II->getIntrinsicID() == Intrinsic::floor ? 11 : II->getIntrinsicID() == Intrinsic::ceil ? 12 : II->getIntrinsicID() == Intrinsic::trunc ? 13 : 14; O.code.push_back(n); return; }
          case Intrinsic::fmuladd: case Intrinsic::fma: { Ins n{}; n.op = I_FBIN; n.dst = dst; n.w = L.bits(CB.getType()); n.sub = 20; n.a = opnd(CB.getArgOperand(0)); n.b = opnd(CB.getArgOperand(1)); n.c = opnd(CB.getArgOperand(2)); O.code.push_back(n); return; }
          default: unsup(CB); return;
        }
      }
      if (isa<InlineAsm>(callee)) { if (CB.getType()->isVoidTy()) return; unsup(CB); return; }
      CallInfo ci;
      for (unsigned i = 0; i < CB.arg_size(); i++) {
        Value* A = CB.getArgOperand(i); unsigned n = L.slots(A->getType());
        u32 bv = CB.isByValArgument(i) ? (u32)L.DL.getTypeAllocSize(CB.getParamByValType(i)) : 0;
        for (unsigned j = 0; j < n; j++) { ci.args.push_back(opnd(A, j)); ci.w.push_back(n == 1 ? L.bits(A->getType()) : 64); ci.byval.push_back(bv); }
      }
      Ins n{}; n.dst = dst; n.x = O.calls.size(); O.calls.push_back(ci); n.w = L.slots(CB.getType()); n.w2 = L.bits(CB.getType());
      if (auto* Fn = dyn_cast<Function>(callee)) { n.op = I_CALL; n.imm = (L.gaddr[Fn] - FN_BASE) >> 32; }
      else if (auto* GA = dyn_cast<GlobalAlias>(callee)) { auto* Fn2 = dyn_cast<Function>(GA->getAliaseeObject()); n.op = I_CALL; n.imm = (L.gaddr[Fn2] - FN_BASE) >> 32; }
      else { n.op = I_ICALL; n.a = opnd(CB.getCalledOperand()); }
      O.code.push_back(n);
    }
    void run() {
      assignSlots();
      u32 scratch = nslots, maxScratch = 0;
      for (auto& B : F) {
        bstart[&B] = O.code.size(); O.blockCount++;
        for (auto& I : B) {
          i32 dst = L.slots(I.getType()) ? slot[&I] : -1;
          if (I.getType()->isVectorTy()) { unsup(I); continue; }
          if (auto* CB = dyn_cast<CallBase>(&I)) {
            call(*CB);
            if (auto* IV = dyn_cast<InvokeInst>(&I)) { fixes.push_back({(u32)O.code.size(), 0, &B, IV->getNormalDest(), 0, 0}); emit(I_BR); }
            continue;
          }
          switch (I.getOpcode()) {
            case Instruction::PHI: break;
            case Instruction::Alloca: { auto& A = cast<AllocaInst>(I); Ins n{}; n.op = I_ALLOCA; n.dst = dst; n.imm = L.DL.getTypeAllocSize(A.getAllocatedType()); n.a = opnd(A.getArraySize()); O.code.push_back(n); break; }
            case Instruction::Load: {
              auto& Ld = cast<LoadInst>(I); Type* T = I.getType();
              if (T->isAggregateType()) { unsup(I); break; }
              Ins n{}; n.op = I_LOAD; n.dst = dst; n.a = opnd(Ld.getPointerOperand()); n.w = L.bits(T); n.w2 = L.DL.getTypeStoreSize(T); if (!n.w) { unsup(I); break; } O.code.push_back(n); break; }
            case Instruction::Store: {
              auto& St = cast<StoreInst>(I); Type* T = St.getValueOperand()->getType();
              if (T->isAggregateType() || T->isVectorTy()) { unsup(I); break; }
              Ins n{}; n.op = I_STORE; n.a = opnd(St.getPointerOperand()); n.b = opnd(St.getValueOperand()); n.w = L.bits(T); n.w2 = L.DL.getTypeStoreSize(T); if (!n.w) { unsup(I); break; } O.code.push_back(n); break; }
            case Instruction::GetElementPtr: gep(cast<GEPOperator>(&I), dst); break;
            case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
              Ins n{}; n.op = I_BIN; n.dst = dst; n.w = L.bits(I.getType()); n.a = opnd(I.getOperand(0)); n.b = opnd(I.getOperand(1));
              switch (I.getOpcode()) { case Instruction::Add: n.sub = O_ADD; break; case Instruction::Sub: n.sub = O_SUB; break; case Instruction::Mul: n.sub = O_MUL; break; case Instruction::UDiv: n.sub = O_UDIV; break; case Instruction::SDiv: n.sub = O_SDIV; break; case Instruction::URem: n.sub = O_UREM; break; case Instruction::SRem: n.sub = O_SREM; break; case Instruction::And: n.sub = O_AND; break; case Instruction::Or: n.sub = O_OR; break; case Instruction::Xor: n.sub = O_XOR; break; case Instruction::Shl: n.sub = O_SHL; break; case Instruction::LShr: n.sub = O_LSHR; break; default: n.sub = O_ASHR; }
              if (I.getType()->getIntegerBitWidth() > 64) { unsup(I); break; }
              if (auto* ob = dyn_cast<OverflowingBinaryOperator>(&I)) n.flags = ob->hasNoSignedWrap() && (n.sub == O_ADD || n.sub == O_SUB || n.sub == O_MUL);
              O.code.push_back(n); break; }
            case Instruction::ICmp: {
              auto& C = cast<ICmpInst>(I); Ins n{}; n.op = I_ICMP; n.dst = dst; n.w = L.bits(C.getOperand(0)->getType()); if (!n.w) { unsup(I); break; }
              i32 a = opnd(C.getOperand(0)), b = opnd(C.getOperand(1));
              switch (C.getPredicate()) {
                case ICmpInst::ICMP_EQ: n.sub = O_EQ; break; case ICmpInst::ICMP_NE: n.sub = O_EQ; n.flags = 1; break;
                case ICmpInst::ICMP_ULT: n.sub = O_ULT; break; case ICmpInst::ICMP_ULE: n.sub = O_ULE; break;
                case ICmpInst::ICMP_UGT: n.sub = O_ULT; std::swap(a, b); break; case ICmpInst::ICMP_UGE: n.sub = O_ULE; std::swap(a, b); break;
                case ICmpInst::ICMP_SLT: n.sub = O_SLT; break; case ICmpInst::ICMP_SLE: n.sub = O_SLE; break;
                case ICmpInst::ICMP_SGT: n.sub = O_SLT; std::swap(a, b); break; default: n.sub = O_SLE; std::swap(a, b); break;
              }
              n.a = a; n.b = b; O.code.push_back(n); break; }
            case Instruction::FCmp: { auto& C = cast<FCmpInst>(I); Ins n{}; n.op = I_FCMP; n.dst = dst; n.w = L.bits(C.getOperand(0)->getType()); n.sub = C.getPredicate(); n.a = opnd(C.getOperand(0)); n.b = opnd(C.getOperand(1)); if (!n.w) { unsup(I); break; } O.code.push_back(n); break; }
            case Instruction::Select: { unsigned ns = L.slots(I.getType()); unsigned w = L.bits(I.getType()); for (unsigned i = 0; i < ns; i++) { Ins n{}; n.op = I_SELECT; n.dst = dst + i; n.w = ns == 1 ? w : 64; n.a = opnd(I.getOperand(0)); n.b = opnd(I.getOperand(1), i); n.c = opnd(I.getOperand(2), i); O.code.push_back(n); } break; }
            case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: { Ins n{}; n.op = I.getOpcode() == Instruction::ZExt ? I_ZEXT : I.getOpcode() == Instruction::SExt ? I_SEXT : I_TRUNC; n.dst = dst; n.w = L.bits(I.getType()); n.w2 = L.bits(I.getOperand(0)->getType()); if (I.getOperand(0)->getType()->getIntegerBitWidth() > 64 || I.getType()->getIntegerBitWidth() > 64) { unsup(I); break; } n.a = opnd(I.getOperand(0)); O.code.push_back(n); break; }
            case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::Freeze: case Instruction::AddrSpaceCast: {
              unsigned w = L.bits(I.getType()), w2 = L.bits(I.getOperand(0)->getType());
              if (!w || !w2) { unsigned ns = L.slots(I.getType()); if (I.getOpcode() != Instruction::Freeze) { unsup(I); break; } for (unsigned i = 0; i < ns; i++) { Ins n{}; n.op = I_MOV; n.dst = dst + i; n.a = opnd(I.getOperand(0), i); O.code.push_back(n); } break; }
              Ins n{}; n.op = w == w2 ? I_MOV : w > w2 ? I_ZEXT : I_TRUNC; n.dst = dst; n.w = w; n.w2 = w2; n.a = opnd(I.getOperand(0)); O.code.push_back(n); break; }
            case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: case Instruction::FNeg: {
              Ins n{}; n.op = I_FBIN; n.dst = dst; n.w = L.bits(I.getType()); n.a = opnd(I.getOperand(0)); n.b = I.getNumOperands() > 1 ? opnd(I.getOperand(1)) : n.a;
              switch (I.getOpcode()) { case Instruction::FAdd: n.sub = 0; break; case Instruction::FSub: n.sub = 1; break; case Instruction::FMul: n.sub = 2; break; case Instruction::FDiv: n.sub = 3; break; case Instruction::FRem: n.sub = 4; break; default: n.sub = 5; }
              if (!n.w) { unsup(I); break; } O.code.push_back(n); break; }
            case Instruction::FPExt: case Instruction::FPTrunc: case Instruction::FPToUI: case Instruction::FPToSI: case Instruction::UIToFP: case Instruction::SIToFP: {
              Ins n{}; n.op = I_FCAST; n.dst = dst; n.w = L.bits(I.getType()); n.w2 = L.bits(I.getOperand(0)->getType()); n.a = opnd(I.getOperand(0)); if (!n.w || !n.w2) { unsup(I); break; }
              switch (I.getOpcode()) { case Instruction::FPExt: n.sub = 0; break; case Instruction::FPTrunc: n.sub = 1; break; case Instruction::FPToUI: n.sub = 2; break; case Instruction::FPToSI: n.sub = 3; break; case Instruction::UIToFP: n.sub = 4; break; default: n.sub = 5; }
              O.code.push_back(n); break; }
            case Instruction::ExtractValue: { auto& E = cast<ExtractValueInst>(I); Type* T; unsigned off = L.slotOffset(E.getAggregateOperand()->getType(), E.getIndices(), &T); unsigned ns = L.slots(T); for (unsigned i = 0; i < ns; i++) { Ins n{}; n.op = I_MOV; n.dst = dst + i; n.a = opnd(E.getAggregateOperand(), off + i); O.code.push_back(n); } break; }
            case Instruction::InsertValue: { auto& E = cast<InsertValueInst>(I); Type* T; Type* AT = I.getType(); unsigned off = L.slotOffset(AT, E.getIndices(), &T); unsigned ns = L.slots(AT), k = L.slots(T); for (unsigned i = 0; i < ns; i++) { Ins n{}; n.op = I_MOV; n.dst = dst + i; n.a = (i >= off && i < off + k) ? opnd(E.getInsertedValueOperand(), i - off) : opnd(E.getAggregateOperand(), i); O.code.push_back(n); } break; }
            case Instruction::Br: {
              auto& Br = cast<BranchInst>(I);
              if (Br.isUnconditional()) { fixes.push_back({(u32)O.code.size(), 0, &B, Br.getSuccessor(0), 0, 0}); emit(I_BR); }
              else { Ins n{}; n.op = I_CONDBR; n.a = opnd(Br.getCondition()); fixes.push_back({(u32)O.code.size(), 1, &B, Br.getSuccessor(0), 0, 0}); fixes.push_back({(u32)O.code.size(), 2, &B, Br.getSuccessor(1), 0, 0}); O.code.push_back(n); }
              break; }
            case Instruction::Switch: {
              auto& S = cast<SwitchInst>(I); Ins n{}; n.op = I_SWITCH; n.a = opnd(S.getCondition()); n.w = L.bits(S.getCondition()->getType()); n.x = O.switches.size(); SwitchTab st; int ci = 0;
              fixes.push_back({(u32)O.code.size(), 3, &B, S.getDefaultDest(), n.x, -1});
              for (auto& c : S.cases()) { st.cases.push_back({c.getCaseValue()->getZExtValue() & maskw(n.w), 0}); fixes.push_back({(u32)O.code.size(), 3, &B, c.getCaseSuccessor(), n.x, ci++}); }
              O.switches.push_back(st); O.code.push_back(n); break; }
            case Instruction::Ret: { Ins n{}; n.op = I_RET; unsigned ns = I.getNumOperands() ? L.slots(I.getOperand(0)->getType()) : 0; n.n = ns; n.x = O.calls.size(); CallInfo ci; for (unsigned i = 0; i < ns; i++) ci.args.push_back(opnd(I.getOperand(0), i)); O.calls.push_back(ci); O.code.push_back(n); break; }
            case Instruction::Unreachable: emit(I_UNREACHABLE); break;
            case Instruction::LandingPad: case Instruction::Resume: { Ins& n = emit(I_UNREACHABLE); n.imm = 2; break; }
            case Instruction::Fence: break;
            case Instruction::AtomicRMW: case Instruction::AtomicCmpXchg: default: unsup(I); break;
          }
        }
      }
      // edges
      std::map<std::pair<const BasicBlock*, const BasicBlock*>, u32> stub;
      for (auto& f : fixes) {
        u32 target;
        if (f.to->phis().empty()) target = bstart[f.to];
        else { auto key = std::make_pair(f.from, f.to); auto it = stub.find(key); if (it != stub.end()) target = it->second; else { target = O.code.size(); edgeMoves(f.from, f.to, scratch, maxScratch); Ins& n = emit(I_BR); n.b = bstart[f.to]; stub[key] = target; } }
        Ins& n = O.code[f.ins];
        if (f.which == 0) n.b = target; else if (f.which == 1) n.b = target; else if (f.which == 2) n.c = target;
        else if (f.ci < 0) O.switches[f.sw].def = target; else O.switches[f.sw].cases[f.ci].second = target;
      }
      for (auto& s : O.switches) std::sort(s.cases.begin(), s.cases.end());
      O.nregs = nslots + maxScratch;
    }
  };

  bool run(std::string& err) {
    for (auto& G : M.globals()) { gaddr[&G] = (u64)(P.globals.size() + 1) << 32; GlobalInit gi; gi.name = G.getName().str(); gi.size = DL.getTypeAllocSize(G.getValueType()); gi.ro = G.isConstant(); gi.tls = G.isThreadLocal(); gi.external = G.isDeclaration(); P.gidx[gi.name] = P.globals.size(); P.globals.push_back(gi); }
    for (auto& F : M) { if (F.isIntrinsic()) continue; Func* f = new Func(); f->name = F.getName().str(); f->pretty = demangle(f->name); f->id = P.funcs.size(); f->defined = !F.isDeclaration(); f->nregs = f->nparams = 0; f->blockCount = 0; f->builtin = -1; f->stub = -1; f->isModel = F.getSection() == "sxmodel"; f->harnessFn = false; for (const char* h : {"Ref::", "RLex::", "Match::", "Checker::", "job_", "checkText", "checkTokens"}) if (!f->pretty.compare(0, strlen(h), h)) f->harnessFn = true; P.fidx[f->name] = f->id; P.funcs.push_back(f); gaddr[&F] = FN_BASE + ((u64)f->id << 32); }
    for (auto& G : M.globals()) { GlobalInit& gi = P.globals[(gaddr[&G] >> 32) - 1]; gi.data.assign(gi.size, 0); gi.undef.assign(gi.size, 0); if (G.hasInitializer()) initBytes(G.getInitializer(), gi.data, gi.undef, 0); }
    for (auto& F : M) { if (F.isDeclaration()) continue; Func* O = P.funcs[P.fidx[F.getName().str()]]; FL fl(*this, F, *O); O->retSlots = slots(F.getReturnType()); fl.run(); }
    if (auto* GC = M.getGlobalVariable("llvm.global_ctors")) if (GC->hasInitializer()) if (auto* CA = dyn_cast<ConstantArray>(GC->getInitializer())) {
      std::vector<std::pair<u64, u32>> v; for (auto& op : CA->operands()) { auto* S = cast<ConstantStruct>(op); auto* Fn = dyn_cast<Function>(S->getOperand(1)); if (!Fn) continue; v.push_back({cast<ConstantInt>(S->getOperand(0))->getZExtValue(), P.fidx[Fn->getName().str()]}); }
      std::stable_sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.first < b.first; }); for (auto& p : v) P.ctors.push_back(p.second);
    }
    return true;
  }
};
}  // namespace

bool lowerModule(const std::string& path, Program& P, std::string& err) {
  static LLVMContext C; SMDiagnostic D;
  static std::unique_ptr<Module> M; M = parseIRFile(path, D, C);
  if (!M) { err = D.getMessage().str(); return false; }
  Lower L(*M, P); return L.run(err);
}

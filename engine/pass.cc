// LLVM 18 pass plugin: shadow-term instrumentation for symbolic execution.
// Every scalar SSA value v gets a shadow (void*): a Z3 term, or null when v is concrete.
#include "llvm/ADT/PostOrderIterator.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstVisitor.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/PassManager.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Transforms/Utils/LowerSwitch.h"
#include "llvm/Transforms/Utils/ModuleUtils.h"
#include <map>
#include <set>
#include <string>
using namespace llvm;

namespace {
const std::set<std::string> Models = {
  "exp","log","pow","sin","cos","tan","sinh","cosh","tanh","asin","acos","atan","asinh","acosh","atanh","atan2",
  "expm1","log1p","log10","log2","exp2","erf","erfc","tgamma","lgamma","cbrt","hypot","cabs","sqrt","fabs","floor","ceil","fmod","fmin","fmax","round","trunc","rint","nearbyint","ldexp","frexp","modf",
  "expq","logq","powq","sqrtq","fabsq","expm1q","log1pq","sinq","cosq","tanhq","floorq","ceilq","isnanq","isinfq","finiteq",
  "sqrtl","fabsl","expl","logl","powl",
  "memcpy","memmove","memset","memcmp","bcmp","strlen","memchr","__divdc3","__muldc3","__divtc3","__multc3","realloc"};

struct Inst {
  Module &M; LLVMContext &C; const DataLayout &DL;
  PointerType *P; Type *I64, *I32, *I1, *Vd, *Dbl, *Q;
  GlobalVariable *Args, *ArgsFn, *Ret, *RetFn;
  Inst(Module &m) : M(m), C(m.getContext()), DL(m.getDataLayout()) {
    P = PointerType::get(C, 0); I64 = Type::getInt64Ty(C); I32 = Type::getInt32Ty(C); I1 = Type::getInt1Ty(C);
    Vd = Type::getVoidTy(C); Dbl = Type::getDoubleTy(C); Q = Type::getFP128Ty(C);
    auto g = [&](const char *n, Type *t) { auto *x = dyn_cast_or_null<GlobalVariable>(M.getNamedValue(n));
      return x ? x : new GlobalVariable(M, t, false, GlobalValue::ExternalLinkage, nullptr, n); };
    Args = g("__se_args", ArrayType::get(P, 128)); ArgsFn = g("__se_args_fn", P);
    Ret = g("__se_ret", ArrayType::get(P, 16)); RetFn = g("__se_ret_fn", P);
  }
  FunctionCallee fn(const char *n, Type *r, ArrayRef<Type *> a) { return M.getOrInsertFunction(n, FunctionType::get(r, a, false)); }
  Type *shTy(Type *t) {
    if (auto *s = dyn_cast<StructType>(t)) { SmallVector<Type *, 4> e; for (auto *x : s->elements()) e.push_back(shTy(x)); return StructType::get(C, e); }
    if (auto *a = dyn_cast<ArrayType>(t)) return ArrayType::get(shTy(a->getElementType()), a->getNumElements());
    return P;
  }
  static bool isF(Type *t) { return t->isFloatTy() || t->isDoubleTy() || t->isX86_FP80Ty() || t->isFP128Ty(); }
  static bool isI(Type *t) { return t->isIntegerTy() && t->getIntegerBitWidth() <= 64; }
  static bool isAgg(Type *t) { return t->isStructTy() || t->isArrayTy(); }
  static bool sup(Type *t) { return isF(t) || isI(t) || t->isPointerTy(); }

  struct FnCtx {
    Inst &G; Function &F; std::map<Value *, Value *> S; std::vector<std::pair<PHINode *, PHINode *>> phis;
    FnCtx(Inst &g, Function &f) : G(g), F(f) {}
    Value *sh(Value *v) {
      if (isa<Constant>(v) || isa<InlineAsm>(v) || isa<MetadataAsValue>(v)) return Constant::getNullValue(G.shTy(v->getType()));
      auto it = S.find(v); if (it != S.end()) return it->second;
      return Constant::getNullValue(G.shTy(v->getType()));
    }
    static bool cn(Value *s) { return isa<Constant>(s); }
    Value *i64(IRBuilder<> &B, Value *v) {
      Type *t = v->getType();
      if (t->isPointerTy()) return B.CreatePtrToInt(v, G.I64);
      return B.CreateZExtOrTrunc(v, G.I64);
    }
    Value *dbl(IRBuilder<> &B, Value *v, bool &q) { // q: pass as fp128
      Type *t = v->getType();
      if (q) return t->isFP128Ty() ? v : B.CreateFPExt(v, G.Q);
      return t->isDoubleTy() ? v : B.CreateFPExt(v, G.Dbl);
    }
    static bool isQ(Type *t) { return t->isX86_FP80Ty() || t->isFP128Ty(); }
    unsigned bits(Type *t) { return t->isPointerTy() ? 64 : t->isIntegerTy() ? t->getIntegerBitWidth() : 0; }
    // FP kind code: 0 float 1 double 2 x86 3 fp128
    unsigned fk(Type *t) { return t->isFloatTy() ? 0 : t->isDoubleTy() ? 1 : t->isX86_FP80Ty() ? 2 : 3; }
    void lost(IRBuilder<> &B, Value *s, const char *why) {
      if (cn(s)) return;
      if (isAgg(s->getType())) { unsigned n = s->getType()->isStructTy() ? s->getType()->getStructNumElements() : s->getType()->getArrayNumElements();
        for (unsigned i = 0; i < n; i++) lost(B, B.CreateExtractValue(s, i), why); return; }
      B.CreateCall(G.fn("__se_lost", G.Vd, {G.P, G.P}), {s, B.CreateGlobalStringPtr(why)});
    }
    // flatten/unflatten aggregates of shadows into slots
    void storeSlots(IRBuilder<> &B, GlobalVariable *arr, unsigned &slot, Value *s) {
      if (isAgg(s->getType())) { unsigned n = s->getType()->isStructTy() ? s->getType()->getStructNumElements() : s->getType()->getArrayNumElements();
        for (unsigned i = 0; i < n; i++) storeSlots(B, arr, slot, B.CreateExtractValue(s, i)); return; }
      if (slot < arr->getValueType()->getArrayNumElements()) B.CreateStore(s, B.CreateConstGEP2_64(arr->getValueType(), arr, 0, slot));
      slot++;
    }
    Value *loadSlots(IRBuilder<> &B, GlobalVariable *arr, unsigned &slot, Type *sty, Value *ok) {
      if (isAgg(sty)) { Value *r = Constant::getNullValue(sty); unsigned n = sty->isStructTy() ? sty->getStructNumElements() : sty->getArrayNumElements();
        for (unsigned i = 0; i < n; i++) r = B.CreateInsertValue(r, loadSlots(B, arr, slot, sty->isStructTy() ? sty->getStructElementType(i) : sty->getArrayElementType(), ok), i);
        return r; }
      Value *r = Constant::getNullValue(G.P);
      if (slot < arr->getValueType()->getArrayNumElements()) r = B.CreateSelect(ok, B.CreateLoad(G.P, B.CreateConstGEP2_64(arr->getValueType(), arr, 0, slot)), r);
      slot++; return r;
    }
    Value *loadMem(IRBuilder<> &B, Value *ptr, Type *t) { // shadow of a loaded value
      if (isAgg(t)) { Value *r = Constant::getNullValue(G.shTy(t)); unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements();
        for (unsigned i = 0; i < n; i++) { Type *et = t->isStructTy() ? t->getStructElementType(i) : t->getArrayElementType();
          Value *p = B.CreateConstInBoundsGEP2_32(t, ptr, 0, i); r = B.CreateInsertValue(r, loadMem(B, p, et), i); }
        return r; }
      uint64_t sz = G.DL.getTypeStoreSize(t);
      if (!sup(t)) { B.CreateCall(G.fn("__se_load_unsup", G.Vd, {G.P, G.I64}), {ptr, B.getInt64(sz)}); return Constant::getNullValue(G.P); }
      return B.CreateCall(G.fn("__se_load", G.P, {G.P, G.I64, G.I32}), {ptr, B.getInt64(sz), B.getInt32(t->isIntegerTy(1) ? 2 : isF(t) ? 1 : 0)});
    }
    void storeMem(IRBuilder<> &B, Value *ptr, Value *s, Type *t) {
      if (isAgg(t)) { unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements();
        for (unsigned i = 0; i < n; i++) { Type *et = t->isStructTy() ? t->getStructElementType(i) : t->getArrayElementType();
          storeMem(B, B.CreateConstInBoundsGEP2_32(t, ptr, 0, i), B.CreateExtractValue(s, i), et); }
        return; }
      uint64_t sz = G.DL.getTypeStoreSize(t);
      B.CreateCall(G.fn("__se_store", G.Vd, {G.P, G.I64, G.P}), {ptr, B.getInt64(sz), sup(t) ? s : Constant::getNullValue(G.P)});
    }
    Value *concPtr(IRBuilder<> &B, Value *ptr) { Value *s = sh(ptr); if (cn(s)) return ptr;
      return B.CreateCall(G.fn("__se_concptr", G.P, {G.P, G.P}), {s, ptr}); }
    Value *concInt(IRBuilder<> &B, Value *v) { Value *s = sh(v); if (cn(s)) return v;
      Value *r = B.CreateCall(G.fn("__se_concint", G.I64, {G.P, G.I64, G.I32}), {s, i64(B, v), B.getInt32(bits(v->getType()))});
      return B.CreateZExtOrTrunc(r, v->getType()); }

    void run() {
      { std::vector<InvokeInst *> iv; for (auto &b : F) for (auto &i : b) if (auto *x = dyn_cast<InvokeInst>(&i)) iv.push_back(x);
        for (auto *x : iv) SplitEdge(x->getParent(), x->getNormalDest()); }
      std::vector<Instruction *> W; for (auto &b : F) for (auto &i : b) W.push_back(&i);
      // entry
      {
        IRBuilder<> B(&*F.getEntryBlock().getFirstInsertionPt());
        std::string nm = F.getName().str();
        auto *st = StructType::get(G.C, {G.I64, G.P, G.P});
        Constant *n1 = B.CreateGlobalStringPtr(nm); Constant *n2 = B.CreateGlobalStringPtr(G.M.getSourceFileName());
        auto *gv = new GlobalVariable(G.M, st, false, GlobalValue::PrivateLinkage, ConstantStruct::get(st, {cast<Constant>(B.getInt64(0)), n1, n2}), "__se_fninfo");
        B.CreateCall(G.fn("__se_enter", G.Vd, {G.P}), {gv});
        if (F.arg_size()) {
          Value *cur = B.CreateLoad(G.P, G.ArgsFn); Value *ok = B.CreateICmpEQ(cur, &F);
          unsigned slot = 0;
          for (auto &a : F.args()) {
            if (a.hasByValAttr()) {
              Value *src = B.CreateSelect(ok, B.CreateLoad(G.P, B.CreateConstGEP2_64(G.Args->getValueType(), G.Args, 0, slot)), Constant::getNullValue(G.P)); slot++;
              B.CreateCall(G.fn("__se_byval", G.Vd, {G.P, G.P, G.I64}), {&a, src, B.getInt64(G.DL.getTypeAllocSize(a.getParamByValType()))});
              continue;
            }
            S[&a] = loadSlots(B, G.Args, slot, G.shTy(a.getType()), ok);
          }
          B.CreateStore(B.CreateSelect(ok, Constant::getNullValue(G.P), cur), G.ArgsFn);
        }
      }
      // phis first (placeholders)
      for (auto *I : W) if (auto *ph = dyn_cast<PHINode>(I)) {
        auto *np = PHINode::Create(G.shTy(ph->getType()), ph->getNumIncomingValues(), "", ph); S[ph] = np; phis.push_back({ph, np}); }
      // values must be visited in dominance order: use RPO
      ReversePostOrderTraversal<Function *> RPO(&F);
      std::vector<Instruction *> ord; std::set<Instruction *> Ws(W.begin(), W.end());
      for (auto *b : RPO) for (auto &i : *b) if (Ws.count(&i)) ord.push_back(&i);
      for (auto *I : ord) visit(I);
      for (auto &p : phis) for (unsigned i = 0; i < p.first->getNumIncomingValues(); i++)
        p.second->addIncoming(sh(p.first->getIncomingValue(i)), p.first->getIncomingBlock(i));
    }

    void visit(Instruction *I) {
      IRBuilder<> B(I); Type *T = I->getType();
      if (isa<PHINode>(I)) return;
      if (auto *ai = dyn_cast<AllocaInst>(I)) {
        // clear stale shadow
        IRBuilder<> A(I->getNextNode());
        Value *n = A.CreateMul(A.CreateZExtOrTrunc(ai->getArraySize(), G.I64), A.getInt64(G.DL.getTypeAllocSize(ai->getAllocatedType())));
        A.CreateCall(G.fn("__se_clear", G.Vd, {G.P, G.I64}), {ai, n}); return; }
      if (auto *li = dyn_cast<LoadInst>(I)) {
        Value *ps = sh(li->getPointerOperand());
        if (!cn(ps) && sup(T)) {
          Value *r = B.CreateCall(G.fn("__se_load_sym", G.P, {G.P, G.P, G.I64, G.I32, G.P}),
            {ps, li->getPointerOperand(), B.getInt64(G.DL.getTypeStoreSize(T)), B.getInt32(T->isIntegerTy(1) ? 2 : isF(T) ? 1 : 0), slotPtr(B)});
          Value *np = B.CreateLoad(G.P, slotPtr(B)); li->setOperand(0, np); S[I] = r; return; }
        Value *p = concPtr(B, li->getPointerOperand()); if (p != li->getPointerOperand()) li->setOperand(0, p);
        S[I] = loadMem(B, p, T); return; }
      if (auto *si = dyn_cast<StoreInst>(I)) {
        Value *p = concPtr(B, si->getPointerOperand()); if (p != si->getPointerOperand()) si->setOperand(1, p);
        storeMem(B, p, sh(si->getValueOperand()), si->getValueOperand()->getType()); return; }
      if (auto *bo = dyn_cast<BinaryOperator>(I)) {
        Value *a = bo->getOperand(0), *b = bo->getOperand(1), *sa = sh(a), *sb = sh(b);
        if (cn(sa) && cn(sb)) return;
        if (isF(T)) { bool q = isQ(T);
          S[I] = B.CreateCall(G.fn(q ? "__se_fbinq" : "__se_fbin", G.P, {G.I32, G.I32, G.P, G.P, q ? G.Q : G.Dbl, q ? G.Q : G.Dbl}),
            {B.getInt32(bo->getOpcode()), B.getInt32(fk(T)), sa, sb, dbl(B, a, q), dbl(B, b, q)}); return; }
        if (isI(T)) {
          unsigned op = bo->getOpcode();
          if (op == Instruction::SDiv || op == Instruction::UDiv || op == Instruction::SRem || op == Instruction::URem) {
            if (!cn(sb)) { Value *nb = concInt(B, b); bo->setOperand(1, nb); b = nb; sb = Constant::getNullValue(G.P); if (cn(sa)) return; }
            // signed overflow of a garbage concrete dividend cannot trap except INT_MIN / -1
          }
          S[I] = B.CreateCall(G.fn("__se_ibin", G.P, {G.I32, G.I32, G.P, G.P, G.I64, G.I64}),
            {B.getInt32(op), B.getInt32(bits(T)), sa, sb, i64(B, a), i64(B, b)}); return; }
        lost(B, sa, "binop type"); lost(B, sb, "binop type"); return; }
      if (auto *uo = dyn_cast<UnaryOperator>(I)) { // fneg
        Value *sa = sh(uo->getOperand(0)); if (cn(sa)) return;
        if (!isF(T)) { lost(B, sa, "unop"); return; }
        S[I] = B.CreateCall(G.fn("__se_fneg", G.P, {G.P}), {sa}); return; }
      if (auto *ci = dyn_cast<ICmpInst>(I)) {
        Value *a = ci->getOperand(0), *b = ci->getOperand(1), *sa = sh(a), *sb = sh(b); if (cn(sa) && cn(sb)) return;
        if (!isI(a->getType()) && !a->getType()->isPointerTy()) { lost(B, sa, "icmp type"); lost(B, sb, "icmp type"); return; }
        S[I] = B.CreateCall(G.fn("__se_icmp", G.P, {G.I32, G.I32, G.P, G.P, G.I64, G.I64}),
          {B.getInt32(ci->getPredicate()), B.getInt32(bits(a->getType())), sa, sb, i64(B, a), i64(B, b)}); return; }
      if (auto *ci = dyn_cast<FCmpInst>(I)) {
        Value *a = ci->getOperand(0), *b = ci->getOperand(1), *sa = sh(a), *sb = sh(b); if (cn(sa) && cn(sb)) return;
        if (!isF(a->getType())) { lost(B, sa, "fcmp type"); lost(B, sb, "fcmp type"); return; }
        bool q = isQ(a->getType());
        S[I] = B.CreateCall(G.fn(q ? "__se_fcmpq" : "__se_fcmp", G.P, {G.I32, G.I32, G.P, G.P, q ? G.Q : G.Dbl, q ? G.Q : G.Dbl}),
          {B.getInt32(ci->getPredicate()), B.getInt32(fk(a->getType())), sa, sb, dbl(B, a, q), dbl(B, b, q)}); return; }
      if (auto *ci = dyn_cast<CastInst>(I)) {
        Value *a = ci->getOperand(0), *sa = sh(a); if (cn(sa)) return;
        Type *ST = a->getType();
        if (!sup(ST) || !sup(T)) { lost(B, sa, "cast type"); return; }
        unsigned sk = isF(ST) ? 100 + fk(ST) : bits(ST), dk = isF(T) ? 100 + fk(T) : bits(T);
        S[I] = B.CreateCall(G.fn("__se_cast", G.P, {G.I32, G.I32, G.I32, G.P}), {B.getInt32(ci->getOpcode()), B.getInt32(sk), B.getInt32(dk), sa}); return; }
      if (auto *se = dyn_cast<SelectInst>(I)) {
        Value *c = se->getCondition(), *a = se->getTrueValue(), *b = se->getFalseValue();
        Value *sc = sh(c), *sa = sh(a), *sb = sh(b);
        if (!c->getType()->isIntegerTy(1)) { lost(B, sa, "vector select"); lost(B, sb, "vector select"); return; }
        if (cn(sc)) { if (!(cn(sa) && cn(sb))) S[I] = B.CreateSelect(c, sa, sb); return; }
        if (!sup(T)) { // decide the condition by forking
          Value *nc = B.CreateCall(G.fn("__se_branch", G.I32, {G.P, G.I32}), {sc, B.CreateZExt(c, G.I32)});
          nc = B.CreateICmpNE(nc, B.getInt32(0)); se->setCondition(nc); if (!(cn(sa) && cn(sb))) S[I] = B.CreateSelect(nc, sa, sb); return; }
        if (isF(T)) { bool q = isQ(T);
          S[I] = B.CreateCall(G.fn(q ? "__se_fselq" : "__se_fsel", G.P, {G.I32, G.P, G.I32, G.P, G.P, q ? G.Q : G.Dbl, q ? G.Q : G.Dbl}),
            {B.getInt32(fk(T)), sc, B.CreateZExt(c, G.I32), sa, sb, dbl(B, a, q), dbl(B, b, q)}); return; }
        S[I] = B.CreateCall(G.fn("__se_isel", G.P, {G.I32, G.P, G.I32, G.P, G.P, G.I64, G.I64}),
          {B.getInt32(bits(T)), sc, B.CreateZExt(c, G.I32), sa, sb, i64(B, a), i64(B, b)}); return; }
      if (auto *gp = dyn_cast<GetElementPtrInst>(I)) {
        if (!T->isPointerTy()) return;
        Value *acc = nullptr; IRBuilder<> A(I->getNextNode());
        Value *sb = sh(gp->getPointerOperand());
        auto add = [&](Value *s, Value *v, unsigned bts, uint64_t scale) {
          if (!acc) acc = Constant::getNullValue(G.P);
          acc = A.CreateCall(G.fn("__se_gepadd", G.P, {G.P, G.P, G.I64, G.I32, G.I64, G.P}), {acc, s, i64s(A, v), A.getInt32(bts), A.getInt64(scale), gp}); };
        if (!cn(sb)) add(sb, gp->getPointerOperand(), 64, 1);
        for (auto gti = gep_type_begin(gp), e = gep_type_end(gp); gti != e; ++gti) {
          Value *idx = gti.getOperand(); if (isa<Constant>(idx)) continue; if (gti.getStructTypeOrNull()) continue;
          Value *s = sh(idx); if (cn(s)) continue;
          add(s, idx, bits(idx->getType()), G.DL.getTypeAllocSize(gti.getIndexedType())); }
        if (acc) S[I] = acc; return; }
      if (auto *ev = dyn_cast<ExtractValueInst>(I)) { Value *s = sh(ev->getAggregateOperand()); if (cn(s)) return; S[I] = B.CreateExtractValue(s, ev->getIndices()); return; }
      if (auto *iv = dyn_cast<InsertValueInst>(I)) { Value *s = sh(iv->getAggregateOperand()), *v = sh(iv->getInsertedValueOperand()); if (cn(s) && cn(v)) return; S[I] = B.CreateInsertValue(s, v, iv->getIndices()); return; }
      if (isa<FreezeInst>(I)) { S[I] = sh(I->getOperand(0)); return; }
      if (auto *br = dyn_cast<BranchInst>(I)) {
        if (!br->isConditional()) return; Value *s = sh(br->getCondition()); if (cn(s)) return;
        Value *c = B.CreateCall(G.fn("__se_branch", G.I32, {G.P, G.I32}), {s, B.CreateZExt(br->getCondition(), G.I32)});
        br->setCondition(B.CreateICmpNE(c, B.getInt32(0))); return; }
      if (auto *sw = dyn_cast<SwitchInst>(I)) { Value *nc = concInt(B, sw->getCondition()); sw->setCondition(nc); return; }
      if (auto *ri = dyn_cast<ReturnInst>(I)) {
        if (!ri->getReturnValue()) return;
        if (auto *pi = dyn_cast_or_null<CallInst>(I->getPrevNode())) if (pi->isMustTailCall()) return;
        Value *s = sh(ri->getReturnValue());
        if (cn(s)) { B.CreateStore(Constant::getNullValue(G.P), G.RetFn); return; }
        B.CreateStore(&F, G.RetFn); unsigned slot = 0; storeSlots(B, G.Ret, slot, s); return; }
      if (auto *cb = dyn_cast<CallBase>(I)) { visitCall(cb); return; }
      if (isa<InsertElementInst>(I)) { lost(B, sh(I->getOperand(1)), "insertelement"); return; }
      if (auto *rm = dyn_cast<AtomicRMWInst>(I)) { lost(B, sh(rm->getValOperand()), "atomicrmw"); lost(B, sh(rm->getPointerOperand()), "atomicrmw"); return; }
      if (auto *cx = dyn_cast<AtomicCmpXchgInst>(I)) { lost(B, sh(cx->getNewValOperand()), "cmpxchg"); return; }
    }
    Value *i64s(IRBuilder<> &B, Value *v) { if (v->getType()->isPointerTy()) return B.CreatePtrToInt(v, G.I64); return B.CreateSExtOrTrunc(v, G.I64); }
    AllocaInst *slotA = nullptr;
    Value *slotPtr(IRBuilder<> &) { if (!slotA) { IRBuilder<> E(&*F.getEntryBlock().getFirstInsertionPt()); slotA = E.CreateAlloca(G.P); } return slotA; }

    void visitCall(CallBase *cb) {
      IRBuilder<> B(cb); Type *T = cb->getType();
      if (cb->isInlineAsm()) { for (auto &a : cb->args()) lost(B, sh(a), "inline asm"); return; }
      if (auto *mi = dyn_cast<MemTransferInst>(cb)) {
        Value *d = concPtr(B, mi->getRawDest()), *s = concPtr(B, mi->getRawSource()), *n = concInt(B, mi->getLength());
        mi->setArgOperand(0, d); mi->setArgOperand(1, s); mi->setArgOperand(2, n);
        B.CreateCall(G.fn("__se_memmove", G.Vd, {G.P, G.P, G.I64}), {d, s, B.CreateZExtOrTrunc(n, G.I64)}); return; }
      if (auto *ms = dyn_cast<MemSetInst>(cb)) {
        Value *d = concPtr(B, ms->getRawDest()), *n = concInt(B, ms->getLength());
        ms->setArgOperand(0, d); ms->setArgOperand(2, n);
        Value *sv = sh(ms->getValue());
        B.CreateCall(G.fn("__se_memset", G.Vd, {G.P, G.P, G.I64}), {d, sv, B.CreateZExtOrTrunc(n, G.I64)}); return; }
      Function *cf = cb->getCalledFunction();
      if (cf && cf->isIntrinsic()) { visitIntr(cb, cf); return; }
      if (cf && cf->isDeclaration() && Models.count(cf->getName().str())) {
        auto nf = G.M.getOrInsertFunction(("__se_m_" + cf->getName()).str(), cf->getFunctionType());
        cb->setCalledFunction(nf); cf = dyn_cast<Function>(nf.getCallee()); }
      if (auto *ci = dyn_cast<CallInst>(cb)) if (ci->isMustTailCall()) return;
      Value *callee = cb->getCalledOperand();
      if (!cf) { Value *s = sh(callee); if (!cn(s)) { callee = concPtr(B, callee); cb->setCalledOperand(callee); } }
      bool any = false; unsigned nfix = cb->getFunctionType()->getNumParams();
      for (unsigned i = 0; i < cb->arg_size(); i++) { if (cb->isByValArgument(i) || !cn(sh(cb->getArgOperand(i)))) any = true; }
      unsigned slot = 0;
      if (any) {
        B.CreateStore(callee, G.ArgsFn);
        for (unsigned i = 0; i < cb->arg_size(); i++) {
          Value *a = cb->getArgOperand(i);
          if (i >= nfix) { lost(B, sh(a), cf && cf->getName() == "quadmath_snprintf" ? "number as text" : "variadic argument"); continue; }
          if (cb->isByValArgument(i)) { B.CreateStore(a, B.CreateConstGEP2_64(G.Args->getValueType(), G.Args, 0, slot)); slot++; continue; }
          if (a->getType()->isMetadataTy()) continue;
          storeSlots(B, G.Args, slot, sh(a)); }
      }
      bool hasRet = !T->isVoidTy();
      if (hasRet) B.CreateStore(Constant::getNullValue(G.P), G.RetFn);
      Instruction *ip;
      if (auto *iv = dyn_cast<InvokeInst>(cb)) {
        ip = &*iv->getNormalDest()->getFirstInsertionPt();
      } else ip = cb->getNextNode();
      IRBuilder<> A(ip);
      if (any) {
        bool onlyByval = true;
        for (unsigned i = 0; i < cb->arg_size(); i++) if (!cb->isByValArgument(i) && !cn(sh(cb->getArgOperand(i)))) onlyByval = false;
        if (!onlyByval) {
          uint64_t bymask = 0; unsigned sl = 0;
          for (unsigned i = 0; i < cb->arg_size() && sl < 64; i++) { if (cb->isByValArgument(i)) bymask |= 1ull << sl; sl++; }
          A.CreateCall(G.fn("__se_aftercall", G.Vd, {G.P, G.I32, G.I64, G.P}), {callee, A.getInt32(slot), A.getInt64(bymask),
            A.CreateGlobalStringPtr(cf ? cf->getName() : "indirect")}); }
      }
      if (hasRet && sup2(T)) {
        Value *ok = A.CreateICmpEQ(A.CreateLoad(G.P, G.RetFn), callee); unsigned rs = 0;
        S[cb] = loadSlots(A, G.Ret, rs, G.shTy(T), ok);
      }
    }
    bool sup2(Type *t) { if (isAgg(t)) return true; return sup(t); }
    void visitIntr(CallBase *cb, Function *cf) {
      IRBuilder<> B(cb); Type *T = cb->getType(); auto id = cf->getIntrinsicID();
      auto F3 = [&](int code) {
        Value *s[3], *v[3]; bool q = isQ(T), any = false;
        for (unsigned i = 0; i < 3; i++) { if (i < cb->arg_size()) { s[i] = sh(cb->getArgOperand(i)); v[i] = cb->getArgOperand(i); if (!cn(s[i])) any = true; v[i] = dbl(B, v[i], q); }
          else { s[i] = Constant::getNullValue(G.P); v[i] = Constant::getNullValue(q ? G.Q : G.Dbl); } }
        if (!any) return;
        Type *D = q ? G.Q : G.Dbl;
        S[cb] = B.CreateCall(G.fn(q ? "__se_fintrq" : "__se_fintr", G.P, {G.I32, G.I32, G.P, G.P, G.P, D, D, D}), {B.getInt32(code), B.getInt32(fk(T)), s[0], s[1], s[2], v[0], v[1], v[2]}); };
      auto I3 = [&](int code, unsigned n) {
        Value *s[3], *v[3]; bool any = false;
        for (unsigned i = 0; i < 3; i++) { if (i < n) { s[i] = sh(cb->getArgOperand(i)); v[i] = i64(B, cb->getArgOperand(i)); if (!cn(s[i])) any = true; }
          else { s[i] = Constant::getNullValue(G.P); v[i] = B.getInt64(0); } }
        if (!any) return;
        S[cb] = B.CreateCall(G.fn("__se_iintr", G.P, {G.I32, G.I32, G.P, G.P, G.P, G.I64, G.I64, G.I64}), {B.getInt32(code), B.getInt32(bits(T)), s[0], s[1], s[2], v[0], v[1], v[2]}); };
      auto OV = [&](int code) {
        Value *sa = sh(cb->getArgOperand(0)), *sb = sh(cb->getArgOperand(1)); if (cn(sa) && cn(sb)) return;
        Value *a = cb->getArgOperand(0), *b = cb->getArgOperand(1); unsigned bt = bits(a->getType());
        Value *r = B.CreateCall(G.fn("__se_iintr", G.P, {G.I32, G.I32, G.P, G.P, G.P, G.I64, G.I64, G.I64}), {B.getInt32(code), B.getInt32(bt), sa, sb, Constant::getNullValue(G.P), i64(B, a), i64(B, b), B.getInt64(0)});
        Value *o = B.CreateCall(G.fn("__se_iintr", G.P, {G.I32, G.I32, G.P, G.P, G.P, G.I64, G.I64, G.I64}), {B.getInt32(code + 50), B.getInt32(bt), sa, sb, Constant::getNullValue(G.P), i64(B, a), i64(B, b), B.getInt64(0)});
        Value *agg = Constant::getNullValue(G.shTy(T)); agg = B.CreateInsertValue(agg, r, 0); agg = B.CreateInsertValue(agg, o, 1); S[cb] = agg; };
      if (isF(T)) switch (id) {
        case Intrinsic::fabs: return F3(1); case Intrinsic::sqrt: return F3(2); case Intrinsic::floor: return F3(3); case Intrinsic::ceil: return F3(4);
        case Intrinsic::minnum: case Intrinsic::minimum: return F3(5); case Intrinsic::maxnum: case Intrinsic::maximum: return F3(6); case Intrinsic::copysign: return F3(7);
        case Intrinsic::fma: case Intrinsic::fmuladd: return F3(8); case Intrinsic::exp: return F3(9); case Intrinsic::log: return F3(10); case Intrinsic::pow: return F3(11);
        case Intrinsic::trunc: return F3(12); case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::round: return F3(13);
        default: break; }
      if (isI(T)) switch (id) {
        case Intrinsic::umin: return I3(1, 2); case Intrinsic::umax: return I3(2, 2); case Intrinsic::smin: return I3(3, 2); case Intrinsic::smax: return I3(4, 2);
        case Intrinsic::abs: return I3(5, 1); case Intrinsic::usub_sat: return I3(6, 2); case Intrinsic::uadd_sat: return I3(7, 2);
        case Intrinsic::fshl: return I3(8, 3); case Intrinsic::fshr: return I3(9, 3); case Intrinsic::bswap: return I3(10, 1);
        case Intrinsic::is_fpclass: { Value *s = sh(cb->getArgOperand(0)); if (cn(s)) return; S[cb] = B.CreateCall(G.fn("__se_fpclass", G.P, {G.P, G.I32}), {s, cb->getArgOperand(1)}); return; }
        case Intrinsic::expect: S[cb] = sh(cb->getArgOperand(0)); return;
        default: break; }
      if (T->isStructTy() && cb->arg_size() == 2 && isI(cb->getArgOperand(0)->getType())) switch (id) {
        case Intrinsic::uadd_with_overflow: return OV(20); case Intrinsic::sadd_with_overflow: return OV(21); case Intrinsic::usub_with_overflow: return OV(22);
        case Intrinsic::ssub_with_overflow: return OV(23); case Intrinsic::umul_with_overflow: return OV(24); case Intrinsic::smul_with_overflow: return OV(25); default: break; }
      switch (id) { // no data effect
        case Intrinsic::lifetime_start: // stack slots are shared: clear what the previous owner left
          if (auto *sz = dyn_cast<ConstantInt>(cb->getArgOperand(0)); sz && !sz->isMinusOne()) B.CreateCall(G.fn("__se_clear", G.Vd, {G.P, G.I64}), {cb->getArgOperand(1), cb->getArgOperand(0)});
          return;
        case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::dbg_value: case Intrinsic::dbg_declare: case Intrinsic::dbg_label:
        case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::donothing: return;
        case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: S[cb] = sh(cb->getArgOperand(0)); return;
        default: break; }
      for (auto &a : cb->args()) if (!a->getType()->isMetadataTy()) lost(B, sh(a), cf->getName().str().c_str());
    }
  };

  Value *G(Function &f) { return M.getOrInsertFunction(("__se_m_" + f.getName()).str(), f.getFunctionType()).getCallee(); }
  void run() {
    std::vector<Function *> fs;
    for (auto &f : M) { if (f.isDeclaration()) continue; if (f.getName().starts_with("__se_") || f.hasFnAttribute(Attribute::Naked)) continue; fs.push_back(&f); }
    for (auto &f : M) { // instrumented code has side effects
      f.removeFnAttr(Attribute::Memory); f.removeFnAttr(Attribute::Speculatable); f.removeFnAttr(Attribute::WillReturn); f.removeFnAttr(Attribute::NoSync); f.removeFnAttr(Attribute::NoFree); }
    { std::vector<Function *> ms; for (auto &f : M) if (f.isDeclaration() && Models.count(f.getName().str()) && f.hasAddressTaken()) ms.push_back(&f); // function pointers
      for (auto *f : ms) f->replaceAllUsesWith(G(*f)); }
    for (auto *f : fs) {
      for (auto &b : *f) for (auto &i : b) if (auto *cb = dyn_cast<CallBase>(&i)) { cb->removeFnAttr(Attribute::Memory); cb->removeFnAttr(Attribute::WillReturn); cb->removeFnAttr(Attribute::NoSync);
        if (auto *ci = dyn_cast<CallInst>(cb)) if (ci->isTailCall() && !ci->isMustTailCall()) ci->setTailCallKind(CallInst::TCK_None); }
      // drop llvm.assume: branches are forced, so assumes may not hold for the (irrelevant) concrete values
      std::vector<Instruction *> del; for (auto &b : *f) for (auto &i : b) if (auto *ii = dyn_cast<IntrinsicInst>(&i)) if (ii->getIntrinsicID() == Intrinsic::assume) del.push_back(&i);
      for (auto *d : del) d->eraseFromParent();
      FnCtx(*this, *f).run();
    }
  }
};

struct SEPass : PassInfoMixin<SEPass> {
  PreservedAnalyses run(Module &M, ModuleAnalysisManager &) { Inst(M).run(); return PreservedAnalyses::none(); }
  static bool isRequired() { return true; }
};
} // namespace
extern "C" ::llvm::PassPluginLibraryInfo LLVM_ATTRIBUTE_WEAK llvmGetPassPluginInfo() {
  return {LLVM_PLUGIN_API_VERSION, "se", "1", [](PassBuilder &PB) {
    PB.registerOptimizerLastEPCallback([](ModulePassManager &MPM, OptimizationLevel) {
      MPM.addPass(createModuleToFunctionPassAdaptor(LowerSwitchPass())); MPM.addPass(SEPass()); }); }};
}

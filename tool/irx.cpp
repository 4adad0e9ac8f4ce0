#include <functional>
// irx: read LLVM bitcode, optionally run a pass pipeline, dump the resolved
// program as JSON (functions, CFG, SSA instructions, byte-exact address
// arithmetic, debug locations, struct layouts, constant initialisers).
// Nothing of the analysed program is executed.
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/JSON.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Transforms/IPO/AlwaysInliner.h"
#include <fstream>
#include "llvm/Linker/Linker.h"
#include "llvm/IR/Verifier.h"
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace llvm;

static const DataLayout *DL;
static json::OStream *J;
static std::map<const Value*, int> ids;

static std::string typeStr(Type *T) {
  std::string s; raw_string_ostream os(s); T->print(os, false, true); return os.str();
}

static void emitConst(const Constant *C);

static void emitOperand(const Value *V) {
  if (auto *CI = dyn_cast<ConstantInt>(V)) {
    J->array([&]{ J->value("i");
      if (CI->getBitWidth() <= 64) J->value(CI->getSExtValue()); else J->value(0);
      J->value((int64_t)CI->getBitWidth()); });
    return;
  }
  if (isa<ConstantPointerNull>(V)) { J->array([&]{ J->value("n"); }); return; }
  if (isa<UndefValue>(V)) { J->array([&]{ J->value("u"); }); return; }
  if (auto *F = dyn_cast<ConstantFP>(V)) { J->array([&]{ APInt B = F->getValueAPF().bitcastToAPInt(); J->value(B.getBitWidth() == 80 ? "f80" : "f");
      if (B.getBitWidth() <= 64) J->value(B.getSExtValue());
      else if (B.getBitWidth() == 80) { J->value((int64_t)B.trunc(64).getZExtValue()); J->value((int64_t)B.lshr(64).getZExtValue()); } }); return; }
  if (auto *GV = dyn_cast<GlobalValue>(V)) {
    J->array([&]{ J->value("g"); J->value(GV->getName()); }); return;
  }
  if (auto *C = dyn_cast<Constant>(V)) { emitConst(C); return; }
  if (isa<MetadataAsValue>(V)) { J->array([&]{ J->value("m"); }); return; }
  if (auto *IA = dyn_cast<InlineAsm>(V)) { J->array([&]{ J->value("asm"); J->value(IA->getAsmString()); J->value(IA->getConstraintString()); }); return; }
  auto it = ids.find(V);
  J->array([&]{ J->value("v"); J->value(it == ids.end() ? -1 : it->second); });
}

static void emitGEP(const GEPOperator *G) {
  // base, constant byte offset, [[scale, operand], ...], path of struct fields
  unsigned BW = DL->getIndexTypeSizeInBits(G->getType());
  MapVector<Value*, APInt> Var; APInt Off(BW, 0);
  bool ok = G->getType()->isPointerTy() && G->collectOffset(*DL, BW, Var, Off);
  J->attribute("coff", ok ? Off.getSExtValue() : 0);
  if (!ok) J->attribute("bad", true);
  J->attributeArray("var", [&]{
    for (auto &P : Var) J->array([&]{ J->value(P.second.getSExtValue()); emitOperand(P.first); });
  });
  J->attribute("ety", typeStr(G->getSourceElementType()));
  J->attributeArray("path", [&]{
    Type *cur = nullptr;
    for (auto GTI = gep_type_begin(G), E = gep_type_end(G); GTI != E; ++GTI) {
      if (StructType *ST = GTI.getStructTypeOrNull()) {
        unsigned idx = (unsigned)cast<ConstantInt>(GTI.getOperand())->getZExtValue();
        J->array([&]{ J->value("s"); J->value(ST->hasName()?ST->getName():"");
          J->value((int64_t)idx);
          J->value((int64_t)DL->getStructLayout(ST)->getElementOffset(idx).getKnownMinValue());
          J->value((int64_t)DL->getTypeAllocSize(ST->getElementType(idx)).getKnownMinValue()); });
      } else {
        Type *ET = GTI.getIndexedType();
        J->array([&]{ J->value("a"); J->value((int64_t)DL->getTypeAllocSize(ET).getKnownMinValue());
          if (cur && isa<ArrayType>(cur)) J->value((int64_t)cast<ArrayType>(cur)->getNumElements()); else J->value(-1);
          emitOperand(GTI.getOperand()); });
      }
      cur = GTI.getIndexedType();
    }
  });
}

static void emitConst(const Constant *C) {
  if (auto *G = dyn_cast<GEPOperator>(C)) {
    J->array([&]{ J->value("gep"); emitOperand(G->getPointerOperand()); J->object([&]{ emitGEP(G); }); });
    return;
  }
  if (auto *CE = dyn_cast<ConstantExpr>(C)) {
    J->array([&]{ J->value("ce"); J->value(CE->getOpcodeName());
      for (auto &O : CE->operands()) emitOperand(O.get()); });
    return;
  }
  J->array([&]{ J->value("c"); });
}

// flat initialiser: list of [offset, size, operand]; strings/data as bytes
static void flatInit(const Constant *C, int64_t off, int depth=0) {
  if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C)) return;
  if (auto *CDS = dyn_cast<ConstantDataSequential>(C)) {
    Type *ET = CDS->getElementType();
    if (ET->isIntegerTy()) {
      int64_t es = DL->getTypeAllocSize(ET);
      for (unsigned i = 0; i < CDS->getNumElements(); i++) {
        uint64_t v = CDS->getElementAsInteger(i);
        J->array([&]{ J->value(off + es*i); J->value(es);
          J->array([&]{ J->value("i"); J->value((int64_t)v); J->value((int64_t)ET->getIntegerBitWidth()); }); });
      }
    }
    return;
  }
  if (auto *CA = dyn_cast<ConstantArray>(C)) {
    int64_t es = DL->getTypeAllocSize(CA->getType()->getElementType());
    for (unsigned i = 0; i < CA->getNumOperands(); i++) flatInit(CA->getOperand(i), off + es*i, depth+1);
    return;
  }
  if (auto *CS = dyn_cast<ConstantStruct>(C)) {
    auto *SL = DL->getStructLayout(CS->getType());
    for (unsigned i = 0; i < CS->getNumOperands(); i++)
      flatInit(CS->getOperand(i), off + (int64_t)SL->getElementOffset(i).getKnownMinValue(), depth+1);
    return;
  }
  J->array([&]{ J->value(off); J->value((int64_t)DL->getTypeAllocSize(C->getType())); emitOperand(C); });
}

static std::string diTypeName(const DIType *T, int d=0) {
  if (!T || d > 6) return "void";
  if (auto *D = dyn_cast<DIDerivedType>(T)) {
    if (D->getTag() == dwarf::DW_TAG_typedef) return D->getName().str();
    if (D->getTag() == dwarf::DW_TAG_pointer_type) return diTypeName(D->getBaseType(), d+1) + "*";
    if (D->getTag() == dwarf::DW_TAG_const_type) return "const " + diTypeName(D->getBaseType(), d+1);
    return diTypeName(D->getBaseType(), d+1);
  }
  if (auto *C = dyn_cast<DICompositeType>(T)) {
    if (C->getTag() == dwarf::DW_TAG_array_type) {
      std::string s = diTypeName(C->getBaseType(), d+1);
      for (auto *e : C->getElements()) if (auto *SR = dyn_cast<DISubrange>(e)) {
        auto cnt = SR->getCount();
        if (cnt && isa<ConstantInt*>(cnt)) s += "[" + std::to_string(cast<ConstantInt*>(cnt)->getSExtValue()) + "]";
        else s += "[]";
      }
      return s;
    }
    std::string p = C->getTag()==dwarf::DW_TAG_union_type ? "union " : C->getTag()==dwarf::DW_TAG_enumeration_type ? "enum " : "struct ";
    return p + C->getName().str();
  }
  if (isa<DISubroutineType>(T)) return "fn";
  return T->getName().str();
}

static void emitLoc(const DILocation *L) {
  // innermost first: [line, file, func], then inlinedAt chain
  while (L) {
    J->array([&]{ J->value((int64_t)L->getLine());
      J->value(L->getFilename());
      J->value(L->getScope()->getSubprogram() ? L->getScope()->getSubprogram()->getName() : ""); });
    L = L->getInlinedAt();
  }
}

int main(int argc, char **argv) {
  std::string passes, out = "-", internalizeKeep; std::vector<std::string> in; std::set<std::string> noinl; bool allInline=false;
  std::set<std::string> keep, known;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "-p") passes = argv[++i];
    else if (a == "-o") out = argv[++i];
    else if (a == "-inline") allInline = true;
    else if (a == "-noinline") { noinl.insert(argv[++i]); }
    else if (a == "-known") { std::ifstream K(argv[++i]); std::string w; while (K >> w) known.insert(w); }
    else if (a == "-keep") { keep.insert(argv[++i]); }
    else in.push_back(a);
  }
  LLVMContext Ctx; SMDiagnostic Err;
  std::unique_ptr<Module> M = parseIRFile(in[0], Err, Ctx);
  if (!M) { Err.print("irx", errs()); return 2; }
  Linker Lk(*M);
  for (size_t i = 1; i < in.size(); i++) {
    auto M2 = parseIRFile(in[i], Err, Ctx);
    if (!M2) { Err.print("irx", errs()); return 2; }
    if (Lk.linkInModule(std::move(M2))) { errs() << "link failed " << in[i] << "\n"; return 2; }
  }
  if (!known.empty()) {
    // a function the rules do not know is a helper somebody extracted: it is judged as part of its callers
    auto base = [](std::string n) { size_t k = n.size(); while (k && isdigit((unsigned char)n[k-1])) k--; return k && k < n.size() && n[k-1] == '.' ? n.substr(0, k-1) : n; };
    bool any = false;
    std::vector<WeakTrackingVH> fresh;
    for (auto &F : *M) {
      if (F.isDeclaration() || F.isVarArg() || known.count(base(F.getName().str())) || F.hasAddressTaken() || F.use_empty()) continue;
      size_t n = 0, uses = F.getNumUses();
      for (auto &B : F) n += B.size();
      if (uses > 1 && n * uses > 40000) continue;
      F.removeFnAttr(Attribute::OptimizeNone);
      F.removeFnAttr(Attribute::NoInline);
      F.addFnAttr(Attribute::AlwaysInline);
      F.setLinkage(GlobalValue::InternalLinkage);
      fresh.push_back(&F);
      any = true;
    }
    if (any) {
      PassBuilder PB; LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM;
      PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
      PB.crossRegisterProxies(LAM, FAM, CAM, MAM);
      ModulePassManager MPM;
      MPM.addPass(AlwaysInlinerPass(false));
      MPM.run(*M, MAM);
      for (auto &V : fresh) if (auto *F = dyn_cast_or_null<Function>(V)) { F->removeFnAttr(Attribute::AlwaysInline); if (F->use_empty()) F->eraseFromParent(); }
    }
  }
  if (!keep.empty()) {
    for (auto &F : *M) if (!F.isDeclaration()) F.setLinkage(keep.count(F.getName().str()) ? GlobalValue::ExternalLinkage : GlobalValue::InternalLinkage);
  }
  if (allInline) {
    for (auto &F : *M) {
      if (F.isDeclaration()) continue;
      F.removeFnAttr(Attribute::OptimizeNone);
      F.removeFnAttr(Attribute::NoInline);
      if (noinl.count(F.getName().str())) F.addFnAttr(Attribute::NoInline);
      else if (!keep.count(F.getName().str())) F.addFnAttr(Attribute::AlwaysInline);
    }
  }
  DataLayout dl = M->getDataLayout(); DL = &dl;
  if (!passes.empty()) {
    PassBuilder PB; LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM;
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
    PB.crossRegisterProxies(LAM, FAM, CAM, MAM);
    ModulePassManager MPM;
    if (auto E = PB.parsePassPipeline(MPM, passes)) { errs() << toString(std::move(E)) << "\n"; return 2; }
    MPM.run(*M, MAM);
  }
  std::error_code EC; raw_fd_ostream OS(out, EC);
  json::OStream JO(OS); J = &JO;
  DebugInfoFinder DIF; DIF.processModule(*M);
  J->object([&]{
    // struct member names from debug info
    std::map<const DICompositeType*, std::string> tdname;
    for (auto *T : DIF.types()) if (auto *D = dyn_cast<DIDerivedType>(T))
      if (D->getTag()==dwarf::DW_TAG_typedef && D->getBaseType())
        if (auto *C = dyn_cast<DICompositeType>(D->getBaseType())) if (C->getName().empty()) tdname[C] = D->getName().str();
    std::set<std::string> seen;
    J->attributeObject("structs", [&]{
      for (auto *T : DIF.types()) if (auto *C = dyn_cast<DICompositeType>(T)) {
        if (C->getTag()!=dwarf::DW_TAG_structure_type && C->getTag()!=dwarf::DW_TAG_union_type) continue;
        std::string n = C->getName().str(); if (n.empty()) n = tdname.count(C)?tdname[C]:"";
        if (n.empty() || C->getElements().size()==0 || !seen.insert(n).second) continue;
        J->attributeObject(n, [&]{
          J->attribute("size", (int64_t)(C->getSizeInBits()/8));
          J->attributeArray("fields", [&]{
            for (auto *e : C->getElements()) if (auto *D = dyn_cast<DIDerivedType>(e)) {
              if (D->getTag()!=dwarf::DW_TAG_member) continue;
              J->array([&]{ J->value(D->getName()); J->value((int64_t)(D->getOffsetInBits()/8));
                J->value((int64_t)(D->getSizeInBits()/8)); J->value(diTypeName(D->getBaseType())); });
            }
          });
          J->attributeArray("anon", [&]{
            std::function<void(const DICompositeType*, int64_t, bool)> flat = [&](const DICompositeType *C, int64_t base, bool top) {
              for (auto *e : C->getElements()) if (auto *D = dyn_cast<DIDerivedType>(e)) {
                if (D->getTag()!=dwarf::DW_TAG_member) continue;
                int64_t o = base + (int64_t)D->getOffsetInBits();
                if (D->getName().empty()) {
                  auto *B = dyn_cast_or_null<DICompositeType>(D->getBaseType());
                  if (B) flat(B, o, false);
                } else if (!top || D->isBitField())
                  J->array([&]{ J->value(D->getName()); J->value(o/8); J->value((int64_t)(D->getSizeInBits()/8)); J->value(o); J->value((int64_t)D->getSizeInBits()); });
              }
            };
            flat(C, 0, true);
          });
        });
      }
    });
    std::map<std::string, int64_t> enums;
    for (auto *T : DIF.types()) if (auto *C = dyn_cast<DICompositeType>(T))
      if (C->getTag()==dwarf::DW_TAG_enumeration_type)
        for (auto *e : C->getElements()) if (auto *E = dyn_cast<DIEnumerator>(e)) enums.emplace(E->getName().str(), E->getValue().getSExtValue());
    J->attributeObject("enums", [&]{ for (auto &e : enums) J->attribute(e.first, e.second); });
    J->attributeObject("globals", [&]{
      for (auto &G : M->globals()) J->attributeObject(G.getName(), [&]{
        J->attribute("size", G.getValueType()->isSized() ? (int64_t)DL->getTypeAllocSize(G.getValueType()).getKnownMinValue() : 0);
        J->attribute("const", G.isConstant());
        J->attribute("internal", G.hasLocalLinkage());
        J->attribute("decl", G.isDeclaration());
        J->attribute("tls", G.isThreadLocal());
        J->attribute("ty", typeStr(G.getValueType()));
        SmallVector<DIGlobalVariableExpression*,1> GVE; G.getDebugInfo(GVE);
        if (!GVE.empty()) { auto *V = GVE[0]->getVariable(); J->attribute("name", V->getName()); J->attribute("file", V->getFilename()); J->attribute("line", (int64_t)V->getLine()); J->attribute("dity", diTypeName(V->getType()));
          if (auto *SP = dyn_cast_or_null<DILocalScope>(V->getScope())) J->attribute("scope", SP->getSubprogram()->getName()); }
        if (G.hasInitializer()) {
          if (auto *CDS = dyn_cast<ConstantDataSequential>(G.getInitializer()); CDS && CDS->isString()) {
            std::string s = CDS->getAsString().str(); std::string h; for (unsigned char c : s) { char b[3]; snprintf(b,3,"%02x",c); h += b; }
            if (h.size() > 20000) h.resize(20000);
            J->attribute("str", h);
          } else if (dl.getTypeAllocSize(G.getValueType()) <= 200000) J->attributeArray("init", [&]{ flatInit(G.getInitializer(), 0); });
        }
      });
    });
    J->attributeObject("functions", [&]{
      for (auto &F : *M) {
        if (F.isIntrinsic()) continue;
        J->attributeObject(F.getName(), [&]{
          auto *SP = F.getSubprogram();
          J->attribute("decl", F.isDeclaration());
          J->attribute("internal", F.hasLocalLinkage());
          J->attribute("vararg", F.isVarArg());
          J->attribute("noreturn", F.doesNotReturn());
          J->attribute("ret", typeStr(F.getReturnType()));
          J->attribute("addrtaken", F.hasAddressTaken());
          if (SP) { J->attribute("file", SP->getFilename()); J->attribute("line", (int64_t)SP->getLine());
            J->attribute("sname", SP->getName());
            if (auto *ST = SP->getType()) { auto TA = ST->getTypeArray();
              J->attributeArray("ditypes", [&]{ for (unsigned i=0;i<TA.size();i++) J->value(diTypeName(TA[i])); }); } }
          ids.clear(); int n = 0;
          for (auto &A : F.args()) ids[&A] = n++;
          std::map<const BasicBlock*, int> bb; int b = 0;
          for (auto &B : F) { bb[&B] = b++; for (auto &I : B) ids[&I] = n++; }
          std::map<const Value*, std::string> dbgname;
          for (auto &B : F) for (auto &I : B) if (auto *D = dyn_cast<DbgVariableIntrinsic>(&I)) {
            if (auto *V = D->getVariableLocationOp(0)) if (!dbgname.count(V)) dbgname[V] = D->getVariable()->getName().str(); }
          J->attributeArray("params", [&]{ for (auto &A : F.args()) J->array([&]{ J->value(ids[&A]); J->value(typeStr(A.getType())); J->value(A.getName());}); });
          J->attributeArray("blocks", [&]{
            for (auto &B : F) J->object([&]{
              J->attribute("name", B.getName());
              J->attributeArray("insts", [&]{
                for (auto &I : B) {
                  if (isa<DbgInfoIntrinsic>(&I)) continue;
                  if (auto *II = dyn_cast<IntrinsicInst>(&I)) { auto id = II->getIntrinsicID();
                    if (id==Intrinsic::lifetime_start||id==Intrinsic::lifetime_end) continue; }
                  J->object([&]{
                    J->attribute("id", ids[&I]);
                    J->attribute("op", I.getOpcodeName());
                    if (!I.getType()->isVoidTy()) { J->attribute("ty", typeStr(I.getType())); }
                    std::string nm = I.getName().str(); if (dbgname.count(&I)) nm = dbgname[&I];
                    if (!nm.empty()) J->attribute("nm", nm);
                    if (auto *L = I.getDebugLoc().get()) J->attributeArray("loc", [&]{ emitLoc(L); });
                    if (auto *P = dyn_cast<PHINode>(&I)) {
                      J->attributeArray("inc", [&]{ for (unsigned i=0;i<P->getNumIncomingValues();i++) J->array([&]{ emitOperand(P->getIncomingValue(i)); J->value(bb[P->getIncomingBlock(i)]); }); });
                    } else if (auto *Br = dyn_cast<BranchInst>(&I)) {
                      if (Br->isConditional()) { J->attributeArray("ops", [&]{ emitOperand(Br->getCondition()); }); }
                      J->attributeArray("succ", [&]{ for (unsigned i=0;i<Br->getNumSuccessors();i++) J->value(bb[Br->getSuccessor(i)]); });
                    } else if (auto *Sw = dyn_cast<SwitchInst>(&I)) {
                      J->attributeArray("ops", [&]{ emitOperand(Sw->getCondition()); });
                      J->attributeArray("succ", [&]{ J->value(bb[Sw->getDefaultDest()]); for (auto &C : Sw->cases()) J->value(bb[C.getCaseSuccessor()]); });
                      J->attributeArray("cases", [&]{ for (auto &C : Sw->cases()) J->value(C.getCaseValue()->getSExtValue()); });
                    } else if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
                      J->attributeArray("ops", [&]{ emitOperand(G->getPointerOperand()); });
                      emitGEP(cast<GEPOperator>(G));
                    } else if (auto *CB = dyn_cast<CallBase>(&I)) {
                      J->attributeArray("ops", [&]{ for (auto &A : CB->args()) emitOperand(A.get()); });
                      J->attributeArray("atys", [&]{ for (auto &A : CB->args()) J->value(typeStr(A->getType())); });
                      const Value *cv = CB->getCalledOperand()->stripPointerCasts();
                      if (auto *CF = dyn_cast<Function>(cv)) J->attribute("callee", CF->getName());
                      else { J->attributeArray("fptr", [&]{ emitOperand(CB->getCalledOperand()); }); }
                      if (CB->doesNotReturn()) J->attribute("noreturn", true);
                      if (CB->hasFnAttr(Attribute::ReturnsTwice)) J->attribute("twice", true);
                    } else {
                      J->attributeArray("ops", [&]{ for (auto &O : I.operands()) emitOperand(O.get()); });
                      if (auto *C = dyn_cast<CmpInst>(&I)) { J->attribute("pred", CmpInst::getPredicateName(C->getPredicate())); J->attribute("oty", typeStr(C->getOperand(0)->getType())); }
                      else if (auto *A = dyn_cast<AllocaInst>(&I)) {
                        J->attribute("aty", typeStr(A->getAllocatedType()));
                        auto sz = A->getAllocationSize(*DL); if (sz) J->attribute("size", (int64_t)sz->getKnownMinValue());
                        else J->attribute("esize", (int64_t)DL->getTypeAllocSize(A->getAllocatedType()).getKnownMinValue());
                      } else if (auto *L = dyn_cast<LoadInst>(&I)) { J->attribute("size", (int64_t)DL->getTypeStoreSize(L->getType()).getKnownMinValue()); }
                      else if (auto *S = dyn_cast<StoreInst>(&I)) { J->attribute("size", (int64_t)DL->getTypeStoreSize(S->getValueOperand()->getType()).getKnownMinValue()); J->attribute("vty", typeStr(S->getValueOperand()->getType())); }
                      else if (auto *EV = dyn_cast<ExtractValueInst>(&I)) { J->attributeArray("idx", [&]{ for (unsigned k : EV->indices()) J->value((int64_t)k); }); }
                      else if (auto *RMW = dyn_cast<AtomicRMWInst>(&I)) { J->attribute("rmw", AtomicRMWInst::getOperationName(RMW->getOperation())); J->attribute("vty", typeStr(RMW->getValOperand()->getType())); }
                      else if (auto *CX = dyn_cast<AtomicCmpXchgInst>(&I)) { J->attribute("vty", typeStr(CX->getNewValOperand()->getType())); }
                      else if (auto *Ca = dyn_cast<CastInst>(&I)) { J->attribute("sty", typeStr(Ca->getSrcTy())); }
                      if (auto *O = dyn_cast<OverflowingBinaryOperator>(&I)) { if (O->hasNoSignedWrap()) J->attribute("nsw", true); if (O->hasNoUnsignedWrap()) J->attribute("nuw", true); }
                    }
                  });
                }
              });
            });
          });
        });
      }
    });
  });
  OS << "\n";
  return 0;
}

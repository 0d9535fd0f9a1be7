// irdump: LLVM bitcode -> compact JSON for the Python value-flow analyser.
// Usage: irdump in.bc > out.json
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/DebugLoc.h"
#include "llvm/IR/CFG.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/ADT/MapVector.h"
#include "llvm/ADT/SmallString.h"
#include "llvm/Demangle/Demangle.h"
#include <map>
#include <string>
using namespace llvm;

static raw_ostream &O = outs();
static const DataLayout *DL;
static std::map<const Value*, int> ids;
static std::map<const BasicBlock*, int> bbids;

static void str(StringRef s) {
  O << '"';
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') O << '\\' << c;
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); O << b; }
    else O << c;
  }
  O << '"';
}

static void type(Type *T) {
  if (T->isIntegerTy()) O << "\"i" << T->getIntegerBitWidth() << '"';
  else if (T->isFloatTy()) O << "\"f32\"";
  else if (T->isDoubleTy()) O << "\"f64\"";
  else if (T->isX86_FP80Ty()) O << "\"f80\"";
  else if (T->isPointerTy()) O << "\"p\"";
  else if (T->isVoidTy()) O << "\"void\"";
  else if (auto *S = dyn_cast<StructType>(T)) {
    if (S->isOpaque()) { O << "\"opaque\""; return; }
    const StructLayout *SL = DL->getStructLayout(S);
    O << "[\"s\"," << SL->getSizeInBytes() << ",[";
    for (unsigned i = 0; i < S->getNumElements(); i++) {
      if (i) O << ',';
      O << '[' << SL->getElementOffset(i) << ','; type(S->getElementType(i)); O << ']';
    }
    O << "]]";
  }
  else if (auto *A = dyn_cast<ArrayType>(T)) {
    O << "[\"a\"," << A->getNumElements() << ',' << DL->getTypeAllocSize(A->getElementType()) << ',';
    type(A->getElementType()); O << ']';
  }
  else if (auto *V = dyn_cast<FixedVectorType>(T)) {
    O << "[\"vec\"," << V->getNumElements() << ',' << DL->getTypeAllocSize(V->getElementType()) << ',';
    type(V->getElementType()); O << ']';
  }
  else O << "\"other\"";
}

static void operand(const Value *V);

static void gep(const GEPOperator *G) {
  // base + const + sum(scale*idx)
  MapVector<Value*, APInt> vars;
  unsigned bw = 64;
  APInt c(bw, 0);
  bool ok = G->collectOffset(*DL, bw, vars, c);
  O << "[\"gep\","; operand(G->getPointerOperand());
  O << ',' << (ok ? c.getSExtValue() : 0) << ",[";
  bool first = true;
  if (ok) for (auto &kv : vars) {
    if (!first) O << ','; first = false;
    O << '['; operand(kv.first); O << ',' << kv.second.getSExtValue() << ','; type(kv.first->getType()); O << ']';
  }
  O << "]" << (ok ? "" : ",\"bad\"") << "]";
}

static void constant(const Constant *C) {
  if (auto *CI = dyn_cast<ConstantInt>(C)) {
    SmallString<40> s; CI->getValue().toString(s, 10, false);
    O << "[\"i\"," << CI->getBitWidth() << ',' << s << ']';
  } else if (auto *CF = dyn_cast<ConstantFP>(C)) {
    SmallString<40> s;
    if (CF->getType()->isX86_FP80Ty()) {
      bool lost; APFloat f = CF->getValueAPF(); f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &lost);
      f.bitcastToAPInt().toString(s, 10, false);
      O << "[\"f\",\"f80\"," << s << ']';
    } else {
      CF->getValueAPF().bitcastToAPInt().toString(s, 10, false);
      O << "[\"f\",\"" << (CF->getType()->isFloatTy() ? "f32" : "f64") << "\"," << s << ']';
    }
  } else if (isa<ConstantPointerNull>(C)) O << "[\"null\"]";
  else if (isa<UndefValue>(C)) { O << "[\"undef\","; type(C->getType()); O << ']'; }
  else if (isa<ConstantAggregateZero>(C)) { O << "[\"zero\","; type(C->getType()); O << ']'; }
  else if (auto *F = dyn_cast<Function>(C)) { O << "[\"fn\","; str(F->getName()); O << ']'; }
  else if (auto *G = dyn_cast<GlobalAlias>(C)) { operand(G->getAliasee()); }
  else if (auto *G = dyn_cast<GlobalVariable>(C)) { O << "[\"g\","; str(G->getName()); O << ']'; }
  else if (auto *CD = dyn_cast<ConstantDataSequential>(C)) {
    if (CD->isString() || CD->getElementType()->isIntegerTy(8)) { O << "[\"str\","; str(CD->getRawDataValues()); O << ']'; }
    else {
      O << "[\"agg\","; type(C->getType()); O << ",[";
      for (unsigned i = 0; i < CD->getNumElements(); i++) { if (i) O << ','; constant(CD->getElementAsConstant(i)); }
      O << "]]";
    }
  } else if (isa<ConstantAggregate>(C)) {
    O << "[\"agg\","; type(C->getType()); O << ",[";
    for (unsigned i = 0; i < C->getNumOperands(); i++) { if (i) O << ','; operand(C->getOperand(i)); }
    O << "]]";
  } else if (auto *G = dyn_cast<GEPOperator>(C)) gep(G);
  else if (auto *CE = dyn_cast<ConstantExpr>(C)) {
    O << "[\"ce\","; str(CE->getOpcodeName()); O << ','; type(CE->getType()); O << ",[";
    for (unsigned i = 0; i < CE->getNumOperands(); i++) {
      if (i) O << ','; O << '['; operand(CE->getOperand(i)); O << ','; type(CE->getOperand(i)->getType()); O << ']';
    }
    O << ']';
    if (CE->isCompare()) { O << ','; str(CmpInst::getPredicateName((CmpInst::Predicate)CE->getPredicate())); }
    O << ']';
  } else { O << "[\"other\"]"; }
}

static void operand(const Value *V) {
  if (auto *C = dyn_cast<Constant>(V)) { constant(C); return; }
  auto it = ids.find(V);
  if (it != ids.end()) { O << it->second; return; }
  if (auto *BB = dyn_cast<BasicBlock>(V)) { O << "[\"bb\"," << bbids[BB] << ']'; return; }
  if (isa<MetadataAsValue>(V)) { O << "[\"md\"]"; return; }
  if (auto *IA = dyn_cast<InlineAsm>(V)) { O << "[\"asm\","; str(IA->getAsmString()); O << ']'; return; }
  O << "[\"other\"]";
}

static void ops(const Instruction &I) {
  O << '[';
  for (unsigned i = 0; i < I.getNumOperands(); i++) { if (i) O << ','; operand(I.getOperand(i)); }
  O << ']';
}

static std::map<std::string,int> fileIdx; static std::vector<std::string> files;

static void inst(const Instruction &I) {
  // [op, id, type, file, line, ...]
  O << '['; str(I.getOpcodeName()); O << ',';
  auto it = ids.find(&I); O << (it == ids.end() ? -1 : it->second) << ','; type(I.getType()); O << ',';
  int fi = -1, line = 0;
  if (const DebugLoc &D = I.getDebugLoc()) {
    // innermost inlined position
    line = D.getLine();
    if (auto *sc = dyn_cast<DIScope>(D.getScope())) {
      std::string fn = sc->getFilename().str();
      auto f = fileIdx.find(fn);
      if (f == fileIdx.end()) { fileIdx[fn] = files.size(); fi = files.size(); files.push_back(fn); } else fi = f->second;
    }
  }
  O << fi << ',' << line << ',';
  if (auto *P = dyn_cast<PHINode>(&I)) {
    O << '[';
    for (unsigned i = 0; i < P->getNumIncomingValues(); i++) {
      if (i) O << ','; O << '[' << bbids[P->getIncomingBlock(i)] << ','; operand(P->getIncomingValue(i)); O << ']';
    }
    O << ']';
  } else if (auto *B = dyn_cast<BranchInst>(&I)) {
    if (B->isConditional()) { O << '['; operand(B->getCondition()); O << ',' << bbids[B->getSuccessor(0)] << ',' << bbids[B->getSuccessor(1)] << ']'; }
    else O << "[null," << bbids[B->getSuccessor(0)] << ']';
  } else if (auto *S = dyn_cast<SwitchInst>(&I)) {
    O << '['; operand(S->getCondition()); O << ',' << bbids[S->getDefaultDest()] << ",[";
    bool first = true;
    for (auto &c : S->cases()) { if (!first) O << ','; first = false;
      O << '['; constant(c.getCaseValue()); O << ',' << bbids[c.getCaseSuccessor()] << ']'; }
    O << "],"; type(S->getCondition()->getType()); O << ']';
  } else if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
    gep(cast<GEPOperator>(G));
  } else if (auto *CB = dyn_cast<CallBase>(&I)) {
    O << '['; operand(CB->getCalledOperand()); O << ",[";
    for (unsigned i = 0; i < CB->arg_size(); i++) {
      if (i) O << ','; O << '['; operand(CB->getArgOperand(i)); O << ','; type(CB->getArgOperand(i)->getType());
      if (CB->isByValArgument(i)) O << ",[\"byval\"," << DL->getTypeAllocSize(CB->getParamByValType(i)) << ']';
      O << ']';
    }
    O << ']';
    if (auto *IV = dyn_cast<InvokeInst>(CB)) O << ",[" << bbids[IV->getNormalDest()] << ',' << bbids[IV->getUnwindDest()] << ']';
    else O << ",null";
    O << ',' << (CB->doesNotReturn() ? 1 : 0) << ',' << (CB->doesNotThrow() ? 1 : 0) << ']';
  } else if (auto *L = dyn_cast<LoadInst>(&I)) {
    O << '['; operand(L->getPointerOperand()); O << ',' << DL->getTypeStoreSize(L->getType()) << ',' << (L->isAtomic()?1:0) << ']';
  } else if (auto *S = dyn_cast<StoreInst>(&I)) {
    O << '['; operand(S->getValueOperand()); O << ','; operand(S->getPointerOperand()); O << ',';
    type(S->getValueOperand()->getType()); O << ',' << DL->getTypeStoreSize(S->getValueOperand()->getType()) << ',' << (S->isAtomic()?1:0) << ']';
  } else if (auto *A = dyn_cast<AllocaInst>(&I)) {
    O << '['; operand(A->getArraySize()); O << ',' << DL->getTypeAllocSize(A->getAllocatedType()) << ']';
  } else if (auto *C = dyn_cast<CmpInst>(&I)) {
    O << '['; str(CmpInst::getPredicateName(C->getPredicate())); O << ','; operand(C->getOperand(0)); O << ','; operand(C->getOperand(1));
    O << ','; type(C->getOperand(0)->getType()); O << ']';
  } else if (auto *E = dyn_cast<ExtractValueInst>(&I)) {
    O << '['; operand(E->getAggregateOperand()); O << ",[";
    for (unsigned i = 0; i < E->getNumIndices(); i++) { if (i) O << ','; O << E->getIndices()[i]; }
    O << "]]";
  } else if (auto *N = dyn_cast<InsertValueInst>(&I)) {
    O << '['; operand(N->getAggregateOperand()); O << ','; operand(N->getInsertedValueOperand()); O << ",[";
    for (unsigned i = 0; i < N->getNumIndices(); i++) { if (i) O << ','; O << N->getIndices()[i]; }
    O << "]]";
  } else if (auto *LP = dyn_cast<LandingPadInst>(&I)) {
    O << '[' << (LP->isCleanup() ? 1 : 0) << ",[";
    for (unsigned i = 0; i < LP->getNumClauses(); i++) {
      if (i) O << ','; O << '[' << (LP->isCatch(i) ? 1 : 0) << ','; operand(LP->getClause(i)); O << ']'; }
    O << "]]";
  } else if (auto *SV = dyn_cast<ShuffleVectorInst>(&I)) {
    O << '['; operand(SV->getOperand(0)); O << ','; operand(SV->getOperand(1)); O << ",[";
    for (unsigned i = 0; i < SV->getShuffleMask().size(); i++) { if (i) O << ','; O << SV->getShuffleMask()[i]; }
    O << "]]";
  } else if (auto *RM = dyn_cast<AtomicRMWInst>(&I)) {
    O << '['; str(AtomicRMWInst::getOperationName(RM->getOperation())); O << ','; operand(RM->getPointerOperand()); O << ','; operand(RM->getValOperand()); O << ']';
  } else if (auto *CI = dyn_cast<CastInst>(&I)) {
    O << '['; operand(CI->getOperand(0)); O << ','; type(CI->getSrcTy()); O << ']';
  } else {
    ops(I);
  }
  O << ']';
}

int main(int argc, char **argv) {
  LLVMContext Ctx; SMDiagnostic Err;
  auto M = parseIRFile(argv[1], Err, Ctx);
  if (!M) { Err.print(argv[0], errs()); return 1; }
  DL = &M->getDataLayout();
  O << "{\"globals\":{";
  bool first = true;
  for (auto &G : M->globals()) {
    if (!first) O << ",\n"; first = false;
    str(G.getName()); O << ":{\"const\":" << (G.isConstant() ? 1 : 0) << ",\"tls\":" << (G.isThreadLocal() ? 1 : 0)
      << ",\"internal\":" << (G.hasLocalLinkage()?1:0)
      << ",\"size\":" << (G.getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(G.getValueType()) : 0) << ",\"type\":";
    type(G.getValueType());
    O << ",\"init\":"; if (G.hasInitializer()) constant(G.getInitializer()); else O << "null";
    SmallVector<DIGlobalVariableExpression*,1> GVs; G.getDebugInfo(GVs);
    if (!GVs.empty()) { auto *DV = GVs[0]->getVariable(); O << ",\"file\":"; str(DV->getFilename()); O << ",\"line\":" << DV->getLine(); }
    O << '}';
  }
  O << "},\n\"aliases\":{";
  first = true;
  for (auto &A : M->aliases()) { if (!first) O << ','; first = false; str(A.getName()); O << ':'; operand(A.getAliasee()); }
  O << "},\n\"functions\":{";
  first = true;
  for (auto &F : *M) {
    if (!first) O << ",\n"; first = false;
    ids.clear(); bbids.clear();
    int n = 0, b = 0;
    for (auto &A : F.args()) ids[&A] = n++;
    for (auto &BB : F) { bbids[&BB] = b++; for (auto &I : BB) if (!I.getType()->isVoidTy()) ids[&I] = n++; }
    str(F.getName()); O << ":{\"decl\":" << (F.isDeclaration() ? 1 : 0) << ",\"dem\":"; str(demangle(F.getName().str()));
    O << ",\"ret\":"; type(F.getReturnType());
    O << ",\"readnone\":" << (F.doesNotAccessMemory()?1:0) << ",\"readonly\":" << (F.onlyReadsMemory()?1:0);
    O << ",\"noreturn\":" << (F.doesNotReturn()?1:0) << ",\"nounwind\":" << (F.doesNotThrow()?1:0);
    if (auto *SP = F.getSubprogram()) { O << ",\"file\":"; str(SP->getFilename()); O << ",\"line\":" << SP->getLine(); }
    O << ",\"args\":[";
    for (auto &A : F.args()) {
      if (A.getArgNo()) O << ','; O << '['; type(A.getType());
      if (A.hasByValAttr()) O << ",[\"byval\"," << DL->getTypeAllocSize(A.getParamByValType()) << ']';
      if (A.hasStructRetAttr()) O << ",[\"sret\"," << DL->getTypeAllocSize(A.getParamStructRetType()) << ']';
      O << ']';
    }
    O << "],\"vararg\":" << (F.isVarArg()?1:0) << ",\"blocks\":[";
    bool fb = true;
    for (auto &BB : F) {
      if (!fb) O << ",\n"; fb = false;
      O << '[';
      bool fi = true;
      for (auto &I : BB) { if (isa<DbgInfoIntrinsic>(I)) continue; if (!fi) O << ','; fi = false; inst(I); }
      O << ']';
    }
    O << "]}";
  }
  O << "},\n\"files\":[";
  for (size_t i = 0; i < files.size(); i++) { if (i) O << ','; str(files[i]); }
  O << "]}\n";
  return 0;
}

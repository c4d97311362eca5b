// irx: links LLVM IR modules compiled from the sources of libcypher-parser,
// inlines internal helpers, normalises, and dumps the functions, globals and
// struct layouts as JSON for the rules (which are written in Python).
#include "llvm/ADT/SCCIterator.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Analysis/CallGraph.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Analysis/ScalarEvolution.h"
#include "llvm/Analysis/ScalarEvolutionExpressions.h"
#include "llvm/Analysis/PostDominators.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/GlobalVariable.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/Verifier.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/MemoryBuffer.h"
#include <map>
#include <set>
#include <string>

using namespace llvm;
using json::Array;
using json::Object;
using JV = json::Value;

static const DataLayout *DL;
static std::map<const DISubprogram *, std::vector<std::string>> ArgNames;
static std::set<const DICompositeType *> SeenTypes;
static Object Structs;

static std::string tyStr(Type *T) {
  std::string S; raw_string_ostream OS(S); T->print(OS, false, true); return OS.str();
}

static std::string diTypeStr(const DIType *T, int depth = 0) {
  if (!T) return "void";
  if (depth > 8) return "?";
  if (auto *B = dyn_cast<DIBasicType>(T)) return B->getName().str();
  if (auto *D = dyn_cast<DIDerivedType>(T)) {
    switch (D->getTag()) {
    case dwarf::DW_TAG_pointer_type: return diTypeStr(D->getBaseType(), depth + 1) + "*";
    case dwarf::DW_TAG_const_type: return "const " + diTypeStr(D->getBaseType(), depth + 1);
    case dwarf::DW_TAG_typedef: {
      if (depth > 6 || D->getName().size()) return D->getName().str();
      return diTypeStr(D->getBaseType(), depth + 1); }
    default: return diTypeStr(D->getBaseType(), depth + 1);
    }
  }
  if (auto *C = dyn_cast<DICompositeType>(T)) {
    if (C->getTag() == dwarf::DW_TAG_array_type) return diTypeStr(C->getBaseType(), depth + 1) + "[]";
    return (C->getTag() == dwarf::DW_TAG_union_type ? "union " : "struct ") + C->getName().str();
  }
  if (isa<DISubroutineType>(T)) return "fn";
  return "?";
}

static void addStruct(const DICompositeType *C) {
  if (C->getTag() != dwarf::DW_TAG_structure_type && C->getTag() != dwarf::DW_TAG_union_type) return;
  if (C->getName().empty() || !C->getElements().size()) return;
  std::string N = C->getName().str();
  std::string NS = N + "@" + std::to_string(C->getSizeInBits() / 8);
  if (Structs.find(NS) != Structs.end()) return;
  Array Ms;
  for (auto *E : C->getElements())
    if (auto *D = dyn_cast<DIDerivedType>(E))
      Ms.push_back(Object{{"n", D->getName().str()}, {"o", (int64_t)(D->getOffsetInBits() / 8)},
        {"s", (int64_t)(D->getSizeInBits() / 8)}, {"t", diTypeStr(D->getBaseType())}});
  Object O{{"size", (int64_t)(C->getSizeInBits() / 8)}, {"m", std::move(Ms)}};
  // a name may stand for several types in different files
  if (Structs.find(N) == Structs.end()) Structs[N] = Object(O);
  Structs[NS] = std::move(O);
}

// ---- functions -------------------------------------------------------------
struct FnCtx {
  std::map<const llvm::Value *, int64_t> Id;
  std::map<const BasicBlock *, int64_t> BId;
  std::map<const Loop *, int64_t> LId;
};

static JV constVal(const Constant *C, int depth);

static JV valRef(const llvm::Value *V, FnCtx &X) {
  if (auto *A = dyn_cast<Argument>(V)) return Array{"a", (int64_t)A->getArgNo()};
  if (isa<Instruction>(V)) { auto It = X.Id.find(V); return Array{"i", It == X.Id.end() ? -1 : It->second}; }
  if (auto *C = dyn_cast<Constant>(V)) return constVal(C, 0);
  if (isa<InlineAsm>(V)) return Array{"asm"};
  if (isa<MetadataAsValue>(V)) return Array{"md"};
  return Array{"?"};
}

static JV constVal(const Constant *C, int depth) {
  if (auto *I = dyn_cast<ConstantInt>(C)) {
    if (I->getBitWidth() <= 64) return Array{"c", I->getSExtValue(), (int64_t)I->getBitWidth()};
    return Array{"?"};
  }
  if (isa<ConstantPointerNull>(C)) return Array{"n"};
  if (auto *P = dyn_cast<PoisonValue>(C)) { (void)P; return Array{"u"}; }
  if (isa<UndefValue>(C)) return Array{"u"};
  if (auto *G = dyn_cast<GlobalValue>(C)) return Array{"g", G->getName().str()};
  if (auto *F = dyn_cast<ConstantFP>(C)) return Array{"f", F->getValueAPF().convertToDouble()};
  if (isa<ConstantAggregateZero>(C)) return Array{"z"};
  if (auto *S = dyn_cast<ConstantDataArray>(C)) {
    if (S->isCString()) return Array{"s", json::fixUTF8(S->getAsCString())};
    Array A; for (unsigned i = 0; i < S->getNumElements() && i < 4096; ++i) A.push_back(constVal(S->getElementAsConstant(i), depth + 1));
    return Array{"v", std::move(A)};
  }
  if (isa<ConstantArray>(C) || isa<ConstantStruct>(C)) {
    Array A; for (auto &O : C->operands()) A.push_back(constVal(cast<Constant>(O), depth + 1));
    return Array{"v", std::move(A)};
  }
  if (auto *E = dyn_cast<ConstantExpr>(C)) {
    if (E->getOpcode() == Instruction::GetElementPtr) {
      APInt Off(64, 0);
      if (cast<GEPOperator>(E)->accumulateConstantOffset(*DL, Off))
        return Array{"ge", constVal(cast<Constant>(E->getOperand(0)), depth + 1), Off.getSExtValue()};
    }
    if (E->isCast()) return constVal(cast<Constant>(E->getOperand(0)), depth + 1);
    return Array{"?"};
  }
  return Array{"?"};
}

static JV scevJ(const SCEV *S, FnCtx &X, int depth = 0) {
  if (depth > 24) return Array{"?"};
  switch (S->getSCEVType()) {
  case scConstant: return Array{"c", cast<SCEVConstant>(S)->getValue()->getSExtValue()};
  case scUnknown: return Array{"v", valRef(cast<SCEVUnknown>(S)->getValue(), X)};
  case scAddRecExpr: {
    auto *A = cast<SCEVAddRecExpr>(S); Array Ops;
    for (auto *O : A->operands()) Ops.push_back(scevJ(O, X, depth + 1));
    auto It = X.LId.find(A->getLoop());
    return Array{"rec", It == X.LId.end() ? -1 : It->second, std::move(Ops)};
  }
  case scCouldNotCompute: return Array{"cnc"};
  default: break;
  }
  const char *N = "?";
  switch (S->getSCEVType()) {
  case scAddExpr: N = "+"; break; case scMulExpr: N = "*"; break;
  case scUDivExpr: N = "/"; break; case scUMaxExpr: N = "umax"; break;
  case scSMaxExpr: N = "smax"; break; case scUMinExpr: N = "umin"; break;
  case scSMinExpr: N = "smin"; break; case scSequentialUMinExpr: N = "umin"; break;
  case scTruncate: N = "trunc"; break; case scZeroExtend: N = "zext"; break;
  case scSignExtend: N = "sext"; break; case scPtrToInt: N = "p2i"; break;
  default: break;
  }
  Array R{N};
  for (auto *O : S->operands()) R.push_back(scevJ(O, X, depth + 1));
  return R;
}

static JV locJ(const Instruction &I) {
  const DILocation *L = I.getDebugLoc().get();
  if (!L) return nullptr;
  // innermost location; plus outermost line when inlined
  Array A{L->getFilename().str(), (int64_t)L->getLine()};
  if (L->getInlinedAt()) {
    const DILocation *O = L; while (O->getInlinedAt()) O = O->getInlinedAt();
    A.push_back((int64_t)O->getLine());
    if (auto *SP = L->getScope()->getSubprogram()) A.push_back(SP->getName().str());
  }
  return A;
}

static Object dumpFn(Function &F, FunctionAnalysisManager &FAM) {
  FnCtx X; int64_t n = 0, b = 0;
  for (auto &BB : F) { X.BId[&BB] = b++; for (auto &I : BB) X.Id[&I] = n++; }
  auto &LI = FAM.getResult<LoopAnalysis>(F);
  auto &SE = FAM.getResult<ScalarEvolutionAnalysis>(F);
  int64_t l = 0;
  SmallVector<Loop *, 8> Loops = LI.getLoopsInPreorder();
  for (auto *L : Loops) X.LId[L] = l++;

  Array Blocks;
  for (auto &BB : F) {
    Array Is;
    for (auto &I : BB) {
      if (isa<DbgInfoIntrinsic>(I)) continue;
      if (auto *II = dyn_cast<IntrinsicInst>(&I)) {
        auto ID = II->getIntrinsicID();
        if (ID == Intrinsic::lifetime_start || ID == Intrinsic::lifetime_end ||
            ID == Intrinsic::experimental_noalias_scope_decl) continue;
      }
      Object O{{"id", X.Id[&I]}, {"op", I.getOpcodeName()}};
      if (auto L = locJ(I); L.kind() != JV::Null) O["loc"] = std::move(L);
      if (!I.getType()->isVoidTy()) O["ty"] = tyStr(I.getType());
      if (auto *P = dyn_cast<PHINode>(&I)) {
        Array In;
        for (unsigned k = 0; k < P->getNumIncomingValues(); ++k)
          In.push_back(Array{valRef(P->getIncomingValue(k), X), X.BId[P->getIncomingBlock(k)]});
        O["in"] = std::move(In);
      } else if (auto *C = dyn_cast<CallBase>(&I)) {
        Array A; for (auto &U : C->args()) A.push_back(valRef(U.get(), X));
        O["args"] = std::move(A);
        const llvm::Value *Cal = C->getCalledOperand()->stripPointerCasts();
        if (auto *CF = dyn_cast<Function>(Cal)) O["callee"] = CF->getName().str();
        else O["fp"] = valRef(Cal, X);
        if (C->doesNotReturn()) O["noret"] = true;
      } else if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
        O["base"] = valRef(G->getPointerOperand(), X);
        O["sty"] = tyStr(G->getSourceElementType());
        MapVector<llvm::Value *, APInt> VO; APInt CO(64, 0);
        if (G->collectOffset(*DL, 64, VO, CO)) {
          O["off"] = CO.getSExtValue();
          Array V; for (auto &KV : VO) V.push_back(Array{valRef(KV.first, X), KV.second.getSExtValue()});
          O["var"] = std::move(V);
        }
      } else {
        Array A;
        if (isa<BranchInst>(I) || isa<SwitchInst>(I)) {
          if (auto *B = dyn_cast<BranchInst>(&I)) {
            if (B->isConditional()) A.push_back(valRef(B->getCondition(), X));
          } else A.push_back(valRef(cast<SwitchInst>(I).getCondition(), X));
        } else for (auto &U : I.operands()) if (!isa<BasicBlock>(U.get())) A.push_back(valRef(U.get(), X));
        O["args"] = std::move(A);
        if (auto *C2 = dyn_cast<CmpInst>(&I)) O["pred"] = CmpInst::getPredicateName(C2->getPredicate()).str();
        if (auto *AI = dyn_cast<AllocaInst>(&I)) {
          O["aty"] = tyStr(AI->getAllocatedType());
          if (auto S = AI->getAllocationSize(*DL)) O["asz"] = (int64_t)S->getFixedValue();
        }
        if (auto *SI = dyn_cast<StoreInst>(&I)) O["vty"] = tyStr(SI->getValueOperand()->getType());
        if (isa<LoadInst>(I)) { if (cast<LoadInst>(I).isVolatile()) O["vol"] = true; }
        if (isa<CastInst>(I)) O["from"] = tyStr(I.getOperand(0)->getType());
        if (auto *EV = dyn_cast<ExtractValueInst>(&I)) { Array Ix; for (auto i : EV->indices()) Ix.push_back((int64_t)i); O["idx"] = std::move(Ix); }
        if (auto *IV = dyn_cast<InsertValueInst>(&I)) { Array Ix; for (auto i : IV->indices()) Ix.push_back((int64_t)i); O["idx"] = std::move(Ix); }
      }
      if (I.isTerminator()) {
        Array S;
        for (unsigned k = 0; k < I.getNumSuccessors(); ++k) S.push_back(X.BId[I.getSuccessor(k)]);
        O["succ"] = std::move(S);
        if (auto *SW = dyn_cast<SwitchInst>(&I)) {
          Array Cs; for (auto &C : SW->cases()) Cs.push_back(Array{C.getCaseValue()->getSExtValue(), X.BId[C.getCaseSuccessor()]});
          O["cases"] = std::move(Cs); O["def"] = X.BId[SW->getDefaultDest()];
        }
      }
      // scalar evolution of pointers and integers used in loops
      if (Loop *L = LI.getLoopFor(&BB)) {
        (void)L;
        const llvm::Value *P = nullptr;
        if (auto *Ld = dyn_cast<LoadInst>(&I)) P = Ld->getPointerOperand();
        else if (auto *St = dyn_cast<StoreInst>(&I)) P = St->getPointerOperand();
        if (P && SE.isSCEVable(P->getType())) O["scev"] = scevJ(SE.getSCEV(const_cast<llvm::Value *>(P)), X);
        else if (isa<PHINode>(I) && SE.isSCEVable(I.getType())) O["scev"] = scevJ(SE.getSCEV(&I), X);
        else if (isa<GetElementPtrInst>(I) && SE.isSCEVable(I.getType())) O["scev"] = scevJ(SE.getSCEV(&I), X);
        else if ((isa<BinaryOperator>(I) || isa<CastInst>(I)) && SE.isSCEVable(I.getType())) O["scev"] = scevJ(SE.getSCEV(&I), X);
      }
      Is.push_back(std::move(O));
    }
    Blocks.push_back(std::move(Is));
  }
  Array Ls;
  for (auto *L : Loops) {
    Array Bs; for (auto *B : L->blocks()) Bs.push_back(X.BId[B]);
    SmallVector<BasicBlock *, 4> Ex; L->getExitingBlocks(Ex);
    Array Exs;
    for (auto *B : Ex) Exs.push_back(Array{X.BId[B], scevJ(SE.getExitCount(L, B), X)});
    Ls.push_back(Object{{"id", X.LId[L]}, {"header", X.BId[L->getHeader()]}, {"blocks", std::move(Bs)},
      {"exits", std::move(Exs)}, {"parent", L->getParentLoop() ? X.LId[L->getParentLoop()] : -1},
      {"btc", scevJ(SE.getBackedgeTakenCount(L), X)}});
  }
  Array Ps;
  const DISubprogram *SP = F.getSubprogram();
  auto An = SP ? ArgNames[SP] : std::vector<std::string>();
  for (unsigned i = 0; i < F.arg_size(); ++i) {
    Object P{{"ty", tyStr(F.getArg(i)->getType())}};
    if (i < An.size()) P["n"] = An[i];
    if (F.getArg(i)->hasByValAttr()) P["byval"] = tyStr(F.getArg(i)->getParamByValType());
    if (F.getArg(i)->hasStructRetAttr()) P["sret"] = true;
    Ps.push_back(std::move(P));
  }
  Object R{{"name", F.getName().str()}, {"params", std::move(Ps)}, {"ret", tyStr(F.getReturnType())},
    {"internal", F.hasLocalLinkage()}, {"blocks", std::move(Blocks)}, {"loops", std::move(Ls)}};
  if (SP) {
    R["src"] = SP->getName().str(); R["file"] = SP->getFilename().str(); R["line"] = (int64_t)SP->getLine();
    Array Ts; if (auto *T = SP->getType()) for (auto *E : T->getTypeArray()) Ts.push_back(diTypeStr(E));
    R["ditypes"] = std::move(Ts);
  }
  R["vararg"] = F.isVarArg();
  R["hidden"] = F.hasHiddenVisibility();
  return R;
}

int main(int argc, char **argv) {
  // irx OUT.json KEEPFILE PASSES modules...
  if (argc < 5) { errs() << "usage: irx OUT KEEP PASSES modules...\n"; return 2; }
  LLVMContext Ctx;
  std::unique_ptr<Module> M;
  std::set<std::string> Keep;
  {
    auto B = MemoryBuffer::getFile(argv[2]);
    if (!B) { errs() << "cannot read keep file\n"; return 2; }
    SmallVector<StringRef, 64> Ls; (*B)->getBuffer().split(Ls, '\n', -1, false);
    for (auto L : Ls) Keep.insert(L.trim().str());
  }
  for (int i = 4; i < argc; ++i) {
    SMDiagnostic Err;
    auto N = parseIRFile(argv[i], Err, Ctx);
    if (!N) { Err.print("irx", errs()); return 2; }
    if (!M) M = std::move(N);
    else if (Linker::linkModules(*M, std::move(N))) { errs() << "link failed: " << argv[i] << "\n"; return 2; }
  }
  DL = &M->getDataLayout();
  // names of the arguments and struct layouts, before anything is rewritten
  for (auto &F : *M) for (auto &I : instructions(F))
    if (auto *D = dyn_cast<DbgVariableIntrinsic>(&I)) {
      auto *V = D->getVariable();
      if (V->getArg() && D->getDebugLoc() && !D->getDebugLoc()->getInlinedAt()) {
        auto &An = ArgNames[V->getScope()->getSubprogram()];
        if (An.size() < V->getArg()) An.resize(V->getArg());
        An[V->getArg() - 1] = V->getName().str();
      }
    }
  DebugInfoFinder Fi; Fi.processModule(*M);
  for (auto *T : Fi.types()) if (auto *C = dyn_cast<DICompositeType>(T)) addStruct(C);

  // record the direct call graph before inlining
  Object Calls;
  for (auto &F : *M) {
    if (F.isDeclaration()) continue;
    std::map<std::string, int64_t> Cs;
    for (auto &I : instructions(F)) {
      if (isa<DbgInfoIntrinsic>(I)) continue;
      if (auto *C = dyn_cast<CallBase>(&I)) {
        if (auto *CF = dyn_cast<Function>(C->getCalledOperand()->stripPointerCasts())) Cs[CF->getName().str()]++;
        else Cs["*"]++;
      }
    }
    Object O; for (auto &K : Cs) O[K.first] = K.second;
    Calls[F.getName().str()] = std::move(O);
  }

  PassBuilder PB; LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
  PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM);
  PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);

  // inlining decision
  {
    CallGraph CG(*M);
    std::set<Function *> Rec;
    for (auto It = scc_begin(&CG); !It.isAtEnd(); ++It) {
      if (It.hasCycle()) for (auto *N : *It) if (N->getFunction()) Rec.insert(N->getFunction());
    }
    for (auto &F : *M) {
      if (F.isDeclaration()) continue;
      F.removeFnAttr(Attribute::NoInline); F.removeFnAttr(Attribute::OptimizeNone);
      F.addFnAttr("no-builtins"); // keep libc calls as they are written
      bool keep = Keep.count("@all") || Keep.count(F.getName().str()) || Rec.count(&F) || F.isVarArg();
      if (auto *SP = F.getSubprogram()) {
        if (Keep.count(SP->getName().str())) keep = true;
        // functions generated from the grammar are not inlined
        if (SP->getFilename().ends_with("_leg.c")) keep = true;
      }
      if (!keep && Keep.count("@external") && !F.hasLocalLinkage() && !F.hasHiddenVisibility()) keep = true;
      if (!keep && F.hasAddressTaken()) keep = true;
      if (!keep) { F.addFnAttr(Attribute::AlwaysInline); }
      else { F.removeFnAttr(Attribute::AlwaysInline); F.addFnAttr(Attribute::NoInline); }
    }
  }
  ModulePassManager MPM;
  if (auto E = PB.parsePassPipeline(MPM, argv[3])) { errs() << toString(std::move(E)) << "\n"; return 2; }
  MPM.run(*M, MAM);

  Array Fs; Array Decls;
  for (auto &F : *M) {
    if (F.isDeclaration()) { if (!F.isIntrinsic()) Decls.push_back(F.getName().str()); continue; }
    Fs.push_back(dumpFn(F, FAM));
  }
  Array Gs;
  for (auto &G : M->globals()) {
    Object O{{"name", G.getName().str()}, {"const", G.isConstant()}, {"internal", G.hasLocalLinkage()},
      {"tls", G.isThreadLocal()}, {"decl", G.isDeclaration()}, {"ty", tyStr(G.getValueType())},
      {"hidden", G.hasHiddenVisibility()}};
    if (!G.isDeclaration()) O["init"] = constVal(G.getInitializer(), 0);
    SmallVector<DIGlobalVariableExpression *, 1> DG; G.getDebugInfo(DG);
    if (!DG.empty()) { auto *V = DG[0]->getVariable(); O["src"] = V->getName().str(); O["file"] = V->getFilename().str();
      O["line"] = (int64_t)V->getLine(); O["dity"] = diTypeStr(V->getType()); }
    Gs.push_back(std::move(O));
  }
  Object Root{{"functions", std::move(Fs)}, {"globals", std::move(Gs)}, {"structs", std::move(Structs)},
    {"decls", std::move(Decls)}, {"calls", std::move(Calls)}};
  std::error_code EC; raw_fd_ostream OS(argv[1], EC);
  if (EC) { errs() << EC.message() << "\n"; return 2; }
  OS << JV(std::move(Root)) << "\n";
  return 0;
}

// hx: LLVM-18 front end of the hogl analyzer.
//
//   hx OUT.json SPEC.txt A.bc B.bc ...
//
// Links the bitcode of the current tree into one module, then for every root of
// SPEC.txt exports one function as JSON (flattened: callees that belong to the
// repository are inlined until only library calls and requested stop functions
// are left), together with the record layouts, enumerators, vtables and the
// list of functions.  Nothing is executed; the rules live in the Python side.
//
// SPEC lines (tab separated):
//   repo <prefix>             source prefix that counts as repository code
//   lib  <prefix>             source prefix that never counts (bundled fmt)
//   std  <qname>              library function that is inlined nevertheless
//   set  <id>                 begin a stop set
//   stop <qname>              (in the current stop set)
//   flat <rootid> <mangled> <setid|-> <eh 0/1>
//   index                     export list of functions
//   raw                       export every repository function, not flattened
#include "llvm/ADT/StringExtras.h"
#include "llvm/Analysis/ConstantFolding.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Analysis/CGSCCPassManager.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Bitcode/BitcodeReader.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/Verifier.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/MemoryBuffer.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/Scalar/ADCE.h"
#include "llvm/Transforms/Scalar/DCE.h"
#include "llvm/Transforms/Scalar/JumpThreading.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include "llvm/Transforms/Utils/Local.h"
#include <sys/wait.h>
#include <unistd.h>
#include <cstdlib>
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace llvm;

static LLVMContext Ctx;
static std::unique_ptr<Module> M;
static std::vector<std::string> RepoPrefix, LibPrefix;
static std::set<std::string> StdInline;

static std::string stripTmpl(const std::string &s) {
  // drop <...> (but keep operator<, operator<<, operator->, operator<=)
  std::string o;
  int d = 0;
  for (size_t i = 0; i < s.size(); i++) {
    if (d == 0 && s.compare(i, 8, "operator") == 0) {
      size_t j = i + 8;
      std::string opn = "operator";
      while (j < s.size() && strchr("<>=!+-*/%&|^~[]", s[j])) {
        // operator<< <T> : stop before a template list
        if (s[j] == '<' && (opn == "operator<<" || opn == "operator=" || opn == "operator==" ||
                            opn == "operator()" || opn == "operator[]"))
          break;
        opn += s[j++];
      }
      if (opn == "operator" && s.compare(j, 2, "()") == 0) { opn += "()"; j += 2; }
      o += opn;
      i = j - 1;
      continue;
    }
    char c = s[i];
    if (c == '<') { d++; continue; }
    if (c == '>') { if (d > 0) { d--; continue; } }
    if (d == 0) o += c;
  }
  return o;
}

static std::map<std::string, std::string> QCache;
static std::string qnameOf(StringRef mangled) {
  auto it = QCache.find(mangled.str());
  if (it != QCache.end()) return it->second;
  std::string r;
  ItaniumPartialDemangler D;
  std::string m = mangled.str();
  // strip llvm suffixes of internal symbols (.5, .llvm.123)
  if (m.rfind("_Z", 0) == 0 && !D.partialDemangle(m.c_str())) {
    if (D.isFunction()) {
      size_t n = 0;
      char *b = D.getFunctionName(nullptr, &n);
      r = b ? b : m;
      free(b);
    } else {
      size_t n = 0;
      char *b = D.finishDemangle(nullptr, &n);
      r = b ? b : m;
      free(b);
    }
  } else {
    size_t p = m.find('.');
    r = (p != std::string::npos && p > 0 && m.rfind("llvm.", 0) != 0) ? m.substr(0, p) : m;
    if (m.rfind("_Z", 0) == 0 && p != std::string::npos) {
      std::string q = qnameOf(m.substr(0, p));
      QCache[m] = q;
      return q;
    }
  }
  // inline namespaces of libstdc++
  auto rep = [&](const char *a) {
    std::string A = a;
    size_t p;
    while ((p = r.find(A)) != std::string::npos) r.erase(p, A.size());
  };
  r = stripTmpl(r);
  rep("__cxx11::");
  rep("[abi:cxx11]");
  rep("(anonymous namespace)::");
  {
    std::string A = "fmt::v6::";
    size_t p;
    while ((p = r.find(A)) != std::string::npos) r.replace(p, A.size(), "fmt::");
  }
  QCache[mangled.str()] = r;
  return r;
}

static std::string fullName(StringRef mangled) { return demangle(mangled.str()); }

static std::string filePath(const DIScope *S) {
  if (!S || !S->getFile()) return "";
  std::string f = S->getFilename().str(), d = S->getDirectory().str();
  if (f.empty()) return "";
  if (f[0] == '/') return f;
  return d + "/" + f;
}
static bool isRepoFile(const std::string &p) {
  for (auto &l : LibPrefix) if (StringRef(p).starts_with(l)) return false;
  for (auto &l : RepoPrefix) if (StringRef(p).starts_with(l)) return true;
  return false;
}
static std::map<const Function *, bool> RepoFn;
static bool isRepoFn(const Function &F) {
  if (F.isDeclaration()) return false;
  auto it = RepoFn.find(&F);
  if (it != RepoFn.end()) return it->second;
  bool r = false;
  if (auto *SP = F.getSubprogram()) r = isRepoFile(filePath(SP));
  RepoFn[&F] = r;
  return r;
}

// ---------------------------------------------------------------- layouts
struct Member { std::string name, ty; uint64_t bit, bits; bool bitfield, base; };
static std::map<std::string, std::vector<Member>> Layout;
static std::map<std::string, uint64_t> LayoutSize;
static std::map<std::string, std::vector<std::pair<std::string, int64_t>>> Enums;

static std::string diQual(const DIScope *S) {
  std::string r;
  while (S && !isa<DICompileUnit>(S) && !isa<DIFile>(S)) {
    std::string n;
    if (auto *SP = dyn_cast<DISubprogram>(S)) {
      n = SP->getName().str();
    } else
      n = S->getName().str();
    if (auto *NS = dyn_cast<DINamespace>(S)) {
      if (NS->getExportSymbols() || n.empty()) { S = S->getScope(); continue; }
    }
    if (n.empty()) n = "anon";
    r = r.empty() ? n : n + "::" + r;
    S = S->getScope();
  }
  return r;
}
static std::string tyName(const DIType *T) {
  if (!T) return "void";
  if (auto *D = dyn_cast<DIDerivedType>(T)) {
    std::string b = tyName(D->getBaseType());
    switch (D->getTag()) {
    case dwarf::DW_TAG_pointer_type: return b + "*";
    case dwarf::DW_TAG_reference_type: return b + "&";
    case dwarf::DW_TAG_rvalue_reference_type: return b + "&&";
    case dwarf::DW_TAG_const_type: return "const " + b;
    case dwarf::DW_TAG_volatile_type: return "volatile " + b;
    case dwarf::DW_TAG_typedef: return diQual(T);
    default: return b;
    }
  }
  if (isa<DISubroutineType>(T)) return "fn";
  if (auto *C = dyn_cast<DICompositeType>(T)) {
    if (C->getTag() == dwarf::DW_TAG_array_type) return tyName(C->getBaseType()) + "[]";
    return stripTmpl(diQual(C));
  }
  return T->getName().str();
}
static const DIType *stripTypedefs(const DIType *T) {
  while (T) {
    auto *D = dyn_cast<DIDerivedType>(T);
    if (!D) return T;
    unsigned t = D->getTag();
    if (t == dwarf::DW_TAG_typedef || t == dwarf::DW_TAG_const_type || t == dwarf::DW_TAG_volatile_type)
      T = D->getBaseType();
    else
      return T;
  }
  return T;
}

static void collectDI(Module &Mod) {
  DebugInfoFinder F;
  F.processModule(Mod);
  for (auto *T : F.types()) {
    auto *C = dyn_cast<DICompositeType>(T);
    if (!C) continue;
    unsigned tag = C->getTag();
    if (tag == dwarf::DW_TAG_enumeration_type) {
      std::string n = diQual(C);
      if (!C->getName().empty() && Enums.count(n)) continue;
      auto &v = Enums[n];
      bool anon = C->getName().empty();
      std::string sc = anon ? diQual(C->getScope()) : "";
      for (auto *E : C->getElements())
        if (auto *En = dyn_cast<DIEnumerator>(E)) {
          v.push_back({En->getName().str(), En->getValue().getSExtValue()});
          if (anon) Enums[sc].push_back({En->getName().str(), En->getValue().getSExtValue()});
        }
      continue;
    }
    if (tag != dwarf::DW_TAG_structure_type && tag != dwarf::DW_TAG_class_type && tag != dwarf::DW_TAG_union_type)
      continue;
    if (C->isForwardDecl()) continue;
    std::string n = stripTmpl(diQual(C));
    if (Layout.count(n) && !C->getName().empty() && Layout[n].size()) continue;
    if (C->getName().empty()) continue;
    auto &v = Layout[n];
    LayoutSize[n] = C->getSizeInBits() / 8;
    for (auto *E : C->getElements()) {
      auto *D = dyn_cast_or_null<DIDerivedType>(E);
      if (!D) continue;
      if (D->getTag() == dwarf::DW_TAG_member && !D->isStaticMember())
        v.push_back({D->getName().str(), tyName(D->getBaseType()), D->getOffsetInBits(), D->getSizeInBits(),
                     D->isBitField(), false});
      else if (D->getTag() == dwarf::DW_TAG_inheritance)
        v.push_back({tyName(D->getBaseType()), tyName(D->getBaseType()), D->getOffsetInBits(), D->getSizeInBits(),
                     false, true});
    }
  }
}

static std::string structQ(const StructType *S) {
  if (!S->hasName()) return "literal";
  std::string n = S->getName().str();
  for (const char *p : {"class.", "struct.", "union."})
    if (n.rfind(p, 0) == 0) { n = n.substr(strlen(p)); break; }
  // trailing .NNN
  size_t d = n.rfind('.');
  while (d != std::string::npos && d + 1 < n.size() && std::all_of(n.begin() + d + 1, n.end(), isdigit)) {
    n = n.substr(0, d);
    d = n.rfind('.');
  }
  if (n.size() > 5 && n.compare(n.size() - 5, 5, ".base") == 0) n = n.substr(0, n.size() - 5);
  std::string A = "__cxx11::";
  size_t p;
  while ((p = n.find(A)) != std::string::npos) n.erase(p, A.size());
  return stripTmpl(n);
}
// name of the member of S that starts at byte off (first non-base if several)
static std::string memberAt(const std::string &S, uint64_t off) {
  auto it = Layout.find(S);
  if (it == Layout.end()) return "#" + std::to_string(off);
  const Member *best = nullptr;
  for (auto &m : it->second) {
    if (m.bits == 0) continue;
    if (m.bitfield ? (m.bit / 8 <= off && off * 8 < m.bit + m.bits) : m.bit == off * 8)
      if (!best || (best->base && !m.base)) best = &m;
  }
  if (!best) return "#" + std::to_string(off);
  return best->base ? "base:" + best->name : best->name;
}

// ------------------------------------------------- access paths
// The linker merges structurally equal record types, so member names are
// resolved per module before linking and carried along as metadata.  A path is
// a sequence of steps ".<class>/<member>/<offset>" and "[]<const or $>*<size>/<count>".
static unsigned HxKind;
static Function *markerFn(Module &Mod, const std::string &key, Type *retTy, ArrayRef<Type *> args) {
  FunctionType *FT = FunctionType::get(retTy, args, false);
  FunctionCallee c = Mod.getOrInsertFunction(key, FT);
  Function *F = cast<Function>(c.getCallee());
  F->setDoesNotAccessMemory();
  F->setDoesNotThrow();
  F->setWillReturn();
  F->addFnAttr(Attribute::NoSync);
  F->addFnAttr(Attribute::NoFree);
  F->addFnAttr(Attribute::Speculatable);
  return F;
}
static std::string encodePath(const DataLayout &DL, Type *T, ArrayRef<const Value *> idx) {
  std::string r;
  for (size_t k = 0; k < idx.size(); k++) {
    auto *C = dyn_cast<ConstantInt>(idx[k]);
    std::string is = C ? std::to_string(C->getSExtValue()) : "$";
    if (k == 0) {
      if (!C || !C->isZero()) r += "|[]" + is + "*" + std::to_string(DL.getTypeAllocSize(T).getFixedValue()) + "/0";
      continue;
    }
    if (auto *S = dyn_cast<StructType>(T)) {
      unsigned e = (unsigned)C->getZExtValue();
      uint64_t off = DL.getStructLayout(S)->getElementOffset(e);
      std::string q = structQ(S);
      r += "|." + q + "/" + memberAt(q, off) + "/" + std::to_string(off);
      T = S->getElementType(e);
    } else if (auto *A = dyn_cast<ArrayType>(T)) {
      T = A->getElementType();
      r += "|[]" + is + "*" + std::to_string(DL.getTypeAllocSize(T).getFixedValue()) + "/" + std::to_string(A->getNumElements());
    } else
      r += "|?";
  }
  return r;
}
static std::map<std::string, std::string> Path2Id;
static std::vector<std::string> Paths;
static std::string pathId(const std::string &p) {
  auto it = Path2Id.find(p);
  if (it != Path2Id.end()) return it->second;
  std::string id = std::to_string(Paths.size());
  Paths.push_back(p);
  Path2Id[p] = id;
  return id;
}
static const std::string &pathOfMarker(StringRef fn) {
  StringRef s = fn.substr(fn.find('.') + 1);
  s = s.substr(0, s.find('.'));
  unsigned n = 0;
  s.getAsInteger(10, n);
  return Paths[n];
}
static bool isMarker(const CallBase *C, StringRef pfx) {
  auto *F = C->getCalledFunction();
  return F && F->getName().starts_with(pfx);
}
static std::string gepPathOf(GetElementPtrInst *G) {
  if (auto *N = G->getMetadata(HxKind)) return cast<MDString>(N->getOperand(0))->getString().str();
  std::vector<const Value *> v(G->idx_begin(), G->idx_end());
  return encodePath(G->getModule()->getDataLayout(), G->getSourceElementType(), v);
}
static void annotateModule(Module &Mod) {
  const DataLayout &DL = Mod.getDataLayout();
  for (auto &F : Mod) {
    std::vector<GetElementPtrInst *> zero;
    for (auto &I : instructions(F)) {
      if (auto *A = dyn_cast<AllocaInst>(&I)) {
        if (auto *S = dyn_cast<StructType>(A->getAllocatedType()))
          A->setMetadata(HxKind, MDNode::get(Ctx, MDString::get(Ctx, structQ(S))));
        continue;
      }
      auto *G = dyn_cast<GetElementPtrInst>(&I);
      if (!G || G->getType()->isVectorTy()) continue;
      Type *T = G->getSourceElementType();
      if (!isa<StructType>(T) && !isa<ArrayType>(T)) continue;
      std::vector<const Value *> v(G->idx_begin(), G->idx_end());
      std::string p = encodePath(DL, T, v);
      G->setMetadata(HxKind, MDNode::get(Ctx, MDString::get(Ctx, p)));
      if (G->hasAllZeroIndices() && isa<StructType>(T) && G->getNumIndices() > 1) zero.push_back(G);
    }
    for (auto *G : zero) {
      std::string p = gepPathOf(G);
      Function *MF = markerFn(Mod, "__zgep." + pathId(p), G->getType(), {G->getPointerOperandType()});
      auto *C = CallInst::Create(MF->getFunctionType(), MF, {G->getPointerOperand()}, "", G);
      C->setDebugLoc(G->getDebugLoc());
      C->takeName(G);
      G->replaceAllUsesWith(C);
      G->eraseFromParent();
    }
  }
}
static void unprotect(Function &F) {
  std::vector<CallInst *> v;
  for (auto &I : instructions(F))
    if (auto *C = dyn_cast<CallInst>(&I))
      if (isMarker(C, "__zgep.")) v.push_back(C);
  for (auto *C : v) {
    std::string p = pathOfMarker(C->getCalledFunction()->getName());
    auto *G = GetElementPtrInst::Create(Type::getInt8Ty(Ctx), C->getArgOperand(0),
                                        {ConstantInt::get(Type::getInt64Ty(Ctx), 0)}, "", C);
    G->setDebugLoc(C->getDebugLoc());
    G->setMetadata(HxKind, MDNode::get(Ctx, MDString::get(Ctx, p)));
    G->takeName(C);
    C->replaceAllUsesWith(G);
    C->eraseFromParent();
  }
}
static void protectAllGeps(Function &F) {
  std::vector<GetElementPtrInst *> v;
  for (auto &I : instructions(F))
    if (auto *G = dyn_cast<GetElementPtrInst>(&I))
      if (!G->getType()->isVectorTy()) v.push_back(G);
  for (auto *G : v) {
    std::string p = gepPathOf(G);
    std::vector<Value *> args{G->getPointerOperand()};
    std::vector<Type *> tys{G->getPointerOperandType()};
    std::string suf;
    for (auto &I : G->indices())
      if (!isa<ConstantInt>(I)) {
        args.push_back(I);
        tys.push_back(I->getType());
        suf += "." + std::to_string(I->getType()->getPrimitiveSizeInBits());
      }
    Function *MF = markerFn(*F.getParent(), "__gep." + pathId(p) + suf, G->getType(), tys);
    auto *C = CallInst::Create(MF->getFunctionType(), MF, args, "", G);
    C->setDebugLoc(G->getDebugLoc());
    C->takeName(G);
    G->replaceAllUsesWith(C);
    G->eraseFromParent();
  }
}

// ------------------------------------------------- preparation
static void pruneEH(Function &F) {
  bool ch = false;
  for (auto &BB : llvm::make_early_inc_range(F))
    if (auto *II = dyn_cast<InvokeInst>(BB.getTerminator())) {
      changeToCall(II);
      ch = true;
    }
  if (ch) removeUnreachableBlocks(F);
}

static bool wantInline(const Function &F, const std::set<std::string> &stop) {
  if (F.isDeclaration() || F.isVarArg()) return false;
  std::string q = qnameOf(F.getName());
  if (stop.count(q) || stop.count(F.getName().str())) return false;
  if (isRepoFn(F)) return true;
  return StdInline.count(q) > 0;
}

static bool simplifyConsts(Function &F) {
  bool ch = false, any = true;
  const DataLayout &DL = M->getDataLayout();
  while (any) {
    any = false;
    for (auto &BB : F)
      for (auto &I : make_early_inc_range(BB)) {
        if (I.use_empty() || I.isTerminator()) continue;
        if (auto *C = dyn_cast<CallBase>(&I)) if (!isa<IntrinsicInst>(C)) continue;
        Value *V = nullptr;
        if (auto *P = dyn_cast<PHINode>(&I)) V = P->hasConstantValue();
        if (!V) if (auto *S = dyn_cast<SelectInst>(&I))
          if (auto *C = dyn_cast<ConstantInt>(S->getCondition()))
            V = C->isOne() ? S->getTrueValue() : S->getFalseValue();
        if (!V) V = ConstantFoldInstruction(&I, DL);
        if (V && V != &I) {
          I.replaceAllUsesWith(V);
          if (isInstructionTriviallyDead(&I)) I.eraseFromParent();
          any = ch = true;
        }
      }
    for (auto &BB : F) any |= ConstantFoldTerminator(&BB, true);
    any |= removeUnreachableBlocks(F);
    ch |= any;
  }
  return ch;
}

static unsigned InlineBudget = 400000;
static std::vector<std::string> Warnings;

static void flatten(Function &F, const std::set<std::string> &stop) {
  // worklist with inline history
  struct Item { CallBase *C; int hist; };
  std::vector<std::pair<Function *, int>> H;  // (callee, parent)
  std::vector<Item> W;
  for (auto &I : instructions(F)) if (auto *C = dyn_cast<CallBase>(&I)) W.push_back({C, -1});
  unsigned n = 0;
  for (size_t k = 0; k < W.size(); k++) {
    CallBase *C = W[k].C;
    if (!C) continue;
    Function *G = C->getCalledFunction();
    if (!G) {
      // call through a cast or constant alias
      G = dyn_cast<Function>(C->getCalledOperand()->stripPointerCastsAndAliases());
      if (!G || G->getFunctionType() != C->getFunctionType()) continue;
      C->setCalledFunction(G);
    }
    if (G == &F || !wantInline(*G, stop)) continue;
    bool rec = false;
    unsigned depth = 0;
    for (int h = W[k].hist; h >= 0; h = H[h].second) { if (H[h].first == G) rec = true; depth++; }
    if (rec || depth > 60) continue;
    if (++n > 6000 || F.getInstructionCount() > InlineBudget) {
      Warnings.push_back("inline budget exceeded in " + F.getName().str());
      break;
    }
    InlineFunctionInfo IFI;
    int hid = (int)H.size();
    H.push_back({G, W[k].hist});
    auto r = InlineFunction(*C, IFI, false, nullptr, true);
    if (!r.isSuccess()) {
      Warnings.push_back(std::string("cannot inline ") + G->getName().str() + ": " + r.getFailureReason());
      continue;
    }
    for (auto *NC : IFI.InlinedCallSites) W.push_back({NC, hid});
  }
}

static FunctionAnalysisManager *FAMp;
static void optimise(Function &F, bool thread) {
  auto &FAM = *FAMp;
  unprotect(F);
  removeUnreachableBlocks(F);
  FAM.invalidate(F, PreservedAnalyses::none());
  { FunctionPassManager P; P.addPass(SROAPass(SROAOptions::PreserveCFG)); P.run(F, FAM); }
  protectAllGeps(F);
  FAM.invalidate(F, PreservedAnalyses::none());
  for (int r = 0; r < 3; r++) {
    bool ch = simplifyConsts(F);
    FAM.invalidate(F, PreservedAnalyses::none());
    if (thread) {
      FunctionPassManager P;
      P.addPass(JumpThreadingPass());
      P.addPass(ADCEPass());
      P.run(F, FAM);
    } else {
      FunctionPassManager P;
      P.addPass(DCEPass());
      P.run(F, FAM);
    }
    FAM.invalidate(F, PreservedAnalyses::none());
    ch |= simplifyConsts(F);
    FAM.invalidate(F, PreservedAnalyses::none());
    if (!ch && r) break;
  }
  for (auto &BB : make_early_inc_range(F)) MergeBlockIntoPredecessor(&BB);
}

// ------------------------------------------------- JSON export
static void exportStr(json::OStream &J, StringRef s) {
  std::string o;
  for (unsigned char c : s) o += (c >= 32 && c < 127) || c == '\n' || c == '\t' ? (char)c : '?';
  J.value(o);
}
static std::string constPath(const GEPOperator *G) {
  const DataLayout &DL = M->getDataLayout();
  APInt off(64, 0);
  auto *GV = dyn_cast<GlobalVariable>(G->getPointerOperand());
  if (GV && G->accumulateConstantOffset(DL, off)) {
    uint64_t o = off.getZExtValue();
    SmallVector<DIGlobalVariableExpression *, 1> dv;
    GV->getDebugInfo(dv);
    std::string r;
    if (!dv.empty()) {
      const DIType *T = stripTypedefs(dv[0]->getVariable()->getType());
      for (int depth = 0; T && depth < 8; depth++) {
        auto *C = dyn_cast<DICompositeType>(T);
        if (!C) break;
        if (C->getTag() == dwarf::DW_TAG_array_type) {
          const DIType *E = stripTypedefs(C->getBaseType());
          uint64_t es = E ? E->getSizeInBits() / 8 : 0;
          if (!es) { // pointers behind typedefs have sizes; unknown otherwise
            break;
          }
          r += "|[]" + std::to_string(o / es) + "*" + std::to_string(es) + "/" + std::to_string(C->getSizeInBits() / 8 / es);
          o %= es;
          T = E;
          continue;
        }
        std::string q = stripTmpl(diQual(C));
        const DIDerivedType *hit = nullptr;
        for (auto *E : C->getElements()) {
          auto *D = dyn_cast_or_null<DIDerivedType>(E);
          if (!D || D->isStaticMember()) continue;
          if (D->getTag() != dwarf::DW_TAG_member && D->getTag() != dwarf::DW_TAG_inheritance) continue;
          uint64_t a = D->getOffsetInBits() / 8, n = (D->getSizeInBits() + 7) / 8;
          if (!n && D->getBaseType()) n = stripTypedefs(D->getBaseType()) ? stripTypedefs(D->getBaseType())->getSizeInBits() / 8 : 0;
          if (a <= o && o < a + n) hit = D;
        }
        if (!hit) break;
        uint64_t a = hit->getOffsetInBits() / 8;
        r += "|." + q + "/" + (hit->getTag() == dwarf::DW_TAG_inheritance ? "base:" + tyName(hit->getBaseType()) : hit->getName().str()) + "/" + std::to_string(a);
        o -= a;
        T = stripTypedefs(hit->getBaseType());
      }
    }
    if (r.empty()) r = "|[]" + std::to_string(off.getZExtValue()) + "*1/0";
    return r;
  }
  std::vector<const Value *> v(G->idx_begin(), G->idx_end());
  return encodePath(DL, G->getSourceElementType(), v);
}
struct FnExport {
  json::OStream &J;
  std::map<const Value *, unsigned> id;
  FnExport(json::OStream &j) : J(j) {}

  void operand(const Value *V) {
    if (auto *C = dyn_cast<ConstantInt>(V)) {
      unsigned b = C->getBitWidth();
      J.array([&] {
        J.value("c");
        if (b <= 64) { if (b == 64) J.value((int64_t)C->getZExtValue()); else J.value((int64_t)C->getZExtValue()); }
        else J.value(toString(C->getValue(), 10, false));
        J.value((int64_t)b);
      });
      return;
    }
    if (isa<ConstantPointerNull>(V)) { J.array([&] { J.value("null"); }); return; }
    if (isa<UndefValue>(V)) { J.array([&] { J.value("undef"); }); return; }
    if (auto *F = dyn_cast<Function>(V)) {
      J.array([&] { J.value("f"); J.value(qnameOf(F->getName())); J.value(F->getName()); });
      return;
    }
    if (auto *G = dyn_cast<GlobalVariable>(V)) {
      if (G->isConstant() && G->hasInitializer())
        if (auto *D = dyn_cast<ConstantDataArray>(G->getInitializer()))
          if (D->isString()) {
            J.array([&] { J.value("s"); StringRef s = D->getAsString(); if (s.size() && s.back() == 0) s = s.drop_back(); exportStr(J, s); });
            return;
          }
      if (G->isConstant() && G->hasInitializer() && G->hasLocalLinkage() && G->getName().starts_with(".str") && isa<ConstantAggregateZero>(G->getInitializer()))
        if (auto *AT = dyn_cast<ArrayType>(G->getInitializer()->getType()))
          if (AT->getElementType()->isIntegerTy(8)) {
            J.array([&] { J.value("s"); J.value(""); });
            return;
          }
      J.array([&] { J.value("g"); J.value(qnameOf(G->getName())); J.value(G->getName()); });
      return;
    }
    if (auto *A = dyn_cast<GlobalAlias>(V)) { operand(A->getAliasee()); return; }
    if (auto *CF = dyn_cast<ConstantFP>(V)) {
      SmallString<32> s; CF->getValueAPF().toString(s);
      J.array([&] { J.value("fp"); J.value(s.str()); });
      return;
    }
    if (auto *G = dyn_cast<GEPOperator>(V)) if (isa<Constant>(V)) {
      J.array([&] {
        J.value("e");
        J.object([&] {
          J.attribute("op", "gep");
          J.attributeArray("ops", [&] { operand(G->getPointerOperand()); });
          J.attribute("p", constPath(G));
        });
      });
      return;
    }
    if (auto *CE = dyn_cast<ConstantExpr>(V)) {
      J.array([&] {
        J.value("e");
        J.object([&] {
          J.attribute("op", CE->getOpcodeName());
          J.attributeArray("ops", [&] { for (auto &o : CE->operands()) operand(o); });
        });
      });
      return;
    }
    if (auto *CA = dyn_cast<ConstantAggregate>(V)) {
      J.array([&] { J.value("agg"); for (auto &o : CA->operands()) operand(o); });
      return;
    }
    if (isa<ConstantAggregateZero>(V)) { J.array([&] { J.value("zero"); }); return; }
    if (isa<ConstantData>(V)) { J.array([&] { J.value("cdata"); }); return; }
    if (auto *A = dyn_cast<Argument>(V)) { J.array([&] { J.value("a"); J.value((int64_t)A->getArgNo()); }); return; }
    if (auto *IA = dyn_cast<InlineAsm>(V)) { J.array([&] { J.value("asm"); J.value(IA->getAsmString()); J.value(IA->getConstraintString()); }); return; }
    if (isa<MetadataAsValue>(V)) {
      auto *MD = cast<MetadataAsValue>(V)->getMetadata();
      if (auto *S = dyn_cast<MDString>(MD)) { std::string d = demangle(S->getString().str()); J.array([&] { J.value("m"); J.value(d); }); }
      else J.array([&] { J.value("m"); J.value(""); });
      return;
    }
    if (auto *B = dyn_cast<BasicBlock>(V)) { J.array([&] { J.value("b"); J.value((int64_t)id[B]); }); return; }
    auto it = id.find(V);
    if (it != id.end()) { J.array([&] { J.value("v"); J.value((int64_t)it->second); }); return; }
    J.array([&] { J.value("?"); });
  }

  static std::string ty(Type *T) { std::string s; raw_string_ostream o(s); T->print(o); 
    if (auto *S = dyn_cast<StructType>(T)) if (S->hasName()) return "%" + structQ(S);
    return s; }

  void run(Function &F, const std::string &root, const std::string &orig) {
    unsigned n = 0;
    for (auto &BB : F) id[&BB] = n++;
    n = 0;
    for (auto &BB : F) for (auto &I : BB) id[&I] = n++;
    J.object([&] {
      J.attribute("root", root);
      J.attribute("mangled", orig);
      J.attribute("qname", qnameOf(orig));
      J.attribute("full", fullName(orig));
      if (auto *SP = F.getSubprogram()) {
        J.attribute("file", filePath(SP));
        J.attribute("line", (int64_t)SP->getLine());
        if (SP->getType()) J.attributeArray("ptypes", [&] { for (auto *t : SP->getType()->getTypeArray()) J.value(tyName(t)); });
      }
      J.attribute("ret", ty(F.getReturnType()));
      J.attributeArray("args", [&] {
        for (auto &A : F.args()) J.array([&] { J.value(A.getName()); J.value(ty(A.getType())); J.value(A.hasStructRetAttr()); });
      });
      J.attributeArray("blocks", [&] {
        for (auto &BB : F) {
          J.array([&] { for (auto &I : BB) inst(I); });
        }
      });
    });
  }

  void inst(Instruction &I) {
    if (auto *D = dyn_cast<DbgInfoIntrinsic>(&I)) { (void)D; return; }
    if (auto *II = dyn_cast<IntrinsicInst>(&I)) {
      switch (II->getIntrinsicID()) {
      case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::experimental_noalias_scope_decl:
        return;
      default: break;
      }
    }
    J.object([&] {
      J.attribute("i", (int64_t)id[&I]);
      std::string op = I.getOpcodeName();
      auto *CB = dyn_cast<CallBase>(&I);
      bool gep = false;
      if (CB && (isMarker(CB, "__gep.") || isMarker(CB, "__zgep."))) { op = "gep"; gep = true; }
      if (isa<InvokeInst>(&I)) op = "invoke";
      J.attribute("op", op == "getelementptr" ? "gep" : op);
      if (!I.getType()->isVoidTy()) J.attribute("ty", ty(I.getType()));
      if (const DebugLoc &L = I.getDebugLoc()) {
        J.attribute("ln", (int64_t)L.getLine());
        J.attributeArray("ch", [&] {
          const DILocation *D = L.get();
          bool first = true;
          while (D) {
            auto *SP = D->getScope()->getSubprogram();
            std::string q = SP ? qnameOf(SP->getLinkageName().empty() ? SP->getName() : SP->getLinkageName()) : "";
            if (first) { J.value(filePath(D->getFile())); first = false; }
            J.array([&] { J.value(q); J.value((int64_t)D->getLine()); });
            D = D->getInlinedAt();
          }
        });
      }
      if (gep) {
        J.attributeArray("ops", [&] { for (auto &a : CB->args()) operand(a); });
        J.attribute("p", pathOfMarker(CB->getCalledFunction()->getName()));
        return;
      }
      if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
        J.attributeArray("ops", [&] { operand(G->getPointerOperand()); for (auto &x : G->indices()) if (!isa<ConstantInt>(x)) operand(x); });
        J.attribute("p", gepPathOf(G));
        return;
      }
      if (CB) {
        J.attributeBegin("callee"); operand(CB->getCalledOperand()); J.attributeEnd();
        J.attributeArray("ops", [&] { for (auto &a : CB->args()) operand(a); });
        if (CB->doesNotReturn()) J.attribute("noret", true);
        if (auto *II = dyn_cast<InvokeInst>(CB)) {
          J.attributeArray("succ", [&] { J.value((int64_t)id[II->getNormalDest()]); J.value((int64_t)id[II->getUnwindDest()]); });
        }
        return;
      }
      if (auto *P = dyn_cast<PHINode>(&I)) {
        J.attributeArray("ops", [&] { for (auto &v : P->incoming_values()) operand(v); });
        J.attributeArray("from", [&] { for (auto *b : P->blocks()) J.value((int64_t)id[b]); });
        return;
      }
      if (auto *B = dyn_cast<BranchInst>(&I)) {
        J.attributeArray("ops", [&] { if (B->isConditional()) operand(B->getCondition()); });
        J.attributeArray("succ", [&] { for (unsigned k = 0; k < B->getNumSuccessors(); k++) J.value((int64_t)id[B->getSuccessor(k)]); });
        return;
      }
      if (auto *S = dyn_cast<SwitchInst>(&I)) {
        J.attributeArray("ops", [&] { operand(S->getCondition()); });
        J.attributeArray("cases", [&] { for (auto &c : S->cases()) operand(c.getCaseValue()); });
        J.attributeArray("succ", [&] { J.value((int64_t)id[S->getDefaultDest()]); for (auto &c : S->cases()) J.value((int64_t)id[c.getCaseSuccessor()]); });
        return;
      }
      if (auto *A = dyn_cast<AllocaInst>(&I)) {
        if (auto *N = A->getMetadata(HxKind)) J.attribute("aty", "%" + cast<MDString>(N->getOperand(0))->getString().str());
        else J.attribute("aty", ty(A->getAllocatedType()));
        J.attribute("asz", (int64_t)M->getDataLayout().getTypeAllocSize(A->getAllocatedType()));
        J.attribute("name", A->getName());
        J.attributeArray("ops", [&] { operand(A->getArraySize()); });
        return;
      }
      if (auto *L = dyn_cast<LoadInst>(&I)) { if (L->isVolatile()) J.attribute("vol", true); }
      if (auto *S = dyn_cast<StoreInst>(&I)) {
        if (S->isVolatile()) J.attribute("vol", true);
        J.attribute("sty", ty(S->getValueOperand()->getType()));
      }
      if (auto *C = dyn_cast<CmpInst>(&I)) J.attribute("pred", CmpInst::getPredicateName(C->getPredicate()));
      if (auto *EV = dyn_cast<ExtractValueInst>(&I)) if (EV->getNumIndices()) J.attribute("ix", (int64_t) EV->getIndices()[0]);
      if (auto *R = dyn_cast<AtomicRMWInst>(&I)) J.attribute("rmw", AtomicRMWInst::getOperationName(R->getOperation()));
      if (auto *EV = dyn_cast<ExtractValueInst>(&I)) J.attributeArray("idx", [&] { for (unsigned x : EV->indices()) J.value((int64_t)x); });
      if (auto *IV = dyn_cast<InsertValueInst>(&I)) J.attributeArray("idx", [&] { for (unsigned x : IV->indices()) J.value((int64_t)x); });
      if (auto *C = dyn_cast<CastInst>(&I)) J.attribute("sty", ty(C->getSrcTy()));
      if (auto *IC = dyn_cast<ICmpInst>(&I)) J.attribute("sty", ty(IC->getOperand(0)->getType()));
      if (isa<LandingPadInst>(&I) || isa<ResumeInst>(&I)) {}
      J.attributeArray("ops", [&] { for (auto &o : I.operands()) operand(o); });
    });
  }
};

static void exportConst(json::OStream &J, const Constant *C, int depth) {
  FnExport X(J);
  if (depth > 6) { J.value(nullptr); return; }
  if (auto *A = dyn_cast<ConstantAggregate>(C)) { J.array([&] { J.value("agg"); for (auto &o : A->operands()) exportConst(J, cast<Constant>(o), depth + 1); }); return; }
  if (auto *D = dyn_cast<ConstantDataSequential>(C)) {
    if (D->isString()) { J.array([&] { J.value("s"); exportStr(J, D->getAsString().rtrim('\0')); }); return; }
    J.array([&] { J.value("agg"); for (unsigned i = 0; i < D->getNumElements() && i < 4096; i++) X.operand(D->getElementAsConstant(i)); });
    return;
  }
  X.operand(C);
}

// scalar cells of a constant initialiser: [byte offset, operand]
static void exportCells(json::OStream &J, const Constant *C, uint64_t off, const DataLayout &DL, int &budget) {
  if (budget <= 0) return;
  Type *T = C->getType();
  if (auto *ST = dyn_cast<StructType>(T)) {
    auto *SL = DL.getStructLayout(ST);
    for (unsigned i = 0; i < ST->getNumElements(); i++)
      if (auto *E = C->getAggregateElement(i)) exportCells(J, E, off + SL->getElementOffset(i), DL, budget);
    return;
  }
  if (auto *AT = dyn_cast<ArrayType>(T)) {
    uint64_t sz = DL.getTypeAllocSize(AT->getElementType());
    for (uint64_t i = 0; i < AT->getNumElements() && budget > 0; i++)
      if (auto *E = C->getAggregateElement(i)) exportCells(J, E, off + i * sz, DL, budget);
    return;
  }
  budget--;
  FnExport X(J);
  J.array([&] { J.value((int64_t)off); X.operand(C); });
}

int main(int argc, char **argv) {
  if (argc < 4) { errs() << "usage: hx OUT SPEC BC...\n"; return 2; }
  HxKind = Ctx.getMDKindID("hx");
  std::vector<std::unique_ptr<Module>> mods;
  for (int i = 3; i < argc; i++) {
    SMDiagnostic E;
    auto m = parseIRFile(argv[i], E, Ctx);
    if (!m) { E.print("hx", errs()); return 2; }
    collectDI(*m);
    mods.push_back(std::move(m));
  }
  for (auto &m : mods) annotateModule(*m);
  for (auto &m : mods) {
    if (!M) M = std::move(m);
    else if (Linker::linkModules(*M, std::move(m))) { errs() << "hx: link failed\n"; return 2; }
  }
  auto SB = MemoryBuffer::getFile(argv[2]);
  if (!SB) { errs() << "hx: no spec\n"; return 2; }
  std::map<std::string, std::set<std::string>> Stops;
  struct Root { std::string id, fn, set; bool eh; };
  std::vector<Root> Roots, QRoots;
  bool wantIndex = false, wantRaw = false;
  std::string cur;
  SmallVector<StringRef, 0> lines;
  (*SB)->getBuffer().split(lines, '\n');
  for (auto l : lines) {
    SmallVector<StringRef, 8> f;
    l.split(f, '\t');
    if (f[0] == "repo") RepoPrefix.push_back(f[1].str());
    else if (f[0] == "lib") LibPrefix.push_back(f[1].str());
    else if (f[0] == "std") StdInline.insert(f[1].str());
    else if (f[0] == "set") cur = f[1].str();
    else if (f[0] == "stop") Stops[cur].insert(f[1].str());
    else if (f[0] == "flat") Roots.push_back({f[1].str(), f[2].str(), f[3].str(), f[4] == "1"});
    else if (f[0] == "qflat") QRoots.push_back({f[1].str(), f[2].str(), f[3].str(), f[4] == "1"});
    else if (f[0] == "index") wantIndex = true;
    else if (f[0] == "raw") wantRaw = true;
  }

  LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
  PassBuilder PB;
  PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM);
  PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
  FAMp = &FAM;

  std::error_code EC;
  raw_fd_ostream OS(argv[1], EC);
  if (EC) { errs() << "hx: cannot write " << argv[1] << "\n"; return 2; }
  json::OStream J(OS);
  J.objectBegin();

  if (wantIndex) {
    J.attributeArray("index", [&] {
      for (auto &F : *M) {
        if (F.isDeclaration()) continue;
        bool repo = isRepoFn(F);
        J.object([&] {
          J.attribute("m", F.getName()); J.attribute("q", qnameOf(F.getName())); J.attribute("full", fullName(F.getName()));
          J.attribute("repo", repo);
          J.attribute("internal", F.hasLocalLinkage());
          if (auto *SP = F.getSubprogram()) { J.attribute("file", filePath(SP)); J.attribute("line", (int64_t)SP->getLine()); 
            if (repo && SP->getType()) J.attributeArray("ptypes", [&] { for (auto *t : SP->getType()->getTypeArray()) J.value(tyName(t)); });
          }
        });
      }
    });
    J.attributeObject("layout", [&] {
      for (auto &l : Layout) {
        StringRef n = l.first;
        if (n.starts_with("std::") || n.starts_with("__gnu")) continue;
        J.attributeArray(l.first, [&] {
          for (auto &m : l.second) J.array([&] { J.value(m.name); J.value(m.ty); J.value((int64_t)m.bit); J.value((int64_t)m.bits); J.value(m.base); J.value(m.bitfield); });
        });
      }
    });
    J.attributeObject("sizes", [&] { for (auto &l : LayoutSize) { StringRef n = l.first; if (!n.starts_with("std::")) J.attribute(l.first, (int64_t)l.second); } });
    J.attributeObject("enums", [&] { for (auto &e : Enums) { StringRef n = e.first; if (n.starts_with("std::")) continue; J.attributeArray(e.first, [&] { for (auto &v : e.second) J.array([&] { J.value(v.first); J.value(v.second); }); }); } });
    J.attributeObject("globals", [&] {
      std::set<std::string> seen;
      for (auto &G : M->globals()) {
        std::string q = qnameOf(G.getName());
        if (G.getName().starts_with("llvm.") || G.getName().starts_with(".str")) continue;
        SmallVector<DIGlobalVariableExpression *, 1> dv;
        G.getDebugInfo(dv);
        bool vt = q.rfind("vtable for hogl::", 0) == 0;
        bool repo = !dv.empty() && isRepoFile(filePath(dv[0]->getVariable()->getScope() ? (const DIScope *)dv[0]->getVariable()->getFile() : nullptr));
        bool cst = G.getName().starts_with("__const.") || G.getName().starts_with("constinit");
        if (!vt && !repo && !cst) continue;
        if (!seen.insert(G.getName().str()).second) continue;
        J.attributeObject(G.getName(), [&] {
          J.attribute("q", q);
          if (!dv.empty()) { J.attribute("type", tyName(dv[0]->getVariable()->getType())); J.attribute("file", filePath(dv[0]->getVariable()->getFile())); J.attribute("line", (int64_t)dv[0]->getVariable()->getLine()); J.attribute("name", dv[0]->getVariable()->getName()); }
          J.attribute("const", G.isConstant());
          J.attribute("internal", G.hasLocalLinkage());
          if (G.isConstant() && G.hasInitializer() && !vt) { int budget = 4096; J.attributeArray("cells", [&] { exportCells(J, G.getInitializer(), 0, M->getDataLayout(), budget); }); }
          if (G.hasInitializer() && !cst) { J.attributeBegin("init"); exportConst(J, G.getInitializer(), 0); J.attributeEnd(); }
        });
      }
    });
  }

  // Prepare all functions that may be inlined or exported.
  for (auto &q : QRoots)
    for (auto &F : *M)
      if (!F.isDeclaration() && qnameOf(F.getName()) == q.fn) Roots.push_back({q.id, F.getName().str(), q.set, q.eh});
  std::map<std::string, Function *> EhOrig;
  if (!Roots.empty() || wantRaw) {
    std::vector<Function *> all;
    for (auto &F : *M) if (!F.isDeclaration()) all.push_back(&F);
    bool anyEh = false;
    for (auto &r : Roots) anyEh |= r.eh;
    std::vector<Function *> prep;
    for (auto *F : all) {
      bool use = isRepoFn(*F) || StdInline.count(qnameOf(F->getName()));
      if (!use) continue;
      F->removeFnAttr(Attribute::OptimizeNone);
      F->removeFnAttr(Attribute::NoInline);
      prep.push_back(F);
    }
    // Roots are flattened in forked children (one output file each, merged by
    // the driver): eh roots see unpruned callees, the others pruned ones.
    unsigned nw = std::min<unsigned>(8, std::max<unsigned>(1, (Roots.size() + 1) / 2));
    std::vector<pid_t> kids;
    OS.flush();
    for (unsigned w = 0; w < nw; w++) {
      pid_t pid = fork();
      if (pid < 0) { errs() << "hx: fork failed\n"; return 2; }
      if (pid) { kids.push_back(pid); continue; }
      std::error_code EC2;
      raw_fd_ostream OS2(std::string(argv[1]) + "." + std::to_string(w), EC2);
      if (EC2) _Exit(2);
      json::OStream J2(OS2);
      J2.objectBegin();
      Warnings.clear();
      J2.attributeArray("flat", [&] {
      for (int pass = 0; pass < 2; pass++) {
        if (pass == 1) for (auto *F : prep) pruneEH(*F);
        if (pass == 0 && !anyEh) continue;
        for (unsigned ri = w; ri < Roots.size(); ri += nw) {
          auto &r = Roots[ri];
          if (r.eh != (pass == 0)) continue;
          Function *F = M->getFunction(r.fn);
          if (!F || F->isDeclaration()) { Warnings.push_back("no function " + r.fn); continue; }
          ValueToValueMapTy VM;
          Function *C = CloneFunction(F, VM);
          C->removeFnAttr(Attribute::OptimizeNone);
          C->removeFnAttr(Attribute::NoInline);
          if (pass == 1) pruneEH(*C);
          flatten(*C, Stops[r.set]);
          if (verifyFunction(*C, &errs())) { errs() << "hx: broken function " << r.fn << "\n"; _Exit(2); }
          optimise(*C, true);
          if (verifyFunction(*C, &errs())) { errs() << "hx: broken function (opt) " << r.fn << "\n"; _Exit(2); }
          J2.object([&] {
            J2.attribute("ri", (int64_t)ri);
            J2.attributeBegin("fn");
            FnExport X(J2);
            X.run(*C, r.id, r.fn);
            J2.attributeEnd();
          });
          FAM.clear(*C, "");
          C->eraseFromParent();
        }
      }
      });
      J2.attributeArray("warnings", [&] { for (auto &w : Warnings) J2.value(w); });
      J2.objectEnd();
      OS2.close();
      _Exit(0);
    }
    if (wantRaw) {
      J.attributeArray("raw", [&] {
        for (auto *F : prep) {
          if (!isRepoFn(*F)) continue;
          ValueToValueMapTy VM;
          Function *C = CloneFunction(F, VM);
          C->setName(F->getName() + ".raw");
          pruneEH(*C);
          optimise(*C, false);
          FnExport X(J);
          std::string nm = F->getName().str();
          // export under the original name
          X.run(*C, nm, nm);
          FAM.clear(*C, "");
          C->eraseFromParent();
        }
      });
    }
    bool bad = false;
    for (auto k : kids) { int st = 0; if (waitpid(k, &st, 0) < 0 || !WIFEXITED(st) || WEXITSTATUS(st)) bad = true; }
    if (bad) { errs() << "hx: worker failed\n"; return 2; }
    J.attribute("workers", (int64_t)nw);
  }
  J.attributeArray("warnings", [&] { for (auto &w : Warnings) J.value(w); });
  J.objectEnd();
  OS << "\n";
  OS.close();
  _Exit(0);
}

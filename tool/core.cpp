#include "core.h"
#include "llvm/Analysis/CallGraph.h"
#include "llvm/Analysis/InstructionSimplify.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/FileSystem.h"
#include "llvm/Transforms/IPO/AlwaysInliner.h"
#include "llvm/Transforms/Scalar/ADCE.h"
#include "llvm/Transforms/Scalar/CorrelatedValuePropagation.h"
#include "llvm/Transforms/Scalar/EarlyCSE.h"
#include "llvm/Transforms/Scalar/JumpThreading.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/Transforms/Scalar/SimplifyCFG.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include "llvm/Transforms/Utils/Mem2Reg.h"

std::map<std::string, Cmd> &commands() {
  static std::map<std::string, Cmd> c;
  return c;
}

std::string demangled(StringRef name) { return llvm::demangle(name.str()); }

std::string fnName(const Function &F) {
  std::string d = demangled(F.getName());
  return d.size() > 220 ? d.substr(0, 217) + "..." : d;
}

static std::string shortPath(StringRef dir, StringRef file) {
  std::string p = file.str();
  if (!file.starts_with("/") && !dir.empty())
    p = (dir + "/" + file).str();
  for (size_t k; (k = p.find("/./")) != std::string::npos;)
    p.erase(k, 2);
  return p;
}
static bool repoPath(StringRef p) {
  return p.starts_with("/repo/") && !p.starts_with("/repo/_build/") && !p.starts_with("/repo/_build_fuzz/");
}

std::string fileOf(const Function &F) {
  if (auto *SP = F.getSubprogram())
    return shortPath(SP->getDirectory(), SP->getFilename());
  return "";
}
std::string returnTypeName(const Function &F) {
  auto *SP = F.getSubprogram();
  if (!SP || !SP->getType()) return "";
  auto ta = SP->getType()->getTypeArray();
  if (!ta || ta.size() == 0) return "";
  const DIType *T = ta[0];
  while (auto *D = dyn_cast_or_null<DIDerivedType>(T)) {
    if (D->getTag() == dwarf::DW_TAG_typedef || D->getTag() == dwarf::DW_TAG_const_type) T = D->getBaseType();
    else break;
  }
  if (!T) return "";
  if (auto *D = dyn_cast<DIDerivedType>(T)) return "*" + (D->getBaseType() ? D->getBaseType()->getName().str() : "");
  return T->getName().str();
}
static const DIType *stripType(const DIType *T) {
  while (auto *D = dyn_cast_or_null<DIDerivedType>(T)) {
    switch (D->getTag()) {
    case dwarf::DW_TAG_typedef: case dwarf::DW_TAG_const_type: case dwarf::DW_TAG_reference_type: case dwarf::DW_TAG_rvalue_reference_type: T = D->getBaseType(); continue;
    default: return T;
    }
  }
  return T;
}
std::vector<std::string> paramTypeNames(const Function &F) {
  std::vector<std::string> r;
  auto *SP = F.getSubprogram();
  if (!SP || !SP->getType()) return r;
  auto ta = SP->getType()->getTypeArray();
  for (unsigned i = 1; ta && i < ta.size(); ++i) {
    const DIType *T = stripType(ta[i]);
    if (T && (T->getFlags() & DINode::FlagArtificial)) continue;
    if (ta[i] && (ta[i]->getFlags() & DINode::FlagArtificial)) continue;
    std::string n;
    if (auto *D = dyn_cast_or_null<DIDerivedType>(T); D && D->getTag() == dwarf::DW_TAG_pointer_type) {
      auto *b = stripType(D->getBaseType());
      n = "*" + (b ? b->getName().str() : "");
    } else if (T) n = T->getName().str();
    r.push_back(n);
  }
  return r;
}
Kind resultKind(const Function &F) {
  std::string rt = returnTypeName(F);
  if (rt == "status" || rt == "errc") return F.getReturnType()->isIntegerTy(32) ? KStatus : KNone;
  if (rt == "bool") return KBool;
  if (StringRef(rt).starts_with("optional<unsigned long>")) return KOptional;
  if (StringRef(rt).starts_with("expected<") && StringRef(rt).contains("errc")) return KExpect;
  return KNone;
}
bool inRepo(const Function &F) { return repoPath(fileOf(F)); }
std::string siteOf(const Function &F) {
  if (auto *SP = F.getSubprogram())
    return shortPath(SP->getDirectory(), SP->getFilename()) + ":" + std::to_string(SP->getLine());
  return "?";
}
std::string siteOf(const Instruction &I) {
  const DILocation *L = I.getDebugLoc().get();
  const DILocation *first = L;
  for (; L; L = L->getInlinedAt()) {
    std::string p = shortPath(L->getDirectory(), L->getFilename());
    if (repoPath(p))
      return p + ":" + std::to_string(L->getLine());
  }
  if (first)
    return shortPath(first->getDirectory(), first->getFilename()) + ":" + std::to_string(first->getLine());
  return siteOf(*I.getFunction());
}

std::unique_ptr<Module> loadModule(LLVMContext &C, const std::string &path) {
  SMDiagnostic err;
  auto M = parseIRFile(path, err, C);
  if (!M) {
    err.print("vpa", errs());
    exit(3);
  }
  // branch hints carry no meaning
  std::vector<CallInst *> hints;
  for (auto &F : *M)
    for (auto &I : instructions(F))
      if (auto *II = dyn_cast<IntrinsicInst>(&I))
        if (II->getIntrinsicID() == Intrinsic::expect || II->getIntrinsicID() == Intrinsic::expect_with_probability)
          hints.push_back(II);
  for (auto *H : hints) {
    H->replaceAllUsesWith(H->getArgOperand(0));
    H->eraseFromParent();
  }
  return M;
}

namespace {
struct FAM {
  LoopAnalysisManager lam;
  FunctionAnalysisManager fam;
  CGSCCAnalysisManager cam;
  ModuleAnalysisManager mam;
  PassBuilder pb;
  FAM() {
    pb.registerModuleAnalyses(mam);
    pb.registerCGSCCAnalyses(cam);
    pb.registerFunctionAnalyses(fam);
    pb.registerLoopAnalyses(lam);
    pb.crossRegisterProxies(lam, fam, cam, mam);
  }
};
} // namespace

static FunctionPassManager simplifyPipeline(bool jt) {
  FunctionPassManager fpm;
  fpm.addPass(SROAPass(SROAOptions::ModifyCFG));
  fpm.addPass(EarlyCSEPass(true));
  fpm.addPass(SimplifyCFGPass());
  if (jt) {
    fpm.addPass(CorrelatedValuePropagationPass());
    fpm.addPass(JumpThreadingPass());
    fpm.addPass(SimplifyCFGPass());
  }
  fpm.addPass(SROAPass(SROAOptions::ModifyCFG));
  fpm.addPass(EarlyCSEPass(true));
  fpm.addPass(ADCEPass());
  return fpm;
}

void simplify(Module &M, bool jt) {
  FAM f;
  ModulePassManager mpm;
  mpm.addPass(createModuleToFunctionPassAdaptor(simplifyPipeline(jt)));
  mpm.run(M, f.mam);
}
void simplifyFn(Function &F) {
  FAM f;
  auto fpm = simplifyPipeline(true);
  fpm.run(F, f.fam);
}

static void alwaysInlineRun(Module &M) {
  FAM f;
  ModulePassManager mpm;
  mpm.addPass(AlwaysInlinerPass(false));
  mpm.run(M, f.mam);
}

static void setInline(Function &F, bool yes) {
  F.removeFnAttr(Attribute::OptimizeNone);
  if (yes) {
    F.removeFnAttr(Attribute::NoInline);
    F.addFnAttr(Attribute::AlwaysInline);
  } else {
    F.removeFnAttr(Attribute::AlwaysInline);
    F.addFnAttr(Attribute::NoInline);
  }
}

static std::set<Function *> recursiveFunctions(Module &M) {
  std::set<Function *> rec;
  CallGraph CG(M);
  for (auto I = scc_begin(&CG); !I.isAtEnd(); ++I)
    if (I.hasCycle())
      for (auto *N : *I)
        if (N->getFunction())
          rec.insert(N->getFunction());
  return rec;
}

void prepare(Module &M, const PrepPolicy &P) {
  for (auto &F : M)
    if (!F.isDeclaration())
      setInline(F, false);
  simplify(M, false);
  auto rec = recursiveFunctions(M);
  if (P.leafInline) {
    for (int round = 0; round < 6; ++round) {
      bool any = false;
      for (auto &F : M) {
        if (F.isDeclaration() || rec.count(&F) || F.hasFnAttribute(Attribute::AlwaysInline))
          continue;
        if (P.keep && P.keep(F))
          continue;
        unsigned n = 0;
        bool leaf = true;
        for (auto &I : instructions(F)) {
          if (isa<DbgInfoIntrinsic>(I))
            continue;
          ++n;
          if (auto *CB = dyn_cast<CallBase>(&I)) {
            auto *C = CB->getCalledFunction();
            if (!C || !(C->isIntrinsic()))
              leaf = false;
          }
        }
        if (leaf && n <= 80) {
          setInline(F, true);
          any = true;
        }
      }
      if (!any)
        break;
      alwaysInlineRun(M);
      simplify(M, false);
    }
  }
  if (P.inlineLambdas) {
    auto isLambda = [](Function &F) { return F.getName().contains("EUl") || F.getName().contains("ENKUl") || demangled(F.getName()).find("'lambda") != std::string::npos; };
    std::map<Function *, bool> lam;
    for (auto &F : M)
      if (!F.isDeclaration() && inRepo(F) && isLambda(F) && StringRef(F.getSubprogram() ? F.getSubprogram()->getName() : "").starts_with("operator()"))
        lam[&F] = true;
    for (int round = 0; round < 4; ++round) {
      bool any = false;
      for (auto &[F, x] : lam) {
        if (F->hasFnAttribute(Attribute::AlwaysInline) || F->isDeclaration()) continue;
        Function *caller = nullptr;
        unsigned n = 0;
        bool ok = true;
        for (auto *U : F->users()) {
          auto *CB = dyn_cast<CallBase>(U);
          if (!CB || CB->getCalledOperand() != F) { ok = false; break; }
          ++n;
          caller = CB->getFunction();
        }
        if (!ok || n != 1 || caller == F || lam.count(caller)) continue;
        setInline(*F, true);
        any = true;
      }
      if (!any) break;
      alwaysInlineRun(M);
      for (auto it = lam.begin(); it != lam.end();) {
        bool gone = true;
        for (auto &F : M) if (&F == it->first) gone = false;
        it = gone ? lam.erase(it) : std::next(it);
      }
    }
  }
  if (P.inlineIf) {
    for (auto &F : M)
      if (!F.isDeclaration() && !rec.count(&F) && !(P.keep && P.keep(F)) && P.inlineIf(F))
        setInline(F, true);
    alwaysInlineRun(M);
  }
  simplify(M, P.jumpThread);
}

void inlineAll(Module &M, const std::function<bool(Function &)> &keep, unsigned) {
  auto rec = recursiveFunctions(M);
  for (auto &F : M) {
    if (F.isDeclaration())
      continue;
    setInline(F, !rec.count(&F) && !keep(F));
  }
  alwaysInlineRun(M);
  simplify(M, false);
}

// ------------------------------------------------------------------------------------------
CallResolver::CallResolver(Module &M) : M(M) {
  for (auto &F : M)
    if (F.hasAddressTaken())
      addressTaken[F.getFunctionType()].push_back(&F);
}
static void collectFns(const Constant *C, std::vector<Function *> &out, std::set<const Constant *> &seen) {
  if (!seen.insert(C).second)
    return;
  if (auto *F = dyn_cast<Function>(C)) {
    out.push_back(const_cast<Function *>(F));
    return;
  }
  if (auto *G = dyn_cast<GlobalVariable>(C)) {
    if (G->hasInitializer() && G->isConstant())
      collectFns(G->getInitializer(), out, seen);
    return;
  }
  for (auto &Op : C->operands())
    if (auto *OC = dyn_cast<Constant>(Op))
      collectFns(OC, out, seen);
}
std::vector<Function *> CallResolver::callees(const CallBase &CB) {
  lastUnresolved = false;
  std::vector<Function *> direct;
  const Value *V = CB.getCalledOperand()->stripPointerCasts();
  if (auto *GA = dyn_cast<GlobalAlias>(V))
    V = GA->getAliasee();
  if (auto *F = dyn_cast<Function>(V)) {
    direct.push_back(const_cast<Function *>(F));
    return direct;
  }
  if (CB.isInlineAsm())
    return {};
  // a function table: loads through a constant global
  std::vector<const Value *> wl{V};
  std::set<const Value *> seen;
  std::vector<Function *> out;
  while (!wl.empty()) {
    const Value *W = wl.back();
    wl.pop_back();
    if (!seen.insert(W).second || seen.size() > 200)
      continue;
    if (auto *C = dyn_cast<Constant>(W)) {
      std::set<const Constant *> s2;
      collectFns(C, out, s2);
    } else if (auto *L = dyn_cast<LoadInst>(W))
      wl.push_back(L->getPointerOperand());
    else if (auto *G = dyn_cast<GetElementPtrInst>(W))
      wl.push_back(G->getPointerOperand());
    else if (auto *P = dyn_cast<PHINode>(W))
      for (auto &U : P->incoming_values())
        wl.push_back(U);
    else if (auto *S = dyn_cast<SelectInst>(W)) {
      wl.push_back(S->getTrueValue());
      wl.push_back(S->getFalseValue());
    } else if (auto *CI = dyn_cast<CallBase>(W)) {
      // accessor returning a reference into a constant table (std::visit's _M_access)
      for (auto &A : CI->args())
        if (isa<Constant>(A))
          wl.push_back(A);
    }
  }
  if (!out.empty())
    return out;
  auto it = addressTaken.find(CB.getFunctionType());
  if (it != addressTaken.end())
    return it->second;
  lastUnresolved = true;
  return {};
}

// ------------------------------------------------------------------------------------------
void PathEngine::computeLiveness() {
  // per block use/def over SSA values
  DenseMap<const BasicBlock *, DenseSet<const Value *>> use, def, out;
  for (auto &B : F) {
    auto &u = use[&B];
    auto &d = def[&B];
    for (auto &I : B) {
      if (isa<DbgInfoIntrinsic>(I))
        continue;
      if (!isa<PHINode>(I))
        for (auto &Op : I.operands())
          if ((isa<Instruction>(Op) || isa<Argument>(Op)) && !d.count(Op))
            u.insert(Op);
      d.insert(&I);
    }
    liveIn[&B] = u;
  }
  bool ch = true;
  while (ch) {
    ch = false;
    for (auto it = F.end(); it != F.begin();) {
      BasicBlock &B = *--it;
      DenseSet<const Value *> o;
      for (auto *S : successors(&B)) {
        for (auto *v : liveIn[S])
          o.insert(v);
        for (auto &P : S->phis())
          if (P.getBasicBlockIndex(&B) >= 0) {
            auto *v = P.getIncomingValueForBlock(&B);
            if (isa<Instruction>(v) || isa<Argument>(v))
              o.insert(v);
          }
      }
      auto &in = liveIn[&B];
      size_t before = in.size();
      for (auto *v : o)
        if (!def[&B].count(v))
          in.insert(v);
      // phis defined in B are kept live-in so their facts survive the edge
      for (auto &P : B.phis())
        in.insert(&P);
      if (in.size() != before)
        ch = true;
    }
  }
}

static std::optional<std::pair<const Value *, int64_t>> localSlot(const DataLayout &DL, const Value *P) {
  APInt off(DL.getIndexTypeSizeInBits(P->getType()), 0);
  const Value *B = P->stripAndAccumulateConstantOffsets(DL, off, true);
  if (isa<AllocaInst>(B))
    return std::make_pair(B, off.getSExtValue());
  return std::nullopt;
}

Fact PathEngine::eval(const PState &S, const Value *V, int depth) const {
  if (auto *CI = dyn_cast<ConstantInt>(V))
    return CI->getBitWidth() <= 64 ? Fact::constant(CI->getSExtValue()) : Fact{};
  if (isa<ConstantPointerNull>(V))
    return Fact::constant(0);
  if (isa<AllocaInst>(V) || isa<GlobalValue>(V))
    return Fact::nonzero();
  if (auto *A = dyn_cast<Argument>(V))
    if (A->getType()->isPointerTy() && A->hasNonNullAttr())
      return Fact::nonzero();
  auto it = S.env.find(V);
  if (it != S.env.end())
    return it->second;
  if (depth > 8)
    return {};
  auto *I = dyn_cast<Instruction>(V);
  if (!I)
    return {};
  auto zext = [](int64_t c, unsigned bw) -> uint64_t {
    return bw >= 64 ? (uint64_t)c : ((uint64_t)c & ((1ULL << bw) - 1));
  };
  if (auto *C = dyn_cast<ICmpInst>(I)) {
    Fact a = eval(S, C->getOperand(0), depth + 1), b = eval(S, C->getOperand(1), depth + 1);
    if (a.k == Fact::Const && b.k == Fact::Const) {
      unsigned bw = C->getOperand(0)->getType()->isIntegerTy() ? C->getOperand(0)->getType()->getIntegerBitWidth() : 64;
      if (bw > 64)
        return {};
      APInt x(bw, zext(a.c, bw)), y(bw, zext(b.c, bw));
      return Fact::constant(ICmpInst::compare(x, y, C->getPredicate()) ? -1 : 0);
    }
    auto nz = [&](const Fact &p, const Fact &q) { return p.k == Fact::NonZero && q.k == Fact::Const && q.c == 0; };
    if (nz(a, b) || nz(b, a)) {
      if (C->getPredicate() == CmpInst::ICMP_EQ)
        return Fact::constant(0);
      if (C->getPredicate() == CmpInst::ICMP_NE)
        return Fact::constant(-1);
      if (nz(a, b) && C->getPredicate() == CmpInst::ICMP_UGT)
        return Fact::constant(-1);
      if (nz(a, b) && C->getPredicate() == CmpInst::ICMP_ULE)
        return Fact::constant(0);
    }
    return {};
  }
  if (auto *B = dyn_cast<BinaryOperator>(I)) {
    Fact a = eval(S, B->getOperand(0), depth + 1), b = eval(S, B->getOperand(1), depth + 1);
    switch (B->getOpcode()) {
    case Instruction::And:
      if ((a.k == Fact::Const && a.c == 0) || (b.k == Fact::Const && b.c == 0))
        return Fact::constant(0);
      if (a.k == Fact::Const && b.k == Fact::Const)
        return Fact::constant(a.c & b.c);
      if (I->getType()->isIntegerTy(1)) { // true & x == x
        if (a.k == Fact::Const)
          return b;
        if (b.k == Fact::Const)
          return a;
      }
      return {};
    case Instruction::Or:
      if (a.k == Fact::Const && b.k == Fact::Const)
        return Fact::constant(a.c | b.c);
      if (I->getType()->isIntegerTy(1) && ((a.k == Fact::Const && a.c) || (b.k == Fact::Const && b.c)))
        return Fact::constant(-1);
      if (a.k == Fact::NonZero || b.k == Fact::NonZero || (a.k == Fact::Const && a.c) || (b.k == Fact::Const && b.c))
        return Fact::nonzero();
      return {};
    case Instruction::Xor:
      if (a.k == Fact::Const && b.k == Fact::Const)
        return Fact::constant(I->getType()->isIntegerTy(1) ? (((a.c ^ b.c) & 1) ? -1 : 0) : (a.c ^ b.c));
      return {};
    case Instruction::Add:
      if (a.k == Fact::Const && b.k == Fact::Const)
        return Fact::constant(a.c + b.c);
      return {};
    case Instruction::Sub:
      if (a.k == Fact::Const && b.k == Fact::Const)
        return Fact::constant(a.c - b.c);
      return {};
    default:
      return {};
    }
  }
  if (isa<ZExtInst>(I)) {
    Fact a = eval(S, I->getOperand(0), depth + 1);
    if (a.k == Fact::Const)
      return Fact::constant((int64_t)zext(a.c, I->getOperand(0)->getType()->getIntegerBitWidth()));
    return a;
  }
  if (isa<SExtInst>(I))
    return eval(S, I->getOperand(0), depth + 1);
  if (auto *T = dyn_cast<TruncInst>(I)) {
    Fact a = eval(S, I->getOperand(0), depth + 1);
    unsigned bw = T->getType()->getIntegerBitWidth();
    if (a.k == Fact::Const)
      return Fact::constant(APInt(64, (uint64_t)a.c).trunc(bw).getSExtValue());
    // booleans are stored as i8 0/1: trunc of a zext'ed bool keeps nonzero-ness
    if (a.k == Fact::NonZero && bw == 1)
      return Fact::constant(-1);
    return {};
  }
  if (isa<BitCastInst>(I) || isa<FreezeInst>(I) || isa<PtrToIntInst>(I) || isa<IntToPtrInst>(I))
    return eval(S, I->getOperand(0), depth + 1);
  if (auto *G = dyn_cast<GetElementPtrInst>(I)) {
    if (G->isInBounds()) {
      Fact a = eval(S, G->getPointerOperand(), depth + 1);
      if (a.k == Fact::NonZero)
        return a;
      if (G->hasAllZeroIndices())
        return a;
    }
    return {};
  }
  if (auto *Sel = dyn_cast<SelectInst>(I)) {
    Fact c = eval(S, Sel->getCondition(), depth + 1);
    if (c.k == Fact::Const)
      return eval(S, c.c ? Sel->getTrueValue() : Sel->getFalseValue(), depth + 1);
    Fact a = eval(S, Sel->getTrueValue(), depth + 1), b = eval(S, Sel->getFalseValue(), depth + 1);
    if (a == b)
      return a;
    auto nz = [](const Fact &f) { return f.k == Fact::NonZero || (f.k == Fact::Const && f.c != 0); };
    if (nz(a) && nz(b))
      return Fact::nonzero();
    return {};
  }
  if (auto *EV = dyn_cast<ExtractValueInst>(I)) {
    // walk insertvalue chains
    const Value *agg = EV->getAggregateOperand();
    while (auto *IV = dyn_cast<InsertValueInst>(agg)) {
      if (IV->getIndices() == EV->getIndices())
        return eval(S, IV->getInsertedValueOperand(), depth + 1);
      agg = IV->getAggregateOperand();
    }
    return {};
  }
  return {};
}

bool PathEngine::assume(PState &S, const Value *cond, bool truth, int depth) {
  Fact known = eval(S, cond);
  if (known.k == Fact::Const && (known.c != 0) != truth)
    return false;
  if (known.k == Fact::NonZero && !truth)
    return false;
  if (isa<Constant>(cond))
    return true;
  if (cond->getType()->isIntegerTy(1))
    S.env[cond] = Fact::constant(truth ? -1 : 0);
  if (depth > 6)
    return true;
  auto setFact = [&](const Value *V, Fact f) -> bool {
    // push the fact through value-preserving casts
    for (int k = 0; k < 6; ++k) {
      if (isa<Constant>(V))
        return true;
      Fact old = eval(S, V);
      if (old.k == Fact::Const) {
        if (f.k == Fact::Const && f.c != old.c)
          return false;
        if (f.k == Fact::NonZero && old.c == 0)
          return false;
        return true;
      }
      if (old.k == Fact::NonZero && f.k == Fact::Const && f.c == 0)
        return false;
      S.env[V] = f;
      if (auto *C = dyn_cast<CastInst>(V)) {
        if (isa<ZExtInst>(C) && f.k == Fact::Const) {
          unsigned bw = C->getOperand(0)->getType()->getIntegerBitWidth();
          if (bw == 1) {
            return assume(S, C->getOperand(0), f.c != 0, depth + 1);
          }
          f = Fact::constant(APInt(64, (uint64_t)f.c).trunc(bw).getSExtValue());
          V = C->getOperand(0);
          continue;
        }
        if (isa<ZExtInst>(C) || isa<SExtInst>(C) || isa<BitCastInst>(C) || isa<PtrToIntInst>(C)) {
          if (isa<ZExtInst>(C) && C->getOperand(0)->getType()->isIntegerTy(1))
            return assume(S, C->getOperand(0), true, depth + 1);
          V = C->getOperand(0);
          continue;
        }
      }
      if (auto *Fz = dyn_cast<FreezeInst>(V)) {
        V = Fz->getOperand(0);
        continue;
      }
      break;
    }
    return true;
  };
  if (auto *C = dyn_cast<ICmpInst>(cond)) {
    CmpInst::Predicate p = truth ? C->getPredicate() : C->getInversePredicate();
    const Value *a = C->getOperand(0), *b = C->getOperand(1);
    Fact fa = eval(S, a), fb = eval(S, b);
    if (fa.k == Fact::Const && fb.k != Fact::Const) {
      std::swap(a, b);
      std::swap(fa, fb);
      p = CmpInst::getSwappedPredicate(p);
    }
    if (fb.k == Fact::Const) {
      if (p == CmpInst::ICMP_EQ)
        return setFact(a, fb);
      if (p == CmpInst::ICMP_NE && fb.c == 0)
        return setFact(a, Fact::nonzero());
      if (p == CmpInst::ICMP_UGT)
        return setFact(a, Fact::nonzero());
      if (p == CmpInst::ICMP_UGE && fb.c != 0)
        return setFact(a, Fact::nonzero());
      if (p == CmpInst::ICMP_ULT && fb.c == 1)
        return setFact(a, Fact::constant(0));
      if (p == CmpInst::ICMP_ULE && fb.c == 0)
        return setFact(a, Fact::constant(0));
      if ((p == CmpInst::ICMP_SGT && fb.c >= 0) || (p == CmpInst::ICMP_SLT && fb.c <= 0))
        return setFact(a, Fact::nonzero());
    }
    return true;
  }
  if (auto *B = dyn_cast<BinaryOperator>(cond)) {
    if (B->getOpcode() == Instruction::And && truth)
      return assume(S, B->getOperand(0), true, depth + 1) && assume(S, B->getOperand(1), true, depth + 1);
    if (B->getOpcode() == Instruction::Or && !truth)
      return assume(S, B->getOperand(0), false, depth + 1) && assume(S, B->getOperand(1), false, depth + 1);
    if (B->getOpcode() == Instruction::Xor)
      if (auto *K = dyn_cast<ConstantInt>(B->getOperand(1)))
        return assume(S, B->getOperand(0), truth != (bool)(K->getZExtValue() & 1), depth + 1);
  }
  if (auto *Sel = dyn_cast<SelectInst>(cond)) {
    // logical and/or encoded as select
    auto *t = dyn_cast<ConstantInt>(Sel->getTrueValue()), *f = dyn_cast<ConstantInt>(Sel->getFalseValue());
    if (truth && f && f->isZero())
      return assume(S, Sel->getCondition(), true, depth + 1) && assume(S, Sel->getTrueValue(), true, depth + 1);
    if (!truth && t && t->isOne())
      return assume(S, Sel->getCondition(), false, depth + 1) && assume(S, Sel->getFalseValue(), false, depth + 1);
  }
  if (auto *T = dyn_cast<TruncInst>(cond)) // i8 bool -> i1
    return setFact(T->getOperand(0), truth ? Fact::nonzero() : Fact::constant(0));
  return true;
}

json::Array PathEngine::trace() const {
  std::vector<std::string> sites;
  for (int n = cur; n >= 0; n = nodes[n].parent) {
    const Instruction *T = nodes[n].bb->getTerminator();
    for (auto &I : *nodes[n].bb)
      if (I.getDebugLoc() && !isa<PHINode>(I)) {
        T = &I;
        break;
      }
    std::string s = siteOf(*T);
    if (sites.empty() || sites.back() != s)
      sites.push_back(s);
    if (sites.size() > 60)
      break;
  }
  std::reverse(sites.begin(), sites.end());
  json::Array a;
  for (auto &s : sites)
    a.push_back(s);
  return a;
}

void PathEngine::run(const PState &init) {
  computeLiveness();
  const DataLayout &DL = F.getDataLayout();
  std::map<const BasicBlock *, std::set<PState>> seen;
  std::vector<int> work;
  auto push = [&](BasicBlock *bb, PState st, int parent) {
    auto &live = liveIn[bb];
    for (auto it = st.env.begin(); it != st.env.end();)
      it = live.count(it->first) ? std::next(it) : st.env.erase(it);
    auto &sn = seen[bb];
    if (sn.size() >= maxStatesPerBlock) {
      overflowed = true;
      st.env.clear();
      st.mem.clear();
    }
    if (!sn.insert(st).second)
      return;
    nodes.push_back({bb, std::move(st), parent});
    work.push_back((int)nodes.size() - 1);
  };
  push(&F.getEntryBlock(), init, -1);
  // allocas whose address escapes to unknown code
  DenseSet<const Value *> escaped;
  for (auto &I : F.getEntryBlock())
    if (isa<AllocaInst>(I) && PointerMayBeCaptured(&I, true, true))
      escaped.insert(&I);
  auto edge = [&](PState st, BasicBlock *from, BasicBlock *to, int parent) {
    std::vector<std::pair<const Value *, Fact>> up;
    for (auto &P : to->phis())
      up.push_back({&P, eval(st, P.getIncomingValueForBlock(from))});
    for (auto &[v, f] : up) {
      if (f.k == Fact::Unknown)
        st.env.erase(v);
      else
        st.env[v] = f;
    }
    push(to, std::move(st), parent);
  };
  while (!work.empty()) {
    int n = work.back();
    work.pop_back();
    cur = n;
    ++explored;
    BasicBlock *bb = nodes[n].bb;
    std::vector<PState> states{nodes[n].st};
    for (auto &I : *bb) {
      if (isa<PHINode>(I) || isa<DbgInfoIntrinsic>(I))
        continue;
      if (I.isTerminator() && !isa<InvokeInst>(I))
        break;
      std::vector<PState> next;
      for (auto &st : states) {
        std::vector<PState> alts;
        st.env.erase(&I);
        if (const Value *ptr = isa<LoadInst>(I)    ? cast<LoadInst>(I).getPointerOperand()
                               : isa<StoreInst>(I) ? cast<StoreInst>(I).getPointerOperand()
                                                   : nullptr)
          if ((isa<Instruction>(ptr) || isa<Argument>(ptr)) && eval(st, ptr).k == Fact::Unknown)
            st.env[ptr] = Fact::nonzero(); // it was dereferenced
        if (trackMemory) {
          if (auto *St = dyn_cast<StoreInst>(&I)) {
            if (auto slot = localSlot(DL, St->getPointerOperand())) {
              Fact f = eval(st, St->getValueOperand());
              // overlapping facts die
              int64_t sz = (int64_t)DL.getTypeStoreSize(St->getValueOperand()->getType());
              for (auto it = st.mem.begin(); it != st.mem.end();) {
                if (it->first.first == slot->first && it->first.second < slot->second + sz &&
                    it->first.second + 8 > slot->second)
                  it = st.mem.erase(it);
                else
                  ++it;
              }
              if (f.k != Fact::Unknown)
                st.mem[*slot] = f;
            } else if (!isa<AllocaInst>(getUnderlyingObject(St->getPointerOperand()))) {
              for (auto it = st.mem.begin(); it != st.mem.end();)
                it = escaped.count(it->first.first) ? st.mem.erase(it) : std::next(it);
            } else {
              const Value *base = getUnderlyingObject(St->getPointerOperand());
              for (auto it = st.mem.begin(); it != st.mem.end();)
                it = it->first.first == base ? st.mem.erase(it) : std::next(it);
            }
          } else if (auto *L = dyn_cast<LoadInst>(&I)) {
            if (auto slot = localSlot(DL, L->getPointerOperand())) {
              auto it = st.mem.find(*slot);
              if (it != st.mem.end())
                st.env[&I] = it->second;
            }
            if (L->getType()->isPointerTy() && L->hasMetadata(LLVMContext::MD_nonnull))
              st.env[&I] = Fact::nonzero();
          } else if (auto *CB = dyn_cast<CallBase>(&I)) {
            if (CB->mayWriteToMemory() && !I.isLifetimeStartOrEnd()) {
              DenseSet<const Value *> args;
              for (auto &A : CB->args())
                if (A->getType()->isPointerTy())
                  args.insert(getUnderlyingObject(A));
              for (auto it = st.mem.begin(); it != st.mem.end();)
                it = (args.count(it->first.first) || (escaped.count(it->first.first) && !isa<IntrinsicInst>(CB)))
                         ? st.mem.erase(it)
                         : std::next(it);
            }
          }
        }
        if (onInst && !onInst(st, I, alts))
          ; // path killed
        else
          next.push_back(st);
        for (auto &a : alts)
          next.push_back(a);
      }
      states.swap(next);
    }
    Instruction *T = bb->getTerminator();
    for (auto &st : states) {
      if (auto *B = dyn_cast<BranchInst>(T)) {
        if (B->isUnconditional()) {
          edge(st, bb, B->getSuccessor(0), n);
        } else {
          for (int k = 0; k < 2; ++k) {
            PState c = st;
            if (!assume(c, B->getCondition(), k == 0))
              continue;
            if (onBranch)
              onBranch(c, *B, k == 0);
            edge(std::move(c), bb, B->getSuccessor(k), n);
          }
        }
      } else if (auto *Sw = dyn_cast<SwitchInst>(T)) {
        Fact f = eval(st, Sw->getCondition());
        bool hit = false;
        for (auto &cs : Sw->cases()) {
          int64_t v = cs.getCaseValue()->getSExtValue();
          if (f.k == Fact::Const && f.c != v)
            continue;
          if (f.k == Fact::NonZero && v == 0)
            continue;
          PState c = st;
          if (!isa<Constant>(Sw->getCondition()))
            c.env[Sw->getCondition()] = Fact::constant(v);
          hit |= f.k == Fact::Const;
          if (onSwitch) onSwitch(c, *Sw, cs.getCaseValue());
          edge(std::move(c), bb, cs.getCaseSuccessor(), n);
        }
        if (!hit) {
          PState c = st;
          bool zeroCase = false;
          for (auto &cs : Sw->cases())
            zeroCase |= cs.getCaseValue()->isZero();
          if (zeroCase && f.k == Fact::Unknown && !isa<Constant>(Sw->getCondition()))
            c.env[Sw->getCondition()] = Fact::nonzero();
          if (onSwitch) onSwitch(c, *Sw, nullptr);
          edge(std::move(c), bb, Sw->getDefaultDest(), n);
        }
      } else if (auto *Inv = dyn_cast<InvokeInst>(T)) {
        for (int k = 0; k < 2; ++k) {
          PState c = st;
          if (k == 1)
            c.env.erase(Inv);
          if (onInvokeEdge && !onInvokeEdge(c, *Inv, k == 1))
            continue;
          edge(std::move(c), bb, k == 0 ? Inv->getNormalDest() : Inv->getUnwindDest(), n);
        }
      } else if (T->getNumSuccessors() == 0) {
        if (onExit)
          onExit(st, *T);
      } else {
        for (auto *S : successors(bb))
          edge(st, bb, S, n);
      }
    }
    if (nodes.size() > 4000000) {
      overflowed = true;
      break;
    }
  }
}

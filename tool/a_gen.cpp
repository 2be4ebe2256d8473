// sinks: what the generator writes into its output; genfail: what happens to what goes wrong in it
#include "walker.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include "llvm/IR/DebugInfo.h"
#include <regex>
namespace {
std::string dem(const Function &F) { return demangled(F.getName()); }
void sroa(Module &M) {
  PassBuilder PB;
  LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM;
  PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
  PB.crossRegisterProxies(LAM, FAM, CAM, MAM);
  for (auto &F : M) {
    F.removeFnAttr(Attribute::OptimizeNone);
    if (F.isDeclaration() || !inRepo(F)) continue;
    SROAPass(SROAOptions::PreserveCFG).run(F, FAM);
  }
}
const char *CPP = "hpp_proto::protoc::cpp::";
bool isCpp(const Function &F) { return F.getName().starts_with("_ZN9hpp_proto6protoc3cpp") || F.getName().starts_with("_ZNK9hpp_proto6protoc3cpp"); }
/// does the debug type denote text (characters, strings, views)
bool textType(const DIType *T, int depth = 0) {
  if (!T || depth > 8) return false;
  if (auto *B = dyn_cast<DIBasicType>(T)) return B->getName().contains("char");
  if (auto *D = dyn_cast<DIDerivedType>(T)) return textType(D->getBaseType(), depth + 1);
  if (auto *C = dyn_cast<DICompositeType>(T)) {
    StringRef n = C->getName();
    if (C->getTag() == dwarf::DW_TAG_enumeration_type) return false;
    if (C->getTag() == dwarf::DW_TAG_array_type) return false; // literals
    return n.starts_with("basic_string") || n.starts_with("path");
  }
  return false;
}
struct Tracer {
  enum R { Clean = 0, Unknown = 1, Raw = 2 };
  Module &M;
  std::map<const Value *, R> done;
  std::map<std::pair<const StructType *, std::vector<int64_t>>, std::vector<GetElementPtrInst *>> fields;
  std::string why;
  std::set<const Value *> busy;
  explicit Tracer(Module &M) : M(M) {
    for (auto &F : M)
      for (auto &I : instructions(F))
        if (auto *G = dyn_cast<GetElementPtrInst>(&I))
          if (auto k = key(G)) fields[*k].push_back(G);
  }
  std::optional<std::pair<const StructType *, std::vector<int64_t>>> key(const GetElementPtrInst *G) const {
    auto *S = dyn_cast<StructType>(G->getSourceElementType());
    if (!S || G->getNumIndices() < 2) return std::nullopt;
    std::vector<int64_t> v;
    unsigned i = 0;
    for (auto &x : G->indices()) { auto *C = dyn_cast<ConstantInt>(x); if (!C) return std::nullopt; if (i++) v.push_back(C->getSExtValue()); }
    return std::make_pair((const StructType *)S, v);
  }
  static R worst(R a, R b) { return std::max(a, b); }
  /// is the text which V denotes (a view's data, a pointer to characters, a pointer to a string or view) schema text
  R src(Value *V, int depth = 0) {
    if (isa<Constant>(V)) return Clean;
    if (auto it = done.find(V); it != done.end()) return it->second;
    if (depth > 40 || !busy.insert(V).second) return Clean;
    R r = compute(V, depth);
    busy.erase(V);
    done[V] = r;
    return r;
  }
  R raw(std::string w) { if (why.empty()) why = w; return Raw; }
  R callResult(CallBase *CB, int depth) {
    auto *T = CB->getCalledFunction();
    if (!T) return Unknown;
    std::string d = dem(*T);
    if (isCpp(*T)) return Clean;
    if (T->isIntrinsic()) return Unknown;
    if (inRepo(*T)) {
      if (StringRef(d).contains("::proto()") || StringRef(d).contains("full_name()")) return raw("the schema (" + d.substr(0, d.find('(')) + ")");
      if (T->isDeclaration()) return Unknown;
      R r = Clean;
      for (auto &B : *T)
        if (auto *Rt = dyn_cast<ReturnInst>(B.getTerminator()); Rt && Rt->getReturnValue()) r = worst(r, src(Rt->getReturnValue(), depth + 1));
      if (T->arg_size() && T->hasParamAttribute(0, Attribute::StructRet)) r = worst(r, writes(T->getArg(0), depth + 1));
      return r;
    }
    R r = Clean;
    for (unsigned i = CB->arg_size() && CB->paramHasAttr(0, Attribute::StructRet) ? 1 : 0; i < CB->arg_size(); ++i)
      if (CB->getArgOperand(i)->getType()->isPointerTy()) r = worst(r, src(CB->getArgOperand(i), depth + 1));
    return r;
  }
  /// what is written into the object at P
  R writes(Value *P, int depth) {
    R r = Clean;
    std::vector<Value *> wl{P};
    std::set<Value *> seen;
    while (!wl.empty()) {
      auto *V = wl.back();
      wl.pop_back();
      if (!seen.insert(V).second) continue;
      for (auto *U : V->users()) {
        if (isa<GetElementPtrInst>(U)) { wl.push_back(U); continue; }
        if (auto *St = dyn_cast<StoreInst>(U)) { if (St->getPointerOperand() == V) { auto *x = St->getValueOperand(); if (x->getType()->isPointerTy() || x->getType()->isAggregateType() || x->getType()->isIntegerTy(8)) r = worst(r, src(x, depth + 1)); } continue; }
        auto *CB = dyn_cast<CallBase>(U);
        if (!CB || !CB->getCalledFunction()) continue;
        auto *T = CB->getCalledFunction();
        if (auto *MC = dyn_cast<MemCpyInst>(CB)) { if (MC->getDest() == V) r = worst(r, src(MC->getSource(), depth + 1)); continue; }
        if (T->isIntrinsic() || CB->arg_size() == 0) continue;
        std::string d = dem(*T);
        if (CB->getArgOperand(0) == V) {
          if (CB->paramHasAttr(0, Attribute::StructRet)) { r = worst(r, callResult(CB, depth + 1)); continue; }
          StringRef n = T->getName();
          if (n.starts_with("_ZNK")) continue;
          if (isCpp(*T)) continue;
          bool str = n.starts_with("_ZNSt7__cxx1112basic_stringIc") || n.starts_with("_ZNSt17basic_string_viewIc") || n.contains("_ZNSt8optional") || n.contains("_ZNSt8expected");
          if (str) for (unsigned i = 1; i < CB->arg_size(); ++i) if (CB->getArgOperand(i)->getType()->isPointerTy()) r = worst(r, src(CB->getArgOperand(i), depth + 1));
        }
      }
    }
    return r;
  }
  R compute(Value *V, int depth) {
    if (auto *A = dyn_cast<Argument>(V)) {
      Function *F = A->getParent();
      R r = Clean;
      unsigned n = 0;
      for (auto *U : F->users())
        if (auto *CB = dyn_cast<CallBase>(U); CB && CB->getCalledFunction() == F && CB->arg_size() > A->getArgNo()) { ++n; r = worst(r, src(CB->getArgOperand(A->getArgNo()), depth + 1)); if (n > 400) break; }
      return n ? r : Unknown;
    }
    auto *I = dyn_cast<Instruction>(V);
    if (!I) return Unknown;
    if (auto *P = dyn_cast<PHINode>(I)) { R r = Clean; for (auto &x : P->incoming_values()) r = worst(r, src(x, depth + 1)); return r; }
    if (auto *S = dyn_cast<SelectInst>(I)) return worst(src(S->getTrueValue(), depth + 1), src(S->getFalseValue(), depth + 1));
    if (auto *E = dyn_cast<ExtractValueInst>(I)) return src(E->getAggregateOperand(), depth + 1);
    if (auto *X = dyn_cast<InsertValueInst>(I)) {
      R r = X->getInsertedValueOperand()->getType()->isPointerTy() ? src(X->getInsertedValueOperand(), depth + 1) : Clean;
      return worst(r, src(X->getAggregateOperand(), depth + 1));
    }
    if (isa<CastInst>(I)) return src(I->getOperand(0), depth + 1);
    if (auto *CB = dyn_cast<CallBase>(I)) return callResult(CB, depth);
    if (auto *L = dyn_cast<LoadInst>(I)) return L->getType()->isPointerTy() || L->getType()->isIntegerTy(8) || L->getType()->isAggregateType() ? src(L->getPointerOperand(), depth + 1) : Clean;
    if (isa<AllocaInst>(I)) return writes(I, depth);
    if (auto *G = dyn_cast<GetElementPtrInst>(I)) {
      auto *S = dyn_cast<StructType>(G->getSourceElementType());
      if (S) {
        StringRef n = S->hasName() ? S->getName() : "";
        if (n.contains("google::protobuf::") && !n.contains("CodeGeneratorResponse") && !n.contains("File_")) return raw("a field of " + n.str());
        if (n.contains("generator_options") || n.contains("plugin_options")) return raw("a generator option");
        if (n.contains("hpp_proto::protoc::cpp::")) return Clean;
        if (auto *base = G->getPointerOperand(); isa<AllocaInst>(base)) return src(base, depth + 1);
        if (auto k = key(G)) {
          if (auto *ET = G->getResultElementType(); ET && ET->isStructTy() && cast<StructType>(ET)->hasName() && cast<StructType>(ET)->getName().contains("hpp_proto::protoc::cpp::")) return Clean;
          R r = Clean;
          for (auto *g : fields[*k]) r = worst(r, writes(g, depth + 1));
          return r;
        }
      }
      return src(G->getPointerOperand(), depth + 1);
    }
    return Unknown;
  }
};
/// does the iterator or string denote generated output: the file being made, or a member of a generator
struct Output {
  Tracer &T;
  std::set<std::pair<const StructType *, std::vector<int64_t>>> outFields;
  bool isOut(Value *V, std::set<Value *> seen = {}, int depth = 0) {
    if (depth > 14 || !seen.insert(V).second) return false;
    if (auto *G = dyn_cast<GetElementPtrInst>(V)) {
      if (auto *S = dyn_cast<StructType>(G->getSourceElementType()); S && S->hasName()) {
        StringRef n = S->getName();
        if (n.contains("CodeGeneratorResponse") && n.contains("File")) { auto k = T.key(G); return !k || k->second.empty() || k->second[0] == contentIndex; }
        if (n.contains("_generator") || n.contains("generator_")) {
          auto k = T.key(G);
          if (k && outFields.count(*k)) return true;
          auto *ET = G->getResultElementType();
          if (ET && ET->isStructTy() && cast<StructType>(ET)->hasName() && cast<StructType>(ET)->getName().contains("back_insert_iterator")) return true;
          if (ET && ET->isPointerTy()) return false;
        }
      }
      return isOut(G->getPointerOperand(), seen, depth + 1);
    }
    if (auto *L = dyn_cast<LoadInst>(V)) return isOut(L->getPointerOperand(), seen, depth + 1);
    if (auto *P = dyn_cast<PHINode>(V)) { for (auto &x : P->incoming_values()) if (isOut(x, seen, depth + 1)) return true; return false; }
    if (auto *CB = dyn_cast<CallBase>(V)) {
      auto *F = CB->getCalledFunction();
      if (!F) return false;
      std::string d = dem(*F);
      if (d.find("back_insert") != std::string::npos) { for (auto &a : CB->args()) if (a->getType()->isPointerTy() && isOut(a, seen, depth + 1)) return true; }
      return false;
    }
    if (auto *A = dyn_cast<Argument>(V)) {
      for (auto *U : A->getParent()->users())
        if (auto *CB = dyn_cast<CallBase>(U); CB && CB->getCalledFunction() == A->getParent() && CB->arg_size() > A->getArgNo() && isOut(CB->getArgOperand(A->getArgNo()), seen, depth + 1)) return true;
      return false;
    }
    if (auto *A = dyn_cast<AllocaInst>(V))
      for (auto *U : A->users()) {
        if (auto *St = dyn_cast<StoreInst>(U); St && St->getPointerOperand() == A && isOut(St->getValueOperand(), seen, depth + 1)) return true;
        if (auto *MC = dyn_cast<MemCpyInst>(U); MC && MC->getDest() == A && isOut(MC->getSource(), seen, depth + 1)) return true;
      }
    return false;
  }
  int64_t contentIndex = -1;
};
} // namespace

static int cmdSinks(const Options &o, Report &rep) {
  for (auto &f : o.files) {
    LLVMContext C;
    auto M = loadModule(C, f);
    sroa(*M);
    Tracer T(*M);
    Output O{T};
    // the strings which output iterators are made for, among the generators' members
    DebugInfoFinder DF;
    DF.processModule(*M);
    for (auto *Ty : DF.types())
      if (auto *Co = dyn_cast<DICompositeType>(Ty); Co && Co->getName().starts_with("File<") )
        { int64_t i = 0; for (auto *E : Co->getElements()) if (auto *D = dyn_cast<DIDerivedType>(E); D && D->getTag() == dwarf::DW_TAG_member && !D->isStaticMember()) { if (D->getName() == "content") O.contentIndex = i; ++i; } }
    for (auto &F : *M)
      for (auto &I : instructions(F)) {
        auto *CB = dyn_cast<CallBase>(&I);
        if (!CB || !CB->getCalledFunction()) continue;
        std::string d = dem(*CB->getCalledFunction());
        if (d.find("back_insert_iterator<") == std::string::npos || d.find("::back_insert_iterator(") == std::string::npos) continue;
        for (auto &a : CB->args())
          if (auto *G = dyn_cast<GetElementPtrInst>(a)) if (auto k = T.key(G); k && k->first->hasName() && k->first->getName().contains("_generator")) O.outFields.insert(*k);
      }
    rep.bump("output_strings", O.outFields.size() + (O.contentIndex >= 0));
    for (auto &F : *M) {
      if (F.isDeclaration() || !inRepo(F)) continue;
      std::string fd = dem(F);
      if (isCpp(F)) continue;
      for (auto &I : instructions(F)) {
        auto *CB = dyn_cast<CallBase>(&I);
        if (!CB || !CB->getCalledFunction() || CB->arg_size() == 0) continue;
        auto *T0 = CB->getCalledFunction();
        std::string d = dem(*T0);
        auto *SP = T0->getSubprogram();
        auto n = T0->getName();
        auto check = [&](Value *V, std::string what) {
          T.why.clear();
          T.done.clear();
          auto r = T.src(V);
          rep.bump("written_values");
          if (r == Tracer::Raw) rep.violation("R-sink", fnName(F), siteOf(I), what + " written into the generated source comes from " + T.why + " without passing through a lexical type");
          else if (r == Tracer::Unknown) { rep.bump("untraced"); rep.note("untraced: " + what + " at " + siteOf(I)); }
        };
        if (isCpp(*T0)) { if (d.find("emit_to<") != std::string::npos) rep.bump("typed_emissions"); continue; }
        // writes through an output iterator
        if (d.find("back_insert_iterator<std::__cxx11::basic_string<char") != std::string::npos && !inRepo(*T0) && d.find("::back_insert_iterator(") == std::string::npos && SP) {
          auto types = SP->getType()->getTypeArray();
          // an operand that is the iterator
          bool out = false;
          for (auto &a : CB->args()) if (a->getType()->isPointerTy() && O.isOut(a)) out = true;
          if (!out) { rep.bump("other_iterators"); continue; }
          rep.bump("sink_calls");
          bool fmt = d.find("format_to") != std::string::npos;
          if (fmt) {
            unsigned np = types.size() - 1; // without the result
            for (unsigned k = 2; k < np; ++k) {
              if (!textType(types[k + 1])) continue;
              unsigned la = CB->arg_size() - (np - k);
              check(CB->getArgOperand(la), "the text formatted");
            }
          } else {
            for (unsigned i = 0; i < CB->arg_size(); ++i) {
              auto *a = CB->getArgOperand(i);
              if (!a->getType()->isPointerTy() || O.isOut(a) && i) continue;
              if (O.isOut(a)) { // a range that is itself generated text
                bool it = false;
                if (auto *L = dyn_cast<LoadInst>(a)) it = true;
                if (it) continue;
              }
              check(a, "the text copied");
            }
          }
          continue;
        }
        if (n.starts_with("_ZNSt7__cxx1112basic_stringIc") && O.isOut(CB->getArgOperand(0)) && !n.ends_with("D2Ev") && !n.ends_with("C2Ev")) {
          rep.bump("sink_calls");
          for (unsigned i = 1; i < CB->arg_size(); ++i) if (CB->getArgOperand(i)->getType()->isPointerTy() || CB->getArgOperand(i)->getType()->isIntegerTy(8)) check(CB->getArgOperand(i), "the text appended");
        }
      }
    }
  }
  return 0;
}
static ::Register rs("sinks", cmdSinks);

namespace {
bool isRecorder(const std::string &d) {
  return d.find("diagnostics::record") != std::string::npos || d.find("generator_option_error") != std::string::npos || d.find("__throw") != std::string::npos || d.find("bad_expected_access") != std::string::npos || d.find("terminate") != std::string::npos;
}
bool wrapperFn(const std::string &d) {
  auto h = d.substr(0, d.find('('));
  for (const char *w : {"std::expected<", "std::optional<", "std::unexpected<", "std::_Optional", "std::forward", "std::move", "std::addressof", "std::construct_at", "std::__addressof", "hpp_proto::status::", "std::is_constant_evaluated"})
    if (h.find(w) != std::string::npos) return true;
  return false;
}
/// byte offset of the has-value flag of an expected
std::optional<int64_t> flagOffset(const CallBase &CB) {
  Type *T = CB.getParamStructRetType(0);
  auto *S = dyn_cast_or_null<StructType>(T);
  if (!S || S->getNumElements() < 2) return std::nullopt;
  auto &DL = CB.getModule()->getDataLayout();
  auto *L = DL.getStructLayout(S);
  for (unsigned i = S->getNumElements(); i-- > 0;)
    if (S->getElementType(i)->isIntegerTy(8) || S->getElementType(i)->isIntegerTy(1)) return (int64_t)L->getElementOffset(i);
  return std::nullopt;
}
} // namespace
static void genFailures(Module &M, Report &rep) {
  std::map<const Function *, std::string> rets;
  for (auto &F : M) rets[&F] = returnTypeName(F);
  auto reaches = [&](std::function<bool(const std::string &)> leaf) {
    std::set<const Function *> S;
    for (auto &F : M) if (leaf(dem(F))) S.insert(&F);
    for (bool ch = true; ch;) {
      ch = false;
      for (auto &F : M) {
        if (S.count(&F)) continue;
        for (auto &I : instructions(F)) if (auto *CB = dyn_cast<CallBase>(&I); CB && CB->getCalledFunction() && S.count(CB->getCalledFunction())) { S.insert(&F); ch = true; break; }
      }
    }
    return S;
  };
  auto mayRecord = reaches([](const std::string &d) { return d.find("diagnostics::record") != std::string::npos; });
  std::set<std::string> always; // recording helpers: every path through them records
  // finishing helpers, functions which never record, become part of their callers
  inlineAll(M, [&](Function &F) {
    std::string d = dem(F);
    if (wrapperFn(d) && d.find("generator_option_error>::operator=") == std::string::npos) return false;
    if (F.hasLocalLinkage() && inRepo(F) && !mayRecord.count(&F) && !isCpp(F) && d.find("diagnostics::") == std::string::npos && F.getInstructionCount() < 200) return false;
    return true;
  });
  // functions on all of whose paths something is recorded
  std::set<const Function *> recordsAlways;
  for (auto &F : M) if (isRecorder(dem(F))) recordsAlways.insert(&F);
  for (bool ch = true; ch;) {
    ch = false;
    for (auto &F : M) {
      if (F.isDeclaration() || !inRepo(F) || recordsAlways.count(&F) || !mayRecord.count(&F)) continue;
      std::set<BasicBlock *> seen;
      std::vector<BasicBlock *> wl{&F.getEntryBlock()};
      bool escapes = false;
      while (!wl.empty() && !escapes) {
        auto *B = wl.back();
        wl.pop_back();
        if (!seen.insert(B).second) continue;
        bool stop = false;
        for (auto &I : *B) if (auto *CB = dyn_cast<CallBase>(&I); CB && CB->getCalledFunction() && recordsAlways.count(CB->getCalledFunction())) stop = true;
        if (stop) continue;
        if (isa<ReturnInst>(B->getTerminator())) escapes = true;
        for (auto *S : successors(B)) if (!S->isLandingPad()) wl.push_back(S);
      }
      if (!escapes) { recordsAlways.insert(&F); ch = true; }
    }
  }
  for (auto &F : M) {
    if (F.isDeclaration() || !inRepo(F)) continue;
    std::string fd = dem(F);
    if (isCpp(F)) continue;
    bool passesOn = StringRef(rets[&F]).starts_with("expected<");
    for (auto &I : instructions(F)) {
      auto *CB = dyn_cast<CallBase>(&I);
      if (!CB || !CB->getCalledFunction()) continue;
      auto *T = CB->getCalledFunction();
      StringRef rt = rets[T];
      bool exp = CB->arg_size() && CB->paramHasAttr(0, Attribute::StructRet) && isa<StructType>(CB->getParamStructRetType(0)) && cast<StructType>(CB->getParamStructRetType(0))->hasName() && cast<StructType>(CB->getParamStructRetType(0))->getName().contains("std::expected");
      // a small result comes in a register: an error code below, the flag above it
      bool small = !exp && rt.starts_with("expected<") && inRepo(*T) && CB->getType()->isIntegerTy();
      std::optional<int64_t> off;
      if (exp && dem(*T).find("hpp_proto::") != std::string::npos && dem(*T).find("std::expected<") != 0 || small) {
        if (exp) off = flagOffset(*CB);
        if (!off && !small) { rep.bump("undecided"); continue; }
        rep.bump("fallible_results");
        Walker W(F);
        WState S;
        bool armed = false;
        W.maxPaths = 4000;
        bool bad = false;
        // assume failure from the first look at the flag on
        Value *E = small ? nullptr : CB->getArgOperand(0);
        enum { Known = 1 << 20 };
        W.onAssume = [&](WState &T2, Value &leaf, bool t) {
          auto *C3 = dyn_cast<CallBase>(&leaf);
          if (t && C3 && C3->getCalledFunction() && dem(*C3->getCalledFunction()).find("diagnostics::has_error") != std::string::npos) T2.bits |= Known;
        };
        W.onCall = [&](WState &T2, CallBase &C2) {
          if (T2.bits & Known) return false;
          if (&C2 == CB) {
            if (armed) return true;
            return true;
          }
          auto *G = C2.getCalledFunction();
          if (G && recordsAlways.count(G)) return false;
          if (passesOn && G && dem(*G).find("unexpected") != std::string::npos) return false;
          // a recording call which hands the error on
          if (E && G && mayRecord.count(G)) for (auto &a : C2.args()) if (a->getType()->isPointerTy() && W.get(T2, a).b == W.get(T2, E).b && W.get(T2, E).b) return false;
          return true;
        };
        std::optional<int64_t> own;
        if (passesOn && F.arg_size() && F.getArg(0)->hasStructRetAttr())
          if (auto *ST = dyn_cast<StructType>(F.getParamStructRetType(0)))
            for (unsigned i = ST->getNumElements(); i-- > 0 && !own;)
              if (ST->getElementType(i)->isIntegerTy(8)) own = (int64_t)M.getDataLayout().getStructLayout(ST)->getElementOffset(i);
        W.onEnd = [&](WState &T2, Instruction &R) {
          if (T2.bits & Known) return;
          if (!passesOn) { bad = true; return; }
          if (own) { auto it = T2.mem.find({F.getArg(0), *own}); if (it != T2.mem.end() && it->second.k == AV::Int && it->second.i) bad = true; }
          else if (auto *Rv = cast<ReturnInst>(&R)->getReturnValue(); Rv && Rv->getType()->isIntegerTy(16)) { AV v = W.get(T2, Rv); if (v.k == AV::Int && (v.i >> 8 & 0xff)) bad = true; }
        };
        if (small) S.env[CB] = AV::num(1);
        else {
        APInt eo(64, 0);
        auto *base = E->stripAndAccumulateConstantOffsets(M.getDataLayout(), eo, true);
        S.mem[{base, eo.getSExtValue() + *off}] = AV::num(0);
        S.env[base] = AV::ptr(base, 0);
        }
        Instruction *next = isa<InvokeInst>(CB) ? &*cast<InvokeInst>(CB)->getNormalDest()->getFirstNonPHIOrDbg() : CB->getNextNode();
        W.run(S, next);
        rep.bump("paths", W.paths);
        if (bad) rep.violation("R-recorded", fnName(F), siteOf(I), "when " + fnName(*T) + " fails, " + (W.overflow ? "some path" : "a path") + " ends the function without the failure having been recorded or returned");
        else if (W.overflow) { rep.bump("undecided"); rep.note("undecided: failure of " + fnName(*T) + " at " + siteOf(I)); }
        else rep.note("recorded: failure of " + fnName(*T) + " at " + siteOf(I));
      }
    }
  }
  // what a request names must be found
  for (auto &F : M) {
    if (F.isDeclaration() || !inRepo(F) || isCpp(F)) continue;
    bool lexical = F.arg_size() && F.getArg(0)->hasStructRetAttr() && isa<StructType>(F.getParamStructRetType(0)) && cast<StructType>(F.getParamStructRetType(0))->hasName() && cast<StructType>(F.getParamStructRetType(0))->getName().contains("hpp_proto::protoc::cpp::");
    if (fileOf(F).find("src/protoc-plugin") == std::string::npos) continue;
    for (auto &I : instructions(F)) {
      auto *CB = dyn_cast<CallBase>(&I);
      if (!CB || !CB->getCalledFunction() || !CB->getType()->isPointerTy()) continue;
      std::string d = dem(*CB->getCalledFunction());
      if (d.find("descriptor_pool<") == std::string::npos) continue;
      bool file = d.find(">::get_file_descriptor(") != std::string::npos, msg = d.find(">::get_message_descriptor(") != std::string::npos;
      if (!file && !(msg && lexical)) continue;
      rep.bump("lookups");
      Walker W(F);
      W.maxPaths = 2000;
      WState S;
      S.env[CB] = AV::ptr(nullptr, 0);
      bool bad = false;
      W.onCall = [&](WState &, CallBase &C2) { if (&C2 == CB) { bad = true; return false; } return !(C2.getCalledFunction() && recordsAlways.count(C2.getCalledFunction())); };
      W.onEnd = [&](WState &, Instruction &) { bad = true; };
      W.run(S, isa<InvokeInst>(CB) ? &*cast<InvokeInst>(CB)->getNormalDest()->getFirstNonPHIOrDbg() : CB->getNextNode());
      rep.bump("paths", W.paths);
      if (bad) rep.violation("R-recorded", fnName(F), siteOf(I), std::string("when the ") + (file ? "file" : "message") + " asked for is not in the request, nothing is recorded");
    }
  }
  // the response: after the last step that may record a failure, a recorded failure becomes the error and the files go
  for (auto &F : M) {
    if (F.isDeclaration() || !inRepo(F)) continue;
    if (rets[&F].find("CodeGeneratorResponse") == std::string::npos || !F.arg_size() || !F.getArg(0)->hasStructRetAttr()) continue;
    // delegates entirely
    bool delegates = false;
    for (auto &I : instructions(F)) if (auto *CB = dyn_cast<CallBase>(&I); CB && CB->arg_size() && CB->getArgOperand(0) == F.getArg(0) && CB->paramHasAttr(0, Attribute::StructRet)) delegates = true;
    if (delegates) continue;
    bool any = false;
    for (auto &I : instructions(F)) if (auto *CB = dyn_cast<CallBase>(&I); CB && CB->getCalledFunction() && mayRecord.count(CB->getCalledFunction())) any = true;
    if (!any) continue;
    rep.bump("responses");
    bool knows = false;
    for (auto &I : instructions(F)) if (auto *CB = dyn_cast<CallBase>(&I); CB && CB->getCalledFunction() && dem(*CB->getCalledFunction()).find("has_error") != std::string::npos) knows = true;
    if (!knows) {
      bool other = false;
      for (auto &I : instructions(F)) if (auto *CB = dyn_cast<CallBase>(&I); CB && CB->getCalledFunction() && dem(*CB->getCalledFunction()).find("diagnostics::") != std::string::npos) other = true;
      if (other) { rep.bump("undecided"); rep.note("undecided: " + fnName(F)); continue; }
    }
    Walker W(F);
    W.maxPaths = 20000;
    enum { Clear = 1 << 20, Dirty = 1 << 21, Err = 1 << 22, Gone = 1 << 23 };
    std::set<std::string> msgs;
    // a helper that is given the response and both assigns a text and empties a list is taken to finish the response
    auto finishes = [&](Function &G) {
      bool e = false, g = false;
      for (auto &I : instructions(G)) if (auto *C = dyn_cast<CallBase>(&I); C && C->getCalledFunction()) {
        StringRef n = C->getCalledFunction()->getName();
        e |= n.starts_with("_ZNSt7__cxx1112basic_stringIc") && (n.contains("aSE") || n.contains("6assign"));
        g |= n.starts_with("_ZNSt6vector") && (n.contains("5clearEv") || n.contains("aSE") || n.contains("4swapE"));
      }
      return e && g;
    };
    W.onCall = [&](WState &S, CallBase &CB) {
      auto *G = CB.getCalledFunction();
      if (!G) return true;
      std::string d = dem(*G);
      if (d.find("has_error") != std::string::npos) return true;
      if (mayRecord.count(G)) { S.bits = Dirty; return true; }
      StringRef n = G->getName();
      AV a = CB.arg_size() ? W.get(S, CB.getArgOperand(0)) : AV{};
      bool resp = a.k == AV::Ptr && a.b == F.getArg(0);
      if (resp && (n.starts_with("_ZNSt7__cxx1112basic_stringIc")) && (n.contains("aSE") || n.contains("6assign"))) S.bits |= Err;
      bool none = n.contains("5clearEv") || n.contains("aSE") || n.contains("4swapE");
      if (n.contains("5eraseE") && CB.arg_size() >= 3) none = true; // a range
      if (n.contains("6resizeE") && CB.arg_size() >= 2) { AV k = W.get(S, CB.getArgOperand(1)); none = k.k == AV::Int && k.i == 0; }
      if (resp && n.starts_with("_ZNSt6vector") && none) S.bits |= Gone;
      if (!G->isDeclaration() && inRepo(*G))
        for (unsigned i = 0; i < CB.arg_size() && i < G->arg_size(); i++) {
          AV b = CB.getArgOperand(i)->getType()->isPointerTy() ? W.get(S, CB.getArgOperand(i)) : AV{};
          if (b.k == AV::Ptr && b.b == F.getArg(0) && finishes(*G)) S.bits |= Err | Gone;
        }
      if (resp && n.starts_with("_ZNSt6vector") && (n.contains("12emplace_back") || n.contains("9push_back") || n.contains("6insert"))) S.bits &= ~Gone;
      return true;
    };
    W.onAssume = [&](WState &S, Value &leaf, bool t) {
      auto *CB = dyn_cast<CallBase>(&leaf);
      if (CB && CB->getCalledFunction() && dem(*CB->getCalledFunction()).find("has_error") != std::string::npos) { if (t) { S.bits &= ~Clear; S.bits |= Dirty; } else { S.bits &= ~Dirty; S.bits |= Clear; } }
    };
    W.onEnd = [&](WState &S, Instruction &R) {
      rep.bump("outcomes");
      if (!(S.bits & Dirty)) return;
      if (!(S.bits & Err)) msgs.insert("the response is returned without its error having been set although a failure may have been recorded");
      else if (!(S.bits & Gone)) msgs.insert("the response is returned with the files generated so far although a failure was recorded");
    };
    W.run(WState{}, &*F.getEntryBlock().getFirstNonPHIOrDbg());
    rep.bump("paths", W.paths);
    for (auto &m : msgs) rep.violation("R-response", fnName(F), siteOf(F), m);
    if (W.overflow) { rep.bump("undecided"); rep.note("undecided: " + fnName(F)); }
  }
}
static void mainFailures(Module &M, Report &rep) {
  inlineAll(M, [&](Function &F) {
    std::string d = dem(F);
    if (wrapperFn(d)) return false;
    if (inRepo(F) && fileOf(F).find("protoc-gen-hpp.cpp") != std::string::npos) return false;
    return true;
  });
  for (auto &F : M) {
    if (F.getName() != "main" || F.isDeclaration()) continue;
    auto name = [&](CallBase &CB) { return CB.getCalledFunction() ? dem(*CB.getCalledFunction()) : std::string(); };
    for (auto &I : instructions(F)) {
      auto *CB = dyn_cast<CallBase>(&I);
      if (!CB || !CB->getCalledFunction()) continue;
      std::string d = name(*CB);
      bool rd = d.find("hpp_proto::read_binpb") != std::string::npos, wr = d.find("hpp_proto::write_binpb") != std::string::npos, po = d.find("parse_plugin_options") != std::string::npos;
      if (!rd && !wr && !po) continue;
      rep.bump("main_steps");
      Walker W(F);
      W.maxPaths = 20000;
      WState S;
      std::string bad;
      bool sret = CB->paramHasAttr(0, Attribute::StructRet);
      auto *E = sret ? CB->getArgOperand(0) : nullptr;
      if (po) {
        auto off = sret ? flagOffset(*CB) : std::nullopt;
        if (!off) { rep.bump("undecided"); continue; }
        S.mem[{E, *off}] = AV::num(0);
        S.env[E] = AV::ptr(E, 0);
      } else if (CB->getType()->isIntegerTy()) S.env[CB] = AV::num(74);
      else { rep.bump("undecided"); continue; }
      int err = 1 << 24;
      W.onCall = [&](WState &T, CallBase &C2) {
        std::string n = name(C2);
        if (n.find("hpp_generator::generate") != std::string::npos) bad = "files are generated all the same";
        if (wr && n.find("ostreambuf_iterator") != std::string::npos && n.find("copy") != std::string::npos) bad = "bytes are written to the output all the same";
        if (C2.arg_size() && C2.getCalledFunction() && C2.getCalledFunction()->getName().starts_with("_ZNSt7__cxx1112basic_stringIc") && (C2.getCalledFunction()->getName().contains("aSE") || C2.getCalledFunction()->getName().contains("6assign"))) T.bits |= err;
        if (n.find("hpp_proto::write_binpb") != std::string::npos && &C2 != CB) {
          if (rd) bad = "a response is written all the same";
          if (po && !(T.bits & err)) bad = "the response written carries no error";
          return false;
        }
        return true;
      };
      W.onEnd = [&](WState &T, Instruction &R) {
        auto *Rt = cast<ReturnInst>(&R);
        AV v = Rt->getReturnValue() ? W.get(T, Rt->getReturnValue()) : AV{};
        if (po) { if (v.k == AV::Int && v.i == 0) bad = "the program reports success without a response"; return; }
        if (v.k == AV::Int && v.i == 0) bad = "the program reports success";
      };
      Instruction *next = isa<InvokeInst>(CB) ? &*cast<InvokeInst>(CB)->getNormalDest()->getFirstNonPHIOrDbg() : CB->getNextNode();
      W.run(S, next);
      rep.bump("paths", W.paths);
      if (!bad.empty()) rep.violation("R-exit", fnName(F), siteOf(I), std::string("when ") + (rd ? "the request cannot be decoded" : wr ? "the response cannot be encoded" : "the options are invalid") + ", " + bad);
      else if (W.overflow) rep.bump("undecided");
    }
  }
}
static int cmdGenFail(const Options &o, Report &rep) {
  for (auto &f : o.files) {
    LLVMContext C;
    auto M = loadModule(C, f);
    PrepPolicy P;
    prepare(*M, P);
    if (M->getFunction("main")) mainFailures(*M, rep);
    else genFailures(*M, rep);
  }
  return 0;
}
static ::Register rgf("genfail", cmdGenFail);

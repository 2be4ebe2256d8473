// utf8: no string is decoded into a message or written to the output without its validation having succeeded
#include "core.h"
#include <regex>
namespace {
bool stringType(const std::string &n) {
  static const std::regex re("^(arena_vector<)?(std::)?(__cxx11::)?(pmr::)?(basic_string_view<char(>|,)|basic_string<char(>|,)).*|^(string|string_view)$|^arena_vector<(std::)?(string_view|string).*");
  return std::regex_match(n, re);
}
bool hasString(const Function &F) {
  for (auto &n : paramTypeNames(F)) if (stringType(n)) return true;
  return false;
}
struct Sets {
  std::set<const Function *> fill, write; // success leaves a string unchecked / writes one unchecked
};
bool isIn(const Function &F) { auto n = demangled(F.getName()); return std::regex_search(n, std::regex("pb_serializer::(basic_in|contiguous_input_archive)<[^()]*>::\\w+|basic_in<.*>::(operator\\(\\)|deserialize|deserialize_packed|read_bytes)")); }
bool isOut(StringRef m) { return m.contains("chunked_outI") || m.contains("contiguous_outI"); }
} // namespace

static int cmdUtf8(const Options &o, Report &rep) {
  for (auto &file : o.files) {
    LLVMContext C;
    auto M = loadModule(C, file);
    Function *check = M->getFunction("is_utf8");
    // predicates which are nothing but a validation
    std::set<Function *> preds;
    for (bool ch = true; ch;) {
      ch = false;
      for (auto &F : *M) {
        if (F.isDeclaration() || !F.getReturnType()->isIntegerTy(1) || preds.count(&F) || !inRepo(F)) continue;
        if (F.getName().contains("requires_utf8")) continue;
        bool has = false, other = false;
        for (auto &I : instructions(F))
          if (auto *CB = dyn_cast<CallBase>(&I)) {
            auto *T = CB->getCalledFunction();
            if ((T && T == check) || (T && preds.count(T))) has = true;
            else if (T && !T->isIntrinsic() && inRepo(*T) && (isOut(T->getName()) || resultKind(*T) == KStatus)) other = true;
          }
        if (has && !other) { preds.insert(&F); ch = true; }
      }
    }
    std::set<std::string> predNames;
    for (auto *f : preds) predNames.insert(f->getName().str());
    std::set<std::string> ioNames;
    for (auto &F : *M) {
      if (!hasString(F)) continue;
      if (inRepo(F) && F.getName().contains("basic_inI") && F.getName().contains("pb_serializer8basic_in") && F.getName().starts_with("_ZN9hpp_proto13pb_serializer8basic_inI")) ioNames.insert(F.getName().str());
      if (inRepo(F) && (F.getName().starts_with("_ZN9hpp_proto13pb_serializer11chunked_outI") || F.getName().starts_with("_ZN9hpp_proto13pb_serializer14contiguous_outI"))) ioNames.insert(F.getName().str());
    }
    PrepPolicy P;
    P.leafInline = true;
    P.inlineLambdas = true;
    P.keep = [&](Function &F) { return ioNames.count(F.getName().str()) || F.getName().contains("requires_utf8_validation"); };
    P.inlineIf = [&](Function &F) { return predNames.count(F.getName().str()) != 0; };
    prepare(*M, P);
    check = M->getFunction("is_utf8");
    CallResolver R(*M);
    Sets sets;
    std::map<const Function *, std::pair<std::string, std::string>> why; // function -> (site, message)
    std::map<const Function *, std::string> chain;
    for (auto &F : *M)
      if (ioNames.count(F.getName().str())) (F.getName().contains("8basic_inI") && !isOut(F.getName()) ? sets.fill : sets.write).insert(&F);
    rep.bump("archive_string_primitives", sets.fill.size() + sets.write.size());
    // the check must look at the whole string
    auto wholeLength = [&](const CallBase *CB) {
      std::vector<const Value *> wl{CB->getArgOperand(1)};
      std::set<const Value *> seen;
      while (!wl.empty()) {
        auto *v = wl.back(); wl.pop_back();
        if (!seen.insert(v).second) continue;
        if (isa<LoadInst>(v) || isa<Argument>(v) || isa<CallBase>(v)) {
          if (auto *c = dyn_cast<CallBase>(v); c && isa<IntrinsicInst>(c)) return false;
          continue;
        }
        if (auto *b = dyn_cast<BinaryOperator>(v)) {
          if (b->getOpcode() != Instruction::Sub || isa<Constant>(b->getOperand(1))) return false;
        } else if (isa<Constant>(v)) { return false; }
        else if (!isa<PtrToIntInst>(v) && !isa<ExtractValueInst>(v) && !isa<ZExtInst>(v) && !isa<PHINode>(v) && !isa<FreezeInst>(v)) return false;
        if (auto *U = dyn_cast<User>(v)) for (auto &op : U->operands()) if (!isa<Constant>(op.get()) || isa<BinaryOperator>(v)) wl.push_back(op.get());
      }
      const Value *p = CB->getArgOperand(0);
      return isa<LoadInst>(p) || isa<Argument>(p) || isa<ExtractValueInst>(p) || isa<CallBase>(p) || isa<PHINode>(p) || isa<AllocaInst>(p) || isa<SelectInst>(p);
    };
    std::set<const CallBase *> partial;
    std::set<const Function *> counted;
    // functions analysed again until nothing changes
    std::vector<Function *> order;
    for (auto &F : *M) if (!F.isDeclaration() && !sets.fill.count(&F) && !sets.write.count(&F)) order.push_back(&F);
    std::set<const Function *> dirty(order.begin(), order.end());
    std::map<const Function *, std::set<Function *>> callers;
    for (auto *F : order)
      for (auto &I : instructions(*F))
        if (auto *CB = dyn_cast<CallBase>(&I)) for (auto *T : R.callees(*CB)) callers[T].insert(F);
    bool overflow = false;
    auto analyse = [&](Function &F) -> std::pair<bool, bool> {
      bool any = false;
      for (auto &I : instructions(F))
        if (auto *CB = dyn_cast<CallBase>(&I)) for (auto *T : R.callees(*CB)) any |= (T && T == check) || sets.fill.count(T) || sets.write.count(T);
      if (!any) return {false, false};
      if (counted.insert(&F).second) rep.bump("functions");
      bool rawFill = false, rawWrite = false;
      std::set<const Value *> lens; // what a validation in this function looks at
      for (auto &I : instructions(F))
        if (auto *CB = dyn_cast<CallBase>(&I); CB && check && CB->getCalledFunction() == check)
          for (auto &a : CB->args()) {
            lens.insert(a.get());
            if (auto *ld = dyn_cast<LoadInst>(a.get())) lens.insert(getUnderlyingObject(ld->getPointerOperand()));
          }
      std::map<const CallBase *, int> id;
      PathEngine E(F);
      Kind fk = resultKind(F);
      E.onInst = [&](PState &S, Instruction &I, std::vector<PState> &alts) {
        auto *CB = dyn_cast<CallBase>(&I);
        if (!CB) return true;
        auto ts = R.callees(*CB);
        if (ts.size() == 1 && ts[0] == check) {
          PState f = S;
          f.env[&I] = Fact::constant(0);
          f.x[1] = 0;
          S.env[&I] = Fact::constant(-1);
          if (wholeLength(CB)) { S.x[0] = 0; S.x[1] = 1; }
          else partial.insert(CB);
          alts.push_back(std::move(f));
          return true;
        }
        if (ts.size() == 1 && ts[0]->getName().contains("requires_utf8_validation")) {
          PState f = S;
          f.env[&I] = Fact::constant(0);
          f.x[0] = 0;
          f.x[2] = 1;
          S.env[&I] = Fact::constant(-1);
          S.x.erase(2);
          alts.push_back(std::move(f));
          return true;
        }
        bool fill = false, write = false;
        Kind k = KNone;
        for (auto *T : ts) { fill |= sets.fill.count(T); write |= sets.write.count(T); k = resultKind(*T); }
        if (!fill && !write) return true;
        if (write && !S.x.count(2)) {
          if (!S.x[1]) { S.x[3] = 1; if (!why.count(&F)) why[&F] = {siteOf(I), "a string is written without having been validated"}; }
          S.x[1] = 0;
        }
        Type *rt = CB->getType();
        if (rt->isIntegerTy(32) || (rt->isIntegerTy(1))) {
          PState f = S;
          f.env[&I] = rt->isIntegerTy(1) ? Fact::constant(0) : Fact::nonzero();
          S.env[&I] = rt->isIntegerTy(1) ? Fact::constant(-1) : Fact::constant(0);
          if (fill) S.x[0] = (id.emplace(CB, (int)id.size() + 1).first)->second;
          alts.push_back(std::move(f));
        } else if (fill) S.x[0] = (id.emplace(CB, (int)id.size() + 1).first)->second;
        return true;
      };
      // an empty string needs no validation
      E.onBranch = [&](PState &S, BranchInst &B, bool taken) {
        const Value *c = B.getCondition();
        bool t = taken;
        while (auto *b = dyn_cast<BinaryOperator>(c)) { if (b->getOpcode() != Instruction::Xor) return; c = b->getOperand(0); t = !t; }
        auto *ic = dyn_cast<ICmpInst>(c);
        if (!ic || !ic->isEquality() || (ic->getPredicate() == CmpInst::ICMP_EQ) != t) return;
        const CallBase *at = nullptr;
        for (auto &[cb, i] : id) if (S.x.count(0) && i == S.x[0]) at = cb;
        std::function<bool(const Value *, int)> fromString = [&](const Value *v, int d) -> bool {
          if (d > 6) return false;
          if (lens.count(v)) return true;
          if (auto *ld = dyn_cast<LoadInst>(v)) {
            const Value *p = getUnderlyingObject(ld->getPointerOperand());
            if (!ld->getType()->isIntegerTy(64) && !ld->getType()->isPointerTy()) return false;
            if (lens.count(p)) return true;
            if (at) for (auto &a : at->args()) if (a->getType()->isPointerTy() && getUnderlyingObject(a.get()) == p) return true;
            return false;
          }
          if (auto *b = dyn_cast<BinaryOperator>(v)) return b->getOpcode() == Instruction::Sub && fromString(b->getOperand(0), d + 1) && fromString(b->getOperand(1), d + 1);
          if (auto *b = dyn_cast<PtrToIntInst>(v)) return fromString(b->getOperand(0), d + 1);
          return false;
        };
        auto *k = dyn_cast<ConstantInt>(ic->getOperand(1));
        if ((k && k->isZero() && fromString(ic->getOperand(0), 0)) || (fromString(ic->getOperand(0), 0) && fromString(ic->getOperand(1), 0))) { S.x[0] = 0; S.x[1] = 1; }
      };
      std::function<bool(PState &, const Value *, int)> fails = [&](PState &S, const Value *V, int d) -> bool {
        Fact f = E.eval(S, V);
        if (fk == KBool) { if (f.k == Fact::Const) return f.c == 0; }
        else { if (f.k == Fact::NonZero) return true; if (f.k == Fact::Const) return f.c != 0; }
        return false;
      };
      E.onExit = [&](PState &S, Instruction &T) {
        auto *Rt = dyn_cast<ReturnInst>(&T);
        if (!Rt) return;
        if (Rt->getReturnValue() && (fk == KStatus || fk == KBool || F.getReturnType()->isIntegerTy(32)) && fails(S, Rt->getReturnValue(), 0)) return;
        if (S.x.count(0) && S.x[0]) {
          rawFill = true;
          for (auto &[cb, i] : id)
            if (i == S.x[0] && !why.count(&F)) why[&F] = {siteOf(*cb), "the string read here can be accepted without having been validated"};
        }
        if (S.x.count(3) && S.x[3]) rawWrite = true;
      };
      PState init;
      E.run(init);
      overflow |= E.overflowed;
      rep.bump("paths", E.explored);
      return {rawFill, rawWrite};
    };
    while (!dirty.empty()) {
      auto *F = const_cast<Function *>(*dirty.begin());
      dirty.erase(dirty.begin());
      if (sets.fill.count(F) && sets.write.count(F)) continue;
      auto [a, b] = analyse(*F);
      bool ch = false;
      if (a && sets.fill.insert(F).second) ch = true;
      if (b && sets.write.insert(F).second) ch = true;
      if (ch) for (auto *c : callers[F]) dirty.insert(c);
    }
    for (auto &I : M->functions())
      for (auto &J : instructions(I)) if (auto *CB = dyn_cast<CallBase>(&J); CB && CB->getCalledFunction() == check) rep.bump("validations");
    for (auto *cb : partial)
      rep.violation("partial-validation", fnName(*cb->getFunction()), siteOf(*cb), "the validation does not look at the whole string");
    if (overflow) rep.broken.push_back("state overflow in " + file);
    for (auto &F : *M) {
      if (F.isDeclaration() || !F.getName().starts_with("vproot_")) continue;
      rep.bump("roots");
      bool a = sets.fill.count(&F), b = sets.write.count(&F);
      if (!a && !b) continue;
      // follow the unchecked callees down to where the string was last a string
      const Function *cur = &F, *rep1 = &F;
      std::set<const Function *> seen;
      while (cur && seen.insert(cur).second) {
        const Function *nx = nullptr;
        rep1 = cur;
        if (hasString(*cur)) break;
        for (auto &I : instructions(*cur))
          if (auto *CB = dyn_cast<CallBase>(&I))
            for (auto *T : R.callees(*CB)) if (!nx && !ioNames.count(T->getName().str()) && !seen.count(T) && ((a && sets.fill.count(T)) || (b && sets.write.count(T)))) nx = T;
        cur = nx;
      }
      auto w = why.count(rep1) ? why[rep1] : std::pair<std::string, std::string>{siteOf(*rep1), "unvalidated string"};
      rep.violation(a ? "unvalidated-decode" : "unvalidated-encode", fnName(*rep1), w.first, w.second + " (reached from " + F.getName().str() + ")");
    }
  }
  return 0;
}
static Register r1("utf8", cmdUtf8);

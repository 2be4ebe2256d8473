// errors: no failing result of a fallible call is turned into success
#include "core.h"
#include <regex>
namespace {
constexpr Kind None = KNone, Status = KStatus, Bool = KBool, Optional = KOptional, Expect = KExpect;
struct Fallible {
  Module &M;
  CallResolver &R;
  std::map<const Function *, Kind> k;
  Kind of(const Function *F) const { auto i = k.find(F); return i == k.end() ? None : i->second; }
};
Kind seedKind(const Function &F) {
  std::string rt = returnTypeName(F);
  bool repo = inRepo(F);
  if (!repo) return None;
  if (F.size() == 1) { // accessors and conversions of a result are not operations
    bool calls = false;
    for (auto &I : instructions(F)) calls |= isa<CallBase>(I) && !isa<IntrinsicInst>(I);
    if (!calls) return None;
  }
  if (rt == "status" || rt == "errc") return F.getReturnType()->isIntegerTy(32) ? Status : None;
  StringRef n = F.getName();
  if (rt == "bool" && (n.contains("chunked_outI") || n.contains("contiguous_outI")) && !n.contains("deserialize")) return Bool;
  if (StringRef(rt).starts_with("optional<unsigned long>") || StringRef(rt).starts_with("optional<std::size_t>")) return Optional;
  if (StringRef(rt).starts_with("expected<") && StringRef(rt).contains("errc")) return Expect;
  return None;
}
} // namespace

static int cmdErrors(const Options &o, Report &rep) {
  for (auto &file : o.files) {
    LLVMContext C;
    auto M = loadModule(C, file);
    PrepPolicy P;
    P.leafInline = true;
    P.inlineLambdas = true;
    P.keep = [](Function &F) { return seedKind(F) != None; };
    prepare(*M, P);
    CallResolver R(*M);
    Fallible fal{*M, R, {}};
    for (auto &F : *M) {
      Kind k = seedKind(F);
      if (k != None) fal.k[&F] = k;
    }
    // library wrappers hand the result of a repository callable through
    for (bool ch = true; ch;) {
      ch = false;
      for (auto &F : *M) {
        if (F.isDeclaration() || fal.k.count(&F) || inRepo(F)) continue;
        Type *rt = F.getReturnType();
        if (!rt->isIntegerTy(32) && !rt->isIntegerTy(1)) continue;
        std::string n = returnTypeName(F);
        for (auto &I : instructions(F))
          if (auto *CB = dyn_cast<CallBase>(&I))
            for (auto *T : R.callees(*CB)) {
              Kind k = fal.of(T);
              if ((k == Status && rt->isIntegerTy(32)) || (k == Bool && rt->isIntegerTy(1))) {
                if (StringRef(F.getName()).starts_with("vproot_")) continue;
                fal.k[&F] = k;
                ch = true;
              }
            }
      }
    }
    std::map<const Function *, bool> guardMemo;
    // which nonzero constants can a function return, transitively, and does it contain a recursion guard
    std::function<void(const Function *, std::set<const Function *> &)> closure = [&](const Function *F, std::set<const Function *> &s) {
      if (!s.insert(F).second) return;
      for (auto &I : instructions(*F))
        if (auto *CB = dyn_cast<CallBase>(&I))
          for (auto *T : R.callees(*CB))
            if (!T->isDeclaration() && fal.of(T) == Status) closure(T, s);
    };
    for (auto &F : *M) {
      if (F.isDeclaration()) continue;
      if (F.getName().starts_with("vproot_")) continue;
      std::vector<const CallBase *> sites;
      for (auto &I : instructions(F))
        if (auto *CB = dyn_cast<CallBase>(&I)) {
          bool any = false;
          for (auto *T : R.callees(*CB)) any |= fal.of(T) != None;
          if (any) sites.push_back(CB);
        }
      if (sites.empty()) continue;
      Kind fk = fal.of(&F);
      rep.bump("functions");
      rep.bump("call_sites", sites.size());
      std::map<const CallBase *, int> id;
      for (auto *s : sites) id[s] = (int)id.size() + 1;
      std::set<const CallBase *> reported;
      auto siteKind = [&](const CallBase *CB) {
        Kind k = None;
        for (auto *T : R.callees(*CB)) if (fal.of(T) != None) k = fal.of(T);
        return k;
      };
      const Value *sret = nullptr;
      for (auto &A : F.args()) if (A.hasStructRetAttr()) sret = &A;
      PathEngine E(F);
      E.onInst = [&](PState &S, Instruction &I, std::vector<PState> &alts) {
        if (auto *CB = dyn_cast<CallBase>(&I)) {
          auto it = id.find(CB);
          if (it != id.end() && S.s == 0) {
            Kind k = siteKind(CB);
            PState f = S;
            f.s = 1;
            f.x[0] = it->second;
            if (k == Status) { f.env[&I] = Fact::nonzero(); S.env[&I] = Fact::constant(0); }
            else if (k == Bool) { f.env[&I] = Fact::constant(0); S.env[&I] = Fact::constant(-1); }
            if (k == Expect) {
              // the flag of the result object: unknown offset; only the call itself is tracked
            } else
              alts.push_back(std::move(f));
          } else if (S.s == 1 && sret) {
            // the failure is stored into the returned expected<>
            auto *T = CB->getCalledFunction();
            if (T && (T->getName().contains("unexpected") || T->getName().contains("10unexpect")))
              S.x[2] = 1;
          }
        }
        if (auto *EV = dyn_cast<ExtractValueInst>(&I))
          if (auto *CB = dyn_cast<CallBase>(EV->getAggregateOperand())) {
            auto it = id.find(CB);
            if (it != id.end() && siteKind(CB) == Optional && EV->getNumIndices() == 1 && EV->getIndices()[0] == 1) {
              if (S.s == 1 && S.x[0] == it->second) S.env[&I] = Fact::constant(0);
              else S.env[&I] = Fact::constant(1);
            }
          }
        return true;
      };
      auto absorbed = [&](PState &S, const Value *cond, bool truth) {
        if (S.s != 1) return;
        std::vector<std::pair<const Value *, bool>> wl{{cond, truth}};
        for (int n = 0; !wl.empty() && n < 20; ++n) {
          auto [v, t] = wl.back();
          wl.pop_back();
          if (auto *c = dyn_cast<ICmpInst>(v)) {
            if ((c->getPredicate() == CmpInst::ICMP_EQ) == t && c->isEquality())
              if (auto *k = dyn_cast<ConstantInt>(c->getOperand(1)); k && !k->isZero() && k->getBitWidth() == 32) {
                // the value must be the failing result
                S.x[1] = k->getSExtValue();
              }
          } else if (auto *b = dyn_cast<BinaryOperator>(v)) {
            if (b->getOpcode() == Instruction::Xor) wl.push_back({b->getOperand(0), !t});
            else { wl.push_back({b->getOperand(0), t}); wl.push_back({b->getOperand(1), t}); }
          } else if (auto *s = dyn_cast<SelectInst>(v)) {
            wl.push_back({s->getCondition(), t}); wl.push_back({s->getTrueValue(), t}); wl.push_back({s->getFalseValue(), t});
          }
        }
      };
      E.onBranch = [&](PState &S, BranchInst &B, bool taken) { absorbed(S, B.getCondition(), taken); };
      E.onSwitch = [&](PState &S, SwitchInst &Sw, const ConstantInt *c) {
        if (S.s == 1 && c && !c->isZero() && c->getBitWidth() == 32) S.x[1] = c->getSExtValue();
      };
      std::function<bool(PState &, const Value *, Kind, std::set<int64_t> &, int)> fails =
          [&](PState &S, const Value *V, Kind k, std::set<int64_t> &abs, int d) -> bool {
        Fact f = E.eval(S, V);
        if (k == Bool) { if (f.k == Fact::Const) return f.c == 0; }
        else {
          if (f.k == Fact::NonZero) return true;
          if (f.k == Fact::Const) return f.c != 0;
        }
        if (d > 6) return false;
        for (auto &[cb, i] : id) if (i == S.x[0] && cb == V) return true;
        if (auto *Sel = dyn_cast<SelectInst>(V)) {
          auto *c = dyn_cast<ICmpInst>(Sel->getCondition());
          if (c && c->isEquality())
            if (auto *kk = dyn_cast<ConstantInt>(c->getOperand(1)); kk && !kk->isZero() && kk->getBitWidth() == 32) {
              bool eq = c->getPredicate() == CmpInst::ICMP_EQ;
              const Value *same = eq ? Sel->getTrueValue() : Sel->getFalseValue();
              const Value *other = eq ? Sel->getFalseValue() : Sel->getTrueValue();
              if (!fails(S, same, k, abs, d + 1)) abs.insert(kk->getSExtValue());
              return fails(S, other, k, abs, d + 1);
            }
          return fails(S, Sel->getTrueValue(), k, abs, d + 1) && fails(S, Sel->getFalseValue(), k, abs, d + 1);
        }
        if (isa<ZExtInst>(V) || isa<TruncInst>(V) || isa<FreezeInst>(V)) return fails(S, cast<Instruction>(V)->getOperand(0), k, abs, d + 1);
        if (auto *IV = dyn_cast<InsertValueInst>(V)) {
          if (IV->getIndices()[0] == 1) return fails(S, IV->getInsertedValueOperand(), Bool, abs, d + 1);
          return fails(S, IV->getAggregateOperand(), k, abs, d + 1);
        }
        return false;
      };
      E.onExit = [&](PState &S, Instruction &T) {
        auto *Rt = dyn_cast<ReturnInst>(&T);
        if (!Rt || S.s != 1) return;
        const CallBase *at = nullptr;
        for (auto &[cb, i] : id) if (i == S.x[0]) at = cb;
        std::set<int64_t> abs;
        bool ok = false;
        if (fk == Status || fk == Bool) ok = Rt->getReturnValue() && fails(S, Rt->getReturnValue(), fk, abs, 0);
        else if (fk == Optional) ok = Rt->getReturnValue() && fails(S, Rt->getReturnValue(), Bool, abs, 0);
        else if (sret || fk == Expect) ok = S.x.count(2);
        if (!ok && S.x.count(1)) { abs.insert(S.x[1]); ok = true; }
        if (ok && !abs.empty()) {
          // an enumerator may be absorbed only when it is the callee's unambiguous signal: no recursion guard behind it
          std::set<const Function *> cl;
          for (auto *t : R.callees(*at)) closure(t, cl);
          std::string why;
          std::set<std::string> allowed;
          for (auto &a : o.all("sentinel")) allowed.insert(a);
          for (auto a : abs)
            if (!allowed.count(std::to_string(a))) why = "error " + std::to_string(a) + " is treated as success";
          if (why.empty())
            for (auto *f : cl) {
              std::set<const Function *> one;
              for (auto &I : instructions(*f))
                if (auto *st = dyn_cast<StoreInst>(&I))
                  if (auto *b = dyn_cast<BinaryOperator>(st->getValueOperand()))
                    if (b->getOpcode() == Instruction::Add)
                      if (auto *ld = dyn_cast<LoadInst>(b->getOperand(0)); ld && ld->getPointerOperand() == st->getPointerOperand())
                        if (auto *t = st->getMetadata(LLVMContext::MD_tbaa))
                          if (auto *c1 = dyn_cast<ConstantInt>(b->getOperand(1)); c1 && c1->isMinusOne()) why = "the absorbed error is also how " + fnName(*f) + " reports exhausted nesting";
            }
          if (why.empty()) { rep.bump("absorbed_sentinels"); return; }
          if (reported.insert(at).second)
            rep.violation("error-absorbed", fnName(F), siteOf(*at), "a failure of " + fnName(**R.callees(*at).begin()) + " is swallowed: " + why, E.trace());
          return;
        }
        if (!ok && reported.insert(at).second)
          rep.violation("error-dropped", fnName(F), siteOf(*at),
                        "a failure of " + fnName(**R.callees(*at).begin()) + " can reach a return which does not report it", E.trace());
      };
      PState init;
      E.run(init);
      if (E.overflowed) rep.broken.push_back("state overflow in " + fnName(F));
      rep.bump("paths", E.explored);
    }
  }
  return 0;
}
static Register r1("errors", cmdErrors);

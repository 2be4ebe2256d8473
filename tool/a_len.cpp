// lengths: what the input says about extents is compared with what is left of the input before it is used
#include "core.h"
#include "llvm/Analysis/LoopInfo.h"
namespace {
bool isParse(const Function &F) {
  StringRef n = F.getName();
  return n.contains("unchecked_parse_") || n.contains("shift_mix_parse_");
}
struct Summary {
  std::map<unsigned, int64_t> needs;   // parameters used as an extent (that many times their value, in 4096ths) before they are compared
  std::map<unsigned, std::string> site; // where
  std::map<unsigned, int64_t> ensT, ensF; // compared on every successful (true) / failing (false) return
  std::map<unsigned, int64_t> flows;    // still unchecked when they come back as (part of) the result
  std::set<unsigned> out;               // scalar reference parameters which receive a value of the input
  bool source = false;                  // returns an unchecked value of the input
  bool ensKnown = false;
  bool operator==(const Summary &o) const { return needs == o.needs && ensT == o.ensT && ensF == o.ensF && flows == o.flows && out == o.out && source == o.source && ensKnown == o.ensKnown; }
};
bool scalarAlloca(const Value *v, const DataLayout &DL) {
  auto *A = dyn_cast<AllocaInst>(v);
  if (!A || A->isArrayAllocation()) return false;
  Type *t = A->getAllocatedType();
  while (auto *st = dyn_cast<StructType>(t)) { if (st->getNumElements() != 1) return false; t = st->getElementType(0); }
  return t->isIntegerTy() && DL.getTypeStoreSize(t) <= 8;
}
constexpr int64_t One = 4096, Cap = One << 40;
using Roots = std::map<const Value *, int64_t>;
struct Fn {
  Function &F;
  const DataLayout &DL;
  CallResolver &R;
  std::map<const Function *, Summary> &sums;
  std::map<const Value *, std::set<const Value *>> memo;
  Fn(Function &F, CallResolver &R, std::map<const Function *, Summary> &s) : F(F), DL(F.getDataLayout()), R(R), sums(s) {}
  std::map<const AllocaInst *, bool> outTainted;
  bool tainted(const AllocaInst *A) {
    auto it = outTainted.find(A);
    if (it != outTainted.end()) return it->second;
    bool t = false;
    for (auto *U : A->users()) {
      auto *CB = dyn_cast<CallBase>(U);
      if (!CB) continue;
      for (unsigned i = 0; i < CB->arg_size(); ++i)
        if (CB->getArgOperand(i) == A)
          for (auto *T : R.callees(*CB)) {
            auto s = sums.find(T);
            if (s != sums.end() && s->second.out.count(i)) t = true;
          }
    }
    return outTainted[A] = t;
  }
  // a local which only ever receives a value of the input to serve as an extent: it is stored and returned nowhere
  std::map<const AllocaInst *, bool> extentMemo;
  bool extentOnly(const AllocaInst *A) {
    auto it = extentMemo.find(A);
    if (it != extentMemo.end()) return it->second;
    bool &res = extentMemo[A] = false;
    if (!scalarAlloca(A, DL) || !tainted(A)) return false;
    std::vector<const Value *> wl;
    std::set<const Value *> seen;
    bool extent = false;
    auto asArg = [&](const CallBase *CB, unsigned i) {
      bool known = false;
      for (auto *T : R.callees(*CB)) {
        auto s = sums.find(T);
        if (s == sums.end() || T->isDeclaration()) return false;
        if (s->second.out.count(i)) { known = true; continue; }
        if (!s->second.needs.count(i) && !s->second.ensT.count(i) && !s->second.ensF.count(i)) return false;
        extent = known = true;
      }
      return known;
    };
    for (auto *U : A->users()) {
      if (isa<LoadInst>(U)) { wl.push_back(U); continue; }
      if (auto *St = dyn_cast<StoreInst>(U)) { if (St->getPointerOperand() != A || !isa<Constant>(St->getValueOperand())) return false; continue; }
      if (isa<IntrinsicInst>(U)) continue;
      auto *CB = dyn_cast<CallBase>(U);
      if (!CB) return false;
      for (unsigned i = 0; i < CB->arg_size(); ++i) if (CB->getArgOperand(i) == A && !asArg(CB, i)) return false;
    }
    while (!wl.empty()) {
      const Value *v = wl.back();
      wl.pop_back();
      if (!seen.insert(v).second) continue;
      for (auto *U : v->users()) {
        if (isa<ICmpInst>(U)) continue;
        if (auto *St = dyn_cast<StoreInst>(U); St && (isa<BinaryOperator>(v) || isa<PHINode>(v)) && isa<AllocaInst>(getUnderlyingObject(St->getPointerOperand()))) continue;
        if (isa<GetElementPtrInst>(U)) { extent = true; continue; }
        if (isa<BinaryOperator>(U) || isa<CastInst>(U) || isa<PHINode>(U) || isa<SelectInst>(U) || isa<FreezeInst>(U)) { wl.push_back(U); continue; }
        auto *CB = dyn_cast<CallBase>(U);
        if (!CB) return false;
        if (auto *M = dyn_cast<MemIntrinsic>(CB)) { if (M->getLength() == v) { extent = true; continue; } return false; }
        for (unsigned i = 0; i < CB->arg_size(); ++i) if (CB->getArgOperand(i) == v && !asArg(CB, i)) return false;
      }
    }
    return res = extent;
  }
  // the values of the input a value is computed from
  Roots roots(const Value *V) {
    Roots out;
    std::map<const Value *, std::pair<int64_t, int>> seen;
    std::vector<std::pair<const Value *, int64_t>> wl{{V, One}};
    auto put = [&](const Value *v, int64_t c) { auto &x = out[v]; x = std::max(x, c); };
    while (!wl.empty()) {
      auto [v, c] = wl.back();
      wl.pop_back();
      c = std::min(c, Cap);
      if (isa<Constant>(v)) continue;
      auto &sn = seen[v];
      if (sn.first >= c || sn.second > 4) continue;
      sn.first = c;
      ++sn.second;
      auto push = [&, c = c](const Value *x) { wl.push_back({x, c}); };
      if (isa<Argument>(v)) { if (v->getType()->isIntegerTy() && v->getType()->getIntegerBitWidth() >= 32) put(v, c); continue; }
      auto *I = dyn_cast<Instruction>(v);
      if (!I) continue;
      if (auto *L = dyn_cast<LoadInst>(I)) {
        if (!L->getType()->isIntegerTy()) continue;
        const Value *p = L->getPointerOperand();
        if (isa<Argument>(p)) put(p, c);
        else if (scalarAlloca(p, DL)) {
          if (tainted(cast<AllocaInst>(p))) put(p, c);
          for (auto *U : p->users())
            if (auto *St = dyn_cast<StoreInst>(U); St && St->getPointerOperand() == p) push(St->getValueOperand());
        }
        continue;
      }
      if (auto *CB = dyn_cast<CallBase>(I)) {
        if (auto *II = dyn_cast<IntrinsicInst>(CB)) {
          switch (II->getIntrinsicID()) {
          case Intrinsic::umin: case Intrinsic::smin: continue;
          case Intrinsic::umax: case Intrinsic::smax: case Intrinsic::abs: case Intrinsic::bswap: for (auto &a : CB->args()) push(a); continue;
          default: continue;
          }
        }
        bool any = false;
        for (auto *T : R.callees(*CB)) {
          auto s = sums.find(T);
          if (s == sums.end()) continue;
          any |= s->second.source;
          for (auto [i, k] : s->second.flows)
            if (i < CB->arg_size()) {
              auto *a = CB->getArgOperand(i);
              int64_t ck = mulc(c, k);
              if (a->getType()->isPointerTy()) { for (auto &[x, d] : rootsOfArg(a)) put(x, mulc(d, ck)); } else wl.push_back({a, ck});
            }
        }
        if (any) put(CB, c);
        continue;
      }
      if (auto *B = dyn_cast<BinaryOperator>(I)) {
        auto *k = dyn_cast<ConstantInt>(B->getOperand(1));
        if (B->getOpcode() == Instruction::URem && k) continue;
        if (B->getOpcode() == Instruction::And && k && k->getValue().ult(16)) continue;
        if (k && k->getValue().isStrictlyPositive() && k->getValue().getActiveBits() < 31) {
          int64_t n = k->getSExtValue();
          switch (B->getOpcode()) {
          case Instruction::Mul: wl.push_back({B->getOperand(0), mulc(c, n * One)}); continue;
          case Instruction::Shl: if (n < 31) { wl.push_back({B->getOperand(0), mulc(c, (int64_t(1) << n) * One)}); continue; } break;
          case Instruction::UDiv: case Instruction::SDiv: wl.push_back({B->getOperand(0), std::max<int64_t>(1, c / n)}); continue;
          case Instruction::LShr: case Instruction::AShr: if (n < 31) { wl.push_back({B->getOperand(0), std::max<int64_t>(1, c >> n)}); continue; } break;
          default: break;
          }
        }
        push(B->getOperand(0)); push(B->getOperand(1));
        continue;
      }
      if (auto *S = dyn_cast<SelectInst>(I)) {
        if (isMin(S)) continue;
        push(S->getTrueValue()); push(S->getFalseValue());
        continue;
      }
      if (auto *P = dyn_cast<PHINode>(I)) { for (auto &u : P->incoming_values()) push(u); continue; }
      if (isa<PtrToIntInst>(I) || isa<ICmpInst>(I)) continue;
      if (isa<CastInst>(I) || isa<FreezeInst>(I)) { push(I->getOperand(0)); continue; }
      if (auto *EV = dyn_cast<ExtractValueInst>(I)) { if (I->getType()->isIntegerTy() && !I->getType()->isIntegerTy(1) && !I->getType()->isIntegerTy(8)) push(EV->getAggregateOperand()); continue; }
      if (auto *IV = dyn_cast<InsertValueInst>(I)) { push(IV->getAggregateOperand()); push(IV->getInsertedValueOperand()); continue; }
    }
    return out;
  }
  static int64_t mulc(int64_t a, int64_t b) { return std::min<__int128>((__int128)a * b / One, Cap); }
  Roots rootsOfArg(const Value *a) {
    if (a->getType()->isPointerTy()) {
      Roots r;
      if (isa<Argument>(a)) r[a] = One;
      else if (scalarAlloca(a, DL)) {
        if (tainted(cast<AllocaInst>(a))) r[a] = One;
        for (auto *U : a->users())
          if (auto *St = dyn_cast<StoreInst>(U); St && St->getPointerOperand() == a)
            for (auto &[x, c] : roots(St->getValueOperand())) r[x] = std::max(r[x], c);
      }
      return r;
    }
    return roots(a);
  }
  static const Value *peel(const Value *v) {
    while (isa<ZExtInst>(v) || isa<SExtInst>(v) || isa<FreezeInst>(v)) v = cast<Instruction>(v)->getOperand(0);
    return v;
  }
  // select(a < b, a, b)
  static bool isMin(const SelectInst *S) {
    auto *C = dyn_cast<ICmpInst>(S->getCondition());
    if (!C) return false;
    const Value *a = peel(C->getOperand(0)), *b = peel(C->getOperand(1)), *t = peel(S->getTrueValue()), *f = peel(S->getFalseValue());
    auto same = [](const Value *x, const Value *y) {
      if (x == y) return true;
      auto *lx = dyn_cast<LoadInst>(x), *ly = dyn_cast<LoadInst>(y);
      return lx && ly && lx->getPointerOperand() == ly->getPointerOperand();
    };
    auto p = C->getPredicate();
    bool lt = p == CmpInst::ICMP_ULT || p == CmpInst::ICMP_SLT || p == CmpInst::ICMP_ULE || p == CmpInst::ICMP_SLE;
    bool gt = p == CmpInst::ICMP_UGT || p == CmpInst::ICMP_SGT || p == CmpInst::ICMP_UGE || p == CmpInst::ICMP_SGE;
    return (lt && same(a, t) && same(b, f)) || (gt && same(a, f) && same(b, t));
  }
  // something that is known about the input's memory, not about its contents: the difference of two stored positions
  bool avail(const Value *V, int d = 0) {
    V = peel(V);
    if (d > 8 || isa<Constant>(V)) return false;
    if (auto *L = dyn_cast<LoadInst>(V)) {
      const Value *p = getUnderlyingObject(L->getPointerOperand());
      return L->getType()->isIntegerTy(64) && (!isa<AllocaInst>(p) || !scalarAlloca(p, DL)) && !isa<GlobalValue>(p);
    }
    if (auto *B = dyn_cast<BinaryOperator>(V)) {
      if (B->getOpcode() == Instruction::Sub) {
        if (isa<PtrToIntInst>(B->getOperand(0)) && isa<PtrToIntInst>(B->getOperand(1))) return true;
        return avail(B->getOperand(0), d + 1) || avail(B->getOperand(1), d + 1);
      }
      if (B->getOpcode() == Instruction::Add || B->getOpcode() == Instruction::SDiv || B->getOpcode() == Instruction::UDiv || B->getOpcode() == Instruction::AShr || B->getOpcode() == Instruction::LShr)
        return avail(B->getOperand(0), d + 1);
      return false;
    }
    if (auto *P = dyn_cast<PHINode>(V)) { for (auto &u : P->incoming_values()) if (avail(u, d + 3)) return true; return false; }
    if (auto *S = dyn_cast<SelectInst>(V)) return avail(S->getTrueValue(), d + 1) && avail(S->getFalseValue(), d + 1);
    if (auto *CB = dyn_cast<CallBase>(V)) {
      auto *T = CB->getCalledFunction();
      return T && inRepo(*T) && !isParse(*T) && CB->arg_size() == 1 && CB->getType()->isIntegerTy(64) && CB->getArgOperand(0)->getType()->isPointerTy() && roots(CB).empty();
    }
    if (isa<Argument>(V)) return false;
    return false;
  }
  // a comparison with a quotient of what is left bounds that multiple
  static int64_t divisor(const Value *V) {
    V = peel(V);
    int64_t d = One;
    while (auto *B = dyn_cast<BinaryOperator>(V)) {
      auto *k = dyn_cast<ConstantInt>(B->getOperand(1));
      if (!k) break;
      if (B->getOpcode() == Instruction::SDiv || B->getOpcode() == Instruction::UDiv) d = mulc(d, k->getSExtValue() * One);
      else if (B->getOpcode() == Instruction::AShr || B->getOpcode() == Instruction::LShr) d = mulc(d, (int64_t(1) << k->getZExtValue()) * One);
      else break;
      V = peel(B->getOperand(0));
    }
    return d;
  }
  static int64_t addConst(const Value *V) {
    int64_t c = 0;
    V = peel(V);
    while (auto *B = dyn_cast<BinaryOperator>(V)) {
      auto *k = dyn_cast<ConstantInt>(B->getOperand(1));
      if (k && B->getOpcode() == Instruction::Add) c += k->getSExtValue();
      else if (k && B->getOpcode() == Instruction::Sub) c -= k->getSExtValue();
      else break;
      V = peel(B->getOperand(0));
    }
    return c;
  }
  // arithmetic on the way which can lose the value: 32 bit products and sums, truncations, reading as negative
  bool lossy(const Value *V, bool sgn) {
    std::vector<const Value *> wl{V};
    std::set<const Value *> seen;
    while (!wl.empty()) {
      const Value *v = wl.back();
      wl.pop_back();
      if (!seen.insert(v).second || isa<Constant>(v)) continue;
      auto *I = dyn_cast<Instruction>(v);
      if (!I) { if (sgn && v->getType()->isIntegerTy(32)) return true; continue; }
      if (auto *T = dyn_cast<TruncInst>(I)) {
        if (!T->getType()->isIntegerTy(32) || !isa<ZExtInst>(I->getOperand(0))) { if (!roots(I->getOperand(0)).empty()) return true; }
        continue;
      }
      if (isa<SExtInst>(I)) { if (!roots(I).empty() && I->getOperand(0)->getType()->getIntegerBitWidth() <= 32) return true; continue; }
      if (isa<ZExtInst>(I) || isa<FreezeInst>(I)) { if (isa<ZExtInst>(I)) sgn = false; wl.push_back(I->getOperand(0)); continue; } // what follows has one operand
      if (auto *B = dyn_cast<BinaryOperator>(I)) {
        if (B->getType()->isIntegerTy(32) && (B->getOpcode() == Instruction::Mul || B->getOpcode() == Instruction::Shl || B->getOpcode() == Instruction::Add)) return true;
        if (B->getOpcode() == Instruction::LShr || B->getOpcode() == Instruction::UDiv || B->getOpcode() == Instruction::SDiv || B->getOpcode() == Instruction::AShr || B->getOpcode() == Instruction::And || B->getOpcode() == Instruction::URem) { return true; }
        wl.push_back(B->getOperand(0));
        continue;
      }
      if (sgn && v->getType()->isIntegerTy(32)) return true;
    }
    return false;
  }
};
} // namespace

static int cmdLengths(const Options &o, Report &rep) {
  for (auto &file : o.files) {
    LLVMContext C;
    auto M = loadModule(C, file);
    PrepPolicy P;
    P.leafInline = true;
    P.inlineLambdas = true;
    P.keep = [](Function &F) { return isParse(F); };
    prepare(*M, P);
    CallResolver R(*M);
    std::map<const Function *, Summary> sums;
    std::map<const Function *, std::set<Function *>> callers;
    std::set<Function *> dirty;
    for (auto &F : *M) {
      if (F.isDeclaration()) continue;
      if (isParse(F)) {
        Summary s;
        for (auto &A : F.args()) if (A.getArgNo() == F.arg_size() - 1 && A.getType()->isPointerTy()) s.out.insert(A.getArgNo());
        sums[&F] = s;
        rep.bump("parsers");
        continue;
      }
      dirty.insert(&F);
      for (auto &I : instructions(F))
        if (auto *CB = dyn_cast<CallBase>(&I)) for (auto *T : R.callees(*CB)) callers[T].insert(&F);
    }
    auto dump = o.one("show");
    std::map<std::pair<const Instruction *, const Value *>, std::pair<std::string, std::string>> viol;
    std::map<const Function *, std::map<std::string, std::pair<std::string, json::Array>>> found; // per function, replaced on re-analysis
    std::map<const Function *, std::array<int64_t, 5>> stats;
    std::set<const Function *> over;
    auto analyse = [&](Function &F) -> Summary {
      Summary res;
      auto &fnd = found[&F];
      fnd.clear();
      Fn A(F, R, sums);
      // out parameters
      for (auto &I : instructions(F)) {
        if (auto *St = dyn_cast<StoreInst>(&I)) {
          auto *p = dyn_cast<Argument>(St->getPointerOperand());
          if (p && St->getValueOperand()->getType()->isIntegerTy() && !p->hasStructRetAttr()) {
            for (auto &[r, _] : A.roots(St->getValueOperand())) if (!isa<Argument>(r)) res.out.insert(p->getArgNo());
          }
        } else if (auto *CB = dyn_cast<CallBase>(&I)) {
          for (unsigned i = 0; i < CB->arg_size(); ++i)
            if (auto *p = dyn_cast<Argument>(CB->getArgOperand(i)); p && p->getType()->isPointerTy())
              for (auto *T : R.callees(*CB)) { auto s = sums.find(T); if (s != sums.end() && s->second.out.count(i)) res.out.insert(p->getArgNo()); }
        }
      }
      // anything of interest?
      bool any = false;
      for (auto &I : instructions(F)) {
        if (auto *CB = dyn_cast<CallBase>(&I)) {
          for (auto *T : R.callees(*CB)) { auto s = sums.find(T); if (s != sums.end() && (!s->second.out.empty() || s->second.source || isParse(*T))) any = true; }
        }
      }
      for (auto &a : F.args()) if (a.getType()->isIntegerTy() && a.getType()->getIntegerBitWidth() >= 32) any = true;
      for (auto &I : instructions(F)) if (auto *L = dyn_cast<LoadInst>(&I); L && L->getType()->isIntegerTy() && isa<Argument>(L->getPointerOperand())) any = true;
      if (!any) return res;
      std::map<const Value *, int> key;
      auto keyOf = [&](const Value *v) { return 1000 + key.emplace(v, (int)key.size()).first->second; };
      auto checked = [&](PState &S, const Value *v, int64_t c = One) { auto it = S.x.find(keyOf(v)); return it != S.x.end() && it->second >= c; };
      auto bound = [&](PState &S, const Value *v, int64_t c = Cap) { auto &x = S.x[keyOf(v)]; x = std::max(x, c); };
      PathEngine E(F);
      E.maxStatesPerBlock = 600;
      Kind fk = resultKind(F);
      // a message loop: it goes on while something is left of the input, and reads from it
      auto leftCmp = [&](const ICmpInst *ic, bool eq) {
        if (ic->isEquality() != eq) return false;
        const Value *a = ic->getOperand(0), *b = ic->getOperand(1);
        auto zero = [](const Value *v) { auto *k = dyn_cast<ConstantInt>(v); return k && (k->isZero() || k->isOne()); };
        auto pos = [&](const Value *v) {
          if (auto *p = dyn_cast<PtrToIntInst>(v)) v = p->getOperand(0);
          auto *L = dyn_cast<LoadInst>(v);
          return L && v->getType()->isPointerTy() && !isa<GlobalValue>(getUnderlyingObject(L->getPointerOperand()));
        };
        if (pos(a) && pos(b)) return true;
        if (zero(a)) std::swap(a, b);
        return a->getType()->isIntegerTy(64) && A.avail(a) && A.roots(a).empty() && (eq || ic->isSigned()) && (zero(b) || (A.avail(b) && A.roots(b).empty()));
      };
      bool subject = false;
      if (fk == KStatus && inRepo(F)) {
        DominatorTree DT(F);
        LoopInfo LI(DT);
        for (auto *L : LI.getLoopsInPreorder()) {
          bool left = false, reads = false;
          for (auto *B : L->blocks())
            for (auto &I : *B) {
              if (auto *ic = dyn_cast<ICmpInst>(&I)) left |= leftCmp(ic, false) && L->isLoopExiting(B);
              if (auto *CB = dyn_cast<CallBase>(&I)) for (auto *T : R.callees(*CB)) { auto si = sums.find(T); reads |= isParse(*T) || (si != sums.end() && (si->second.source || !si->second.out.empty())); }
            }
          subject |= left && reads;
        }
      }
      auto loopFact = [&](PState &S, const ICmpInst *ic, bool t) {
        if (!subject) return;
        if (leftCmp(ic, false)) { S.x[-1] = 0; S.x[-2] = 0; }
        else if (leftCmp(ic, true)) { if ((ic->getPredicate() == CmpInst::ICMP_EQ) == t) S.x[-1] = 1; else S.x[-1] = 0; }
        else if (ic->isEquality() && (ic->getPredicate() == CmpInst::ICMP_EQ) == t && ic->getOperand(0)->getType()->isIntegerTy()) {
          const Value *a = ic->getOperand(0), *b = ic->getOperand(1);
          auto fromInput = [&](const Value *v) { for (auto &[r, _] : A.roots(v)) if (!isa<Argument>(r)) return true; return false; };
          auto given = [&](const Value *v) { auto rs = A.roots(v); if (rs.empty()) return false; for (auto &[r, _] : rs) if (!isa<Argument>(r)) return false; return true; };
          if ((fromInput(a) && given(b)) || (fromInput(b) && given(a))) S.x[-2] = 1;
        }
      };
      std::set<const Instruction *> endSeen;
      std::set<const AllocaInst *> extents;
      int64_t nUse = 0, nCmp = 0;
      std::set<const Instruction *> usesSeen, cmpSeen;
      auto sink = [&](PState &S, const Instruction &I, const Roots &rs, const std::string &what, bool scaled = true) {
        if (!rs.empty() && usesSeen.insert(&I).second) ++nUse;
        for (auto [r, c] : rs) {
          if (!scaled) c = std::min(c, One);
          if (checked(S, r, c)) continue;
          if (auto *a = dyn_cast<Argument>(r)) {
            auto &n = res.needs[a->getArgNo()];
            if (n < c) { n = c; res.site[a->getArgNo()] = siteOf(I); }
          } else {
            std::string k = siteOf(I) + "|" + what;
            if (!fnd.count(k)) fnd[k] = {what, E.trace()};
          }
        }
      };
      std::function<void(PState &, const Value *, bool, int)> learn = [&](PState &S, const Value *c, bool t, int d) {
        if (d > 8) return;
        if (auto *b = dyn_cast<BinaryOperator>(c); b && c->getType()->isIntegerTy(1)) {
          if (b->getOpcode() == Instruction::Xor) { if (auto *k = dyn_cast<ConstantInt>(b->getOperand(1))) learn(S, b->getOperand(0), t != (bool)(k->getZExtValue() & 1), d + 1); return; }
          if ((b->getOpcode() == Instruction::And && t) || (b->getOpcode() == Instruction::Or && !t)) { learn(S, b->getOperand(0), t, d + 1); learn(S, b->getOperand(1), t, d + 1); }
          return;
        }
        if (auto *s = dyn_cast<SelectInst>(c)) {
          auto *kt = dyn_cast<ConstantInt>(s->getTrueValue()), *kf = dyn_cast<ConstantInt>(s->getFalseValue());
          if (t && kf && kf->isZero()) { learn(S, s->getCondition(), true, d + 1); learn(S, s->getTrueValue(), true, d + 1); }
          if (!t && kt && kt->isOne()) { learn(S, s->getCondition(), false, d + 1); learn(S, s->getFalseValue(), false, d + 1); }
          return;
        }
        if (auto *ph = dyn_cast<PHINode>(c)) { // the arm consistent with the outcome
          for (unsigned i = 0; i < ph->getNumIncomingValues(); ++i) (void)i;
          return;
        }
        auto *ic = dyn_cast<ICmpInst>(c);
        if (!ic) return;
        loopFact(S, ic, t);
        if (auto *Sl = dyn_cast<SelectInst>(ic->getOperand(0)); Sl && ic->isEquality() && isa<ConstantInt>(ic->getOperand(1))) {
          bool want = (ic->getPredicate() == CmpInst::ICMP_EQ) == t;
          auto *kt = dyn_cast<ConstantInt>(Sl->getTrueValue()), *kf = dyn_cast<ConstantInt>(Sl->getFalseValue());
          bool mT = !kt || ((kt == ic->getOperand(1)) == want), mF = !kf || ((kf == ic->getOperand(1)) == want);
          if (mT != mF) learn(S, Sl->getCondition(), mT, d + 1);
        }
        auto p = t ? ic->getPredicate() : ic->getInversePredicate();
        const Value *a = ic->getOperand(0), *b = ic->getOperand(1);
        if (p == CmpInst::ICMP_UGT || p == CmpInst::ICMP_UGE || p == CmpInst::ICMP_SGT || p == CmpInst::ICMP_SGE) { std::swap(a, b); p = CmpInst::getSwappedPredicate(p); }
        bool eq = p == CmpInst::ICMP_EQ;
        bool strict = p == CmpInst::ICMP_ULT || p == CmpInst::ICMP_SLT;
        bool sgn = p == CmpInst::ICMP_SLT || p == CmpInst::ICMP_SLE;
        if (!eq && !strict && p != CmpInst::ICMP_ULE && p != CmpInst::ICMP_SLE) return;
        for (int side = 0; side < (eq ? 2 : 1); ++side, std::swap(a, b)) {
          // positions: a parsed end which does not lie behind the end of the input
          if (a->getType()->isPointerTy() || (isa<PtrToIntInst>(a) && isa<PtrToIntInst>(b))) {
            const Value *pa = isa<PtrToIntInst>(a) ? cast<Instruction>(a)->getOperand(0) : a, *pb = isa<PtrToIntInst>(b) ? cast<Instruction>(b)->getOperand(0) : b;
            APInt oa(64, 0), ob(64, 0);
            const Value *ba = pa->stripAndAccumulateConstantOffsets(A.DL, oa, true), *bb = pb->stripAndAccumulateConstantOffsets(A.DL, ob, true);
            int64_t diff = ob.getSExtValue() - oa.getSExtValue();
            if (diff > (strict ? 1 : 0)) continue;
            for (auto &[v, k] : key) if (v == ba && v != bb) { S.x[1000 + k] = Cap; }
            continue;
          }
          auto ra = A.roots(a);
          if (ra.empty()) continue;
          // zero is no extent at all
          if (auto *k = dyn_cast<ConstantInt>(b); k && k->isZero() && !A.lossy(a, false)) { if (eq || p == CmpInst::ICMP_ULE) for (auto &[r, c] : ra) bound(S, r); continue; }
          if (!A.avail(b)) continue;
          bool bad = false;
          for (auto &[r, c] : A.roots(b)) if (!checked(S, r, c)) bad = true;
          if (bad || A.lossy(a, sgn)) continue;
          if (A.addConst(b) - A.addConst(a) > (strict ? 1 : 0)) continue;
          if (cmpSeen.insert(ic).second) ++nCmp;
          for (auto &[r, c] : ra) bound(S, r, Fn::mulc(c, A.divisor(b)));
        }
      };
      E.onBranch = [&](PState &S, BranchInst &B, bool taken) { learn(S, B.getCondition(), taken, 0); };
      std::map<const CallBase *, int> callId;
      E.onInst = [&](PState &S, Instruction &I, std::vector<PState> &alts) {
        if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
          const Value *base = getUnderlyingObject(G->getPointerOperand());
          if (!isa<GlobalValue>(base) && !isa<AllocaInst>(base))
            for (auto &ix : G->indices()) if (!isa<Constant>(ix)) sink(S, I, A.roots(ix), "a position in the input or output is computed from", G->getSourceElementType()->isIntegerTy(8));
        }
        // positions a parser returned
        if (auto *St = dyn_cast<StoreInst>(&I); St && St->getValueOperand()->getType()->isPointerTy()) {
          const Value *b = St->getValueOperand()->stripInBoundsOffsets();
          std::vector<const Value *> wl{b};
          std::set<const Value *> seen;
          while (!wl.empty()) {
            auto *v = wl.back(); wl.pop_back();
            if (!seen.insert(v).second) continue;
            if (auto *ph = dyn_cast<PHINode>(v)) { for (auto &u : ph->incoming_values()) wl.push_back(u->stripInBoundsOffsets()); continue; }
            if (auto *CB = dyn_cast<CallBase>(v); CB && CB->getCalledFunction() && isParse(*CB->getCalledFunction())) {
              if (usesSeen.insert(&I).second) ++nUse;
              if (!checked(S, CB)) { std::string k = siteOf(I) + "|end"; if (!fnd.count(k)) fnd[k] = {"the position after a parsed value is taken over without", E.trace()}; }
            }
          }
        }
        if (auto *Sel = dyn_cast<SelectInst>(&I); Sel && subject && I.getType()->isIntegerTy(32)) { // a verdict chosen by a condition
          PState f = S;
          bool okF = E.assume(f, Sel->getCondition(), false), okT = E.assume(S, Sel->getCondition(), true);
          if (okF) { learn(f, Sel->getCondition(), false, 0); f.env[&I] = E.eval(f, Sel->getFalseValue()); alts.push_back(std::move(f)); }
          if (!okT) return false;
          learn(S, Sel->getCondition(), true, 0);
          S.env[&I] = E.eval(S, Sel->getTrueValue());
          return true;
        }
        auto *CB = dyn_cast<CallBase>(&I);
        if (auto *EV = dyn_cast<ExtractValueInst>(&I)) {
          if (auto *c = dyn_cast<CallBase>(EV->getAggregateOperand()); c && EV->getNumIndices() == 1 && EV->getIndices()[0] == 1 && EV->getType()->isIntegerTy()) {
            auto it = callId.find(c);
            if (it != callId.end() && S.x.count(it->second)) S.env[&I] = Fact::constant(S.x[it->second] == 1 ? 1 : 0);
          }
          return true;
        }
        if (!CB) return true;
        if (auto *MI = dyn_cast<MemIntrinsic>(CB)) { sink(S, I, A.roots(MI->getLength()), "the number of bytes copied is"); return true; }
        if (isa<IntrinsicInst>(CB)) return true;
        auto ts = R.callees(*CB);
        if (subject) for (auto *T : ts) if (inRepo(*T)) S.x[-1] = 0;
        Roots ensT, ensF;
        auto scale = [](Roots r, int64_t c) { for (auto &[v, k] : r) k = Fn::mulc(k, c); return r; };
        bool first = true, mayEns = false;
        Kind k = KNone;
        for (auto *T : ts) {
          if (T->isDeclaration()) {
            auto n = demangled(T->getName());
            if (StringRef(n).contains("operator new") || StringRef(n).contains("allocate") || n == "memcpy" || n == "memmove" || StringRef(n).contains("resize"))
              for (auto &a : CB->args()) if (a->getType()->isIntegerTy(64)) sink(S, I, A.roots(a), "the size asked of " + n + " is", StringRef(n).starts_with("mem"));
            continue;
          }
          auto it = sums.find(T);
          if (it == sums.end()) continue;
          auto &s = it->second;
          k = resultKind(*T);
          for (auto [i, c] : s.needs)
            if (i < CB->arg_size()) sink(S, I, scale(A.rootsOfArg(CB->getArgOperand(i)), c), "the extent given to " + fnName(*T).substr(0, 90) + " is");
          Roots et, ef;
          for (auto [i, c] : s.ensT) if (i < CB->arg_size()) for (auto &[v, k] : scale(A.rootsOfArg(CB->getArgOperand(i)), c)) et[v] = std::max(et[v], k);
          for (auto [i, c] : s.ensF) if (i < CB->arg_size()) for (auto &[v, k] : scale(A.rootsOfArg(CB->getArgOperand(i)), c)) ef[v] = std::max(ef[v], k);
          if (first) { ensT = et; ensF = ef; first = false; }
          else {
            for (auto j = ensT.begin(); j != ensT.end();) { auto q = et.find(j->first); if (q == et.end()) j = ensT.erase(j); else { j->second = std::min(j->second, q->second); ++j; } }
            for (auto j = ensF.begin(); j != ensF.end();) { auto q = ef.find(j->first); if (q == ef.end()) j = ensF.erase(j); else { j->second = std::min(j->second, q->second); ++j; } }
          }
        }
        // a fresh value
        for (unsigned i = 0; i < CB->arg_size(); ++i)
          for (auto *T : ts) { auto it = sums.find(T); if (it != sums.end() && it->second.out.count(i)) { auto *a = CB->getArgOperand(i); if (auto *al = dyn_cast<AllocaInst>(a)) { S.x.erase(keyOf(a)); if (A.extentOnly(al)) { S.x[-keyOf(a)] = 1; extents.insert(al); } } } }
        S.x.erase(keyOf(CB));
        mayEns = !ensT.empty() || !ensF.empty() || subject;
        Type *rt = CB->getType();
        if (mayEns) {
          if (k == KStatus && rt->isIntegerTy(32)) {
            PState f = S;
            f.env[&I] = Fact::nonzero();
            for (auto &[v, c] : ensF) bound(f, v, c);
            alts.push_back(std::move(f));
            S.env[&I] = Fact::constant(0);
            for (auto &[v, c] : ensT) bound(S, v, c);
          } else if (rt->isIntegerTy(1)) {
            PState f = S;
            f.env[&I] = Fact::constant(0);
            for (auto &[v, c] : ensF) bound(f, v, c);
            alts.push_back(std::move(f));
            S.env[&I] = Fact::constant(-1);
            for (auto &[v, c] : ensT) bound(S, v, c);
          } else if (k == KOptional && rt->isStructTy()) {
            int id = callId.emplace(CB, (int)callId.size() + 1).first->second;
            PState f = S;
            f.x[id] = 2;
            for (auto &[v, c] : ensF) bound(f, v, c);
            alts.push_back(std::move(f));
            S.x[id] = 1;
            for (auto &[v, c] : ensT) bound(S, v, c);
          } else if (rt->isVoidTy() || k == KNone) {
            for (auto &[v, c] : ensT) bound(S, v, c);
          }
        }
        return true;
      };
      std::set<unsigned> params;
      for (auto &a : F.args()) if ((a.getType()->isIntegerTy() && a.getType()->getIntegerBitWidth() >= 32) || a.getType()->isPointerTy()) params.insert(a.getArgNo());
      std::map<unsigned, int64_t> et, ef;
      for (auto i : params) et[i] = ef[i] = Cap;
      bool sawT = false, sawF = false;
      auto atRet = [&](PState &S, const Value *rv, int truth) { // 1 success/true, 0 failure/false, 2 either
        for (auto i : params) {
          const Value *a = F.getArg(i);
          auto it = S.x.find(keyOf(a));
          int64_t c = it == S.x.end() ? 0 : it->second;
          if (truth != 0) et[i] = std::min(et[i], c);
          if (truth != 1) ef[i] = std::min(ef[i], c);
        }
        if (subject && truth != 0) {
          auto e = S.x.find(-1), g = S.x.find(-2);
          bool done = (e != S.x.end() && e->second == 1) || (g != S.x.end() && g->second == 1);
          auto *L = E.here();
          endSeen.insert(L);
          if (!done) { std::string k = siteOf(*L) + "|stop"; if (!fnd.count(k)) fnd[k] = {"decoding ends successfully although neither the input is used up exactly nor the field or group looked for was met", E.trace()}; }
        }
        if (truth != 0 && fk != KBool)
          for (auto *a : extents) {
            auto it = S.x.find(-keyOf(a));
            if (it == S.x.end() || checked(S, a, 1)) continue;
            std::string k = siteOf(*E.here()) + "|ignored";
            if (!fnd.count(k)) fnd[k] = {"this succeeds although a length read from the input was never compared with what is left", E.trace()};
          }
        if (truth != 0) sawT = true;
        if (truth != 1) sawF = true;
        if (rv && truth != 0 && fk != KStatus && fk != KBool)
          for (auto &[r, c] : A.roots(rv)) {
            if (checked(S, r, c)) continue;
            if (auto *a = dyn_cast<Argument>(r)) { auto &f = res.flows[a->getArgNo()]; f = std::max(f, c); }
            else res.source = true;
          }
      };
      std::function<void(PState, const Value *, int)> ret = [&](PState S, const Value *rv, int d) {
        if (!rv) { atRet(S, nullptr, 1); return; }
        if (auto *Sel = dyn_cast<SelectInst>(rv); Sel && d < 4 && (fk == KStatus || fk == KBool || rv->getType()->isIntegerTy(1))) {
          for (int t = 0; t < 2; ++t) {
            PState c = S;
            if (!E.assume(c, Sel->getCondition(), t == 1)) continue;
            learn(c, Sel->getCondition(), t == 1, 0);
            ret(c, t ? Sel->getTrueValue() : Sel->getFalseValue(), d + 1);
          }
          return;
        }
        Fact f = E.eval(S, rv);
        if (fk == KStatus) {
          if (f.k == Fact::Const) atRet(S, rv, f.c == 0 ? 1 : 0);
          else if (f.k == Fact::NonZero) atRet(S, rv, 0);
          else atRet(S, rv, 2);
        } else if (rv->getType()->isIntegerTy(1)) {
          if (f.k == Fact::Const) atRet(S, rv, f.c ? 1 : 0);
          else
            for (int t = 0; t < 2; ++t) {
              PState c = S;
              if (!E.assume(c, rv, t == 1)) continue;
              learn(c, rv, t == 1, 0);
              atRet(c, rv, t);
            }
        } else if (fk == KOptional && rv->getType()->isStructTy()) {
          const Value *has = nullptr;
          for (const Value *v = rv; auto *IV = dyn_cast<InsertValueInst>(v); v = IV->getAggregateOperand())
            if (IV->getIndices()[0] == 1 && !has) has = IV->getInsertedValueOperand();
          Fact h = has ? E.eval(S, has) : Fact{};
          if (auto *CB = dyn_cast<CallBase>(rv); CB && callId.count(CB) && S.x.count(callId[CB])) h = Fact::constant(S.x[callId[CB]] == 1);
          if (h.k == Fact::Const) atRet(S, rv, h.c ? 1 : 0);
          else if (h.k == Fact::NonZero) atRet(S, rv, 1);
          else atRet(S, rv, 2);
        } else atRet(S, rv, 1);
      };
      E.onExit = [&](PState &S, Instruction &T) {
        if (auto *Rt = dyn_cast<ReturnInst>(&T)) ret(S, Rt->getReturnValue(), 0);
      };
      // parsed positions must have keys before they are compared
      for (auto &I : instructions(F)) if (auto *CB = dyn_cast<CallBase>(&I); CB && CB->getCalledFunction() && isParse(*CB->getCalledFunction())) keyOf(CB);
      PState init;
      E.run(init);
      if (E.overflowed) over.insert(&F); else over.erase(&F);
      for (auto *m : {&et, &ef}) for (auto j = m->begin(); j != m->end();) j = j->second <= 0 ? m->erase(j) : std::next(j);
      if (sawT) res.ensT = et;
      if (sawF) res.ensF = ef;
      res.ensKnown = true;
      stats[&F] = {nUse, nCmp, (int64_t)E.explored, subject ? 1 : 0, (int64_t)extents.size()};
      if (!dump.empty() && StringRef(demangled(F.getName())).contains(dump)) {
        errs() << demangled(F.getName()) << "\n  needs"; for (auto [i, c] : res.needs) errs() << " " << i << "x" << c << "@" << res.site[i];
        errs() << " ensT"; for (auto [i, c] : res.ensT) errs() << " " << i << "x" << c; errs() << " ensF"; for (auto [i, c] : res.ensF) errs() << " " << i << "x" << c;
        errs() << " flows"; for (auto [i, c] : res.flows) errs() << " " << i << "x" << c; errs() << " out"; for (auto i : res.out) errs() << " " << i; errs() << " source " << res.source << "\n";
      }
      return res;
    };
    int rounds = 0;
    std::map<const Function *, int> visits;
    while (!dirty.empty() && rounds++ < 100000) {
      auto *F = *dirty.begin();
      dirty.erase(dirty.begin());
      if (++visits[F] > 12) continue;
      Summary s = analyse(*F);
      auto &old = sums[F];
      if (!(old == s)) { old = s; for (auto *c : callers[F]) if (!isParse(*c)) dirty.insert(c); }
    }
    for (auto &[F, m] : found)
      for (auto &[k, v] : m) {
        std::string site = k.substr(0, k.find('|'));
        rep.violation(StringRef(k).ends_with("|ignored") ? "ignored-length" : StringRef(k).ends_with("|stop") ? "incomplete-success" : StringRef(k).ends_with("|end") ? "unchecked-end" : "unchecked-length", fnName(*F), site, v.first + (StringRef(k).ends_with("|stop") || StringRef(k).ends_with("|ignored") ? "" : StringRef(k).ends_with("|end") ? " a comparison with the end of the input" : " a length of the input not yet compared with what is left"), v.second);
      }
    for (auto &F : *M) {
      if (F.isDeclaration() || !F.getName().starts_with("vproot_")) continue;
      rep.bump("roots");
    }
    for (auto &[F, t] : stats) { rep.bump("functions"); rep.bump("uses", t[0]); rep.bump("comparisons", t[1]); rep.bump("paths", t[2]); rep.bump("decode_loops", t[3]); rep.bump("lengths_read", t[4]); }
    rep.bump("coarse_functions", over.size()); // facts about values were dropped there, comparisons were not
  }
  return 0;
}
static Register r1("lengths", cmdLengths);

// a small abstract interpreter over LLVM IR, shared by the generator analyses
#pragma once
#include "core.h"
#include "llvm/Analysis/ConstantFolding.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
namespace {
inline bool isStrFn(StringRef n) { return n.starts_with("_ZNSt7__cxx1112basic_stringIc") || n.starts_with("_ZNKSt7__cxx1112basic_stringIc"); }
// ---- a small abstract interpreter: constants, pointers with offsets, text taint; forks on unknown conditions ----------
enum { RAW = 1, BYTE = 2 };
struct AV {
  enum K { Unk, Int, Ptr } k = Unk;
  int64_t i = 0;          // Int: value; Ptr: offset
  const Value *b = nullptr; // Ptr: base (argument, alloca, global, instruction)
  bool operator<(const AV &o) const { return std::tie(k, i, b) < std::tie(o.k, o.i, o.b); }
  static AV num(int64_t v) { AV a; a.k = Int; a.i = v; return a; }
  static AV ptr(const Value *b, int64_t o) { AV a; a.k = Ptr; a.b = b; a.i = o; return a; }
};
struct Loc { const Value *b; int64_t o; bool operator<(const Loc &x) const { return std::tie(b, o) < std::tie(x.b, x.o); } };
struct WState {
  std::map<const Value *, AV> env;
  std::map<Loc, AV> mem;
  std::map<Loc, int> taint;                 // text held by the object at this place
  std::map<const Value *, int> vt;          // taint of scalar values (bytes, pointers to text)
  std::map<std::pair<AV, AV>, bool> eq;     // known (in)equalities of pointers
  std::map<const BasicBlock *, int> visits;
  std::set<const Value *> seen;             // byte loads executed
  std::string out;                          // spelling appended (single object)
  Loc outTo{nullptr, 0};
  bool outUnknown = false, outMany = false;
  int bits = 0;
  std::map<const Value *, const Value *> alias; // truth values handed on by phis
};
enum Bits { FullPtr = 1, EcOk = 2, Finite = 4, Bounded = 8, EqConst = 16, Kw = 32, Conv = 64, ConvFloat = 128, KwTrue = 256, Reserved = 512};
struct Walker {
  Function &F;
  const DataLayout &DL;
  std::function<bool(WState &, CallBase &)> onCall; // return false to end the path
  std::function<void(WState &, Instruction &)> onEnd; // return or back at the stop
  const BasicBlock *stopAt = nullptr;   // arriving here ends the path
  std::set<const Value *> stopLoads;    // arriving at one of these loads ends the path
  std::function<void(WState &, const Instruction *)> onStop;
  int maxVisits = 2;
  size_t paths = 0, maxPaths = 20000;
  bool overflow = false;
  explicit Walker(Function &F) : F(F), DL(F.getParent()->getDataLayout()) {}
  AV get(const WState &S, const Value *V) const {
    if (auto *C = dyn_cast<ConstantInt>(V)) return C->getBitWidth() <= 64 ? AV::num(C->getSExtValue()) : AV{};
    if (isa<ConstantPointerNull>(V)) return AV::ptr(nullptr, 0);
    if (auto *C = dyn_cast<Constant>(V)) {
      if (!C->getType()->isPointerTy()) return {};
      APInt off(64, 0);
      const Value *b = C->stripAndAccumulateConstantOffsets(DL, off, true);
      return AV::ptr(b, off.getSExtValue());
    }
    auto it = S.env.find(V);
    if (it != S.env.end()) return it->second;
    if (auto al = S.alias.find(V); al != S.alias.end()) { auto j = S.env.find(al->second); return j == S.env.end() ? AV{} : j->second; }
    if (V->getType()->isPointerTy()) return AV::ptr(V, 0);
    return {};
  }
  static int64_t fit(int64_t v, unsigned w) { return w >= 64 ? v : (int64_t)(v << (64 - w)) >> (64 - w); }
  static uint64_t uns(int64_t v, unsigned w) { return w >= 64 ? (uint64_t)v : (uint64_t)v & ((1ull << w) - 1); }
  static unsigned width(const Value *V) { return V->getType()->isIntegerTy() ? V->getType()->getIntegerBitWidth() : 64; }
  int taintOf(const WState &S, const Value *V) const {
    auto it = S.vt.find(V);
    int t = it == S.vt.end() ? 0 : it->second;
    if (V->getType()->isPointerTy()) {
      AV a = get(S, V);
      if (a.k == AV::Ptr && a.b) {
        auto j = S.vt.find(a.b);
        if (j != S.vt.end()) t |= j->second;
        for (auto &[l, x] : S.taint) if (l.b == a.b && l.o >= a.i && l.o < a.i + 16) t |= x;
      }
    }
    return t;
  }
  std::optional<std::string> bytes(const AV &p, int64_t n) const {
    if (p.k != AV::Ptr || !p.b) return std::nullopt;
    auto *G = dyn_cast<GlobalVariable>(p.b);
    if (!G || !G->hasInitializer() || !G->isConstant()) return std::nullopt;
    std::string r;
    for (int64_t i = 0; n < 0 || i < n; ++i) {
      if (i > 4096) return std::nullopt;
      auto *C = ConstantFoldLoadFromConst(const_cast<Constant *>(G->getInitializer()), Type::getInt8Ty(F.getContext()), APInt(64, p.i + i), DL);
      auto *I = dyn_cast_or_null<ConstantInt>(C);
      if (!I) return std::nullopt;
      char c = (char)I->getZExtValue();
      if (n < 0 && c == 0) break;
      r += c;
    }
    return r;
  }
  AV calc(WState &S, Instruction &I) {
    unsigned w = width(&I);
    if (auto *B = dyn_cast<BinaryOperator>(&I)) {
      AV x = get(S, B->getOperand(0)), y = get(S, B->getOperand(1));
      if (w == 1) { // short circuits
        for (auto &[p, q] : {std::pair{x, y}, std::pair{y, x}})
          if (p.k == AV::Int) {
            if (B->getOpcode() == Instruction::And && !p.i) return AV::num(0);
            if (B->getOpcode() == Instruction::Or && p.i) return AV::num(-1);
          }
      }
      if (x.k != AV::Int || y.k != AV::Int) return {};
      int64_t r;
      switch (B->getOpcode()) {
      case Instruction::Add: r = x.i + y.i; break;
      case Instruction::Sub: r = x.i - y.i; break;
      case Instruction::Mul: r = x.i * y.i; break;
      case Instruction::And: r = x.i & y.i; break;
      case Instruction::Or: r = x.i | y.i; break;
      case Instruction::Xor: r = x.i ^ y.i; break;
      case Instruction::Shl: if ((uint64_t)y.i > 63) return {}; r = x.i << y.i; break;
      case Instruction::LShr: if (uns(y.i, w) > 63) return {}; r = (int64_t)(uns(x.i, w) >> y.i); break;
      case Instruction::AShr: if ((uint64_t)y.i > 63) return {}; r = x.i >> y.i; break;
      case Instruction::UDiv: if (!y.i) return {}; r = (int64_t)(uns(x.i, w) / uns(y.i, w)); break;
      case Instruction::URem: if (!y.i) return {}; r = (int64_t)(uns(x.i, w) % uns(y.i, w)); break;
      case Instruction::SDiv: if (!y.i) return {}; r = x.i / y.i; break;
      case Instruction::SRem: if (!y.i) return {}; r = x.i % y.i; break;
      default: return {};
      }
      return AV::num(fit(r, w));
    }
    if (auto *C = dyn_cast<CastInst>(&I)) {
      AV x = get(S, C->getOperand(0));
      if (isa<PtrToIntInst>(C) || isa<IntToPtrInst>(C)) return {};
      if (x.k != AV::Int) return {};
      unsigned sw = width(C->getOperand(0));
      if (isa<ZExtInst>(C)) return AV::num((int64_t)uns(x.i, sw));
      if (isa<SExtInst>(C)) return AV::num(x.i);
      if (isa<TruncInst>(C)) return AV::num(fit(x.i, w));
      return {};
    }
    if (auto *C = dyn_cast<ICmpInst>(&I)) {
      AV x = get(S, C->getOperand(0)), y = get(S, C->getOperand(1));
      unsigned sw = width(C->getOperand(0));
      if (x.k == AV::Int && y.k == AV::Int) {
        bool r = false;
        uint64_t ux = uns(x.i, sw), uy = uns(y.i, sw);
        switch (C->getPredicate()) {
        case ICmpInst::ICMP_EQ: r = x.i == y.i; break;
        case ICmpInst::ICMP_NE: r = x.i != y.i; break;
        case ICmpInst::ICMP_UGT: r = ux > uy; break;
        case ICmpInst::ICMP_UGE: r = ux >= uy; break;
        case ICmpInst::ICMP_ULT: r = ux < uy; break;
        case ICmpInst::ICMP_ULE: r = ux <= uy; break;
        case ICmpInst::ICMP_SGT: r = x.i > y.i; break;
        case ICmpInst::ICMP_SGE: r = x.i >= y.i; break;
        case ICmpInst::ICMP_SLT: r = x.i < y.i; break;
        case ICmpInst::ICMP_SLE: r = x.i <= y.i; break;
        default: return {};
        }
        return AV::num(r ? -1 : 0);
      }
      if (x.k == AV::Ptr && y.k == AV::Ptr && C->isEquality()) {
        bool eq;
        if (x.b == y.b) eq = x.i == y.i;
        else {
          if (y < x) std::swap(x, y);
          auto it = S.eq.find({x, y});
          if (it == S.eq.end()) return {};
          eq = it->second;
        }
        return AV::num((C->getPredicate() == ICmpInst::ICMP_EQ) == eq ? -1 : 0);
      }
      return {};
    }
    if (auto *Se = dyn_cast<SelectInst>(&I)) {
      AV c = get(S, Se->getCondition());
      if (c.k == AV::Int) {
        const Value *v = c.i ? Se->getTrueValue() : Se->getFalseValue();
        S.vt[&I] = taintOf(S, v);
        return get(S, v);
      }
      AV x = get(S, Se->getTrueValue()), y = get(S, Se->getFalseValue());
      S.vt[&I] = taintOf(S, Se->getTrueValue()) | taintOf(S, Se->getFalseValue());
      if (w == 1 && x.k == AV::Int && y.k == AV::Int && x.i == y.i) return x;
      return {};
    }
    if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
      AV p = get(S, G->getPointerOperand());
      if (p.k != AV::Ptr) return {};
      int64_t off = p.i;
      for (gep_type_iterator t = gep_type_begin(G), e = gep_type_end(G); t != e; ++t) {
        AV x = get(S, t.getOperand());
        if (x.k != AV::Int) return AV::ptr(&I, 0);
        if (auto *st = t.getStructTypeOrNull()) off += DL.getStructLayout(st)->getElementOffset(x.i);
        else off += x.i * (int64_t)DL.getTypeAllocSize(t.getIndexedType()).getFixedValue();
      }
      return AV::ptr(p.b, off);
    }
    if (auto *Fz = dyn_cast<FreezeInst>(&I)) return get(S, Fz->getOperand(0));
    return {};
  }
  void run(const WState &init, Instruction *from) {
    struct Item { WState s; Instruction *i; };
    std::vector<Item> wl{{init, from}};
    while (!wl.empty()) {
      auto [S, I] = std::move(wl.back());
      wl.pop_back();
      if (++paths > maxPaths) { overflow = true; return; }
      bool alive = true;
      bool first = I == from;
      while (alive) {
        if (!first && stopLoads.count(I)) { if (onStop) onStop(S, I); break; }
        if (auto *B = dyn_cast<BranchInst>(I)) {
          BasicBlock *to = B->getSuccessor(0);
          if (B->isConditional()) {
            AV c = get(S, B->getCondition());
            if (c.k != AV::Int) {
              // fork on an undecided comparison the condition depends on
              Value *leaf = leafOf(S, B->getCondition());
              for (bool t : {true, false}) {
                WState S2 = S;
                if (!assume(S2, leaf, t)) continue;
                reeval(S2, B->getCondition(), 0);
                if (get(S2, B->getCondition()).k != AV::Int && leaf == B->getCondition()) continue;
                wl.push_back({std::move(S2), I});
              }
              break;
            }
            to = B->getSuccessor(c.i ? 0 : 1);
          }
          alive = enter(S, I->getParent(), to);
          if (alive) { I = &*to->getFirstNonPHIOrDbg(); first = false; }
          continue;
        }
        if (auto *Sw = dyn_cast<SwitchInst>(I)) {
          AV c = get(S, Sw->getCondition());
          std::set<BasicBlock *> done;
          auto go = [&](BasicBlock *to, const ConstantInt *v) {
            WState S2 = S;
            if (v) S2.env[Sw->getCondition()] = AV::num(v->getSExtValue());
            if (enter(S2, I->getParent(), to)) wl.push_back({std::move(S2), &*to->getFirstNonPHIOrDbg()});
          };
          if (c.k == AV::Int) {
            BasicBlock *to = Sw->getDefaultDest();
            for (auto &cs : Sw->cases()) if (cs.getCaseValue()->getSExtValue() == c.i) to = cs.getCaseSuccessor();
            go(to, nullptr);
          } else {
            for (auto &cs : Sw->cases()) go(cs.getCaseSuccessor(), cs.getCaseValue());
            go(Sw->getDefaultDest(), nullptr);
          }
          break;
        }
        if (isa<ReturnInst>(I)) { if (onEnd) onEnd(S, *I); break; }
        if (I->isTerminator() && !isa<InvokeInst>(I)) break; // unreachable, resume
        if (auto *CB = dyn_cast<CallBase>(I)) {
          if (!isa<DbgInfoIntrinsic>(I)) {
            S.env.erase(I);
            S.vt.erase(I);
            if (!call(S, *CB)) break;
          }
          if (auto *Iv = dyn_cast<InvokeInst>(I)) {
            auto *to = Iv->getNormalDest();
            alive = enter(S, I->getParent(), to);
            if (alive) I = &*to->getFirstNonPHIOrDbg();
          } else I = I->getNextNode();
          first = false;
          continue;
        }
        step(S, *I, first);
        first = false;
        I = I->getNextNode();
      }
    }
  }
  void reeval(WState &S, Value *V, int depth) {
    if (auto al = S.alias.find(V); al != S.alias.end()) V = const_cast<Value *>(al->second);
    auto *I = dyn_cast<Instruction>(V);
    if (!I || depth > 6 || get(S, V).k == AV::Int || isa<PHINode>(I) || isa<CallBase>(I) || isa<LoadInst>(I)) return;
    for (auto &op : I->operands()) if (op->getType()->isIntegerTy()) reeval(S, op, depth + 1);
    AV r = calc(S, *I);
    if (r.k == AV::Int) S.env[I] = r;
  }
  Value *leafOf(const WState &S, Value *V) {
    if (auto al = S.alias.find(V); al != S.alias.end()) V = const_cast<Value *>(al->second);
    auto *I = dyn_cast<Instruction>(V);
    if (!I) return V;
    if (I->getType()->isIntegerTy(1) && (isa<BinaryOperator>(I) || isa<SelectInst>(I)))
      for (auto &op : I->operands())
        if (op->getType()->isIntegerTy(1) && get(S, op).k != AV::Int && (isa<Instruction>(op.get()) || isa<Argument>(op.get()))) return leafOf(S, op);
    return I;
  }
  std::function<void(WState &, Value &, bool)> onAssume;
  bool assume(WState &S, Value *leaf, bool t) {
    if (!leaf) return true;
    S.env[leaf] = AV::num(t ? -1 : 0);
    if (auto *C = dyn_cast<ICmpInst>(leaf); C && C->isEquality()) {
      AV x = get(S, C->getOperand(0)), y = get(S, C->getOperand(1));
      bool eq = (C->getPredicate() == ICmpInst::ICMP_EQ) == t;
      if (x.k == AV::Ptr && y.k == AV::Ptr) { if (y < x) std::swap(x, y); S.eq[{x, y}] = eq; }
      else if (eq && x.k == AV::Unk && y.k == AV::Int) S.env[C->getOperand(0)] = y;
    }
    if (onAssume) onAssume(S, *leaf, t);
    return true;
  }
  bool enter(WState &S, BasicBlock *from, BasicBlock *to) {
    std::vector<std::tuple<const PHINode *, AV, int>> n;
    std::map<const Value *, const Value *> al;
    for (auto &P : to->phis()) {
      auto *v = P.getIncomingValueForBlock(from);
      n.push_back({&P, get(S, v), taintOf(S, v)});
      if (P.getType()->isIntegerTy(1) && get(S, v).k == AV::Unk) al[&P] = S.alias.count(v) ? S.alias[v] : v;
      else al[&P] = nullptr;
    }
    for (auto &[p, v] : al) if (v && v != p) S.alias[p] = v; else S.alias.erase(p);
    for (auto &[p, v, t] : n) { if (v.k == AV::Unk) S.env.erase(p); else S.env[p] = v; if (t) S.vt[p] = t; else S.vt.erase(p); }
    if (to == stopAt) { if (onStop) onStop(S, nullptr); return false; }
    return ++S.visits[to] <= maxVisits;
  }
  void step(WState &S, Instruction &I, bool preset) {
    if (auto *L = dyn_cast<LoadInst>(&I)) {
      if (preset && S.env.count(L)) { S.seen.insert(L); return; }
      S.env.erase(L); S.vt.erase(L);
      AV p = get(S, L->getPointerOperand());
      int t = taintOf(S, L->getPointerOperand());
      if (t) S.vt[L] = L->getType()->isIntegerTy(8) ? BYTE : L->getType()->isPointerTy() ? t : 0;
      if (L->getType()->isIntegerTy(8) && t) S.seen.insert(L);
      if (p.k == AV::Ptr && p.b) {
        if (auto *G = dyn_cast<GlobalVariable>(p.b); G && G->isConstant() && G->hasInitializer()) {
          if (auto *C = ConstantFoldLoadFromConst(const_cast<Constant *>(G->getInitializer()), L->getType(), APInt(64, p.i), DL)) { AV v = get(S, C); if (v.k != AV::Unk) S.env[L] = v; }
        } else {
          auto it = S.mem.find({p.b, p.i});
          if (it != S.mem.end()) { if (it->second.k != AV::Unk) S.env[L] = it->second; }
          else if (L->getType()->isPointerTy()) { S.mem[{p.b, p.i}] = AV::ptr(L, 0); }
        }
      }
      return;
    }
    if (auto *St = dyn_cast<StoreInst>(&I)) {
      AV p = get(S, St->getPointerOperand());
      if (p.k == AV::Ptr && p.b) {
        AV v = get(S, St->getValueOperand());
        if (v.k == AV::Unk) S.mem.erase({p.b, p.i}); else S.mem[{p.b, p.i}] = v;
        int t = taintOf(S, St->getValueOperand());
        if (St->getValueOperand()->getType()->isPointerTy() || t) { if (t) S.taint[{p.b, p.i}] = t; else S.taint.erase({p.b, p.i}); }
      }
      return;
    }
    if (isa<AllocaInst>(I)) { S.env[&I] = AV::ptr(&I, 0); return; }
    if (isa<ICmpInst>(I)) S.vt.erase(&I);
    AV r = calc(S, I);
    if (r.k == AV::Unk) S.env.erase(&I); else S.env[&I] = r;
    if (!isa<SelectInst>(I)) {
      int t = 0;
      if (!isa<ICmpInst>(I) && !isa<PtrToIntInst>(I)) for (auto &op : I.operands()) t |= taintOf(S, op);
      if (I.getType()->isPointerTy() || I.getType()->isIntegerTy(8) || I.getType()->isIntegerTy(32)) { if (t) S.vt[&I] = t; else S.vt.erase(&I); }
    }
  }
  int objTaint(const WState &S, const Value *V) const { return taintOf(S, V); }
  void setTaint(WState &S, const AV &p, int t) {
    if (p.k != AV::Ptr || !p.b) return;
    for (auto it = S.taint.lower_bound({p.b, p.i}); it != S.taint.end() && it->first.b == p.b && it->first.o < p.i + 16;) it = S.taint.erase(it);
    if (t) S.taint[{p.b, p.i}] = t;
  }
  void append(WState &S, const AV &to, std::optional<std::string> s) {
    if (to.k != AV::Ptr) { S.outUnknown = true; return; }
    Loc l{to.b, to.i};
    if (S.outTo.b && (S.outTo < l || l < S.outTo)) S.outMany = true;
    S.outTo = l;
    if (s) S.out += *s; else S.outUnknown = true;
  }
  bool call(WState &S, CallBase &CB) {
    auto *T = CB.getCalledFunction();
    if (onCall && !onCall(S, CB)) return false;
    if (!T) return true;
    StringRef n = T->getName();
    if (T->isIntrinsic()) {
      if (auto *MC = dyn_cast<MemCpyInst>(&CB)) {
        AV d = get(S, MC->getDest()), s = get(S, MC->getSource());
        setTaint(S, d, taintOf(S, MC->getSource()));
        if (d.k == AV::Ptr && s.k == AV::Ptr && d.b && s.b) {
          std::vector<std::pair<int64_t, AV>> cp;
          for (auto &[l, v] : S.mem) if (l.b == s.b && l.o >= s.i) cp.push_back({l.o - s.i, v});
          for (auto &[o, v] : cp) S.mem[{d.b, d.i + o}] = v;
        }
      }
      return true;
    }
    if (n == "strlen") { if (auto s = bytes(get(S, CB.getArgOperand(0)), -1)) S.env[&CB] = AV::num((int64_t)s->size()); return true; }
    if (n == "memchr" || n == "strchr") {
      AV c = get(S, CB.getArgOperand(1)), l = n == "memchr" ? get(S, CB.getArgOperand(2)) : AV::num(-1);
      if (c.k == AV::Int && l.k == AV::Int)
        if (auto s = bytes(get(S, CB.getArgOperand(0)), l.i)) {
          auto p = s->find((char)c.i);
          AV base = get(S, CB.getArgOperand(0));
          S.env[&CB] = p == std::string::npos ? AV::ptr(nullptr, 0) : AV::ptr(base.b, base.i + p);
        }
      return true;
    }
    auto arg = [&](unsigned i) { return get(S, CB.getArgOperand(i)); };
    if (isStrFn(n)) {
      AV self = arg(0);
      int t = 0;
      for (unsigned i = 1; i < CB.arg_size(); ++i) t |= taintOf(S, CB.getArgOperand(i));
      bool dtor = n.ends_with("D2Ev") || n.ends_with("D1Ev");
      bool ctor = n.contains("IcSt11char_traitsIcESaIcEEC") || n.contains("aSE");
      if (n.starts_with("_ZNK")) return true;
      if (dtor) { setTaint(S, self, 0); return true; }
      if (n.contains("7reserve") || n.contains("5clearEv")) { return true; }
      int old = ctor ? 0 : taintOf(S, CB.getArgOperand(0));
      // the taint of a byte copy keeps its kind
      setTaint(S, self, old | t);
      if (self.k == AV::Ptr && self.b) { S.mem.erase({self.b, self.i}); S.mem.erase({self.b, self.i + 8}); }
      if (CB.getType()->isPointerTy() && self.k == AV::Ptr) S.env[&CB] = self;
      if (ctor) { return true; }
      if (n.ends_with("9push_backEc") || n.ends_with("pLEc")) {
        AV c = arg(1);
        append(S, self, c.k == AV::Int ? std::optional<std::string>(std::string(1, (char)c.i)) : std::nullopt);
      } else if (n.ends_with("6appendEPKcm")) {
        AV l = arg(2);
        append(S, self, l.k == AV::Int ? bytes(arg(1), l.i) : std::nullopt);
      } else if (n.ends_with("pLEPKc") || n.ends_with("6appendEPKc")) {
        append(S, self, bytes(arg(1), -1));
      } else if (n.ends_with("6appendEmc")) {
        AV c = arg(2), k = arg(1);
        append(S, self, c.k == AV::Int && k.k == AV::Int && k.i >= 0 && k.i < 64 ? std::optional<std::string>(std::string(k.i, (char)c.i)) : std::nullopt);
      } else {
        // string, string_view: perhaps a pair of constants in memory
        std::optional<std::string> s;
        if (CB.arg_size() >= 2) {
          AV v = arg(1);
          if (v.k == AV::Ptr && v.b) {
            auto a = S.mem.find({v.b, v.i}), b = S.mem.find({v.b, v.i + 8});
            if (a != S.mem.end() && b != S.mem.end() && a->second.k == AV::Int && b->second.k == AV::Ptr) s = bytes(b->second, a->second.i);
          }
        }
        append(S, self, s);
      }
      return true;
    }
    // anything else: what it is given may end up in what it makes
    std::string d = demangled(T->getName());
    int t = 0;
    unsigned k0 = 0;
    bool sret = CB.arg_size() && CB.paramHasAttr(0, Attribute::StructRet);
    for (unsigned i = sret ? 1 : 0; i < CB.arg_size(); ++i) t |= taintOf(S, CB.getArgOperand(i));
    bool clean = inRepo(*T) && StringRef(d).contains("hpp_proto::protoc::cpp::");
    if (sret) {
      AV o = arg(0);
      setTaint(S, o, clean ? 0 : t);
      if (o.k == AV::Ptr && o.b) for (auto it = S.mem.lower_bound({o.b, o.i}); it != S.mem.end() && it->first.b == o.b;) it = S.mem.erase(it);
    } else if (!clean && t && CB.getType()->isPointerTy()) S.vt[&CB] = t;
    if (n.contains("from_chars"))
      for (unsigned i = 0; i < CB.arg_size(); ++i) {
        AV o = arg(i);
        if (o.k == AV::Ptr && o.b && isa<AllocaInst>(o.b) && !taintOf(S, CB.getArgOperand(i))) S.mem.erase({o.b, o.i});
      }
    return true;
  }
};
} // namespace

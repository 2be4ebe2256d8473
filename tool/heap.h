// Abstract interpretation of one operation at a time over a small abstract heap: values are null, pointers into
// abstract objects, or unknown; the objects have typestates which the models of the opaque functions advance.
#pragma once
#include "core.h"

namespace heap {
// a linear form: object base (or none) + constant + multiples of unknowns
struct Val {
  int obj = -1;
  int64_t c = 0;
  std::map<int, int64_t> s;
  std::vector<Val> el; // the elements of an aggregate
  bool operator==(const Val &o) const { return obj == o.obj && c == o.c && s == o.s && el == o.el; }
  bool operator!=(const Val &o) const { return !(*this == o); }
  bool isConst() const { return obj < 0 && s.empty() && el.empty(); }
  bool isNull() const { return isConst() && c == 0; }
  static Val k(int64_t v) { Val r; r.c = v; return r; }
  static Val ptr(int o, int64_t off = 0) { Val r; r.obj = o; r.c = off; return r; }
};
struct Obj {
  std::string name;
  enum K { Stack, Param, Heap, Global } kind = Stack;
  std::map<int64_t, Val> mem;
  std::map<int64_t, int> life;     // typestate of a tracked object at an offset: 0 none, 1 constructed, 2 destroyed
  std::map<int64_t, Val> content;  // abstract content of a tracked object
  int cell = 0;                    // 0 no cell; 1 allocated; 2 freed
  Val owner;                       // what allocated it
  bool lazy = false;               // its memory is unknown at first
};
// the state of an opaque sequence container: its current buffer, size, where its elements came from and what was done to them
struct Seq {
  int buf = -1;
  char kind = '?';
  Val size;
  std::string base;
  struct Edit { std::string what; Val a, b; };
  std::vector<Edit> log;
  bool broken = false;
};
struct Frame {
  Function *F;
  BasicBlock *bb, *prev = nullptr;
  BasicBlock::iterator it;
  std::map<const Value *, Val> env;
  const CallBase *site = nullptr;  // the call in the caller
  std::map<const BasicBlock *, int> visits;
};
struct State {
  std::vector<Frame> st;
  std::vector<Obj> objs;
  std::map<const GlobalVariable *, int> globals;
  std::map<std::string, bool> assume;
  std::vector<std::string> trace;
  std::vector<int> caught;
  int nsym = 0;
  std::map<std::string, int> named; // named unknowns
  std::map<std::string, Val> reg;   // registers of the client
  std::map<std::pair<int, int64_t>, Seq> seqs;
  int loops = 0; // how often a block was entered again
  bool dead = false;
  Val fresh() { Val v; v.s[nsym++] = 1; return v; }
  Val sym(const std::string &n) {
    auto i = named.find(n);
    if (i == named.end()) i = named.emplace(n, nsym++).first;
    Val v; v.s[i->second] = 1; return v;
  }
  int newObj(const std::string &n, Obj::K k) { Obj o; o.name = n; o.kind = k; objs.push_back(o); return int(objs.size()) - 1; }
};
/// what a modelled call does; the model may push several outcomes
struct Outcome { State s; Val ret; bool unwinds = false; };

struct Interp {
  const DataLayout *DL = nullptr;
  int maxPaths = 20000, maxVisits = 3;
  long paths = 0, steps = 0, cut = 0;
  // returns true when it modelled the call (outcomes filled)
  std::function<bool(State &, const CallBase &, Function *, const std::string &, const std::vector<Val> &, std::vector<Outcome> &)> model;
  // first load of a location of a lazy object; may fork by pushing (state, value)
  std::function<void(State &, int obj, int64_t off, Type *, std::vector<std::pair<State, Val>> &)> lazyLoad;
  std::function<void(State &, int obj, int64_t off, int64_t n)> lazyCopy; // before n bytes of a lazy object are copied
  std::function<void(State &, int obj, int64_t off, Type *)> lazyStore;           // before a first store to a lazy object
  std::function<bool(State &, const Val &)> nonneg; // a value known not to be negative
  std::function<void(State &, bool unwound, Val ret)> exit;
  std::map<const Function *, std::string> names;

  const std::string &name(Function *F) {
    auto i = names.find(F);
    if (i == names.end()) i = names.emplace(F, demangled(F->getName())).first;
    return i->second;
  }
  static Val add(const Val &a, const Val &b, int64_t k = 1) {
    Val r = a;
    if (b.obj >= 0) {
      if (k == 1 && r.obj < 0) r.obj = b.obj;
      else if (k == -1 && r.obj == b.obj) r.obj = -1;
      else { r.obj = -2; return r; } // meaningless
    }
    r.c += k * b.c;
    for (auto &[s, n] : b.s) if (!(r.s[s] += k * n)) r.s.erase(s);
    return r;
  }
  int global(State &S, const GlobalVariable *G) {
    auto i = S.globals.find(G);
    if (i != S.globals.end()) return i->second;
    int o = S.newObj(G->getName().str(), Obj::Global);
    S.objs[o].lazy = true;
    return S.globals[G] = o;
  }
  Val get(State &S, const Value *V) {
    if (auto *C = dyn_cast<ConstantInt>(V)) return C->getBitWidth() <= 64 ? Val::k(C->getSExtValue()) : S.fresh();
    if (isa<ConstantPointerNull>(V)) return Val::k(0);
    if (isa<UndefValue>(V) && !V->getType()->isStructTy()) return S.fresh();
    if (auto *G = dyn_cast<GlobalVariable>(V)) return Val::ptr(global(S, G));
    if (isa<ConstantAggregateZero>(V) && !V->getType()->isStructTy()) return Val::k(0);
    if (auto *ST = dyn_cast<StructType>(V->getType()); ST && isa<Constant>(V)) {
      Val r;
      for (unsigned k = 0; k < ST->getNumElements(); ++k) r.el.push_back(get(S, cast<Constant>(V)->getAggregateElement(k)));
      return r;
    }
    if (isa<Constant>(V)) return S.sym("const:" + std::to_string((uintptr_t)V));
    auto i = S.st.back().env.find(V);
    if (i != S.st.back().env.end()) return i->second;
    return S.st.back().env[V] = S.fresh();
  }
  static std::string key(const Val &v) {
    std::string k = std::to_string(v.obj) + "+" + std::to_string(v.c);
    for (auto &[s, n] : v.s) k += "," + std::to_string(n) + "*" + std::to_string(s);
    return k;
  }
  Val loadAt(State &S, int obj, int64_t off, Type *T) {
    if (auto *ST = dyn_cast<StructType>(T)) {
      Val r;
      auto *L = DL->getStructLayout(ST);
      for (unsigned k = 0; k < ST->getNumElements(); ++k) r.el.push_back(loadAt(S, obj, off + int64_t(L->getElementOffset(k)), ST->getElementType(k)));
      return r;
    }
    auto &m = S.objs[obj].mem;
    auto j = m.find(off);
    if (j != m.end()) return j->second;
    return m[off] = S.fresh();
  }
  void storeAt(State &S, int obj, int64_t off, Type *T, const Val &v) {
    if (auto *ST = dyn_cast<StructType>(T)) {
      auto *L = DL->getStructLayout(ST);
      for (unsigned k = 0; k < ST->getNumElements(); ++k)
        storeAt(S, obj, off + int64_t(L->getElementOffset(k)), ST->getElementType(k), k < v.el.size() ? v.el[k] : S.fresh());
      return;
    }
    S.objs[obj].mem[off] = v;
  }
  static std::string eqKey(const Val &a, const Val &b) {
    Val d = add(a, b, -1);
    if (!d.s.empty() && d.s.begin()->second < 0) d = add(Val(), d, -1);
    if (b.obj == -2 || a.obj == -2 || d.obj == -2) { auto x = key(a), y = key(b); if (y < x) std::swap(x, y); return "eq:" + x + ":" + y; }
    return "eq0:" + key(d);
  }
  // whether two values are equal on this path: 0, 1, or -1 when not known
  static int knownEq(const State &S, const Val &a, const Val &b) {
    if (a.obj == -2 || b.obj == -2) return -1;
    Val d = add(a, b, -1);
    if (d.obj == -1 && d.isConst()) return d.c == 0;
    if (a.obj != b.obj) return a.obj >= 0 && b.obj >= 0 ? 0 : -1;
    auto i = S.assume.find(eqKey(a, b));
    return i == S.assume.end() ? -1 : i->second;
  }
  void set(State &S, const Instruction &I, Val v) { S.st.back().env[&I] = std::move(v); }

  void run(State init) {
    std::vector<State> wl;
    wl.push_back(std::move(init));
    while (!wl.empty()) {
      State S = std::move(wl.back());
      wl.pop_back();
      if (paths > maxPaths) { ++cut; return; }
      while (!S.dead && !S.st.empty()) {
        if (++steps > 40000000) { ++cut; return; }
        step(S, wl);
      }
      ++paths;
    }
  }
  void jump(State &S, BasicBlock *to) {
    auto &f = S.st.back();
    auto *from = f.bb;
    if (++f.visits[to] > maxVisits) { S.dead = true; ++cut; return; }
    if (f.visits[to] > 1) ++S.loops;
    std::vector<std::pair<const Value *, Val>> phis;
    for (auto &P : to->phis()) phis.push_back({&P, get(S, P.getIncomingValueForBlock(from))});
    for (auto &[p, v] : phis) S.st.back().env[p] = v;
    auto &g = S.st.back();
    g.prev = from; g.bb = to; g.it = to->getFirstNonPHIIt();
  }
  /// leave the current frame by an exception (the frames below look for a landing pad)
  void unwind(State &S) {
    while (true) {
      const CallBase *site = S.st.back().site;
      S.st.pop_back();
      if (S.st.empty()) { exit(S, true, Val()); S.dead = true; return; }
      if (auto *II = dyn_cast_or_null<InvokeInst>(site)) { jump(S, II->getUnwindDest()); return; }
      if (site && site->doesNotThrow()) { S.dead = true; return; }
      if (S.st.back().F->doesNotThrow()) { S.dead = true; return; } // terminates
    }
  }
  void raise(State &S, const CallBase &CB) {
    if (CB.doesNotThrow()) { S.dead = true; return; }
    if (auto *II = dyn_cast<InvokeInst>(&CB)) { jump(S, II->getUnwindDest()); return; }
    if (S.st.back().F->doesNotThrow()) { S.dead = true; return; }
    unwind(S);
  }
  void finish(State &S, const CallBase &CB, Val ret) {
    if (!CB.getType()->isVoidTy()) set(S, CB, std::move(ret));
    if (auto *II = dyn_cast<InvokeInst>(&CB)) jump(S, II->getNormalDest());
    else ++S.st.back().it;
  }
  // -1 unknown
  int decide(State &S, CmpInst::Predicate p, const Val &a, const Val &b) {
    Val d = add(a, b, -1);
    bool eqp = p == CmpInst::ICMP_EQ || p == CmpInst::ICMP_NE;
    if (eqp) {
      if (a == b && a.obj != -2) return p == CmpInst::ICMP_EQ;
      if (a.obj >= 0 && b.isNull()) return p == CmpInst::ICMP_NE;
      if (b.obj >= 0 && a.isNull()) return p == CmpInst::ICMP_NE;
      if (a.obj >= 0 && b.obj >= 0 && a.obj != b.obj) return p == CmpInst::ICMP_NE;
      if (d.isConst()) return (d.c == 0) == (p == CmpInst::ICMP_EQ);
    } else if (a.isConst() && b.isConst()) {
      switch (p) {
      case CmpInst::ICMP_SLT: return a.c < b.c;
      case CmpInst::ICMP_SLE: return a.c <= b.c;
      case CmpInst::ICMP_SGT: return a.c > b.c;
      case CmpInst::ICMP_SGE: return a.c >= b.c;
      case CmpInst::ICMP_ULT: return uint64_t(a.c) < uint64_t(b.c);
      case CmpInst::ICMP_ULE: return uint64_t(a.c) <= uint64_t(b.c);
      case CmpInst::ICMP_UGT: return uint64_t(a.c) > uint64_t(b.c);
      case CmpInst::ICMP_UGE: return uint64_t(a.c) >= uint64_t(b.c);
      default: break;
      }
    } else if (a == b && a.obj != -2) {
      return CmpInst::isTrueWhenEqual(p);
    }
    return -1;
  }
  /// fork on an unknown condition, remembering the outcome under the key
  template <class F> void choose(State &S, std::vector<State> &wl, const std::string &k, F then) {
    auto i = S.assume.find(k);
    if (i != S.assume.end()) { then(S, i->second); return; }
    State T = S;
    T.assume[k] = false;
    S.assume[k] = true;
    then(T, false);
    wl.push_back(std::move(T));
    then(S, true);
  }
  void copyMem(State &S, const Val &d, const Val &s, int64_t n) {
    if (d.obj < 0 || !d.s.empty()) return;
    if (s.obj >= 0 && s.s.empty() && S.objs[s.obj].lazy && lazyCopy) lazyCopy(S, s.obj, s.c, n);
    std::map<int64_t, Val> take;
    if (s.obj >= 0 && s.s.empty())
      for (auto &[o, v] : S.objs[s.obj].mem) if (o >= s.c && (n < 0 || o < s.c + n)) take[o - s.c + d.c] = v;
    auto &m = S.objs[d.obj].mem;
    for (auto i = m.begin(); i != m.end();) if (i->first >= d.c && (n < 0 || i->first < d.c + n)) i = m.erase(i); else ++i;
    for (auto &[o, v] : take) m[o] = v;
  }
  void step(State &S, std::vector<State> &wl) {
    auto &f = S.st.back();
    Instruction &I = *f.it;
    switch (I.getOpcode()) {
    case Instruction::Alloca: {
      int o = S.newObj(I.getName().str(), Obj::Stack);
      set(S, I, Val::ptr(o));
      break;
    }
    case Instruction::Load: {
      Val p = get(S, cast<LoadInst>(I).getPointerOperand());
      if (p.obj >= 0 && p.s.empty()) {
        if (I.getType()->isStructTy() && !S.objs[p.obj].lazy) { set(S, I, loadAt(S, p.obj, p.c, I.getType())); break; }
        auto &m = S.objs[p.obj].mem;
        auto j = m.find(p.c);
        if (j != m.end()) { set(S, I, j->second); break; }
        if (S.objs[p.obj].lazy && lazyLoad) {
          std::vector<std::pair<State, Val>> outs;
          lazyLoad(S, p.obj, p.c, I.getType(), outs);
          if (!outs.empty()) {
            for (auto &[T, v] : outs) {
              T.objs[p.obj].mem[p.c] = v;
              T.st.back().env[&I] = v;
              ++T.st.back().it;
              wl.push_back(std::move(T));
            }
            S = std::move(wl.back());
            wl.pop_back();
            return;
          }
        }
        Val v = S.fresh();
        S.objs[p.obj].mem[p.c] = v;
        set(S, I, v);
        break;
      }
      set(S, I, S.fresh());
      break;
    }
    case Instruction::Store: {
      Val v = get(S, cast<StoreInst>(I).getValueOperand()), p = get(S, cast<StoreInst>(I).getPointerOperand());
      if (p.obj >= 0 && p.s.empty()) {
        if (S.objs[p.obj].lazy && lazyStore && !S.objs[p.obj].mem.count(p.c)) lazyStore(S, p.obj, p.c, I.getOperand(0)->getType());
        if (I.getOperand(0)->getType()->isStructTy()) storeAt(S, p.obj, p.c, I.getOperand(0)->getType(), v);
        else S.objs[p.obj].mem[p.c] = v;
      }
      break;
    }
    case Instruction::InsertValue: {
      auto &V = cast<InsertValueInst>(I);
      Val a = get(S, V.getAggregateOperand()), x = get(S, V.getInsertedValueOperand());
      auto *ST = dyn_cast<StructType>(I.getType());
      if (!ST || V.getNumIndices() != 1) { set(S, I, S.fresh()); break; }
      if (a.el.size() != ST->getNumElements()) { a = Val(); for (unsigned k = 0; k < ST->getNumElements(); ++k) a.el.push_back(S.fresh()); }
      a.el[V.getIndices()[0]] = x;
      set(S, I, a);
      break;
    }
    case Instruction::ExtractValue: {
      auto &V = cast<ExtractValueInst>(I);
      Val a = get(S, V.getAggregateOperand());
      unsigned k = V.getIndices()[0];
      set(S, I, V.getNumIndices() == 1 && k < a.el.size() ? a.el[k] : S.fresh());
      break;
    }
    case Instruction::GetElementPtr: {
      auto &G = cast<GetElementPtrInst>(I);
      Val b = get(S, G.getPointerOperand());
      APInt off(64, 0);
      SmallMapVector<Value *, APInt, 4> var;
      if (G.collectOffset(*DL, 64, var, off)) {
        b.c += off.getSExtValue();
        for (auto &[V, k] : var) {
          Val x = get(S, V);
          int64_t n = k.getSExtValue();
          b.c += n * x.c;
          for (auto &[s, m] : x.s) if (!(b.s[s] += n * m)) b.s.erase(s);
        }
      } else b = S.fresh();
      set(S, I, b);
      break;
    }
    case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::SExt:
    case Instruction::ZExt: case Instruction::Trunc: case Instruction::Freeze: case Instruction::AddrSpaceCast: {
      Val v = get(S, I.getOperand(0));
      if (I.getOpcode() == Instruction::ZExt && I.getOperand(0)->getType()->isIntegerTy(1) && v.isConst()) v.c = v.c != 0;
      set(S, I, v);
      break;
    }
    case Instruction::Add: set(S, I, add(get(S, I.getOperand(0)), get(S, I.getOperand(1)))); break;
    case Instruction::Sub: set(S, I, add(get(S, I.getOperand(0)), get(S, I.getOperand(1)), -1)); break;
    case Instruction::SDiv: case Instruction::UDiv: case Instruction::AShr: case Instruction::LShr: {
      Val a = get(S, I.getOperand(0)), b = get(S, I.getOperand(1));
      bool sh = I.getOpcode() == Instruction::AShr || I.getOpcode() == Instruction::LShr;
      int64_t k = b.isConst() && b.c > 0 && b.c < 63 * (sh ? 1 : 1 << 20) ? (sh ? (int64_t(1) << b.c) : b.c) : 0;
      bool ok = k && a.obj < 0 && a.c % k == 0;
      for (auto &[s, n] : a.s) ok &= n % k == 0;
      if (ok) { a.c /= k; for (auto &[s, n] : a.s) n /= k; set(S, I, a); } else set(S, I, S.fresh());
      break;
    }
    case Instruction::Mul: case Instruction::Shl: {
      Val a = get(S, I.getOperand(0)), b = get(S, I.getOperand(1));
      if (I.getOpcode() == Instruction::Mul && a.isConst()) std::swap(a, b);
      if (b.isConst() && a.obj < 0 && (I.getOpcode() == Instruction::Mul || (b.c >= 0 && b.c < 62))) {
        int64_t k = I.getOpcode() == Instruction::Mul ? b.c : (int64_t(1) << b.c);
        a.c *= k;
        for (auto i = a.s.begin(); i != a.s.end();) { i->second *= k; if (!i->second) i = a.s.erase(i); else ++i; }
        set(S, I, a);
      } else set(S, I, S.fresh());
      break;
    }
    case Instruction::Xor: {
      Val a = get(S, I.getOperand(0)), b = get(S, I.getOperand(1));
      if (I.getType()->isIntegerTy(1) && a.isConst() && b.isConst()) set(S, I, Val::k((a.c & 1) ^ (b.c & 1)));
      else if (I.getType()->isIntegerTy(1) && b.isConst() && (b.c & 1)) {
        choose(S, wl, "b:" + key(a), [&](State &T, bool v) { T.st.back().env[&I] = Val::k(!v); ++T.st.back().it; });
        return;
      } else set(S, I, S.fresh());
      break;
    }
    case Instruction::And: case Instruction::Or: {
      Val a = get(S, I.getOperand(0)), b = get(S, I.getOperand(1));
      if (a.isConst() && b.isConst()) set(S, I, Val::k(I.getOpcode() == Instruction::And ? a.c & b.c : a.c | b.c));
      else set(S, I, S.fresh());
      break;
    }
    case Instruction::ICmp: {
      auto &C = cast<ICmpInst>(I);
      Val a = get(S, C.getOperand(0)), b = get(S, C.getOperand(1));
      int r = decide(S, C.getPredicate(), a, b);
      if (r >= 0) { set(S, I, Val::k(r)); break; }
      auto p = C.getPredicate();
      bool neg = false;
      if (p == CmpInst::ICMP_NE) { p = CmpInst::ICMP_EQ; neg = true; }
      if (p == CmpInst::ICMP_UGE || p == CmpInst::ICMP_ULE || p == CmpInst::ICMP_SGE || p == CmpInst::ICMP_SLE) { p = CmpInst::getInversePredicate(p); neg = !neg; }
      if (nonneg && p == CmpInst::ICMP_SGT && b.isNull() && nonneg(S, a)) p = CmpInst::ICMP_UGT;
      if (nonneg && p == CmpInst::ICMP_SLT && a.isNull() && nonneg(S, b)) p = CmpInst::ICMP_ULT;
      if ((p == CmpInst::ICMP_ULT && a.isNull()) || (p == CmpInst::ICMP_UGT && b.isNull())) { p = CmpInst::ICMP_EQ; neg = !neg; }
      std::string k;
      if (p == CmpInst::ICMP_EQ) {
        k = eqKey(a, b);
      } else k = std::string(CmpInst::getPredicateName(p).str()) + ":" + key(a) + ":" + key(b);
      choose(S, wl, k, [&](State &T, bool v) { T.st.back().env[&I] = Val::k(v != neg); ++T.st.back().it; });
      return;
    }
    case Instruction::Select: {
      auto &L = cast<SelectInst>(I);
      Val c = get(S, L.getCondition());
      if (c.isConst()) { set(S, I, get(S, (c.c & 1) ? L.getTrueValue() : L.getFalseValue())); break; }
      choose(S, wl, "b:" + key(c), [&](State &T, bool v) {
        T.st.back().env[&I] = get(T, v ? L.getTrueValue() : L.getFalseValue());
        ++T.st.back().it;
      });
      return;
    }
    case Instruction::Br: {
      auto &B = cast<BranchInst>(I);
      if (!B.isConditional()) { jump(S, B.getSuccessor(0)); return; }
      Val c = get(S, B.getCondition());
      if (c.isConst()) { jump(S, B.getSuccessor((c.c & 1) ? 0 : 1)); return; }
      choose(S, wl, "b:" + key(c), [&](State &T, bool v) { jump(T, B.getSuccessor(v ? 0 : 1)); });
      return;
    }
    case Instruction::Switch: {
      auto &W = cast<SwitchInst>(I);
      Val c = get(S, W.getCondition());
      if (c.isConst()) {
        for (auto &k : W.cases()) if (k.getCaseValue()->getSExtValue() == c.c) { jump(S, k.getCaseSuccessor()); return; }
        jump(S, W.getDefaultDest());
        return;
      }
      for (auto &k : W.cases()) { State T = S; jump(T, k.getCaseSuccessor()); wl.push_back(std::move(T)); }
      jump(S, W.getDefaultDest());
      return;
    }
    case Instruction::Ret: {
      auto &R = cast<ReturnInst>(I);
      Val v = R.getReturnValue() ? get(S, R.getReturnValue()) : Val();
      const CallBase *site = f.site;
      S.st.pop_back();
      if (S.st.empty()) { exit(S, false, v); S.dead = true; return; }
      finish(S, *site, v);
      return;
    }
    case Instruction::Resume: {
      if (S.st.back().F->doesNotThrow()) { S.dead = true; return; }
      unwind(S);
      return;
    }
    case Instruction::Unreachable: S.dead = true; return;
    case Instruction::Call: case Instruction::Invoke: call(S, cast<CallBase>(I), wl); return;
    default: // aggregates and floating point: unknown
      if (!I.getType()->isVoidTy()) set(S, I, S.fresh());
      if (I.isTerminator()) { S.dead = true; return; }
    }
    ++S.st.back().it;
  }
  void call(State &S, const CallBase &CB, std::vector<State> &wl) {
    Function *F = dyn_cast<Function>(CB.getCalledOperand()->stripPointerCasts());
    if (F && F->isIntrinsic()) {
      if (auto *MT = dyn_cast<MemTransferInst>(&CB)) {
        Val n = get(S, MT->getLength());
        copyMem(S, get(S, MT->getDest()), get(S, MT->getSource()), n.isConst() ? n.c : -1);
      } else if (auto *MS = dyn_cast<MemSetInst>(&CB)) {
        Val d = get(S, MS->getDest()), n = get(S, MS->getLength());
        copyMem(S, d, Val::k(0), n.isConst() ? n.c : -1);
        if (d.obj >= 0 && d.s.empty() && n.isConst() && get(S, MS->getValue()).isNull())
          for (int64_t k = 0; k < n.c && k < 256; k += 8) S.objs[d.obj].mem[d.c + k] = Val::k(0);
      } else if (F->getIntrinsicID() == Intrinsic::assume) {
      } else if (F->getIntrinsicID() == Intrinsic::expect) {
        set(S, CB, get(S, CB.getArgOperand(0)));
      } else if (!CB.getType()->isVoidTy()) set(S, CB, S.fresh());
      if (auto *II = dyn_cast<InvokeInst>(&CB)) jump(S, II->getNormalDest()); else ++S.st.back().it;
      return;
    }
    if (F) {
      StringRef n = F->getName();
      if (n == "__cxa_throw" || n == "__cxa_rethrow") { raise(S, CB); return; }
      if (n == "__clang_call_terminate" || n == "_ZSt9terminatev" || n == "abort" || n == "__cxa_pure_virtual") { S.dead = true; return; }
      if (n == "__cxa_begin_catch" || n == "__cxa_end_catch" || n == "__cxa_allocate_exception" || n == "__cxa_free_exception") {
        finish(S, CB, S.fresh());
        return;
      }
      std::vector<Val> args;
      for (auto &A : CB.args()) args.push_back(get(S, A.get()));
      std::vector<Outcome> outs;
      if (model && model(S, CB, F, name(F), args, outs)) {
        bool first = true;
        for (auto &o : outs) {
          if (o.unwinds) raise(o.s, CB); else finish(o.s, CB, o.ret);
          wl.push_back(std::move(o.s));
        }
        if (outs.empty()) S.dead = true;
        else { S = std::move(wl.back()); wl.pop_back(); }
        return;
      }
      if (!F->isDeclaration() && S.st.size() < 60) {
        Frame g;
        g.F = F; g.bb = &F->getEntryBlock(); g.it = g.bb->begin(); g.site = &CB;
        for (unsigned k = 0; k < F->arg_size() && k < args.size(); ++k) {
          // a by-value aggregate is the callee's own copy
          g.env[F->getArg(k)] = args[k];
        }
        S.st.push_back(std::move(g));
        return;
      }
    }
    if (!CB.doesNotThrow()) { State T = S; raise(T, CB); wl.push_back(std::move(T)); }
    finish(S, CB, CB.getType()->isVoidTy() ? Val() : S.fresh());
  }
};
} // namespace heap

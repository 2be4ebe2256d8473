// throws: an exception other than for exhausted memory that can leave an operation because of its data
#include "core.h"
#include "llvm/Analysis/ConstantFolding.h"
#include <regex>
namespace {
struct Path {
  const Value *root = nullptr;
  std::vector<int64_t> offs; // offset, dereference, offset, ...
  bool operator<(const Path &o) const { return std::tie(root, offs) < std::tie(o.root, o.offs); }
  bool operator==(const Path &o) const { return root == o.root && offs == o.offs; }
};
struct Guard {
  const Instruction *at = nullptr;   // a terminator
  const BasicBlock *to = nullptr;    // the successor that leads to the throw
  const Function *F = nullptr;
};
struct Tracer {
  Module &M;
  const DataLayout &DL;
  CallResolver R;
  const std::map<Path, uint64_t> *facts = nullptr;
  std::map<const Function *, std::vector<const CallBase *>> callers;
  std::set<const Function *> reachable;
  explicit Tracer(Module &M) : M(M), DL(M.getDataLayout()), R(M) {}

  Path resolve(const Value *V, int depth = 0) const {
    APInt off(64, 0);
    const Value *b = V->stripAndAccumulateConstantOffsets(DL, off, true);
    if (auto *L = dyn_cast<LoadInst>(b); L && depth < 12) {
      Path p = resolve(L->getPointerOperand(), depth + 1);
      if (auto *A = dyn_cast_or_null<AllocaInst>(p.root); A && p.offs.size() == 1)
        if (auto *S = onlyStore(A, p.offs[0])) {
          Path q = resolve(S, depth + 1);
          q.offs.back() += off.getSExtValue();
          return q;
        }
      p.offs.push_back(off.getSExtValue());
      return p;
    }
    return {b, {off.getSExtValue()}};
  }
  /// the value stored at the place in a local object when exactly one store writes it
  const Value *onlyStore(const AllocaInst *A, int64_t at) const {
    const Value *r = nullptr;
    int n = 0;
    for (auto &I : instructions(*A->getFunction()))
      if (auto *S = dyn_cast<StoreInst>(&I)) {
        APInt o(64, 0);
        if (S->getPointerOperand()->stripAndAccumulateConstantOffsets(DL, o, true) == A && o.getSExtValue() == at) { r = S->getValueOperand(); ++n; }
      }
    return n == 1 && r->getType()->isPointerTy() ? r : nullptr;
  }
  bool prefix(const Path &a, const Path &p) const { // an object at a contains the place p
    if (a.root != p.root || a.offs.size() > p.offs.size()) return false;
    for (size_t i = 0; i + 1 < a.offs.size(); ++i) if (a.offs[i] != p.offs[i]) return false;
    return a.offs.size() < p.offs.size() ? a.offs.back() <= p.offs[a.offs.size() - 1] : a.offs.back() <= p.offs.back();
  }
  // value of a condition when the place holds v; null: not known. mention: the place takes part
  Constant *eval(const Value *V, const Path &p, const std::optional<uint64_t> &v, bool &mention, int depth = 0) const {
    if (auto *C = dyn_cast<Constant>(V)) return const_cast<Constant *>(C);
    if (depth > 14) return nullptr;
    if (auto *L = dyn_cast<LoadInst>(V)) {
      Path q = resolve(L->getPointerOperand());
      if (q == p) {
        mention = true;
        if (v && L->getType()->isIntegerTy()) return ConstantInt::get(L->getType(), *v);
        if (v && *v == 0 && L->getType()->isPointerTy()) return ConstantPointerNull::get(cast<PointerType>(L->getType()));
      } else if (facts && L->getType()->isIntegerTy() && facts->count(q)) return ConstantInt::get(L->getType(), facts->at(q));
      else if (v ? q.offs.size() < p.offs.size() && prefix(q, p) : prefix(q, p) || prefix(p, q)) mention = true; // a pointer on the way
      return nullptr;
    }
    if (V == p.root && !V->getType()->isPointerTy()) { mention = true; return nullptr; }
    if (auto *I = dyn_cast<Instruction>(V)) {
      if (auto *CB = dyn_cast<CallBase>(I)) {
        for (auto &A : CB->args())
          if (A->getType()->isPointerTy()) { if (prefix(resolve(A), p)) mention = true; }
        return nullptr;
      }
      if (auto *B = dyn_cast<BinaryOperator>(I)) {
        auto *x = eval(B->getOperand(0), p, v, mention, depth + 1), *y = eval(B->getOperand(1), p, v, mention, depth + 1);
        if (B->getType()->isIntegerTy(1))
          for (auto *c : {x, y})
            if (c && ((B->getOpcode() == Instruction::And && c->isNullValue()) || (B->getOpcode() == Instruction::Or && c->isOneValue()))) return c;
        return x && y ? ConstantFoldBinaryOpOperands(B->getOpcode(), x, y, DL) : nullptr;
      }
      if (auto *C = dyn_cast<CastInst>(I)) {
        auto *x = eval(C->getOperand(0), p, v, mention, depth + 1);
        return x ? ConstantFoldCastOperand(C->getOpcode(), x, C->getType(), DL) : nullptr;
      }
      if (auto *C = dyn_cast<CmpInst>(I)) {
        auto *x = eval(C->getOperand(0), p, v, mention, depth + 1), *y = eval(C->getOperand(1), p, v, mention, depth + 1);
        return x && y ? ConstantFoldCompareInstOperands(C->getPredicate(), x, y, DL) : nullptr;
      }
      if (auto *S = dyn_cast<SelectInst>(I)) {
        auto *c = eval(S->getCondition(), p, v, mention, depth + 1);
        auto *x = eval(S->getTrueValue(), p, v, mention, depth + 1), *y = eval(S->getFalseValue(), p, v, mention, depth + 1);
        if (c) return c->isOneValue() ? x : y;
        return x == y ? x : nullptr;
      }
      if (auto *F = dyn_cast<FreezeInst>(I)) return eval(F->getOperand(0), p, v, mention, depth + 1);
      if (auto *G = dyn_cast<GetElementPtrInst>(I)) { for (auto &O : G->operands()) eval(O, p, v, mention, depth + 1); return nullptr; }
      if (auto *P = dyn_cast<PHINode>(I)) {
        Constant *r = nullptr;
        bool same = true, any = false;
        for (unsigned k = 0; k < P->getNumIncomingValues(); ++k) {
          auto *B = P->getIncomingBlock(k);
          if (v && depth < 6) { // an edge this value does not take
            bool kn = false, m = false;
            if (!follows(B->getTerminator(), P->getParent(), p, v, m, kn, depth + 5) && kn) { mention |= m; continue; }
            if (auto *S = B->getSinglePredecessor(); S && !follows(S->getTerminator(), B, p, v, m, kn, depth + 5) && kn) { mention |= m; continue; }
          }
          auto *x = eval(P->getIncomingValue(k), p, v, mention, depth + 4);
          if (any && x != r) same = false;
          r = x;
          any = true;
        }
        return any && same ? r : nullptr;
      }
    }
    return nullptr;
  }
  // can control go from the terminator to the successor when the place holds v? mention as above
  bool follows(const Instruction *T, const BasicBlock *to, const Path &p, const std::optional<uint64_t> &v, bool &mention, bool &known, int depth = 0) const {
    known = true;
    if (auto *B = dyn_cast<BranchInst>(T)) {
      if (B->isUnconditional() || B->getSuccessor(0) == B->getSuccessor(1)) return true;
      auto *c = eval(B->getCondition(), p, v, mention, depth);
      if (!c) { known = false; return true; }
      return B->getSuccessor(c->isNullValue() ? 1 : 0) == to;
    }
    if (auto *S = dyn_cast<SwitchInst>(T)) {
      auto *c = dyn_cast_or_null<ConstantInt>(eval(S->getCondition(), p, v, mention, depth));
      if (!c) { known = false; return true; }
      return const_cast<SwitchInst *>(S)->findCaseValue(c)->getCaseSuccessor() == to;
    }
    return true;
  }
  /// what a local object is a copy of
  const MemCpyInst *onlyCopy(const AllocaInst *A) const {
    const MemCpyInst *r = nullptr;
    int n = 0;
    for (auto &I : instructions(*A->getFunction()))
      if (auto *MC = dyn_cast<MemCpyInst>(&I)) {
        if (MC->getDest()->stripInBoundsConstantOffsets() == A) { ++n; if (MC->getDest() == A) r = MC; }
      } else if (auto *S = dyn_cast<StoreInst>(&I)) { if (S->getPointerOperand()->stripInBoundsConstantOffsets() == A) ++n; }
    return n == 1 ? r : nullptr;
  }
  /// a place in a local object that holds a pointer
  Path settle(Path n) const {
    for (int k = 0; k < 4; ++k) {
      auto *A = dyn_cast_or_null<AllocaInst>(n.root);
      auto *MC = A && n.offs.size() > 1 ? onlyCopy(A) : nullptr;
      if (!MC) break;
      Path s = resolve(MC->getSource());
      s.offs.back() += n.offs[0];
      s.offs.insert(s.offs.end(), n.offs.begin() + 1, n.offs.end());
      n = s;
    }
    for (int k = 0; k < 8 && n.offs.size() > 1 && isa_and_nonnull<AllocaInst>(n.root); ++k) {
      auto *S = onlyStore(cast<AllocaInst>(n.root), n.offs[0]);
      if (!S) break;
      Path s = resolve(S);
      s.offs.back() += n.offs[1];
      s.offs.insert(s.offs.end(), n.offs.begin() + 2, n.offs.end());
      n = s;
    }
    return n;
  }
  /// the argument points into the object, up to the place
  bool within(const Path &a, const Path &obj, const Path &p) const {
    if (obj.offs.size() != p.offs.size()) { // a generic place
      return prefix(a, p);
    }
    if (!prefix(a, p) || a.offs.size() != p.offs.size()) return false;
    return a.offs.back() >= obj.offs.back();
  }
  bool touches(const Value *A, const Path &obj, const Path &p) const {
    Path a = resolve(A);
    if (a.root == p.root && within(a, obj, p)) return true;
    if (auto *L = dyn_cast_or_null<AllocaInst>(a.root); L && a.offs.size() == 1) // a reference object
      for (int64_t o = 0; o <= 24; o += 8)
        if (auto *S = onlyStore(L, a.offs[0] + o)) { Path q = resolve(S); if (q.root == p.root && within(q, obj, p)) return true; }
    return false;
  }
  std::map<std::pair<const Function *, unsigned>, bool> ms;
  bool mayStore(const Function *F, unsigned arg) {
    if (auto *SP = F->getSubprogram(); SP && arg == 0 && F->getName().starts_with("_ZNSt")) {
      auto n = SP->getName();
      if (n == "operator=" || n == "swap" || n == "reset" || n.starts_with("emplace")) return true;
    }
    if (F->isDeclaration()) return !F->onlyReadsMemory() && !(arg < F->arg_size() && F->getArg(arg)->onlyReadsMemory());
    if (arg >= F->arg_size()) return true;
    auto [it, fresh] = ms.emplace(std::make_pair(F, arg), false);
    if (!fresh) return it->second;
    bool r = false;
    const Argument *A = F->getArg(arg);
    for (auto &I : instructions(*F)) {
      if (auto *S = dyn_cast<StoreInst>(&I)) { if (resolve(S->getPointerOperand()).root == A) r = true; }
      else if (auto *CB = dyn_cast<CallBase>(&I)) {
        if (auto *MI = dyn_cast<MemIntrinsic>(CB)) { if (resolve(MI->getDest()).root == A) r = true; continue; }
        if (isa<IntrinsicInst>(CB)) continue;
        for (unsigned k = 0; k < CB->arg_size(); ++k)
          if (CB->getArgOperand(k)->getType()->isPointerTy() && resolve(CB->getArgOperand(k)).root == A) {
            auto cs = R.callees(*CB);
            if (cs.empty()) r = true;
            for (auto *C : cs) if (mayStore(C, k)) r = true;
          }
      }
      if (r) break;
    }
    return ms[{F, arg}] = r;
  }
};
/// where in a type (and what it consists of) a member is; -1: nowhere
int64_t memberAt(const DIType *T, const std::function<bool(const DIDerivedType &)> &is, int depth = 0) {
  while (auto *D = dyn_cast_or_null<DIDerivedType>(T)) T = D->getBaseType();
  auto *C = dyn_cast_or_null<DICompositeType>(T);
  if (!C || depth > 8) return -1;
  for (auto *E : C->getElements()) {
    auto *D = dyn_cast<DIDerivedType>(E);
    if (!D || D->isStaticMember()) continue;
    if (D->getTag() == dwarf::DW_TAG_member && is(*D)) return D->getOffsetInBits() / 8;
    if (D->getTag() == dwarf::DW_TAG_inheritance || D->getTag() == dwarf::DW_TAG_member) {
      auto *B = D->getBaseType();
      if (isa_and_nonnull<DICompositeType>(B) || D->getTag() == dwarf::DW_TAG_inheritance) {
        auto r = memberAt(B, is, depth + 1);
        if (r >= 0) return r + D->getOffsetInBits() / 8;
      }
    }
  }
  return -1;
}
enum Access { ANone, AStd, AIndirect, ADynamic };
/// functions that give access to something that may be absent without looking
Access accessKind(const Function &F) {
  auto *SP = F.getSubprogram();
  if (!SP || !(SP->getName() == "operator*" || SP->getName() == "operator->")) return ANone;
  auto n = F.getName();
  if (n.contains("NSt8optionalI") || n.contains("NKSt8optionalI") || n.contains("NRSt8optionalI") || n.contains("NKRSt8optionalI") || n.contains("NOSt8optionalI")) return AStd;
  if (n.contains("9hpp_proto17optional_indirectI") || n.contains("9hpp_proto22optional_indirect_viewI")) return AIndirect;
  if (n.contains("9hpp_proto18message_field_crefdeEv") || n.contains("9hpp_proto18message_field_mrefdeEv") || n.contains("message_field_crefptEv") || n.contains("message_field_mrefptEv")) return ADynamic;
  return ANone;
}
// what has to be untested for the exception to be possible
struct Query {
  std::vector<Path> places;         // any of which must not have been looked at (generic), or the single place (values)
  std::set<uint64_t> values;        // values of the place that throw; empty: generic
  Path obj;                         // the object the place belongs to
  std::map<Path, uint64_t> facts;   // what other places are known to hold
  bool operator<(const Query &o) const { return std::tie(places, values, obj, facts) < std::tie(o.places, o.values, o.obj, o.facts); }
};
} // namespace

static int cmdThrows(const Options &o, Report &rep) {
  std::regex exempt("bad_alloc|length_error|bad_array_new_length|bad_function_call|bad_weak_ptr|bad_cast|bad_typeid");
  for (auto &file : o.files) {
    LLVMContext C;
    auto M = loadModule(C, file);
    PrepPolicy P;
    P.leafInline = true;
    P.inlineLambdas = true;
    P.keep = [](Function &F) { return accessKind(F) != ANone; };
    prepare(*M, P);
    Tracer T(*M);
    // reachable part and its call sites
    std::vector<const Function *> wl;
    auto prefixes = o.all("roots");
    auto addF = [&](const Function *F) { if (T.reachable.insert(F).second) wl.push_back(F); };
    for (auto &F : *M)
      if (!F.isDeclaration())
        for (auto &p : prefixes) if (F.getName().starts_with(p)) addF(&F);
    while (!wl.empty()) {
      auto *F = wl.back();
      wl.pop_back();
      rep.bump("functions");
      for (auto &I : instructions(*F))
        if (auto *CB = dyn_cast<CallBase>(&I)) {
          if (CB->isInlineAsm()) continue;
          for (auto *G : T.R.callees(*CB)) {
            if (G->isIntrinsic()) continue;
            T.callers[G].push_back(CB);
            addF(G);
          }
        }
    }
    std::set<const Function *> taken;
    for (auto *F : T.reachable) {
      bool root = false;
      for (auto &p : prefixes) if (F->getName().starts_with(p)) root = true;
      if (F->hasAddressTaken() && !root) taken.insert(F);
    }
    // throw sites
    std::set<std::tuple<std::string, std::string>> reported;
    std::set<const Instruction *> siteSeen;
    std::vector<std::pair<const Instruction *, std::string>> sites; // instruction, type
    for (auto *F : T.reachable) {
      if (F->isDeclaration()) continue;
      for (auto &I : instructions(*F)) {
        auto *CB = dyn_cast<CallBase>(&I);
        auto *G = CB ? CB->getCalledFunction() : nullptr;
        if (!G) continue;
        std::string ty;
        if (G->getName() == "__cxa_throw") {
          if (auto *G2 = dyn_cast<Constant>(CB->getArgOperand(1)->stripPointerCasts())) ty = demangled(G2->getName());
        } else if (G->isDeclaration() && G->getName().contains("__throw_")) ty = demangled(G->getName());
        else continue;
        if (std::regex_search(ty, exempt)) { rep.bump("memory_exhaustion_sites"); continue; }
        sites.push_back({&I, ty});
      }
    }
    auto shortTy = [](std::string t) { t = std::regex_replace(t, std::regex("^typeinfo for |\\(.*"), ""); return std::regex_replace(t, std::regex("std::__throw_"), "std::"); };
    // functions that never come back other than by an exception
    std::set<const Function *> never;
    auto ends = [&](const BasicBlock *B) {
      for (auto &I : *B)
        if (auto *CB = dyn_cast<CallBase>(&I))
          if (auto *G = CB->getCalledFunction(); G && (G->doesNotReturn() || never.count(G))) return true;
      return false;
    };
    for (bool ch = true; ch;) {
      ch = false;
      for (auto *F : T.reachable) {
        if (F->isDeclaration() || never.count(F)) continue;
        std::set<const BasicBlock *> s{&F->getEntryBlock()};
        std::vector<const BasicBlock *> w{&F->getEntryBlock()};
        bool r = false;
        while (!w.empty() && !r) {
          auto *X = w.back();
          w.pop_back();
          if (ends(X)) continue;
          if (isa<ReturnInst>(X->getTerminator())) r = true;
          for (auto *S : successors(X)) if (s.insert(S).second) w.push_back(S);
        }
        if (!r) { never.insert(F); ch = true; }
      }
    }
    auto through = [&](const Value *act, const Path &pl) {
      Path n = T.resolve(act);
      n.offs.back() += pl.offs[0];
      n.offs.insert(n.offs.end(), pl.offs.begin() + 1, pl.offs.end());
      return T.settle(n);
    };
    auto sourcesOf = [&](const Value *act, std::vector<Path> &places) {
      std::vector<const Value *> w{act};
      std::set<const Value *> sv;
      while (!w.empty()) {
        auto *V = w.back();
        w.pop_back();
        if (!sv.insert(V).second || isa<Constant>(V)) continue;
        if (auto *L = dyn_cast<LoadInst>(V)) { places.push_back(T.resolve(L->getPointerOperand())); continue; }
        if (isa<Argument>(V) || isa<CallBase>(V) || isa<PHINode>(V)) { places.push_back({V, {0}}); continue; }
        if (auto *I = dyn_cast<Instruction>(V)) for (auto &O : I->operands()) w.push_back(O);
      }
    };
    auto forget = [&](std::map<Path, uint64_t> &facts, const Instruction &I) {
      for (auto i = facts.begin(); i != facts.end();) {
        bool drop = &I == i->first.root && !isa<AllocaInst>(I);
        if (auto *S = dyn_cast<StoreInst>(&I)) drop |= T.resolve(S->getPointerOperand()) == i->first;
        else if (auto *MI = dyn_cast<MemIntrinsic>(&I)) drop |= T.prefix(T.resolve(MI->getDest()), i->first);
        else if (auto *CB = dyn_cast<CallBase>(&I); CB && !isa<IntrinsicInst>(CB))
          for (unsigned k = 0; k < CB->arg_size() && !drop; ++k) {
            auto *A = CB->getArgOperand(k);
            Path o = i->first;
            o.offs.back() = 0;
            if (!A->getType()->isPointerTy() || !T.touches(A, o, i->first)) continue;
            auto cs = T.R.callees(*CB);
            if (cs.empty()) drop = true;
            for (auto *Cc : cs) if (T.mayStore(Cc, k)) drop = true;
          }
        if (drop) i = facts.erase(i);
        else ++i;
      }
    };
    // what taking the edge says about another small place
    auto learn = [&](std::map<Path, uint64_t> &facts, const Instruction *X, const BasicBlock *to, const Path &place) {
      auto *B = dyn_cast<BranchInst>(X);
      auto *S = dyn_cast<SwitchInst>(X);
      if (!((B && B->isConditional()) || S) || facts.size() >= 3) return;
      std::vector<const Value *> w{B ? B->getCondition() : S->getCondition()};
      std::set<const Value *> seen;
      const LoadInst *L = nullptr;
      while (!w.empty()) {
        auto *V = w.back();
        w.pop_back();
        if (!seen.insert(V).second || isa<Constant>(V)) continue;
        if (auto *l = dyn_cast<LoadInst>(V)) { if (L && L != l) return; L = l; continue; }
        auto *I = dyn_cast<Instruction>(V);
        if (!I || seen.size() > 8 || !(isa<CastInst>(I) || isa<CmpInst>(I) || isa<BinaryOperator>(I))) return;
        for (auto &O : I->operands()) w.push_back(O);
      }
      if (!L || !L->getType()->isIntegerTy() || L->getType()->getIntegerBitWidth() > 8) return;
      Path q = T.settle(T.resolve(L->getPointerOperand()));
      if (q == place || facts.count(q)) return;
      int n = 0;
      uint64_t is = 0;
      T.facts = nullptr;
      for (uint64_t v = 0; v < (1u << std::min(L->getType()->getIntegerBitWidth(), 8u)); ++v) {
        bool m = false, k = false;
        if (T.follows(X, to, q, v, m, k)) { ++n; is = v; if (!k) return; }
      }
      if (n == 1) facts[q] = is;
    };
    auto decide = [&](const Instruction *at, const Function *F0, Query q0, std::vector<std::string> chain0, const std::string &what, bool explicitRepo, const DISubprogram *lex, const DILocation *lexAt, const std::string &where0) {
        // search backwards for a way in on which nothing looked
        struct Item { const Function *F; const Instruction *from; Query q; std::vector<std::string> chain; };
        std::vector<Item> work{{F0, at, q0, chain0}};
        std::set<std::pair<const Instruction *, Query>> done;
        std::vector<std::string> bad;
        bool undecided = false;
        const Item *cur = nullptr;
        auto dunno = [&](const char *why) {
          undecided = true;
          if (o.has("verbose")) errs() << "   " << why << " " << (cur->chain.empty() ? "" : cur->chain.back().substr(0, 260)) << "\n";
        };
        int budget = 4000;
        while (!work.empty() && bad.empty()) {
          Item it = work.back();
          work.pop_back();
          cur = &it;
          if (!done.insert({it.from, it.q}).second) continue;
          if (--budget < 0) { dunno("U1"); break; }
          // backwards over the blocks of the function
          struct Pos { const BasicBlock *B; const Instruction *upto; std::set<uint64_t> vals; std::map<Path, uint64_t> facts; };
          std::vector<Pos> pw{{it.from->getParent(), it.from, it.q.values, it.q.facts}};
          std::set<std::tuple<const BasicBlock *, std::set<uint64_t>, std::map<Path, uint64_t>>> ps;
          std::set<std::pair<std::set<uint64_t>, std::map<Path, uint64_t>>> atEntry;
          bool generic = it.q.values.empty();
          while (!pw.empty()) {
            Pos p = pw.back();
            pw.pop_back();
            bool stop = false;
            if (p.upto)
              for (auto *I = p.upto->getPrevNode(); I && !stop; I = I->getPrevNode()) {
                for (auto &pl : it.q.places) {
                  if (I == pl.root && !isa<AllocaInst>(I)) { // where the value comes from
                    stop = true;
                    if (!generic || !isa<CallBase>(I)) dunno("U2");
                    else if (explicitRepo && it.F == F0) bad = it.chain; // thrown on the result of a call
                    else bad = it.chain;
                  }
                  if (auto *S = dyn_cast<StoreInst>(I)) {
                    if (T.resolve(S->getPointerOperand()) == pl) {
                      stop = true;
                      if (generic && isa_and_nonnull<AllocaInst>(pl.root) && S->getValueOperand()->getType()->isIntegerTy()) { // go on with what was stored
                        Query q = it.q;
                        q.places.clear();
                        for (auto &x : it.q.places) if (!(x == pl)) q.places.push_back(x);
                        sourcesOf(S->getValueOperand(), q.places);
                        if (q.places.empty()) continue;
                        std::sort(q.places.begin(), q.places.end());
                        q.places.erase(std::unique(q.places.begin(), q.places.end()), q.places.end());
                        if (q.obj.root == pl.root) q.obj = q.places[0];
                        work.push_back({it.F, S, q, it.chain});
                        continue;
                      }
                      if (auto *c = dyn_cast<ConstantInt>(S->getValueOperand()); c && !generic && p.vals.count(c->getZExtValue())) bad = it.chain;
                      if (isa<ConstantPointerNull>(S->getValueOperand()) && !generic && p.vals.count(0)) bad = it.chain;
                    }
                  } else if (auto *CB = dyn_cast<CallBase>(I)) {
                    if (isa<DbgInfoIntrinsic>(CB)) continue;
                    if (auto *MI = dyn_cast<MemIntrinsic>(CB)) { if (T.prefix(T.resolve(MI->getDest()), pl)) stop = true; continue; }
                    if (isa<IntrinsicInst>(CB)) continue;
                    for (unsigned k = 0; k < CB->arg_size(); ++k) {
                      auto *A = CB->getArgOperand(k);
                      if (!A->getType()->isPointerTy() || !T.touches(A, it.q.obj, pl)) continue;
                      auto cs = T.R.callees(*CB);
                      if (cs.empty()) stop = true;
                      for (auto *Cc : cs) if (T.mayStore(Cc, k)) stop = true;
                    }
                  }
                }
              }
            if (stop) continue;
            if (!bad.empty()) break;
            if (p.upto) // facts that need not have held before
              for (auto *I = p.upto->getPrevNode(); I && !p.facts.empty(); I = I->getPrevNode()) forget(p.facts, *I);
            if (p.B->isEntryBlock()) { atEntry.insert({p.vals, p.facts}); continue; }
            for (auto *Pb : predecessors(p.B)) {
              auto *X = Pb->getTerminator();
              Pos n{Pb, X, {}, p.facts};
              bool blocked = false;
              T.facts = &p.facts;
              if (generic) {
                bool m = false, k;
                for (auto &pl : it.q.places) T.follows(X, p.B, pl, std::nullopt, m, k);
                if (m && explicitRepo && it.F == F0)
                  if (auto &L = X->getDebugLoc(); L && L->getScope()->getSubprogram() == lex && L->getInlinedAt() == lexAt) m = false;
                blocked = m && isa<BranchInst, SwitchInst>(X);
              } else {
                for (auto v : p.vals) {
                  bool m = false, k = false;
                  bool f = T.follows(X, p.B, it.q.places[0], v, m, k);
                  if (m && !k) { blocked = true; break; }
                  if (f) n.vals.insert(v);
                }
                if (n.vals.empty()) blocked = true;
              }
              T.facts = nullptr;
              if (blocked) continue;
              if (auto *IV = dyn_cast<InvokeInst>(X)) {
                bool st2 = false;
                for (auto &pl : it.q.places) {
                  if (IV == pl.root) { st2 = true; if (generic) bad = it.chain; else dunno("U3"); }
                  for (unsigned k = 0; k < IV->arg_size(); ++k) {
                    auto *A = IV->getArgOperand(k);
                    if (!A->getType()->isPointerTy() || !T.touches(A, it.q.obj, pl)) continue;
                    auto cs = T.R.callees(*IV);
                    if (cs.empty()) st2 = true;
                    for (auto *Cc : cs) if (T.mayStore(Cc, k)) st2 = true;
                  }
                }
                if (st2) continue;
              }
              if (isa<InvokeInst>(X)) forget(n.facts, *X);
              if (!generic) learn(n.facts, X, p.B, it.q.places[0]);
              if (ps.insert({Pb, n.vals, n.facts}).second) pw.push_back(n);
            }
          }
          if (!bad.empty()) break;
          for (auto &[vals, facts] : atEntry) {
            // which places belong to the caller
            auto *F = it.F;
            bool arg = false;
            for (auto &pl : it.q.places) if (isa_and_nonnull<Argument>(pl.root)) arg = true;
            if (!arg) { dunno("U4"); continue; }
            if (T.callers[F].empty()) {
              if (!taken.count(F)) bad = it.chain; else dunno("U5");
              continue;
            }
            for (auto *CB : T.callers[F]) {
              Query q;
              q.values = vals;
              bool dead = false;
              for (auto &pl : it.q.places) {
                auto *A = dyn_cast_or_null<Argument>(pl.root);
                if (!A) continue;
                if (A->getArgNo() >= CB->arg_size()) { dead = true; break; }
                auto *act = CB->getArgOperand(A->getArgNo());
                if (isa<ConstantInt>(act) || isa<ConstantFP>(act)) { if (it.q.places.size() == 1) dead = true; continue; }
                if (isa<GlobalVariable>(act->stripInBoundsConstantOffsets()) ) { if (it.q.places.size() == 1) dead = true; continue; }
                if (!act->getType()->isPointerTy()) {
                  sourcesOf(act, q.places); // what the number was computed from
                  continue;
                }
                q.places.push_back(through(act, pl));
              }
              if (auto *A = dyn_cast_or_null<Argument>(it.q.obj.root); A && A->getArgNo() < CB->arg_size() && CB->getArgOperand(A->getArgNo())->getType()->isPointerTy())
                q.obj = through(CB->getArgOperand(A->getArgNo()), it.q.obj);
              if (dead || q.places.empty()) { if (!dead) dunno("U6"); continue; }
              std::sort(q.places.begin(), q.places.end());
              q.places.erase(std::unique(q.places.begin(), q.places.end()), q.places.end());
              for (auto &[fp, fv] : facts)
                if (auto *A = dyn_cast_or_null<Argument>(fp.root); A && A->getArgNo() < CB->arg_size() && CB->getArgOperand(A->getArgNo())->getType()->isPointerTy())
                  if (auto n = through(CB->getArgOperand(A->getArgNo()), fp); q.places.size() != 1 || !(n == q.places[0])) q.facts[n] = fv;
              auto ch = it.chain;
              ch.push_back(fnName(*CB->getFunction()) + " at " + siteOf(*CB));
              work.push_back({CB->getFunction(), CB, q, ch});
            }
            if (!bad.empty()) break;
          }
        }
        if (o.has("verbose")) {
          errs() << what << " in " << fnName(*F0).substr(0, 150) << " " << where0 << " values";
          for (auto v : q0.values) errs() << " " << v;
          errs() << (bad.empty() ? (undecided ? " undecided" : " ok") : " BAD") << "\n";
          for (auto &c : bad) errs() << "      " << c.substr(0, 220) << "\n";
        }
        bool ours = false;
        for (auto &c : bad) if (c.find("hpp_proto") != std::string::npos || c.find("/repo/") != std::string::npos) ours = true;
        if (!bad.empty() && ours) {
          json::Array path;
          std::string where = bad.front();
          for (auto &c : bad) { path.push_back(json::fixUTF8(c)); }
          for (auto &c : bad) if (c.find("/repo/") != std::string::npos || c.find("include/hpp_proto") != std::string::npos) { where = c; break; }
          auto at = where.rfind(" at ");
          std::string s = where.substr(at + 4), fn = where.substr(0, at);
          if (reported.insert({s, what}).second)
            rep.violation("T-throw", fn, s, what + ": on a way from the API to this access nothing makes sure that it is allowed", std::move(path));
        } else rep.bump(undecided ? "undecided" : "excluded");
    };
    for (auto &[site, type] : sites) {
      rep.bump("throw_sites");
      // the conditions under which the site is reached, going up through unconditional callers
      struct Start { const Instruction *at; std::vector<std::string> chain; };
      std::vector<Start> starts{{site, {}}};
      std::set<const Instruction *> seen{site};
      std::vector<std::pair<Guard, std::vector<std::string>>> guards;
      bool unconditional = false;
      std::map<const BasicBlock *, bool> canReturn;
      auto returns = [&](const BasicBlock *B) {
        if (auto it = canReturn.find(B); it != canReturn.end()) return it->second;
        std::set<const BasicBlock *> s{B};
        std::vector<const BasicBlock *> w{B};
        bool r = false;
        while (!w.empty() && !r) {
          auto *X = w.back();
          w.pop_back();
          if (ends(X)) continue;
          if (isa<ReturnInst>(X->getTerminator())) r = true;
          auto *IV = dyn_cast<InvokeInst>(X->getTerminator());
          for (auto *S : successors(X)) if (!(IV && S == IV->getUnwindDest()) && s.insert(S).second) w.push_back(S);
        }
        return canReturn[B] = r;
      };
      while (!starts.empty()) {
        auto st = starts.back();
        starts.pop_back();
        std::vector<const BasicBlock *> bw{st.at->getParent()};
        std::set<const BasicBlock *> bs;
        st.chain.push_back(fnName(*st.at->getFunction()) + " at " + siteOf(*st.at));
        while (!bw.empty()) {
          auto *B = bw.back();
          bw.pop_back();
          if (!bs.insert(B).second) continue;
          if (B->isEntryBlock()) {
            auto *F = B->getParent();
            if (T.callers[F].empty()) { unconditional = true; continue; }
            for (auto *CB : T.callers[F]) if (seen.insert(CB).second) starts.push_back({CB, st.chain});
            continue;
          }
          for (auto *Pb : predecessors(B)) {
            auto *X = Pb->getTerminator();
            bool decides = (isa<BranchInst>(X) && cast<BranchInst>(X)->isConditional()) || isa<SwitchInst>(X);
            if (decides && returns(Pb)) guards.push_back({{X, B, Pb->getParent()}, st.chain});
            else bw.push_back(Pb);
          }
        }
      }
      for (auto &[g, chain0] : guards) {
        rep.bump("guarded_throws");
        std::string what = shortTy(type);
        const DISubprogram *lex = nullptr;
        const DILocation *lexAt = nullptr;
        if (auto &L = site->getDebugLoc(); L && site->getFunction() == g.F) { lex = L->getScope()->getSubprogram(); lexAt = L->getInlinedAt(); }
        bool explicitRepo = lex && StringRef(lex->getFilename()).contains("hpp_proto") && type.rfind("typeinfo", 0) == 0;
        // the places the condition looks at
        Query q0;
        const Value *cond = isa<BranchInst>(g.at) ? cast<BranchInst>(g.at)->getCondition() : cast<SwitchInst>(g.at)->getCondition();
        std::set<const Value *> vs;
        std::vector<const Value *> vw{cond};
        std::vector<const LoadInst *> loads;
        bool other = false;
        while (!vw.empty()) {
          auto *V = vw.back();
          vw.pop_back();
          if (!vs.insert(V).second || isa<Constant>(V)) continue;
          if (auto *L = dyn_cast<LoadInst>(V)) { loads.push_back(L); q0.places.push_back(T.resolve(L->getPointerOperand())); continue; }
          if (isa<Argument>(V) || isa<CallBase>(V) || isa<PHINode>(V)) {
            other = true;
            if (auto *CB = dyn_cast<CallBase>(V)) {
              bool looks = false, changes = false; // a question asked of an object
              for (unsigned k = 0; k < CB->arg_size(); ++k)
                if (CB->getArgOperand(k)->getType()->isPointerTy()) {
                  looks = true;
                  q0.places.push_back(T.resolve(CB->getArgOperand(k)));
                  for (auto *Cc : T.R.callees(*CB)) if (T.mayStore(Cc, k)) changes = true;
                }
              if (looks && !changes) continue;
            }
            q0.places.push_back({V, {0}});
            continue;
          }
          if (auto *I = dyn_cast<Instruction>(V)) for (auto &O : I->operands()) vw.push_back(O);
        }
        if (q0.places.empty()) continue;
        std::sort(q0.places.begin(), q0.places.end());
        q0.places.erase(std::unique(q0.places.begin(), q0.places.end()), q0.places.end());
        if (!other && q0.places.size() == 1 && loads[0]->getType()->isIntegerTy() && loads[0]->getType()->getIntegerBitWidth() <= 8) {
          unsigned n = 2;
          bool variant = false;
          for (auto &pn : paramTypeNames(*g.F))
            if (auto k = pn.find("variant<"); k != std::string::npos && k < 6) {
              int d = 0;
              n = 1;
              variant = true;
              for (char c : pn.substr(k + 8)) { if (c == '<' || c == '(') ++d; else if (c == '>' || c == ')') { if (d-- == 0) break; } else if (c == ',' && d == 0) ++n; }
              break;
            }
          (void)variant;
          for (unsigned v = 0; v < n && v < 255; ++v) {
            bool m = false, k = false;
            if (T.follows(g.at, g.to, q0.places[0], v, m, k) && k) q0.values.insert(v);
          }
          if (q0.values.empty()) { rep.bump("excluded"); continue; } // only a valueless variant
        }
        q0.obj = q0.places[0];
        q0.obj.offs.back() = 0;
        decide(g.at, g.F, q0, chain0, what + " can be thrown", explicitRepo, lex, lexAt, siteOf(*site));
      }
      if (unconditional) rep.violation("T-throw", fnName(*site->getFunction()), siteOf(*site), shortTy(type) + " is thrown");
    }
    // accesses to what may be absent
    for (auto *F : T.reachable) {
      auto kind = F->isDeclaration() ? ANone : accessKind(*F);
      if (kind == ANone) continue;
      auto *SP = F->getSubprogram();
      int64_t off = -1;
      auto isPtr = [](const DIDerivedType &D) { auto *B = D.getBaseType(); while (auto *X = dyn_cast_or_null<DIDerivedType>(B)) { if (X->getTag() == dwarf::DW_TAG_pointer_type) return true; B = X->getBaseType(); } return false; };
      const DIType *self = SP && SP->getScope() ? dyn_cast<DIType>(SP->getScope()) : nullptr;
      if (kind == AStd) off = memberAt(self, [](const DIDerivedType &D) { return D.getName() == "_M_engaged"; });
      if (kind == AIndirect) off = memberAt(self, isPtr);
      if (kind == ADynamic) off = memberAt(self, [](const DIDerivedType &D) { return D.getName() == "storage_"; });
      if (off < 0) { rep.bump("unknown_layout"); continue; }
      for (auto *CB : T.callers[F]) {
        if (CB->arg_size() < 1) continue;
        if (accessKind(*CB->getFunction()) != ANone) continue; // one written with the other
        rep.bump("accesses");
        Query q;
        unsigned self = CB->hasStructRetAttr() ? 1 : 0;
        if (CB->arg_size() <= self) continue;
        Path p = T.resolve(CB->getArgOperand(self));
        q.obj = p;
        p.offs.back() += off;
        if (kind == ADynamic) p.offs.push_back(1 << 20);
        p = T.settle(p);
        q.obj = T.settle(q.obj);
        q.places = {p};
        if (kind != ADynamic) q.values = {0};
        decide(CB, CB->getFunction(), q, {fnName(*CB->getFunction()) + " at " + siteOf(*CB)},
               kind == AStd ? "an absent optional can be accessed" : kind == AIndirect ? "an absent message can be accessed" : "a dynamic message that is not there can be accessed", false, nullptr, nullptr, siteOf(*CB));
      }
    }
  }
  return 0;
}
static Register r("throws", cmdThrows);

// recursion: every call cycle of the codec is cut by a checked, balanced, shared depth counter whose exhaustion is reported
#include "core.h"
#include <regex>

namespace {
struct Guard { // per function
  bool has = false;
  std::map<const CallBase *, int> minDepth; // call site -> least number of active scopes entered by this function
  std::vector<std::pair<std::string, const Instruction *>> problems;
  std::string limit;
};

const Value *strip(const Value *V) {
  while (true) {
    if (auto *C = dyn_cast<CastInst>(V)) {
      if (isa<ZExtInst>(C) || isa<FreezeInst>(C) || isa<BitCastInst>(C)) { V = C->getOperand(0); continue; }
    }
    return V;
  }
}

/// does `cond` being `truth` imply  d <= L + k ? returns L and k
bool impliesUpper(const Value *cond, bool truth, const Value *d, const Value *&L, int64_t &k, int depth = 0) {
  if (depth > 6) return false;
  if (auto *C = dyn_cast<ICmpInst>(cond)) {
    auto p = truth ? C->getPredicate() : C->getInversePredicate();
    const Value *a = C->getOperand(0), *b = C->getOperand(1);
    auto same = [&](const Value *x) {
      if (x == d) return true;
      auto *l1 = dyn_cast<LoadInst>(x), *l2 = dyn_cast<LoadInst>(d);
      return l1 && l2 && l1->getPointerOperand() == l2->getPointerOperand();
    };
    if (same(b)) { std::swap(a, b); p = CmpInst::getSwappedPredicate(p); }
    if (!same(a)) return false;
    if (auto *ci = dyn_cast<ConstantInt>(b); ci && ci->isMinusOne()) return false; // the wrap guard
    if (p == CmpInst::ICMP_ULE) { L = b; k = 0; return true; }
    if (p == CmpInst::ICMP_ULT) {
      if (auto *add = dyn_cast<BinaryOperator>(b))
        if (add->getOpcode() == Instruction::Add)
          if (auto *one = dyn_cast<ConstantInt>(add->getOperand(1)); one && one->isOne()) { L = add->getOperand(0); k = 0; return true; }
      L = b; k = -1; return true;
    }
    return false;
  }
  if (auto *B = dyn_cast<BinaryOperator>(cond)) {
    if ((B->getOpcode() == Instruction::And && truth) || (B->getOpcode() == Instruction::Or && !truth)) {
      for (int i = 0; i < 2; ++i)
        if (impliesUpper(B->getOperand(i), truth, d, L, k, depth + 1)) return true;
    }
    if (B->getOpcode() == Instruction::Xor)
      if (auto *c = dyn_cast<ConstantInt>(B->getOperand(1)); c && c->isAllOnesValue())
        return impliesUpper(B->getOperand(0), !truth, d, L, k, depth + 1);
  }
  if (auto *S = dyn_cast<SelectInst>(cond)) {
    auto *t = dyn_cast<ConstantInt>(S->getTrueValue()), *f = dyn_cast<ConstantInt>(S->getFalseValue());
    if (truth && f && f->isZero())
      return impliesUpper(S->getCondition(), true, d, L, k, depth + 1) || impliesUpper(S->getTrueValue(), true, d, L, k, depth + 1);
    if (!truth && t && t->isOne())
      return impliesUpper(S->getCondition(), false, d, L, k, depth + 1) || impliesUpper(S->getFalseValue(), false, d, L, k, depth + 1);
  }
  return false;
}

bool isStep(const StoreInst *S, const Value *&p, int64_t &delta, const LoadInst *&ld) {
  auto *B = dyn_cast<BinaryOperator>(S->getValueOperand());
  if (!B || !S->getValueOperand()->getType()->isIntegerTy()) return false;
  if (B->getOpcode() != Instruction::Add && B->getOpcode() != Instruction::Sub) return false;
  auto *c = dyn_cast<ConstantInt>(B->getOperand(1));
  ld = dyn_cast<LoadInst>(B->getOperand(0));
  if (!c || !ld || ld->getPointerOperand() != S->getPointerOperand()) return false;
  delta = c->getSExtValue() * (B->getOpcode() == Instruction::Sub ? -1 : 1);
  p = S->getPointerOperand();
  return delta == 1 || delta == -1;
}
} // namespace

static int cmdRecursion(const Options &o, Report &rep) {
  std::regex ctxRx(o.one("context", "pb_context"));
  std::string wantLimit = o.one("limit"); // constant expected as the limit in roots without option
  for (auto &file : o.files) {
    LLVMContext C;
    auto M = loadModule(C, file);
    PrepPolicy P;
    P.leafInline = true;
    prepare(*M, P);
    const DataLayout &DL = M->getDataLayout();
    CallResolver R(*M);
    struct Edge { const CallBase *cb; Function *to; };
    std::map<Function *, std::vector<Edge>> g;
    for (auto &F : *M)
      for (auto &I : instructions(F))
        if (auto *CB = dyn_cast<CallBase>(&I))
          for (auto *T : R.callees(*CB))
            if (!T->isDeclaration()) g[&F].push_back({CB, T});
    std::vector<Function *> roots;
    for (auto &F : *M)
      for (auto &pre : o.all("root"))
        if (!F.isDeclaration() && F.getName().starts_with(pre)) { roots.push_back(&F); break; }
    rep.bump("roots", roots.size());
    std::map<Function *, int> idx, low, comp;
    std::vector<Function *> st;
    std::set<Function *> on;
    std::vector<std::vector<Function *>> comps;
    int n = 0;
    std::function<void(Function *)> dfs = [&](Function *F) {
      idx[F] = low[F] = n++;
      st.push_back(F);
      on.insert(F);
      bool self = false;
      for (auto &e : g[F]) {
        self |= e.to == F;
        if (!idx.count(e.to)) { dfs(e.to); low[F] = std::min(low[F], low[e.to]); }
        else if (on.count(e.to)) low[F] = std::min(low[F], idx[e.to]);
      }
      if (low[F] == idx[F]) {
        std::vector<Function *> c;
        Function *x;
        do { x = st.back(); st.pop_back(); on.erase(x); c.push_back(x); } while (x != F);
        if (c.size() > 1 || self) {
          for (auto *f : c) comp[f] = (int)comps.size();
          comps.push_back(c);
        }
      }
    };
    for (auto *F : roots)
      if (!idx.count(F)) dfs(F);
    rep.bump("functions", idx.size());

    std::set<int> unguarded; // components which need a dominating pre-check
    std::set<int> guardedComps;
    for (size_t ci = 0; ci < comps.size(); ++ci) {
      auto &comp_ = comps[ci];
      std::set<Function *> in(comp_.begin(), comp_.end());
      // value semantics of message objects (destroying, copying an in-memory tree) is not driven by the codec
      bool codec = false, repo = false;
      for (auto *F : comp_) {
        codec |= F->getName().contains("pb_serializer") || F->getName().contains("pb_context");
        repo |= inRepo(*F);
      }
      if (!codec || !repo) { rep.bump("value_semantics_cycles"); continue; }
      rep.bump("codec_cycles");
      std::map<Function *, Guard> guards;
      std::set<std::string> limits;
      for (auto *F : comp_) {
        rep.bump("cycle_functions");
        // candidate counters
        std::map<const Value *, std::pair<std::vector<const StoreInst *>, std::vector<const StoreInst *>>> cand;
        for (auto &I : instructions(*F))
          if (auto *S = dyn_cast<StoreInst>(&I)) {
            const Value *p; int64_t d; const LoadInst *ld;
            if (isStep(S, p, d, ld)) (d > 0 ? cand[p].first : cand[p].second).push_back(S);
          }
        Guard &G = guards[F];
        for (auto &[p, ss] : cand) {
          if (ss.first.empty() || ss.second.empty()) {
            // the decrement may go through a phi (pointer or null): accept when some -1 store's pointer is a phi over p
            bool viaPhi = false;
            if (!ss.first.empty())
              for (auto &[q, tt] : cand)
                if (!tt.second.empty())
                  if (auto *phi = dyn_cast<PHINode>(q))
                    for (auto &v : phi->incoming_values()) viaPhi |= v.get() == p;
            if (!viaPhi) continue;
          }
          if (isa<AllocaInst>(getUnderlyingObject(p))) continue; // a counter local to this activation bounds nothing
          DominatorTree DT(*F);
          // every increment must be admitted by  depth <= limit
          bool ok = true;
          std::string lim;
          for (auto *S : ss.first) {
            auto *ld = cast<LoadInst>(cast<BinaryOperator>(S->getValueOperand())->getOperand(0));
            bool bounded = false;
            for (auto &B : *F) {
              auto *br = dyn_cast<BranchInst>(B.getTerminator());
              if (!br || !br->isConditional()) continue;
              for (int k = 0; k < 2; ++k)
                if (DT.dominates(BasicBlockEdge(&B, br->getSuccessor(k)), S->getParent())) {
                  const Value *L = nullptr; int64_t kk = 0;
                  if (impliesUpper(br->getCondition(), k == 0, ld, L, kk)) {
                    bounded = true;
                    if (auto *cc = dyn_cast<ConstantInt>(L)) lim = std::to_string(cc->getZExtValue() + kk);
                    else lim = kk ? "limit" + std::to_string(kk) : "limit";
                  }
                }
            }
            ok &= bounded;
          }
          if (!ok) continue;
          // typestate: +1 / -1 along every path
          PathEngine E(*F);
          PState init;
          std::map<const CallBase *, int> minD;
          bool bad = false;
          auto isP = [&](const PState &, const Value *q, const StoreInst *) {
            if (q == p) return true;
            if (auto *phi = dyn_cast<PHINode>(q)) {
              for (auto &v : phi->incoming_values()) if (v.get() == p) return true;
            }
            return false;
          };
          bool failUnreported = false; const Instruction *failAt = nullptr; json::Array failTrace;
          E.onBranch = [&](PState &S, BranchInst &br, bool taken) {
            // remember the failing side of the admission test: x[0]=1
            const Value *L; int64_t kk;
            for (auto *St : ss.first) {
              auto *ld = cast<LoadInst>(cast<BinaryOperator>(St->getValueOperand())->getOperand(0));
              if (impliesUpper(br.getCondition(), !taken, ld, L, kk) && S.s == 0) S.x[0] = 1;
              else if (impliesUpper(br.getCondition(), taken, ld, L, kk)) S.x.erase(0);
            }
          };
          E.onInst = [&](PState &S, Instruction &I, std::vector<PState> &) {
            if (auto *St = dyn_cast<StoreInst>(&I)) {
              const Value *q; int64_t d; const LoadInst *ld;
              if (isStep(St, q, d, ld) && isP(S, q, St)) S.s += (int)d;
              if (S.x.count(0))
                if (auto *c = dyn_cast<ConstantInt>(St->getValueOperand()); c && c->isOne() && c->getBitWidth() <= 8 &&
                    !isa<AllocaInst>(getUnderlyingObject(St->getPointerOperand())))
                  S.x[1] = 1; // the flag
              if (S.s > 4 || S.s < -2) return false;
            }
            if (auto *CB = dyn_cast<CallBase>(&I)) {
              auto it = minD.find(CB);
              if (it == minD.end()) minD[CB] = S.s; else it->second = std::min(it->second, S.s);
            }
            return true;
          };
          E.onExit = [&](PState &S, Instruction &T) {
            if (isa<UnreachableInst>(T)) return;
            if (S.s != 0) {
              if (!bad) G.problems.push_back({"the depth counter is left " + std::to_string(S.s) + " off on an exit path", &T});
              bad = true;
            }
            if (auto *Rt = dyn_cast<ReturnInst>(&T); Rt && S.x.count(0) && !S.x.count(1)) {
              // exhaustion must be reported: failing status / false / flag
              bool reported = false;
              if (Rt->getReturnValue()) {
                Fact f = E.eval(S, Rt->getReturnValue());
                bool isBool = F->getReturnType()->isIntegerTy(1);
                if (isBool) reported = f.k == Fact::Const && f.c == 0;
                else reported = f.k == Fact::NonZero || (f.k == Fact::Const && f.c != 0);
              }
              if (!reported && !failUnreported) {
                failUnreported = true;
                failAt = &T;
                failTrace = E.trace();
              }
            }
          };
          E.run(init);
          if (E.overflowed) rep.broken.push_back("state overflow in " + fnName(*F));
          rep.bump("counter_paths", E.explored);
          G.has = true;
          G.limit = lim;
          limits.insert(lim);
          G.minDepth = minD;
          rep.bump("guards");
          rep.note("guard in " + fnName(*F) + ": admitted iff depth <= " + lim);
          if (failUnreported)
            rep.violation("exhaustion-not-reported", fnName(*F), siteOf(*failAt),
                          "when the recursion limit is reached this function can return as if nothing had failed", std::move(failTrace));
          for (auto &[m, at] : G.problems)
            rep.violation("unbalanced-depth", fnName(*F), siteOf(*at), m);
          if (lim.find('-') != std::string::npos)
            rep.violation("limit-off-by-one", fnName(*F), siteOf(*ss.first[0]), "a scope is admitted only below the configured limit, one level less than documented (admitted iff depth <= " + lim + ")");
          break;
        }
      }
      // remaining cycles
      std::map<Function *, std::vector<Edge>> rest;
      bool any = false;
      for (auto *F : comp_)
        for (auto &e : g[F])
          if (in.count(e.to)) {
            auto &G = guards[F];
            auto it = G.minDepth.find(e.cb);
            bool cut = G.has && it != G.minDepth.end() && it->second >= 1;
            rep.bump("cycle_call_sites");
            if (cut) { any = true; rep.bump("guarded_call_sites"); }
            else rest[F].push_back(e);
          }
      // find a cycle in rest
      std::map<Function *, int> col;
      std::vector<Edge> stack;
      std::vector<Edge> cyc;
      std::function<bool(Function *)> find = [&](Function *F) -> bool {
        col[F] = 1;
        for (auto &e : rest[F]) {
          stack.push_back(e);
          if (col[e.to] == 1) {
            // extract
            for (size_t i = stack.size(); i-- > 0;) {
              cyc.insert(cyc.begin(), stack[i]);
              if (stack[i].cb->getFunction() == e.to) break;
            }
            return true;
          }
          if (!col[e.to] && find(e.to)) return true;
          stack.pop_back();
        }
        col[F] = 2;
        return false;
      };
      bool cyclic = false;
      for (auto *F : comp_)
        if (!col[F] && find(F)) { cyclic = true; break; }
      if (cyclic && !any) { unguarded.insert((int)ci); continue; }
      if (cyclic) {
        json::Array path;
        const Instruction *at = nullptr; Function *inF = nullptr;
        for (auto &e : cyc) {
          path.push_back(siteOf(*e.cb) + " calls " + fnName(*e.to));
          if (!at && inRepo(*e.cb->getFunction())) { at = e.cb; inF = (Function *)e.cb->getFunction(); }
        }
        rep.violation("unbounded-recursion", inF ? fnName(*inF) : "?", at ? siteOf(*at) : "?",
                      "this call cycle passes no admitted recursion scope: the depth is not bounded by the configured limit", std::move(path));
      } else guardedComps.insert((int)ci);
      if (cyclic) guardedComps.insert((int)ci);
      // fresh or copied counters inside the cycle
      std::set<Function *> seen(comp_.begin(), comp_.end());
      std::vector<Function *> wl(comp_.begin(), comp_.end());
      while (!wl.empty()) {
        Function *F = wl.back();
        wl.pop_back();
        for (auto &I : instructions(*F)) {
          if (auto *A = dyn_cast<AllocaInst>(&I))
            if (auto *ST = dyn_cast<StructType>(A->getAllocatedType()); ST && ST->hasName() && in.count(F) && std::regex_search(ST->getName().str(), ctxRx))
              rep.violation("fresh-budget", fnName(*F), siteOf(I), "a context object with its own depth counter is created inside the recursion");
          if (auto *S = dyn_cast<StoreInst>(&I))
            if (isa<ConstantInt>(S->getValueOperand()))
              if (auto *t = S->getMetadata(LLVMContext::MD_tbaa); t && t->getNumOperands() >= 2)
                if (auto *b = dyn_cast<MDNode>(t->getOperand(0)); b && b->getNumOperands())
                  if (auto *nm = dyn_cast<MDString>(b->getOperand(0)); nm && std::regex_search(nm->getString().str(), ctxRx))
                    rep.violation("fresh-budget", fnName(*F), siteOf(I), "the depth counter of a context is overwritten inside the recursion");
        }
        for (auto &e : g[F])
          if (seen.insert(e.to).second) wl.push_back(e.to);
      }
      for (auto &l : limits) rep.note("limit " + l + " in cycle of " + fnName(*comp_[0]));
      if (!wantLimit.empty())
        for (auto *F : comp_)
          if (guards[F].has && guards[F].limit != wantLimit && guards[F].limit != "limit" && !StringRef(guards[F].limit).starts_with("limit"))
            if (!std::regex_search(demangled(F->getName()), std::regex("recursion_limit_t")))
              rep.violation("wrong-default-limit", fnName(*F), siteOf(*F), "without an option nested scopes are admitted iff depth <= " + guards[F].limit + ", documented default " + wantLimit);
    }
    // components without any guard: every way in must be dominated by the outcome of a guarded pass over the same value
    std::set<Function *> reachesGuarded;
    for (auto &[F, i] : idx) {
      std::set<Function *> s{F};
      std::vector<Function *> wl{F};
      bool hit = false;
      while (!wl.empty() && !hit) {
        auto *x = wl.back(); wl.pop_back();
        if (comp.count(x) && guardedComps.count(comp[x])) hit = true;
        for (auto &e : g[x]) if (s.insert(e.to).second) wl.push_back(e.to);
      }
      if (hit) reachesGuarded.insert(F);
    }
    for (int ci : unguarded) {
      std::set<Function *> exposing(comps[ci].begin(), comps[ci].end());
      std::map<Function *, const CallBase *> why;
      rep.bump("prechecked_cycles");
      bool ch = true;
      bool anyEntry = false;
      while (ch) {
        ch = false;
        for (auto &[F, i] : idx) {
          if (exposing.count(F)) continue;
          std::unique_ptr<DominatorTree> DT;
          for (auto &e : g[F]) {
            if (!exposing.count(e.to)) continue;
            if (!DT) DT = std::make_unique<DominatorTree>(*F);
            bool ok = false;
            for (auto &k : g[F]) {
              if (!reachesGuarded.count(k.to) || k.cb == e.cb || exposing.count(k.to)) continue;
              // conditions derived from the pass' result or from memory it was given
              std::set<const Value *> src{k.cb};
              for (auto &A : k.cb->args())
                if (A->getType()->isPointerTy() && isa<AllocaInst>(getUnderlyingObject(A))) src.insert(getUnderlyingObject(A));
              for (auto &B : *F) {
                auto *br = dyn_cast<BranchInst>(B.getTerminator());
                if (!br || !br->isConditional() || !DT->dominates(k.cb, br)) continue;
                // backward slice
                std::set<const Value *> sl;
                std::vector<const Value *> wl{br->getCondition()};
                bool dep = false;
                while (!wl.empty() && sl.size() < 60) {
                  auto *v = wl.back(); wl.pop_back();
                  if (!sl.insert(v).second) continue;
                  if (src.count(v)) { dep = true; break; }
                  if (auto *ld = dyn_cast<LoadInst>(v)) {
                    if (src.count(getUnderlyingObject(ld->getPointerOperand())) && DT->dominates(k.cb, ld)) { dep = true; break; }
                    continue;
                  }
                  if (isa<CallBase>(v)) continue;
                  if (auto *u = dyn_cast<Instruction>(v)) for (auto &op : u->operands()) wl.push_back(op);
                }
                if (!dep) continue;
                for (int s = 0; s < 2; ++s)
                  if (DT->dominates(BasicBlockEdge(&B, br->getSuccessor(s)), e.cb->getParent())) ok = true;
              }
            }
            if (ok) { rep.bump("prechecked_entries"); anyEntry = true; }
            else { exposing.insert(F); why[F] = e.cb; ch = true; break; }
          }
        }
      }
      for (auto *Rt : roots)
        if (exposing.count(Rt)) {
          json::Array path;
          Function *cur = Rt; const Instruction *at = nullptr; Function *inF = nullptr;
          for (int k = 0; k < 40 && why.count(cur); ++k) {
            path.push_back(siteOf(*why[cur]) + " in " + fnName(*cur));
            if (inRepo(*cur)) { at = why[cur]; inF = cur; }
            Function *nx = nullptr;
            for (auto &e : g[cur]) if (e.cb == why[cur] && exposing.count(e.to)) nx = e.to;
            if (!nx) break;
            cur = nx;
          }
          rep.violation("unbounded-recursion", inF ? fnName(*inF) : fnName(*Rt), at ? siteOf(*at) : "?",
                        "recursion over the message which neither counts its depth nor runs only after a depth-checked pass: " + fnName(*comps[ci][0]), std::move(path));
        }
    }
  }
  return 0;
}
static Register r1("recursion", cmdRecursion);
static int cmdDump(const Options &o, Report &) {
  LLVMContext C;
  auto M = loadModule(C, o.files[0]);
  PrepPolicy P;
  P.leafInline = o.has("leaf");
  prepare(*M, P);
  std::regex rx(o.one("fn"));
  int n = 0;
  for (auto &F : *M)
    if (!F.isDeclaration() && std::regex_search(demangled(F.getName()), rx)) {
      F.print(errs());
      if (++n >= 1) break;
    }
  return 0;
}
static Register r9("dump", cmdDump);

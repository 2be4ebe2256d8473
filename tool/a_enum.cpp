// enums: a closed enum field accepts only what the schema enumerates, and what it does not is set aside, not lost
#include "core.h"
#include "llvm/Analysis/LoopInfo.h"
#include <regex>
namespace {
/// the options of the field whose decoding a function was instantiated for (-1: none)
int fieldOptions(const Function &F) {
  static const std::regex re("field_meta.*?LNS_12field_optionE(\\d+)E|field_meta.*?LN9hpp_proto12field_optionE(\\d+)E");
  std::string n = F.getName().str();
  auto at = n.find("10field_metaI");
  if (at == std::string::npos) return -1;
  std::string t = n.substr(at);
  static const std::regex opt("12field_optionE(\\d+)E");
  // substitutions abbreviate the type in later arguments: S<x>_ or the like before the number
  static const std::regex lit("L(?:NS_12field_optionE|N9hpp_proto12field_optionE|S[0-9A-Z]*_)(\\d+)E");
  std::smatch m;
  // the field's own options follow its number and its accessor
  if (t.find("9map_entryI") < t.find("12field_optionE")) {
    // an entry's key or value: the accessor names the entry, whose own options come first
    auto p = t.find("12mutable_type");
    if (p == std::string::npos) return -1;
    std::string r = t.substr(p);
    if (std::regex_search(r, m, lit)) return atoi(m[1].str().c_str());
    return -1;
  }
  if (std::regex_search(t, m, lit)) return atoi(m[1].str().c_str());
  return -1;
}
enum Reg { Raw = 0, Pending = 1, Must = 2, Hand = 3, Used = 4 };
} // namespace

static int cmdEnums(const Options &o, Report &rep) {
  bool dynamic = o.has("dynamic");
  for (auto &file : o.files) {
    LLVMContext C;
    auto M = loadModule(C, file);
    auto isTest = [&](const Function &F) {
      static const std::regex re("^_ZN[^I]*8is_validEN[^I]*E$|^_ZN.*16valid_enum_valueEi$|^_ZNK.*16valid_enum_valueEi$");
      return F.getReturnType()->isIntegerTy(1) && std::regex_match(F.getName().str(), re);
    };
    auto isAside = [&](const Function &F) { return F.getName().contains("unknown_enum"); };
    auto isClosedQuery = [&](const Function &F) { return F.getReturnType()->isIntegerTy(1) && F.getName().contains("9is_closedEv"); };
    auto dynDecoder = [&](const Function &F) {
      if (!inRepo(F) || !F.getName().contains("field_deserializer")) return false;
      for (auto &n : paramTypeNames(F)) if (n.find("enum_value_mref") != std::string::npos || n.find("enum_field_mref") != std::string::npos) return true;
      return false;
    };
    auto decoder = [&](const Function &F) {
      if (!inRepo(F)) return false;
      if (dynDecoder(F)) return true;
      int op = fieldOptions(F);
      return op >= 0 && (op & 16);
    };
    auto scalarRead = [&](const Function &F) {
      StringRef n = F.getName();
      return inRepo(F) && n.contains("pb_serializer") && (n.contains("8basic_inI") || n.contains("input_archive")) && n.contains("clI") && n.contains("6varintIl") && resultKind(F) == KStatus;
    };
    auto scalarReadBy = [&](const Function &T) {
      // the archive's reading of one 64-bit varint
      StringRef n = T.getName();
      return resultKind(T) == KStatus && inRepo(T) && (n.starts_with("_ZN9hpp_proto13pb_serializer8basic_inI") || n.starts_with("_ZN9hpp_proto13pb_serializer24contiguous_input_archiveI")) &&
             (n.contains("clERNS_6varintIl") || n.contains("deserializeERNS_6varintIl") || n.contains("clINS_6varintIl") || n.contains("clIJRNS_6varintIl") || n.contains("6varintIl"));
    };
    (void)scalarRead;
    auto packedRead = [&](const Function &F, const Function &T) {
      StringRef n = T.getName();
      return resultKind(T) == KStatus && inRepo(T) && n.contains("packed") && !n.contains("unpacked") && !n.contains("count_") && fieldOptions(T) < 0 && (!dynDecoder(F) || !dynDecoder(T));
    };
    std::set<std::string> keep;
    for (auto &F : *M) {
      if (isTest(F) || isAside(F) || isClosedQuery(F) || (!F.isDeclaration() && scalarReadBy(F))) keep.insert(F.getName().str());
      if (!F.isDeclaration() && decoder(F) && resultKind(F) == KStatus) keep.insert(F.getName().str());
    }
    if (o.has("list")) {
      for (auto &F : *M) {
        if (F.isDeclaration()) continue;
        if (isTest(F)) errs() << "test " << fnName(F) << "\n";
        if (isAside(F)) errs() << "aside " << fnName(F) << "\n";
        if (scalarReadBy(F)) errs() << "read " << F.getName() << "\n";
        if (decoder(F)) errs() << "decoder " << fieldOptions(F) << " " << F.getName().substr(0, 200) << "\n";
      }
    }
    PrepPolicy P;
    P.leafInline = true;
    P.inlineLambdas = true;
    P.keep = [&](Function &F) { return keep.count(F.getName().str()) != 0; };
    P.inlineIf = [&](Function &F) { return F.getName().contains("field_meta_base") && F.getName().contains("valid_enum_value"); };
    prepare(*M, P);
    if (o.has("dumpfn"))
      for (auto &F : *M) if (F.getName().contains(o.one("dumpfn"))) F.print(errs());
    CallResolver R(*M);
    // functions which (may) apply the test or the setting aside somewhere below
    std::map<const Function *, std::set<Function *>> callers;
    for (auto &F : *M)
      for (auto &I : instructions(F))
        if (auto *CB = dyn_cast<CallBase>(&I)) for (auto *T : R.callees(*CB)) callers[T].insert(&F);
    auto below = [&](auto pred, auto through) {
      std::set<const Function *> s;
      std::vector<Function *> wl;
      for (auto &F : *M) if (pred(F)) { s.insert(&F); wl.push_back(&F); }
      while (!wl.empty()) {
        auto *f = wl.back(); wl.pop_back();
        for (auto *c : callers[f]) if (through(*c) && s.insert(c).second) wl.push_back(c);
      }
      return s;
    };
    auto libOrLambda = [&](const Function &F) { return !inRepo(F) || F.getName().contains("ENKUl") || F.getName().contains("ENUl"); };
    std::set<const Function *> tests = below(isTest, libOrLambda);
    struct Sum { std::set<int> raw; bool lost = false; std::set<int64_t> rejects; bool keepsBad = false, dropsGood = false; };
    std::map<const CallBase *, const Function *> filters; // algorithms given the test -> where
    std::map<const Function *, Sum> sums;
    std::vector<std::pair<std::string, std::string>> origins; // site, function
    std::map<const CallBase *, int> originOf;
    std::map<std::pair<std::string, std::string>, std::string> found; // (rule, site) -> function
    std::map<const Function *, std::string> rejectSite, lostSite;
    bool overflow = false;
    auto failing = [&](PathEngine &E, PState &S, const Value *V, int64_t &code) {
      Fact f = E.eval(S, V);
      code = f.k == Fact::Const ? f.c : -1;
      return f.k == Fact::NonZero || (f.k == Fact::Const && f.c != 0);
    };
    auto analyse = [&](Function &F) -> Sum {
      Sum out;
      bool any = false;
      bool dec = decoder(F);
      for (auto &I : instructions(F))
        if (auto *CB = dyn_cast<CallBase>(&I))
          for (auto *T : R.callees(*CB)) {
            any |= sums.count(T) && (!sums[T].raw.empty() || sums[T].lost || !sums[T].rejects.empty());
            any |= tests.count(T) != 0 || (dec && (scalarReadBy(*T) || packedRead(F, *T)));
          }
      if (!any) return out;
      DominatorTree DT(F);
      LoopInfo LI(DT);
      // loops in which the test is applied
      std::set<const Loop *> testing;
      std::map<int, std::set<const Value *>> hands; // call id -> handles of the value that was tested
      std::map<const CallBase *, int> ids;
      for (auto &I : instructions(F))
        if (auto *CB = dyn_cast<CallBase>(&I))
          for (auto *T : R.callees(*CB))
            if (tests.count(T)) for (Loop *L = LI.getLoopFor(I.getParent()); L; L = L->getParentLoop()) testing.insert(L);
      auto handlesOf = [&](const Value *v) {
        std::set<const Value *> h;
        std::vector<const Value *> wl{v};
        while (!wl.empty()) {
          auto *x = wl.back(); wl.pop_back();
          if (isa<Constant>(x) || !h.insert(x).second) continue;
          if (auto *l = dyn_cast<LoadInst>(x)) {
            auto *p = l->getPointerOperand()->stripInBoundsOffsets();
            if (isa<AllocaInst>(p)) wl.push_back(p);
          } else if (isa<CastInst>(x)) wl.push_back(cast<CastInst>(x)->getOperand(0));
          else if (isa<AllocaInst>(x)) {
            for (auto *u : x->users()) {
              if (auto *l = dyn_cast<LoadInst>(u)) h.insert(l);
              else if (auto *g = dyn_cast<GetElementPtrInst>(u)) { h.insert(g); for (auto *w : g->users()) if (isa<LoadInst>(w)) h.insert(w); }
            }
          }
        }
        for (bool ch = true; ch;) {
          ch = false;
          for (auto &I : instructions(F))
            if (auto *c = dyn_cast<CastInst>(&I); c && h.count(c->getOperand(0)) && h.insert(c).second) ch = true;
        }
        return h;
      };
      std::vector<int> testIds;
      std::map<const Instruction *, int> useIds;
      auto uses = [&](const Instruction &I, int id) {
        auto it = hands.find(id);
        if (it == hands.end()) return false;
        if (auto *st = dyn_cast<StoreInst>(&I)) return it->second.count(st->getValueOperand()) && !it->second.count(st->getPointerOperand()) && !isa<AllocaInst>(st->getPointerOperand()->stripInBoundsOffsets());
        if (auto *cb = dyn_cast<CallBase>(&I)) for (auto &a : cb->args()) if (it->second.count(a.get())) return true;
        return false;
      };
      auto idOf = [&](const CallBase *CB) { return ids.emplace(CB, (int)ids.size() + 1).first->second; };
      for (auto &I : instructions(F))
        if (auto *CB = dyn_cast<CallBase>(&I); CB && CB->getCalledFunction() && isTest(*CB->getCalledFunction())) {
          int id = idOf(CB);
          hands[id] = handlesOf(CB->getArgOperand(CB->arg_size() - 1));
          testIds.push_back(id);
        }
      // the range does not begin where the elements just read begin, or what the algorithm says is left is not acted upon
      auto partial = [&](const CallBase *CB, int raw) {
        const CallBase *rd = nullptr;
        for (auto &[c, i] : originOf) if (i == std::abs(raw) && c->getFunction() == &F) rd = c;
        if (!rd) return false;
        std::string n = demangled(CB->getCalledFunction() ? CB->getCalledFunction()->getName() : "");
        bool removes = n.find("remove_if") != std::string::npos;
        if (removes) {
          std::vector<const Value *> wl{CB};
          std::set<const Value *> seen;
          bool acted = false;
          while (!wl.empty() && !acted) {
            auto *v = wl.back(); wl.pop_back();
            if (!seen.insert(v).second) continue;
            for (auto *u : v->users()) {
              if (isa<DbgInfoIntrinsic>(u)) continue;
              if (isa<CallBase>(u) && u != CB && !isa<IntrinsicInst>(u)) acted = true;
              else if (isa<StoreInst>(u) || isa<ReturnInst>(u)) acted = true;
              else wl.push_back(u);
            }
          }
          for (auto &a : CB->args()) if (CB->paramHasAttr(a.getOperandNo(), Attribute::StructRet)) acted = true;
          if (!acted && !CB->getType()->isVoidTy()) return true;
        }
        if (!CB->arg_size() || !CB->getArgOperand(0)->getType()->isPointerTy()) return false;
        std::vector<std::pair<const Value *, bool>> wl{{CB->getArgOperand(0), false}}; // value, part of an index
        std::set<std::pair<const Value *, bool>> seen;
        while (!wl.empty()) {
          auto [v, idx] = wl.back(); wl.pop_back();
          if (!seen.insert({v, idx}).second) continue;
          if (auto *l = dyn_cast<LoadInst>(v)) {
            if (idx && DT.dominates(rd, l) && !isa<AllocaInst>(l->getPointerOperand()->stripInBoundsOffsets())) return true;
          } else if (auto *g = dyn_cast<GetElementPtrInst>(v)) {
            wl.push_back({g->getPointerOperand(), idx});
            for (auto &i : g->indices()) if (!isa<Constant>(i.get())) wl.push_back({i.get(), true});
          } else if (auto *b = dyn_cast<BinaryOperator>(v)) {
            if ((b->getOpcode() == Instruction::Add || b->getOpcode() == Instruction::Sub) && idx && (isa<ConstantInt>(b->getOperand(0)) || isa<ConstantInt>(b->getOperand(1)))) return true;
            wl.push_back({b->getOperand(0), idx});
            wl.push_back({b->getOperand(1), idx});
          } else if (isa<PHINode>(v) || isa<CastInst>(v) || isa<SelectInst>(v) || isa<FreezeInst>(v))
            for (auto &op : cast<User>(v)->operands()) wl.push_back({op.get(), idx});
        }
        return false;
      };
      PathEngine E(F);
      E.maxStatesPerBlock = 6000;
      auto setReg = [](PState &S, int r, int64_t v) { if (v) S.x[r] = v; else S.x.erase(r); };
      E.onInst = [&](PState &S, Instruction &I, std::vector<PState> &alts) {
        if (auto *L = LI.getLoopFor(I.getParent()); L && testing.count(L) && &I == &*I.getParent()->getFirstNonPHIIt() && L->getHeader() == I.getParent())
          if (S.x.count(Raw) && S.x[Raw] < 0) S.x.erase(Raw);
        if (isa<StoreInst>(I) || isa<CallBase>(I)) {
          // a use of the value: after the test came out false, or before it was made
          int hand = S.x.count(Hand) ? (int)S.x[Hand] : 0;
          bool used = hand && uses(I, hand);
          if (!used && S.x.count(Raw) && S.x[Raw] > 0) for (int id : testIds) if (uses(I, id)) { used = true; break; }
          if (used) {
            bool ok = false;
            if (auto *CB = dyn_cast<CallBase>(&I)) { for (auto *T : R.callees(*CB)) ok |= isAside(*T) || T->isIntrinsic() || isTest(*T) || scalarReadBy(*T) || (decoder(*T) && resultKind(*T) == KStatus); if (isa<IntrinsicInst>(CB)) ok = true; }
            if (!ok) { auto [it, fresh] = useIds.emplace(&I, (int)useIds.size() + 1); S.x[Used] = it->second; (void)fresh; }
          }
        }
        auto *CB = dyn_cast<CallBase>(&I);
        if (!CB || isa<IntrinsicInst>(CB)) return true;
        auto ts = R.callees(*CB);
        if (ts.empty()) return true;
        Function *T = ts[0];
        if (isTest(*T)) {
          PState f = S;
          f.env[&I] = Fact::constant(0);
          int id = idOf(CB);
          if (!hands.count(id)) hands[id] = handlesOf(CB->getArgOperand(CB->arg_size() - 1));
          setReg(f, Hand, id);
          setReg(f, Raw, 0);
          setReg(f, Pending, dynamic ? 0 : id);
          setReg(f, Must, id);
          if (F.getReturnType()->isIntegerTy(1)) { f.x[6] = 1; S.x[6] = 1; }
          alts.push_back(std::move(f));
          S.env[&I] = Fact::constant(-1);
          for (int r : {Raw, Hand, Pending, Must, Used}) S.x.erase(int(r));
          return true;
        }
        if (isClosedQuery(*T)) {
          PState f = S;
          f.env[&I] = Fact::constant(0);
          f.x.erase(Raw);
          alts.push_back(std::move(f));
          S.env[&I] = Fact::constant(-1);
          return true;
        }
        if (isAside(*T)) {
          S.x.erase(Pending);
          // what is set aside is the value that was tested, under the field's own number
          if (CB->arg_size() >= 3 && S.x.count(Hand)) {
            const Value *num = CB->getArgOperand(1), *val = CB->getArgOperand(2);
            rep.bump("set_aside");
            if (auto *c = dyn_cast<ConstantInt>(num)) {
              static const std::regex re("field_metaILj(\\d+)E");
              std::smatch m;
              std::string n = F.getName().str();
              if (std::regex_search(n, m, re) && (uint64_t)std::stoull(m[1].str()) != c->getZExtValue()) found.emplace(std::make_pair("misfiled", siteOf(I)), fnName(F));
            } else {
              const Value *x = num;
              while (isa<CastInst>(x)) x = cast<CastInst>(x)->getOperand(0);
              // the tag itself is not a number
              if (isa<Argument>(x) && fieldOptions(F) >= 0 && F.getName().contains("deserialize_unpacked")) found.emplace(std::make_pair("misfiled", siteOf(I)), fnName(F));
            }
            bool narrowed = false, from = false;
            std::vector<const Value *> wl{val};
            std::set<const Value *> seen;
            auto &h = hands[(int)S.x[Hand]];
            while (!wl.empty()) {
              auto *v = wl.back(); wl.pop_back();
              if (!seen.insert(v).second) continue;
              if (h.count(v) || isa<Argument>(v) || isa<CallBase>(v)) { from = true; }
              if (auto *z = dyn_cast<ZExtInst>(v); z && z->getSrcTy()->isIntegerTy(32)) narrowed = true;
              if (auto *l = dyn_cast<LoadInst>(v)) { auto *p = l->getPointerOperand()->stripInBoundsOffsets(); if (h.count(p) || !isa<AllocaInst>(p)) from = true; for (auto *u : p->users()) if (auto *st = dyn_cast<StoreInst>(u)) wl.push_back(st->getValueOperand()); else if (isa<CallBase>(u)) from = true; continue; }
              if (auto *u = dyn_cast<Instruction>(v); u && !isa<CallBase>(u)) for (auto &op : u->operands()) if (!isa<Constant>(op.get())) wl.push_back(op.get());
            }
            if (narrowed) found.emplace(std::make_pair("altered", siteOf(I)), fnName(F));
            else if (!from || isa<Constant>(val)) found.emplace(std::make_pair("altered", siteOf(I)), fnName(F));
          }
          return true;
        }
        if (tests.count(T)) { // a library algorithm that applies the test to a range
          if (dec) filters[CB] = &F;
          if (!S.x.count(Raw) || !partial(CB, (int)S.x[Raw])) S.x.erase(Raw);
          return true;
        }
        if ((dec && scalarReadBy(*T)) || (decoder(*T) && T != &F)) for (int r : {Hand, Must, Used}) S.x.erase(int(r));
        bool read = dec && scalarReadBy(*T), packed = dec && packedRead(F, *T);
        std::set<int> raw;
        if (read || packed) {
          auto [it, fresh] = originOf.emplace(CB, (int)origins.size() + 1);
          if (fresh) { origins.push_back({siteOf(*CB), fnName(F)}); rep.bump("reads"); }
          raw.insert(packed ? -it->second : it->second);
        }
        bool lost = false;
        std::set<int64_t> rejects;
        for (auto *t : ts)
          if (auto it = sums.find(t); it != sums.end()) {
            raw.insert(it->second.raw.begin(), it->second.raw.end());
            lost |= it->second.lost;
            rejects.insert(it->second.rejects.begin(), it->second.rejects.end());
          }
        if (raw.empty() && rejects.empty() && !lost) return true;
        Kind k = resultKind(*T);
        bool st = CB->getType()->isIntegerTy(32) && k == KStatus;
        if (raw.size() > 1) while (raw.size() > 5) raw.erase(std::prev(raw.end()));
        for (int64_t c : rejects) {
          PState f = S;
          f.env[&I] = Fact::constant(c);
          int id = idOf(CB);
          // what the callee was to decode into must not be used now
          if (!hands.count(id)) {
            std::set<const Value *> h;
            for (auto &a : CB->args())
              if (auto *al = dyn_cast<AllocaInst>(a.get()->stripInBoundsOffsets()); al && al->getAllocatedType()->isIntegerTy(32)) { auto q = handlesOf(al); h.insert(q.begin(), q.end()); }
            hands[id] = h;
          }
          setReg(f, Hand, id);
          setReg(f, Must, id);
          setReg(f, Pending, lost ? id : 0);
          setReg(f, Raw, 0);
          alts.push_back(std::move(f));
        }
        if (st) {
          PState f = S;
          f.env[&I] = Fact::nonzero();
          f.x.erase(Raw);
          alts.push_back(std::move(f));
          S.env[&I] = Fact::constant(0);
        }
        for (auto it = raw.begin(); it != raw.end(); ++it) {
          if (std::next(it) == raw.end()) setReg(S, Raw, *it);
          else { PState f = S; setReg(f, Raw, *it); alts.push_back(std::move(f)); }
        }
        return true;
      };
      E.onExit = [&](PState &S, Instruction &T) {
        auto *Rt = dyn_cast<ReturnInst>(&T);
        if (!Rt) return;
        rep.bump("returns");
        int64_t code = 0;
        bool f = Rt->getReturnValue() && F.getReturnType()->isIntegerTy(32) && resultKind(F) == KStatus && failing(E, S, Rt->getReturnValue(), code);
        auto siteOfId = [&](int64_t id) { for (auto &[cb, i] : ids) if (i == id) return siteOf(*cb); return siteOf(F); };
        if (f) {
          if (S.x.count(Must) && code > 0) {
            out.rejects.insert(code);
            rejectSite.emplace(&F, siteOfId(S.x[Must]));
            if (S.x.count(Pending)) { out.lost = true; lostSite.emplace(&F, siteOfId(S.x[Pending])); }
          } else if (S.x.count(Must)) { out.rejects.insert(75); rejectSite.emplace(&F, siteOfId(S.x[Must])); if (S.x.count(Pending)) { out.lost = true; lostSite.emplace(&F, siteOfId(S.x[Pending])); } }
          return;
        }
        if (S.x.count(Raw)) out.raw.insert((int)S.x[Raw]);
        if (F.getReturnType()->isIntegerTy(1) && Rt->getReturnValue() && S.x.count(6)) {
          Fact v = E.eval(S, Rt->getReturnValue());
          if (v.k == Fact::Const && S.x.count(Must) && v.c == 0) out.keepsBad = true;
          if (v.k != Fact::Unknown && !S.x.count(Must) && !(v.k == Fact::Const && v.c == 0)) out.dropsGood = true;
        }
        if (S.x.count(Used) && S.x.count(Must) && !F.getReturnType()->isIntegerTy(1))
          for (auto &[i, n] : useIds) if (n == S.x[Used]) found.emplace(std::make_pair("kept", siteOf(*i)), fnName(F));
        if (S.x.count(Pending)) {
          int64_t id = S.x[Pending];
          std::string site = siteOfId(id);
          for (auto &[cb, i] : ids) if (i == id) for (auto *t : R.callees(*cb)) if (lostSite.count(t)) site = lostSite[t];
          if (F.getReturnType()->isIntegerTy(1)) { out.lost = true; lostSite.emplace(&F, site); } // a predicate; its caller is told
          else found.emplace(std::make_pair("lost", site), fnName(F));
        }
      };
      PState init;
      E.run(init);
      overflow |= E.overflowed;
      rep.bump("paths", E.explored);
      if (dec && !out.raw.empty()) {}
      return out;
    };
    std::set<Function *> dirty;
    for (auto &F : *M) if (!F.isDeclaration()) dirty.insert(&F);
    std::set<const Function *> counted;
    while (!dirty.empty()) {
      auto *F = *dirty.begin();
      dirty.erase(dirty.begin());
      if (isTest(*F) || isAside(*F) || scalarReadBy(*F)) continue;
      if (decoder(*F) && counted.insert(F).second) rep.bump("decoders");
      Sum s = analyse(*F);
      Sum &old = sums[F];
      bool ch = s.raw != old.raw || s.lost != old.lost || s.rejects != old.rejects;
      // only grows, so that it ends
      old.raw.insert(s.raw.begin(), s.raw.end());
      old.rejects.insert(s.rejects.begin(), s.rejects.end());
      old.lost |= s.lost;
      old.keepsBad |= s.keepsBad;
      old.dropsGood |= s.dropsGood;
      if (ch) for (auto *c : callers[F]) dirty.insert(c);
    }
    for (auto &[cb, fn] : filters) {
      std::string n;
      for (auto *t : R.callees(*cb)) n = demangled(t->getName());
      bool removes = n.find("remove_if") != std::string::npos || n.find("erase_if") != std::string::npos;
      rep.bump("filters");
      std::vector<Function *> wl = R.callees(*cb);
      std::set<Function *> seen;
      while (!wl.empty()) {
        auto *t = wl.back(); wl.pop_back();
        if (!seen.insert(t).second || !tests.count(t) || isTest(*t)) continue;
        bool lambda = false;
        if (t->getReturnType()->isIntegerTy(1)) for (auto &I : instructions(*t)) if (auto *c = dyn_cast<CallBase>(&I)) for (auto *x : R.callees(*c)) lambda |= isTest(*x);
        if (lambda) {
          auto &s = sums[t];
          if (s.lost) found.emplace(std::make_pair("lost", lostSite.count(t) ? lostSite[t] : siteOf(*cb)), fnName(*fn));
          if (removes && s.keepsBad) found.emplace(std::make_pair("kept", siteOf(*cb)), fnName(*fn));
          if (removes && s.dropsGood) found.emplace(std::make_pair("discarded", siteOf(*cb)), fnName(*fn));
        }
        for (auto &I : instructions(*t)) if (auto *c = dyn_cast<CallBase>(&I)) for (auto *x : R.callees(*c)) wl.push_back(x);
      }
    }
    if (overflow) rep.broken.push_back("state overflow in " + file);
    for (auto &F : *M) for (auto &I : instructions(F)) if (auto *CB = dyn_cast<CallBase>(&I)) for (auto *T : R.callees(*CB)) if (isTest(*T)) rep.bump("tests");
    for (auto &[k, fn] : found)
      rep.violation(k.first, fn, k.second, k.first == "kept" ? "a value the closed enum does not have is stored" : k.first == "discarded" ? "a value the closed enum has is taken out" : k.first == "misfiled" ? "what the closed enum does not have is set aside under another number" : k.first == "altered" ? "what is set aside is not the value that was read" : "a value the closed enum does not have is dropped without being kept as an unknown field");
    std::set<int> reported;
    for (auto &F : *M) {
      if (F.isDeclaration() || !F.getName().starts_with("vproot_")) continue;
      rep.bump("roots");
      auto &s = sums[&F];
      for (int r : s.raw)
        if (reported.insert(std::abs(r)).second)
          rep.violation(origins[std::abs(r) - 1].second.find("map_entry<") != std::string::npos ? "unchecked-map-value" : "unchecked", origins[std::abs(r) - 1].second, origins[std::abs(r) - 1].first, "the value decoded here is accepted without the enum having been asked whether it has it (reached from " + F.getName().str() + ")");
      bool rejects = false;
      for (auto &I : instructions(F)) if (auto *CB = dyn_cast<CallBase>(&I)) for (auto *T : R.callees(*CB)) rejects |= sums.count(T) && !sums[T].rejects.empty();
      if (rejects) {
        const Function *cur = &F;
        std::set<const Function *> seen;
        for (bool go = true; go && seen.insert(cur).second;) {
          go = false;
          for (auto &I : instructions(*cur)) {
            if (auto *CB = dyn_cast<CallBase>(&I)) for (auto *T : R.callees(*CB)) if (!go && !seen.count(T) && sums.count(T) && !sums[T].rejects.empty() && !decoder(*T)) { cur = T; go = true; break; }
            if (go) break;
          }
        }
        rep.violation("rejected", fnName(*cur), rejectSite.count(cur) ? rejectSite[cur] : siteOf(*cur), "decoding fails because of a value the closed enum does not have (reached from " + F.getName().str() + ")");
      }
    }
  }
  return 0;
}
static Register r1("enums", cmdEnums);

// globals: mutable static storage reachable from API roots      reach: forbidden callees reachable from roots
#include "core.h"
#include <regex>

struct Reach {
  std::map<Function *, std::pair<Function *, const Instruction *>> parent;
  std::vector<Function *> order;
};

// only_hpp: unused. stop: functions not traversed further
static Reach reachFrom(Module &M, CallResolver &R, const std::vector<Function *> &roots,
                       const std::function<bool(const CallBase &)> &skipCall = {}) {
  Reach out;
  std::vector<Function *> wl;
  for (auto *F : roots) {
    out.parent[F] = {nullptr, nullptr};
    wl.push_back(F);
  }
  while (!wl.empty()) {
    Function *F = wl.back();
    wl.pop_back();
    out.order.push_back(F);
    for (auto &I : instructions(*F)) {
      auto add = [&](Function *C) {
        if (C->isIntrinsic())
          return;
        if (out.parent.emplace(C, std::make_pair(F, &I)).second)
          wl.push_back(C);
      };
      if (auto *CB = dyn_cast<CallBase>(&I)) {
        if (skipCall && skipCall(*CB))
          continue;
        bool direct = CB->getCalledFunction() != nullptr;
        if (direct)
          add(CB->getCalledFunction());
        else {
          // virtual dispatch (vtable load) is resolved only through constant tables; the address-taken fallback is
          // used for plain function pointers
          for (auto *C : R.callees(*CB))
            add(C);
        }
      }
      // functions whose address is taken here may be called by whoever receives it
      for (auto &Op : I.operands())
        if (auto *C = dyn_cast<Function>(Op->stripPointerCasts()))
          if (!isa<CallBase>(&I) || Op.get() != cast<CallBase>(I).getCalledOperand())
            add(C);
    }
  }
  return out;
}

static std::vector<Function *> rootsOf(Module &M, const std::string &prefix) {
  std::vector<Function *> v;
  for (auto &F : M)
    if (!F.isDeclaration() && F.getName().starts_with(prefix))
      v.push_back(&F);
  return v;
}

static json::Array chain(const Reach &r, Function *F) {
  std::vector<std::string> s;
  for (int k = 0; F && k < 40; ++k) {
    auto it = r.parent.find(F);
    if (it == r.parent.end())
      break;
    std::string e = fnName(*F);
    if (it->second.second)
      e += " called at " + siteOf(*it->second.second);
    s.push_back(e);
    F = it->second.first;
  }
  json::Array a;
  for (auto i = s.rbegin(); i != s.rend(); ++i)
    a.push_back(*i);
  return a;
}

static bool isConstType(const DIType *T) {
  while (T) {
    if (auto *D = dyn_cast<DIDerivedType>(T)) {
      if (D->getTag() == dwarf::DW_TAG_const_type)
        return true;
      if (D->getTag() == dwarf::DW_TAG_typedef) {
        T = D->getBaseType();
        continue;
      }
    }
    if (auto *C = dyn_cast<DICompositeType>(T))
      if (C->getTag() == dwarf::DW_TAG_array_type) {
        T = C->getBaseType();
        continue;
      }
    break;
  }
  return false;
}

/// declared to return a pointer or reference to const
static bool returnsConst(const Function &F) {
  auto *SP = F.getSubprogram();
  if (!SP || !SP->getType() || SP->getType()->getTypeArray().size() == 0)
    return false;
  auto *D = dyn_cast_or_null<DIDerivedType>(SP->getType()->getTypeArray()[0]);
  if (!D || (D->getTag() != dwarf::DW_TAG_pointer_type && D->getTag() != dwarf::DW_TAG_reference_type))
    return false;
  const DIType *T = D->getBaseType();
  for (; T;) {
    auto *B = dyn_cast<DIDerivedType>(T);
    if (!B)
      return false;
    if (B->getTag() == dwarf::DW_TAG_const_type)
      return true;
    if (B->getTag() != dwarf::DW_TAG_typedef)
      return false;
    T = B->getBaseType();
  }
  return false;
}

static bool guardedInitOnly(GlobalVariable &G, std::string &why, const Instruction *&bad) {
  std::vector<std::pair<const User *, const Value *>> wl;
  std::set<const User *> seen;
  for (auto *U : G.users())
    wl.push_back({U, &G});
  std::map<const Function *, std::unique_ptr<DominatorTree>> dts;
  while (!wl.empty()) {
    auto [U, via] = wl.back();
    wl.pop_back();
    if (!seen.insert(U).second)
      continue;
    if (isa<Constant>(U)) {
      for (auto *UU : U->users())
        wl.push_back({UU, U});
      continue;
    }
    auto *I = dyn_cast<Instruction>(U);
    if (!I)
      continue;
    if (isa<LoadInst>(I) || isa<ICmpInst>(I) || isa<DbgInfoIntrinsic>(I))
      continue;
    if (isa<ReturnInst>(I) && returnsConst(*I->getFunction()))
      continue;
    if (isa<GetElementPtrInst>(I) || isa<PHINode>(I) || isa<SelectInst>(I) || isa<BitCastInst>(I)) {
      for (auto *UU : I->users())
        wl.push_back({UU, I});
      continue;
    }
    if (I->isLifetimeStartOrEnd())
      continue;
    if (auto *CB = dyn_cast<CallBase>(I)) {
      bool ro = false;
      for (unsigned k = 0; k < CB->arg_size(); ++k)
        if (CB->getArgOperand(k) == via)
          ro |= CB->onlyReadsMemory(k);
      if (auto *mt = dyn_cast<MemTransferInst>(CB))
        ro |= mt->getSource() == via && mt->getDest() != via;
      if (ro)
        continue;
    }
    const Function *F = I->getFunction();
    if (F->getName().starts_with("_GLOBAL__") || F->getName().starts_with("__cxx_global_var_init"))
      continue; // namespace-scope dynamic initialiser
    auto &dt = dts[F];
    if (!dt)
      dt = std::make_unique<DominatorTree>(*const_cast<Function *>(F));
    bool ok = false;
    for (auto &J : instructions(*F))
      if (auto *CB = dyn_cast<CallBase>(&J))
        if (CB->getCalledFunction() && CB->getCalledFunction()->getName() == "__cxa_guard_acquire") {
          auto *gv = dyn_cast<GlobalVariable>(CB->getArgOperand(0)->stripPointerCasts());
          StringRef n = G.getName();
          if (!gv || !n.consume_front("_Z") || gv->getName() != ("_ZGV" + n).str())
            continue;
          for (auto *UC : CB->users())
            for (auto *UU : UC->users())
              if (auto *B = dyn_cast<BranchInst>(UU))
                if (B->isConditional() && isa<ICmpInst>(UC)) {
                  auto p = cast<ICmpInst>(UC)->getPredicate();
                  BasicBlock *init = B->getSuccessor(p == CmpInst::ICMP_NE ? 0 : 1);
                  if (dt->dominates(BasicBlockEdge(B->getParent(), init), I->getParent()))
                    // the initialiser ends with the release: a write after the join is not dominated
                    ok = true;
                }
        }
    if (!ok) {
      bad = I;
      why = isa<StoreInst>(I) ? "written outside its initialiser" : "its address is handed out mutable";
      return false;
    }
  }
  return true;
}

static int cmdGlobals(const Options &o, Report &rep) {
  std::set<std::string> done;
  for (auto &file : o.files) {
    LLVMContext C;
    auto M = loadModule(C, file);
    PrepPolicy P;
    prepare(*M, P);
    CallResolver R(*M);
    auto roots = rootsOf(*M, o.one("root", "vproot_"));
    rep.bump("roots", roots.size());
    Reach r = reachFrom(*M, R, roots);
    for (auto *F : r.order)
      if (!F->isDeclaration()) {
        rep.bump("functions");
        if (inRepo(*F))
          rep.bump("repo_functions");
      }
    std::map<GlobalVariable *, Function *> used;
    std::function<void(const Value *, Function *, std::set<const Value *> &)> walk =
        [&](const Value *V, Function *F, std::set<const Value *> &seen) {
          if (!isa<Constant>(V) || !seen.insert(V).second)
            return;
          if (auto *G = dyn_cast<GlobalVariable>(V)) {
            used.emplace(const_cast<GlobalVariable *>(G), F);
            if (G->isConstant() && G->hasInitializer())
              walk(G->getInitializer(), F, seen);
            return;
          }
          if (isa<Function>(V))
            return;
          for (auto &Op : cast<User>(V)->operands())
            walk(Op, F, seen);
        };
    for (auto *F : r.order) {
      std::set<const Value *> seen;
      for (auto &I : instructions(*F))
        for (auto &Op : I.operands())
          walk(Op, F, seen);
    }
    for (auto &[G, F] : used) {
      rep.bump("static_objects");
      if (G->isConstant())
        continue;
      StringRef n = G->getName();
      if (n.starts_with("_ZGV") || n.starts_with("_ZTV") || n.starts_with("_ZTI") || n.starts_with("_ZTS") ||
          n.starts_with("_ZGR") || n.starts_with("llvm.") || n == "__dso_handle")
        continue;
      SmallVector<DIGlobalVariableExpression *, 1> dbg;
      G->getDebugInfo(dbg);
      std::string site = "?";
      const DIType *T = nullptr;
      bool repo = false;
      if (!dbg.empty()) {
        auto *DV = dbg[0]->getVariable();
        StringRef f = DV->getFilename();
        site = f.str() + ":" + std::to_string(DV->getLine());
        T = DV->getType();
        repo = StringRef(f).starts_with("/repo/") ||
               (!f.starts_with("/") && StringRef(DV->getDirectory()).starts_with("/repo"));
        if (f.starts_with("/verif/") )
          repo = false;
      } else if (!G->isDeclaration())
        repo = inRepo(*F);
      if (!repo)
        continue;
      rep.bump("mutable_candidates");
      if (T && isConstType(T) && !G->isThreadLocal()) {
        rep.note("const after initialisation: " + demangled(n) + " at " + site);
        continue;
      }
      std::string why;
      const Instruction *bad = nullptr;
      if (!G->isThreadLocal() && guardedInitOnly(*G, why, bad)) {
        rep.note("written only by its guarded initialiser: " + demangled(n) + " at " + site);
        continue;
      }
      if (!done.insert(n.str()).second)
        continue;
      std::string msg = std::string(G->isThreadLocal() ? "thread-local" : "static") + " storage '" + demangled(n) +
                        "' declared at " + site + " is reachable from the API and " +
                        (G->isThreadLocal() ? "persists between calls" : why);
      rep.violation("mutable-static-storage", fnName(*F), bad ? siteOf(*bad) : site, msg, chain(r, F));
    }
    // a thread_local with dynamic initialisation is reached through its wrapper
  }
  return 0;
}
static Register r1("globals", cmdGlobals);

static int cmdReach(const Options &o, Report &rep) {
  std::vector<std::regex> forb;
  for (auto &s : o.all("forbid"))
    forb.emplace_back(s);
  for (auto &file : o.files) {
    LLVMContext C;
    auto M = loadModule(C, file);
    PrepPolicy P;
    prepare(*M, P);
    CallResolver R(*M);
    for (auto *root : rootsOf(*M, o.one("root", "vproot_"))) {
      rep.bump("roots");
      Reach r = reachFrom(*M, R, {root}, [&](const CallBase &CB) {
        // virtual calls on the caller's memory resource / sink are the caller's business
        return !CB.getCalledFunction() && !isa<Function>(CB.getCalledOperand()->stripPointerCasts());
      });
      for (auto *F : r.order) {
        if (!F->isDeclaration())
          rep.bump(inRepo(*F) ? "repo_functions" : "other_functions");
        std::string d = demangled(F->getName());
        for (auto &rx : forb)
          if (std::regex_search(d, rx)) {
            auto &p = r.parent[F];
            // report the innermost repository function on the chain
            Function *cur = F;
            const Instruction *at = p.second;
            while (cur && !inRepo(*cur)) {
              at = r.parent[cur].second;
              cur = r.parent[cur].first;
            }
            rep.violation("forbidden-callee", cur ? fnName(*cur) : fnName(*F), at ? siteOf(*at) : "?",
                          "'" + d + "' is reachable from " + root->getName().str(), chain(r, F));
            break;
          }
      }
    }
  }
  return 0;
}
static Register r2("reach", cmdReach);

// ---- determinism: what the output may depend on
static const DIType *bare(const DIType *T) {
  while (auto *D = dyn_cast_or_null<DIDerivedType>(T)) {
    if (D->getTag() == dwarf::DW_TAG_pointer_type) return T;
    T = D->getBaseType();
  }
  return T;
}
/// pointee of an object pointer parameter (through references); empty: not one
static std::string objectPointee(const DIType *T) {
  for (int k = 0; T && k < 8; ++k) {
    auto *D = dyn_cast<DIDerivedType>(T);
    if (!D) return "";
    if (D->getTag() == dwarf::DW_TAG_pointer_type) {
      auto *B = bare(D->getBaseType());
      auto *C = dyn_cast_or_null<DICompositeType>(B);
      return C ? C->getName().str() : "";
    }
    T = D->getBaseType();
  }
  return "";
}
static int cmdDeterminism(const Options &o, Report &rep) {
  std::vector<std::pair<std::regex, std::string>> forb;
  auto F = [&](const char *rx, const char *what) { forb.push_back({std::regex(rx), what}); };
  F(R"(^(time|clock|gettimeofday|clock_gettime|timespec_get|localtime|localtime_r|gmtime|gmtime_r|mktime|strftime|ftime)$|^std::chrono::(_V2::)?\w+_clock::now|^std::chrono::.*tzdb)", "the clock");
  F(R"(^(rand|srand|random|srandom|drand48|lrand48|rand_r|arc4random\w*|getrandom|getentropy|mkstemp|tmpnam)$|^std::random_device::)", "a random source");
  F(R"(^(secure_)?getenv$|^(getpid|getppid|getuid|geteuid|gethostname|uname|getcwd|get_current_dir_name|getlogin|pthread_self|gettid|sched_getcpu|sysconf)$|^std::filesystem::(__cxx11::)?(current_path|absolute|canonical|weakly_canonical|exists|status|file_size|last_write_time|temp_directory_path|equivalent|read_symlink|is_directory|is_regular_file|directory_iterator)|^std::this_thread::get_id|^std::thread::hardware_concurrency)", "the environment of the process");
  F(R"(^(setlocale|newlocale|uselocale|localeconv|nl_langinfo)$|^std::locale::(global|locale\((char const\*|std::__cxx11::basic_string)))", "the locale");
  if (!o.has("files_allowed")) F(R"(^(fopen|fopen64|freopen|open|open64|openat|opendir|readdir|popen|system|stat|access)$|^std::basic_(i|o)?fstream<.*>::(basic_(i|o)?fstream|open)\(|^std::basic_filebuf<.*>::open\()", "files");
  // hashing a string or a number gives the same order every time; hashing an address does not
  std::regex hashStep(R"(_Node_(const_)?iterator<(std::pair<)?[^,<]*(<.*>)?[^,<]*\* ?(const)?,.*>::operator\+\+)");
  std::regex hashOwn(R"(std::_Hashtable<|^(\S+ )*std::__detail::|^std::unordered_)");
  F(R"(^std::hash<.*\*>::operator\(\)|^std::type_info::(before|hash_code)|^std::_Hash_impl.*\*const&)", "addresses of objects (their hash)");
  F(R"(basic_format_arg<.*>::basic_format_arg<(void|void const)\*>|operator<<\(void const\*\))", "addresses of objects (their text)");
  std::regex ptrLess(R"(^(bool |decltype\(auto\) )?std::(ranges::)?(less|greater|less_equal|greater_equal)(<.*\*>::operator\(\)|(<void>)?::operator\(\)<.*\* ?(const)?&?, ))");
  std::regex exempt(o.one("same_array", "^$"));
  for (auto &file : o.files) {
    LLVMContext C;
    auto M = loadModule(C, file);
    PrepPolicy P;
    prepare(*M, P);
    CallResolver R(*M);
    std::vector<Function *> roots;
    for (auto &p : o.all("roots")) for (auto *f : rootsOf(*M, p)) roots.push_back(f);
    rep.bump("roots", roots.size());
    auto inits = rootsOf(*M, "_GLOBAL__sub_I");
    roots.insert(roots.end(), inits.begin(), inits.end());
    Reach r = reachFrom(*M, R, roots);
    auto report = [&](Function *G, const Instruction *at0, const std::string &what) {
      Function *cur = G;
      const Instruction *at = at0;
      while (cur && !inRepo(*cur)) { at = r.parent[cur].second; cur = r.parent[cur].first; }
      rep.violation("output-depends", cur ? fnName(*cur) : fnName(*G), at ? siteOf(*at) : "?", "what is generated can depend on " + what, chain(r, G));
    };
    for (auto *G : r.order) {
      rep.bump(G->isDeclaration() ? "external_functions" : inRepo(*G) ? "repo_functions" : "library_functions");
      if (G->getName().starts_with("_ZSt") && G->getName().contains("__format")) continue; // its dispatch over every argument type
      std::string d = demangled(G->getName());
      for (auto &[rx, what] : forb) if (std::regex_search(d, rx)) { report(G, nullptr, what); break; }
      if (G->isDeclaration()) continue;
      auto *SP = G->getSubprogram();
      // the table's own walk along a chain does not choose an order
      if (!std::regex_search(d.substr(0, d.find('(')), hashOwn))
        for (auto &I : instructions(*G))
          if (auto *CB = dyn_cast<CallBase>(&I))
            if (auto *H = CB->getCalledFunction(); H && H->getName().contains("Node_") && std::regex_search(demangled(H->getName()), hashStep))
              report(G, &I, "the order of a hash table of addresses");
      // comparing addresses
      for (auto &I : instructions(*G)) {
        if (auto *IC = dyn_cast<ICmpInst>(&I); IC && IC->isRelational() && IC->getOperand(0)->getType()->isPointerTy() && SP) {
          rep.bump("address_comparisons");
          auto paramOf = [&](const Value *V) -> std::string {
            if (auto *CB = dyn_cast<CallBase>(V)) {
              auto *H = CB->getCalledFunction();
              auto *HP = H ? H->getSubprogram() : nullptr;
              if (!HP || !HP->getType() || !HP->getType()->getTypeArray().size()) return "";
              const DIType *T = HP->getType()->getTypeArray()[0];
              if (auto *RT = dyn_cast_or_null<DIDerivedType>(T); RT && RT->getTag() == dwarf::DW_TAG_reference_type) {
                auto *B = bare(RT->getBaseType());
                auto *K = dyn_cast_or_null<DICompositeType>(B);
                return K && K->getTag() != dwarf::DW_TAG_array_type ? K->getName().str() : "";
              }
              return objectPointee(T);
            }
            if (auto *L = dyn_cast<LoadInst>(V)) V = L->getPointerOperand();
            auto *A = dyn_cast<Argument>(V);
            if (!A) return "";
            auto *ST = SP->getType();
            if (!ST) return "";
            auto T = ST->getTypeArray();
            unsigned k = A->getArgNo() + 1;
            if (G->hasStructRetAttr()) --k;
            return k < T.size() ? objectPointee(T[k]) : "";
          };
          auto a = paramOf(IC->getOperand(0)), b = paramOf(IC->getOperand(1));
          bool cmp = inRepo(*G) || std::regex_search(d, ptrLess);
          if (cmp && !a.empty() && !b.empty() && !std::regex_search(a, exempt)) report(G, &I, "the addresses of objects (" + a + ")");
        }
        if (auto *PI = dyn_cast<PtrToIntInst>(&I); PI && inRepo(*G)) {
          bool diff = true; // a distance within one array
          for (auto *U : PI->users()) if (!isa<BinaryOperator>(U) || cast<BinaryOperator>(U)->getOpcode() != Instruction::Sub) diff = false;
          rep.bump("address_numbers");
          if (!diff) report(G, &I, "the addresses of objects");
        }
      }
    }
  }
  return 0;
}
static Register r2d("determinism", cmdDeterminism);

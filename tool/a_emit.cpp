// emit: schema text reaches generated C++ only through validated or escaped spellings
#include "walker.h"
#include "llvm/Analysis/LoopInfo.h"
#include <regex>
namespace {
const char *NS = "hpp_proto::protoc::cpp::";
std::string dem(const Function &F) { return demangled(F.getName()); }
bool keepLex(Function &F) {
  StringRef n = F.getName();
  if (n.starts_with("_ZNKSt7__cxx1112basic_stringIc")) return false;
  if (isStrFn(n)) return !(n.contains("4dataEv") || n.contains("5beginEv") || n.contains("3endEv") || n.contains("5frontEv") || n.contains("ixEm") || n.contains("4backEv"));
  std::string d = dem(F);
  if (inRepo(F)) {
    // factories, and constructors from text
    static const std::regex re("hpp_proto::protoc::cpp::(identifier|qualified_name|file_descriptor_name|include_path|numeric_literal|comment_text|string_literal_bytes|source_fragment)::\\w+\\(.*\\)( const)?");
    if (std::regex_match(d, re) && d.find("::$_") == std::string::npos && d.find("lambda") == std::string::npos && !std::regex_search(d, std::regex("::(view|str|empty)\\(\\)|\\((hpp_proto::protoc::cpp::\\w+(&&| const&)|)\\)$"))) return true;
    return false;
  }
  return StringRef(d).contains("std::format") || StringRef(d).contains("std::vformat") || StringRef(d).contains("from_chars") || StringRef(d).contains("unordered_set") || n.contains("__throw") || n.starts_with("_ZNKSt17basic_string_viewIcSt11char_traitsIcEE4find") || n.starts_with("_ZNKSt17basic_string_viewIcSt11char_traitsIcEE8contains") || n.starts_with("_ZNKSt17basic_string_viewIcSt11char_traitsIcEE7compare") || n.starts_with("_ZNKSt17basic_string_viewIcSt11char_traitsIcEE1") || StringRef(d).starts_with("bool std::operator==<char") || StringRef(d).starts_with("std::operator<=><char") || StringRef(d).contains("_Hashtable");
}

} // namespace
static int cmdEmitDump(const Options &o, Report &) {
  LLVMContext C;
  auto M = loadModule(C, o.files[0]);
  PrepPolicy P;
  prepare(*M, P);
  inlineAll(*M, keepLex);
  std::regex rx(o.one("fn"));
  for (auto &F : *M)
    if (!F.isDeclaration() && std::regex_search(dem(F), rx)) F.print(errs());
  return 0;
}
static Register rd("emitdump", cmdEmitDump);
namespace {
const std::vector<std::string> Keywords = {
    "alignas", "alignof", "and", "and_eq", "asm", "auto", "bitand", "bitor", "bool", "break", "case", "catch", "char", "char8_t", "char16_t", "char32_t", "class", "compl",
    "concept", "const", "consteval", "constexpr", "constinit", "const_cast", "continue", "co_await", "co_return", "co_yield", "decltype", "default", "delete", "do", "double",
    "dynamic_cast", "else", "enum", "explicit", "export", "extern", "false", "float", "for", "friend", "goto", "if", "inline", "int", "long", "mutable", "namespace", "new",
    "noexcept", "not", "not_eq", "nullptr", "operator", "or", "or_eq", "private", "protected", "public", "register", "reinterpret_cast", "requires", "return", "short", "signed",
    "sizeof", "static", "static_assert", "static_cast", "struct", "switch", "template", "this", "thread_local", "throw", "true", "try", "typedef", "typeid", "typename", "union",
    "unsigned", "using", "virtual", "void", "volatile", "wchar_t", "while", "xor", "xor_eq", "NULL"};
bool idStart(int c) { return c == '_' || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
bool idCont(int c) { return idStart(c) || (c >= '0' && c <= '9'); }
std::string hexByte(int b) { std::string r; raw_string_ostream o(r); o << format("0x%02x", b); if (b > 32 && b < 127) o << " '" << (char)b << "'"; return o.str(); }
/// what a C++ compiler reads for the spelling of one byte inside "…", -1 if it is not one byte, -2 if it needs the next
int literalByte(const std::string &s) {
  auto u = [](char c) { return (unsigned char)c; };
  if (s.size() == 1) return u(s[0]) >= 0x20 && u(s[0]) < 0x7f && s[0] != '"' && s[0] != '\\' && s[0] != '?' ? u(s[0]) : -1;
  if (s.size() < 2 || s[0] != '\\') return -1;
  if (s.size() == 2) {
    static const std::map<char, int> m = {{'a', 7}, {'b', 8}, {'t', 9}, {'n', 10}, {'v', 11}, {'f', 12}, {'r', 13}, {'"', '"'}, {'\'', '\''}, {'\\', '\\'}, {'?', '?'}};
    auto i = m.find(s[1]);
    return i == m.end() ? (s[1] >= '0' && s[1] <= '7' ? -2 : -1) : i->second;
  }
  int v = 0;
  for (size_t i = 1; i < s.size(); ++i) { if (s[i] < '0' || s[i] > '7') return -1; v = v * 8 + (s[i] - '0'); }
  return s.size() == 4 ? (v < 256 ? v : -1) : -2;
}
struct Outcome { bool cont = false, sink = false; std::vector<std::tuple<std::string, bool, bool>> spell; bool sinkUnknown = false; };
} // namespace

static void lexical(Module &M, Report &rep) {
  static const std::regex ctorRe("hpp_proto::protoc::cpp::(\\w+)::\\1\\(std::__cxx11::basic_string<char.*>\\)");
  std::map<const Function *, std::string> ctors; // constructor from finished text -> class
  for (auto &F : M) {
    std::smatch m;
    std::string d = dem(F);
    if (std::regex_match(d, m, ctorRe)) ctors[&F] = m[1];
  }
  // keyword table
  {
    std::set<std::string> have;
    for (auto &G : M.globals())
      if (G.hasInitializer() && G.isConstant())
        if (auto *A = dyn_cast<ConstantDataArray>(G.getInitializer()); A && A->isString()) have.insert(A->getAsString().rtrim('\0').str());
    bool any = have.count("alignas") || have.count("while");
    if (!any) rep.note("keyword table not found");
    for (auto &k : Keywords)
      if (any) { rep.bump("keywords"); if (!have.count(k)) rep.violation("R-keyword", "cpp_keywords", "src/protoc-plugin/cpp_lexical_emitter.cpp", "the C++ keyword '" + k + "' is not in the keyword table: a declaration of that name would be generated verbatim"); }
  }
  for (auto &F : M) {
    if (F.isDeclaration() || !inRepo(F)) continue;
    std::string d = dem(F);
    if (!StringRef(d).starts_with(NS) || ctors.count(&F)) continue;
    // text parameters
    std::vector<Argument *> text;
    bool formats = false;
    for (auto &pt : paramTypeNames(F)) if (pt.find("format_string") != std::string::npos) formats = true;
    if (formats) continue;
    for (unsigned i = 1; i < F.arg_size(); ++i) if (F.getArg(i)->getType()->isPointerTy() && F.getArg(i - 1)->getType()->isIntegerTy(64)) text.push_back(F.getArg(i));
    std::string cls;
    {
      std::smatch m;
      if (std::regex_search(d, m, std::regex("^hpp_proto::protoc::cpp::(\\w+)::"))) cls = m[1];
    }
    bool selfCtor = cls.size() && StringRef(d).contains(cls + "::" + cls + "(");
    std::set<std::string> sinkCls;
    for (auto &I : instructions(F))
      if (auto *CB = dyn_cast<CallBase>(&I); CB && CB->getCalledFunction() && ctors.count(CB->getCalledFunction())) sinkCls.insert(ctors[CB->getCalledFunction()]);
    if (selfCtor) sinkCls.insert(cls);
    if (text.empty() || sinkCls.empty()) continue;
    rep.bump("factories");
    WState init;
    for (auto *A : text) init.vt[A] = RAW;
    if (selfCtor) init.taint.clear();
    DominatorTree DT(F);
    LoopInfo LI(DT);
    // byte loads: the instructions which, on some path from the entry, read a byte of the text
    std::map<LoadInst *, Loop *> byteLoads;
    std::map<LoadInst *, int64_t> at; // constant offset, or -1
    {
      Walker W(F);
      W.maxVisits = 2;
      W.onEnd = [&](WState &S, Instruction &) { for (auto *v : S.seen) byteLoads[const_cast<LoadInst *>(cast<LoadInst>(v))] = nullptr; };
      W.onCall = [&](WState &S, CallBase &CB) { if (CB.getCalledFunction() && ctors.count(CB.getCalledFunction())) for (auto *v : S.seen) byteLoads[const_cast<LoadInst *>(cast<LoadInst>(v))] = nullptr; return true; };
      W.run(init, &*F.getEntryBlock().getFirstNonPHIOrDbg());
      if (W.overflow) { rep.note("undecided: too many paths in " + d); rep.bump("undecided"); continue; }
      rep.bump("paths", W.paths);
    }
    for (auto &[L, lp] : byteLoads) {
      lp = LI.getLoopFor(L->getParent());
      APInt off(64, 0);
      auto *b = L->getPointerOperand()->stripAndAccumulateConstantOffsets(M.getDataLayout(), off, true);
      at[L] = lp ? -1 : (isa<Argument>(b) || isa<LoadInst>(b) ? off.getSExtValue() : -1);
    }
    // facts that hold at an instruction because of the branches above it
    auto dominating = [&](WState &S, Walker &W, Instruction *I) {
      for (auto *N = DT.getNode(I->getParent()); N && N->getIDom(); N = N->getIDom()) {
        auto *B = N->getIDom()->getBlock();
        auto *Br = dyn_cast<BranchInst>(B->getTerminator());
        if (!Br || !Br->isConditional() || Br->getSuccessor(0) == Br->getSuccessor(1)) continue;
        for (int k : {0, 1}) {
          auto *su = Br->getSuccessor(k);
          if (su->getSinglePredecessor() && DT.dominates(su, I->getParent()))
            if (auto *ci = dyn_cast<Instruction>(Br->getCondition())) W.assume(S, ci, k == 0);
        }
      }
    };
    std::string sinkName = *sinkCls.begin();
    auto explore = [&](LoadInst *L, int b) {
      Outcome o;
      Walker W(F);
      WState S = init;
      auto *lp = byteLoads[L];
      if (lp) W.stopAt = lp->getHeader();
      for (auto &[x, l2] : byteLoads) if (x != L && l2) W.stopLoads.insert(x);
      // pointers the function keeps in memory: what the text arguments were stored to
      dominating(S, W, L);
      S.env[L] = AV::num((int64_t)(signed char)b);
      S.vt[L] = BYTE;
      S.visits[L->getParent()] = 1;
      W.onStop = [&](WState &T, const Instruction *) { o.cont = true; o.spell.push_back({T.out, T.outUnknown, T.outMany}); };
      W.onCall = [&](WState &T, CallBase &CB) {
        if (CB.getCalledFunction() && ctors.count(CB.getCalledFunction())) { o.sink = true; return false; }
        return true;
      };
      W.run(S, L);
      rep.bump("paths", W.paths);
      if (W.overflow) o.sinkUnknown = true;
      return o;
    };
    // what each byte loop lets through, and how it spells it
    struct LoopInfoR { std::set<int> cont, sink; bool appends = false, unknown = false; std::map<int, std::set<std::string>> spell; };
    std::map<LoadInst *, LoopInfoR> loops;
    std::map<LoadInst *, std::set<int>> point; // single loads: the values with which text can still be accepted
    for (auto &[L, lp] : byteLoads) {
      rep.bump("byte_tests", 256);
      if (lp) {
        auto &r = loops[L];
        for (int b = 0; b < 256; ++b) {
          auto o = explore(L, b);
          if (o.cont) r.cont.insert(b);
          if (o.sink) r.sink.insert(b);
          for (auto &[s, u, m] : o.spell) {
            if (u || m || o.sinkUnknown) r.unknown = true;
            if (!s.empty()) r.appends = true;
            r.spell[b].insert(s);
          }
        }
      } else if (at[L] == 0) {
        for (int b = 0; b < 256; ++b) if (explore(L, b).sink) point[L].insert(b);
      }
    }
    for (auto &[L, r] : loops) rep.note("loop " + siteOf(*L) + " in " + fnName(F) + ": lets " + std::to_string(r.cont.size()) + " byte values through" + (r.appends ? ", spelling them" : ""));
    // byte-wise spellings
    bool isLiteral = sinkCls.count("string_literal_bytes"), isComment = sinkCls.count("comment_text"), isInclude = sinkCls.count("include_path"), isIdent = sinkCls.count("identifier");
    for (auto &[L, r] : loops) {
      if (!r.appends) continue;
      if (r.unknown) { rep.bump("undecided"); rep.note("undecided: spelling of bytes at " + siteOf(*L)); continue; }
      for (auto &[b, ss] : r.spell) for (auto &s : ss) {
        rep.bump("spellings");
        std::string bad;
        if (isLiteral) {
          int v = literalByte(s);
          if (v == -2) bad = "spelled so that it would swallow a digit that follows";
          else if (v != b) bad = s.empty() ? "dropped" : "not spelled as an escape for itself";
        } else if (isComment) {
          for (char c : s) if ((unsigned char)c < 0x20 || (unsigned char)c >= 0x7f || c == '?') bad = "put into a comment unescaped";
          if (!s.empty() && s.back() == '\\') bad = "spelled with a final backslash, which would splice the next line into the comment";
        } else if (isInclude) {
          for (char c : s) if ((unsigned char)c < 0x20 || c == '"' || c == '\\') bad = "put into an include path";
        } else if (isIdent) {
          for (char c : s) if (!idCont((unsigned char)c)) bad = "put into an identifier";
        }
        if (!bad.empty()) { rep.violation("R-spelling", fnName(F), siteOf(*L), "byte " + hexByte(b) + " of the schema text is " + bad + " (as \"" + s + "\")"); goto next; }
      }
    next:;
    }
    // paths to the constructors from finished text
    Walker W(F);
    std::set<std::pair<const CallBase *, std::string>> told;
    auto tell = [&](const CallBase &CB, std::string rule, std::string msg) {
      if (told.insert({&CB, rule}).second) rep.violation(rule, fnName(F), siteOf(CB), msg);
    };
    bool library = false; // searches through the text by the library: shapes this analysis does not read
    for (auto &I : instructions(F))
      if (auto *CB = dyn_cast<CallBase>(&I); CB && CB->getCalledFunction()) {
        StringRef n = CB->getCalledFunction()->getName();
        if (n.contains("17find_first_not_of") || n.contains("13find_first_of") || n.contains("__find_if") || n.contains("regex")) library = true;
      }
    // the number of bits asked for is that of the type parsed into
    auto fullWidth = [&](WState &S) {
      for (auto &A : F.args())
        if (A.getType()->isIntegerTy() && !A.getType()->isIntegerTy(1)) { AV v = W.get(S, &A); if (v.k == AV::Int && v.i == 64) return true; }
      return false;
    };
    W.onCall = [&](WState &S, CallBase &CB) {
      auto *T = CB.getCalledFunction();
      if (!T) return true;
      StringRef n = T->getName();
      std::string td = dem(*T);
      int t = 0;
      for (auto &a : CB.args()) if (a->getType()->isPointerTy()) t |= W.taintOf(S, a);
      if (n.contains("from_chars")) {
        S.bits |= Conv;
        if (td.find("float&") != std::string::npos || td.find("double&") != std::string::npos || n.contains("PKcS0_Rf") || n.contains("PKcS0_Rd")) S.bits |= ConvFloat;
        S.bits &= ~(FullPtr | EcOk | Finite | Bounded);
        return true;
      }
      auto c = ctors.find(T);
      bool self = selfCtor && isStrFn(n) && W.get(S, CB.getArgOperand(0)).b == F.getArg(0) && !n.ends_with("D2Ev") && !n.contains("7reserve");
      if (c == ctors.end() && !self) return true;
      std::string k = self ? cls : c->second;
      if (self) {
        int raw = 0;
        for (unsigned i = 1; i < CB.arg_size(); ++i) if (CB.getArgOperand(i)->getType()->isPointerTy()) raw |= W.taintOf(S, CB.getArgOperand(i));
        if (raw & RAW) tell(CB, "R-raw", "schema text is copied into a " + k + " without being escaped");
        rep.bump("constructions");
        return true;
      }
      rep.bump("constructions");
      int at_ = W.taintOf(S, CB.getArgOperand(1));
      if (!(at_ & RAW)) return false;
      if (k == "numeric_literal") {
        bool conv = (S.bits & Conv) != 0;
        if (S.bits & EqConst) return false;
        if (!conv) tell(CB, "R-number", "text becomes a numeric literal without having been parsed or recognised");
        else if (!(S.bits & FullPtr)) tell(CB, "R-number", "text becomes a numeric literal although the parser need not have consumed all of it");
        else if (!(S.bits & EcOk)) tell(CB, "R-number", "text becomes a numeric literal although parsing it may have failed");
        else if ((S.bits & ConvFloat) && !(S.bits & Finite)) tell(CB, "R-number", "text becomes a floating-point literal without a test that its value is finite");
        else if (!(S.bits & ConvFloat) && !(S.bits & Bounded) && !fullWidth(S)) tell(CB, "R-number", "text becomes an integer literal without its magnitude having been compared with the limit of the type");
        return false;
      }
      auto allowed = [&](int b) { return k == "include_path" ? b >= 0x20 && b != '"' && b != '\\' : k == "qualified_name" ? idCont(b) || b == ':' : idCont(b); };
      // a loop over the text on this path whose every continuation is allowed
      const LoopInfoR *best = nullptr;
      std::string worst;
      bool anyLoop = false;
      for (auto &[L, r] : loops) {
        if (r.appends) continue;
        auto *H = byteLoads[L]->getHeader();
        if (!S.visits.count(H)) continue;
        anyLoop = true;
        bool ok = true;
        for (int b : r.cont) if (!allowed(b)) { ok = false; if (worst.empty()) worst = "byte " + hexByte(b) + " passes the check at " + siteOf(*L); }
        for (int b : r.sink) if (!allowed(b)) { ok = false; if (worst.empty()) worst = "byte " + hexByte(b) + " leads to acceptance from the check at " + siteOf(*L); }
        if (ok) best = &r;
      }
      if (!best) {
        if (library) { rep.bump("undecided"); return false; }
        tell(CB, "R-raw", "schema text becomes " + std::string(k == "identifier" ? "an " : "a ") + k + (anyLoop ? " although " + worst : " on a path on which its characters were not checked"));
        return false;
      }
      if (k == "identifier") {
        bool first = false;
        std::string why2 = "its first character is never tested";
        for (auto &[L, set] : point)
          if (S.seen.count(L)) {
            bool ok = true;
            for (int b : set) if (!idStart(b)) { ok = false; why2 = "a first character " + hexByte(b) + " is accepted"; }
            first |= ok;
          }
        if (!first && !library) tell(CB, "R-raw", "schema text becomes an identifier although " + why2);
        if (!(S.bits & Kw)) tell(CB, "R-keyword", "schema text becomes an identifier without a lookup in the keyword table");
      }
      return false;
    };
    W.onAssume = [&](WState &S, Value &leaf, bool t) {
      if (auto *CB = dyn_cast<CallBase>(&leaf)) {
        auto *T = CB->getCalledFunction();
        if (!T) return;
        StringRef n = T->getName();
        if (n.contains("is.fpclass") && t) S.bits |= Finite;
        if ((n.contains("isfinite") || n.contains("__builtin_isfinite")) && t) S.bits |= Finite;
        if (n.starts_with("_ZSteqIcSt11char_traits")) {
          bool konst = false;
          for (auto &a : CB->args()) if (a->getType()->isPointerTy() && isa<Constant>(a)) konst = true;
          if (!konst) S.bits |= Kw;
        }
        if (n.starts_with("_ZSteqIcSt11char_traits") && t) {
          for (auto &a : CB->args()) if (W.bytes(W.get(S, a), -1) && W.get(S, a).b) S.bits |= EqConst;
        }
        if (n.contains("unordered_set") || n.contains("binary_search") || n.contains("_Hashtable")) { S.bits |= Kw; if (t) S.bits |= KwTrue; }
        return;
      }
      if (auto *C = dyn_cast<FCmpInst>(&leaf)) { (void)C; if (t) S.bits |= Finite; return; }
      auto *C = dyn_cast<ICmpInst>(&leaf);
      if (!C) return;
      auto fromConv = [&](Value *v) {
        v = v->stripPointerCasts();
        for (int i = 0; i < 4; ++i) {
          if (auto *E = dyn_cast<ExtractValueInst>(v)) v = E->getAggregateOperand();
          else if (auto *T = dyn_cast<CastInst>(v)) v = T->getOperand(0);
        }
        auto *CB = dyn_cast<CallBase>(v);
        return CB && CB->getCalledFunction() && CB->getCalledFunction()->getName().contains("from_chars");
      };
      Value *a = C->getOperand(0), *b = C->getOperand(1);
      bool eq = C->isEquality() && (C->getPredicate() == ICmpInst::ICMP_EQ) == t;
      if (a->getType()->isPointerTy() && C->isEquality()) {
        // a position the parser returned, found to be the end
        auto conv = [&](Value *v) {
          AV x = W.get(S, v);
          return fromConv(v) || (x.b && isa<Instruction>(x.b) && fromConv(const_cast<Value *>(x.b)));
        };
        if ((conv(a) || conv(b)) && eq) S.bits |= FullPtr;
        auto look = [&](Value *v) {
          std::set<Value *> seen;
          std::vector<Value *> wl{v};
          while (!wl.empty()) {
            auto *x = wl.back();
            wl.pop_back();
            if (!x || seen.size() > 40 || !seen.insert(x).second) continue;
            if (auto *cb = dyn_cast<CallBase>(x)) { if (auto *T = cb->getCalledFunction()) { auto n = T->getName(); for (auto k : {"unordered_set", "_Hashtable", "lower_bound", "4find", "6__find", "equal_range"}) if (n.contains(k)) return true; } continue; }
            if (auto *L = dyn_cast<LoadInst>(x)) { wl.push_back(L->getPointerOperand()); continue; }
            if (isa<AllocaInst>(x)) { for (auto *u : x->users()) { if (auto *st = dyn_cast<StoreInst>(u)) wl.push_back(st->getValueOperand()); if (isa<CallBase>(u)) wl.push_back(u); } continue; }
            if (auto *I = dyn_cast<Instruction>(x)) if (!isa<PHINode>(I)) for (auto &op : I->operands()) wl.push_back(op);
          }
          return false;
        };
        if (look(a) || look(b)) S.bits |= Kw;
      } else if (C->isEquality()) {
        if ((fromConv(a) || fromConv(b)) && eq) S.bits |= EcOk;
      }
      // an upper bound for a number: the edge on which it is not greater
      if (a->getType()->isIntegerTy(64) && C->isUnsigned() && (S.bits & Conv)) {
        bool gt = C->getPredicate() == ICmpInst::ICMP_UGT || C->getPredicate() == ICmpInst::ICMP_UGE;
        if (gt != t) S.bits |= Bounded;
      }
    };
    W.run(init, &*F.getEntryBlock().getFirstNonPHIOrDbg());
    rep.bump("paths", W.paths);
    if (W.overflow) { rep.bump("undecided"); rep.note("undecided: too many paths in " + d); }
    // names the C++ language reserves everywhere: two underscores, or an underscore and a capital
    if (StringRef(d).starts_with("hpp_proto::protoc::cpp::identifier::from_proto(") && text.size() == 1) {
      Argument *P = text[0], *N = F.getArg(P->getArgNo() - 1);
      std::string seconds = "_ABCDEFGHIJKLMNOPQRSTUVWXYZ";
      for (char c : seconds) {
        Walker R(F);
        R.maxVisits = 6;
        WState S = init;
        S.env[N] = AV::num(2);
        S.mem[{P, 0}] = AV::num('_');
        S.mem[{P, 1}] = AV::num(c);
        bool reached = false;
        std::string name = std::string("_") + c;
        R.onCall = [&](WState &T, CallBase &CB) {
          auto *G = CB.getCalledFunction();
          if (!G) return true;
          if (ctors.count(G)) { if (R.taintOf(T, CB.getArgOperand(1)) & RAW) reached = true; return false; }
          StringRef n = G->getName();
          if (n.starts_with("_ZNKSt17basic_string_viewIcSt11char_traitsIcEE") && (n.contains("8contains") || n.contains("4find"))) {
            std::optional<std::string> needle;
            for (unsigned i = 1; i < CB.arg_size(); ++i)
              if (CB.getArgOperand(i)->getType()->isPointerTy()) needle = R.bytes(R.get(T, CB.getArgOperand(i)), -1);
              else if (CB.getArgOperand(i)->getType()->isIntegerTy(8)) { AV x = R.get(T, CB.getArgOperand(i)); if (x.k == AV::Int) needle = std::string(1, (char)x.i); }
            if (needle) {
              auto p = name.find(*needle);
              T.env[&CB] = CB.getType()->isIntegerTy(1) ? AV::num(p == std::string::npos ? 0 : -1) : AV::num((int64_t)p);
            }
          }
          return true;
        };
        R.run(S, &*F.getEntryBlock().getFirstNonPHIOrDbg());
        rep.bump("reserved_names");
        rep.bump("paths", R.paths);
        if (R.overflow) { rep.bump("undecided"); break; }
        if (reached && !library) { rep.violation("R-reserved", fnName(F), siteOf(F), "a protobuf name containing '" + name + "', which C++ reserves, becomes an identifier"); break; }
      }
    }
  }
}
static int cmdEmit(const Options &o, Report &rep) {
  for (auto &f : o.files) {
    LLVMContext C;
    auto M = loadModule(C, f);
    for (auto &F : *M) if (!F.isDeclaration() && inRepo(F) && !F.getName().contains("6protoc3cpp")) { F.deleteBody(); F.setComdat(nullptr); }
    PrepPolicy P;
    prepare(*M, P);
    inlineAll(*M, keepLex);
    lexical(*M, rep);
  }
  return 0;
}
static Register re1("lexical", cmdEmit);

// grpc: every call is completed exactly once, with the right status, and a reactor is not used after it may be gone
#include "core.h"
#include <regex>
namespace {
enum { OK = 1, ERR = 2, USER = 3, UNK = 4 };
// registers of the automaton
enum { Codec = 0, NFinish = 1, NStart = 2, NCreate = 3, NOnDone = 4, Gone = 5, Claim = 6, NStartCall = 7, NCallback = 8, NHandlerVoid = 9, NHandlerBool = 10,
       Handled = 11, Cancelled = 12, NLast = 13, NSwap = 14, NOther = 15, InOk = 16, NDelete = 17, NAdd = 18, CancelQ = 19, NWrite = 20, Flag = 21, Filled = 22, Names = 23, NRaw = 24, Filled2 = 25, NReg = 26 };
std::string event(const Function &F) {
  std::string d = demangled(F.getName());
  static const std::regex re("^(void |static void )?grpc::.*::(Finish|StartWrite|StartWriteAndFinish|StartWriteLast|StartRead|StartCall|StartWritesDone|AddHold|AddMultipleHolds|RemoveHold|Create|set_last_message|Swap|IsCancelled|AddMethod)(<.*>)?\\(");
  std::smatch m;
  if (!F.getName().starts_with("_ZN4grpc") && !F.getName().starts_with("_ZNK4grpc")) return "";
  if (std::regex_search(d, m, re)) return m[2];
  return "";
}
bool adapter(const Function &F) { return StringRef(fileOf(F)).contains("include/hpp_proto/grpc/"); }
} // namespace

static int cmdGrpc(const Options &o, Report &rep) {
  for (auto &file : o.files) {
    LLVMContext C;
    auto M = loadModule(C, file);
    PrepPolicy P;
    P.leafInline = true;
    P.inlineLambdas = true;
    auto isGrpc = [](const Function &F) { return F.getName().starts_with("_ZN4grpc") || F.getName().starts_with("_ZNK4grpc"); };
    auto subject = [&](const Function &F) {
      StringRef n = F.getName();
      if (n.starts_with("vproot_g")) return true;
      std::string d = demangled(n);
      return !F.isDeclaration() && std::regex_search(d, std::regex("^hpp_proto::grpc::(ServerReactor|BasicServerReactor|CallbackUnaryCall)<.*>::On\\w+\\((bool|grpc::Status const&|)\\)$"));
    };
    P.keep = [&](Function &F) { return isGrpc(F) && !F.getName().contains("SerializationTraits"); };
    P.inlineIf = [&](Function &F) {
      StringRef n = F.getName();
      if (n.starts_with("vproot_")) return false;
      return adapter(F) || n.contains("SerializationTraits") || n.contains("uniq_ptr") || n.contains("default_delete") || n.contains("unique_ptr") || n.starts_with("_ZN7ServiceC") || n.starts_with("_ZN8ServiceBC") ||
             n.contains("CallbackService") || n.contains("5applyI") || n.contains("12__apply_impl") || n.contains("__invoke") || n.contains("construct_at");
    };
    prepare(*M, P);
    if (o.has("print")) { for (auto &F : *M) if (!F.isDeclaration() && F.getName().contains(o.one("print"))) F.print(errs()); return 0; }
    CallResolver R(*M);
    // which part of the reactor each operation uses, per method and side; the uses have to agree
    std::map<std::string, std::map<int64_t, std::vector<std::string>>> slots;
    auto methodOf = [](const std::string &fn) -> std::string {
      static const std::regex mem("(full|bare)?<?svc::(unary|cstream|sstream|bidi)"), rt("_(unary|cstream|sstream|bidi|u|c|s|b|sc|sb)(_|$)");
      std::smatch m;
      if (std::regex_search(fn, m, mem)) return m[2];
      if (fn.find("vproot_gcu") == 0) return "unary";
      if (std::regex_search(fn, m, rt)) {
        std::string k = m[1];
        if (k.size() == 2) k = k[1];
        return k == "u" ? "unary" : k == "c" ? "cstream" : k == "s" ? "sstream" : k == "b" ? "bidi" : k;
      }
      return "?";
    };
    for (auto &F : *M) {
      if (F.isDeclaration() || !subject(F)) continue;
      std::string name = F.getName().str(), dn = demangled(name);
      bool root = StringRef(name).starts_with("vproot_");
      std::string m; // the callback for member functions
      if (!root) { std::smatch sm; std::regex_search(dn, sm, std::regex("::(On\\w+)\\(")); m = sm[1]; }
      bool full = dn.find("full<svc::") != std::string::npos;
      bool onDoneClient = dn.find("CallbackUnaryCall<") != std::string::npos;
      auto has = [&](const char *s) { return name.find(s) != std::string::npos; };
      rep.bump("subjects");
      const Argument *self = nullptr, *result = nullptr;
      std::set<const Argument *> statusArgs;
      {
        // the object which a deletion or OnDone() may end
        unsigned i = 0;
        for (auto &A : F.args()) {
          if (!root && i == 0) self = &A;
          ++i;
        }
        if (root && F.arg_size()) {
          auto ps = paramTypeNames(F);
          for (unsigned k = 0; k < ps.size() && k < F.arg_size(); ++k) {
            if (ps[k] == "*Status") result = F.getArg(k);
            else if (ps[k] == "Status") statusArgs.insert(F.getArg(k));
            else if (StringRef(ps[k]).contains("ClientCallbackReactor") || StringRef(ps[k]).contains("ServerRPC")) self = F.getArg(k);
          }
        } else if (onDoneClient && m == "OnDone") { if (F.arg_size() > 1) statusArgs.insert(F.getArg(1)); }
      }
      const DataLayout &DL = M->getDataLayout();
      auto place = [&](const Value *v) {
        APInt off(64, 0);
        v = v->stripAndAccumulateConstantOffsets(DL, off, true);
        return std::make_pair(v, off.getSExtValue());
      };
      auto slot = [&](std::string role, const Value *v, const Value *base, std::string what) {
        auto p = place(v);
        if (base && p.first == base) slots[role][p.second].push_back(what + " in " + dn);
      };
      const std::string meth = methodOf(root ? name : dn);
      const bool server = has("vproot_gs") || (has("vproot_gf_") && has("_s") && (has("_sc") || has("_sb"))) || (!root && !onDoneClient);
      const Value *reactor = self;
      if (root && (has("vproot_gf_"))) reactor = F.getArg(0);
      if (root && (has("vproot_gcr_") || has("vproot_gcw_"))) reactor = F.getArg(1);
      std::map<const Value *, int> ids;
      auto key = [&](const Value *v) {
        v = v->stripPointerCasts();
        return 1000 + ids.emplace(v, (int)ids.size()).first->second;
      };
      PathEngine E(F);
      std::function<int(PState &, const Value *)> as = [&](PState &S, const Value *v) -> int {
        v = v->stripPointerCasts();
        if (auto *ld = dyn_cast<LoadInst>(v); ld && isa<GlobalVariable>(ld->getPointerOperand())) v = ld->getPointerOperand(); // const Status &OK
        if (auto *g = dyn_cast<GlobalVariable>(v)) {
          if (g->getName() == "_ZN4grpc6Status2OKE") return OK;
          if (g->getName() == "_ZN4grpc6Status9CANCELLEDE") return ERR;
        }
        if (auto *a = dyn_cast<Argument>(v); a && statusArgs.count(a)) { auto it = S.x.find(key(v)); return it == S.x.end() ? USER : (int)it->second; }
        if (auto *s = dyn_cast<SelectInst>(v)) {
          Fact f = E.eval(S, s->getCondition());
          if (f.k == Fact::Const) return as(S, f.c ? s->getTrueValue() : s->getFalseValue());
          int a = as(S, s->getTrueValue()), b = as(S, s->getFalseValue());
          return a == b ? a : UNK;
        }
        auto it = S.x.find(key(v));
        return it == S.x.end() ? UNK : (int)it->second;
      };
      std::set<std::string> reported;
      auto bad = [&](const char *rule, const Instruction &I, std::string msg) {
        if (reported.insert(std::string(rule) + msg).second) rep.violation(rule, fnName(F), siteOf(I), msg, E.trace());
      };
      std::function<bool(const Value *, int)> isSelf = [&](const Value *v, int d) -> bool {
        v = getUnderlyingObject(v);
        if (self && v == self) return true;
        if (auto *c = dyn_cast<CallBase>(v)) if (auto *t = c->getCalledFunction()) return has("vproot_gcu") && t->getName() == "_Znwm";
        if (auto *ph = dyn_cast<PHINode>(v); ph && d < 4) { for (auto &op : ph->incoming_values()) if (isSelf(op.get(), d + 1)) return true; }
        return false;
      };
      auto streaming = [&] { return has("vproot_gsf_c_") || has("vproot_gsf_s_") || has("vproot_gsf_b_") || has("vproot_gsw_") || (!root && !onDoneClient); };
      E.onInst = [&](PState &S, Instruction &I, std::vector<PState> &alts) {
        // nothing may touch the object once it may be gone
        if (S.x[Gone] && !isa<DbgInfoIntrinsic>(&I)) {
          bool touch = false;
          if (auto *ld = dyn_cast<LoadInst>(&I)) touch = isSelf(ld->getPointerOperand(), 0);
          else if (auto *st = dyn_cast<StoreInst>(&I)) touch = isSelf(st->getPointerOperand(), 0);
          else if (auto *cb = dyn_cast<CallBase>(&I); cb && !(isa<IntrinsicInst>(cb) && cb->getIntrinsicID() == Intrinsic::lifetime_end))
            for (auto &a : cb->args()) touch |= a->getType()->isPointerTy() && isSelf(a.get(), 0);
          if (touch) bad("use-after-completion", I, "the reactor is used after the call which may have deleted it");
        }
        if (auto *X = dyn_cast<AtomicRMWInst>(&I); X && X->getOperation() == AtomicRMWInst::Xchg && isSelf(X->getPointerOperand(), 0)) {
          PState won = S;
          S.x[Claim] = 2; // lost
          S.env[&I] = Fact::constant(1);
          won.x[Claim] = 1;
          won.env[&I] = Fact::constant(0);
          alts.push_back(std::move(won));
          return true;
        }
        if (auto *X = dyn_cast<AtomicCmpXchgInst>(&I); X && isSelf(X->getPointerOperand(), 0)) {
          S.x[Claim] = 3; // decided by the branch below
          return true;
        }
        if (auto *EV = dyn_cast<ExtractValueInst>(&I); EV && isa<AtomicCmpXchgInst>(EV->getAggregateOperand()) && EV->getIndices()[0] == 1) {
          PState won = S;
          S.x[Claim] = 2;
          S.env[&I] = Fact::constant(0);
          won.x[Claim] = 1;
          won.env[&I] = Fact::constant(-1);
          alts.push_back(std::move(won));
          return true;
        }
        auto *CB = dyn_cast<CallBase>(&I);
        if (!CB || isa<DbgInfoIntrinsic>(&I)) return true;
        auto *T = CB->getCalledFunction();
        auto arg = [&](unsigned i) { return CB->getArgOperand(i); };
        if (!T) {
          // a virtual call on the object: OnDone(status) or the deleting destructor
          if (CB->arg_size() >= 1 && isSelf(arg(0), 0)) {
            if (CB->arg_size() == 2) {
              S.x[NOnDone]++;
              if (as(S, arg(1)) != ERR) bad("wrong-status", I, "OnDone() is given a status which is not the error");
              S.x[Gone] = 1;
            } else if (CB->arg_size() == 1) { S.x[NDelete]++; S.x[Gone] = 1; }
          }
          return true;
        }
        StringRef n = T->getName();
        if (n.starts_with("_ZN4grpc6StatusC")) {
          if (CB->arg_size() == 1) S.x[key(arg(0))] = OK;
          else if (n.contains("ENS_10StatusCodeE")) {
            auto *c = dyn_cast<ConstantInt>(arg(1));
            S.x[key(arg(0))] = c ? (c->isZero() ? OK : ERR) : UNK;
          } else S.x[key(arg(0))] = as(S, arg(1));
          return true;
        }
        if (n.starts_with("_ZN4grpc6StatusaS")) { S.x[key(arg(0))] = as(S, arg(1)); return true; }
        if (n == "_ZNK4grpc6Status2okEv" || n == "_ZNK4grpc6Status10error_codeEv") {
          int a = as(S, arg(0));
          bool isCode = n != "_ZNK4grpc6Status2okEv";
          Fact good = isCode ? Fact::constant(0) : Fact::constant(-1), notGood = isCode ? Fact::nonzero() : Fact::constant(0);
          if (a == OK) S.env[&I] = good;
          else if (a == ERR) S.env[&I] = notGood;
          else if (S.x[InOk]) S.env[&I] = S.x[InOk] == 1 ? good : notGood;
          else {
            PState f = S;
            f.env[&I] = notGood;
            f.x[InOk] = 2;
            S.env[&I] = good;
            S.x[InOk] = 1;
            alts.push_back(std::move(f));
          }
          return true;
        }
        if (inRepo(*T) && resultKind(*T) == KStatus) {
          PState f = S;
          f.env[&I] = Fact::nonzero();
          f.x[Codec] = 2;
          S.env[&I] = Fact::constant(0);
          S.x[Codec] = 1;
          if (has("_opt") && !StringRef(n).contains("serialization_option_t") && !StringRef(n).contains("recursion_limit_t")) bad("option-dropped", I, "the serialization option is not handed to the codec");
          alts.push_back(std::move(f));
          return true;
        }
        std::string ev = event(*T);
        if (ev == "Finish" || ev == "StartWriteAndFinish") {
          S.x[NFinish]++;
          int a = as(S, arg(CB->arg_size() - 1));
          bool afw = ev != "Finish";
          if (streaming() && S.x[Claim] != 1) bad("unclaimed-finish", I, "a streaming call is finished here without having won the right to finish it");
          if (root) {
            if (S.x[Codec] == 2 && (a != ERR || afw)) bad("wrong-status", I, "a reply that failed to serialize is finished without the error");
            if (S.x[Codec] != 2 && has("_status") && a != USER) bad("wrong-status", I, "the status given by the handler is not the one sent");
            if (S.x[Codec] == 1 && !has("_status") && a != OK) bad("wrong-status", I, "a serialized reply is not finished with OK");
          } else {
            if (m == "OnWriteDone" && a != ERR && S.x[NHandlerVoid] == 0) bad("wrong-status", I, "a failed write can be finished as OK");
            if (m == "OnReadDone" && S.x[CancelQ] == 1 && a == OK) bad("wrong-status", I, "a cancelled call can be finished as OK");
          }
          if (afw && isa<AllocaInst>(getUnderlyingObject(arg(1)))) bad("buffer-lifetime", I, "gRPC is handed a buffer which does not outlive this call");
          return true;
        }
        if (ev == "StartWrite" || ev == "StartWriteLast") {
          S.x[NWrite]++;
          if (isa<AllocaInst>(getUnderlyingObject(arg(1)))) bad("buffer-lifetime", I, "gRPC is handed a buffer which does not outlive this call");
          if (S.x[Codec] == 2) bad("wrong-status", I, "a message which failed to serialize is written");
          if (has("_last_") && !S.x[NLast]) bad("missing-last", I, "the last message is not marked as the last");
        } else if (ev == "set_last_message") S.x[NLast] = 1;
        else if (ev == "Create") {
          S.x[NCreate]++;
          if (S.x[Codec] == 2) bad("wrong-status", I, "a call is made with a request which failed to serialize");
          for (unsigned k = 2; k < CB->arg_size(); ++k)
            if (arg(k)->getType()->isPointerTy() && isa<AllocaInst>(getUnderlyingObject(arg(k)))) bad("buffer-lifetime", I, "gRPC is handed an object which does not outlive this call");
        } else if (ev == "Swap") S.x[NSwap] = 1;
        else if (ev == "AddMethod") S.x[NAdd]++;
        else if (ev == "IsCancelled") {
          if (S.x[CancelQ]) { S.env[&I] = Fact::constant(S.x[CancelQ] == 1 ? -1 : 0); return true; }
          PState f = S;
          f.env[&I] = Fact::constant(0);
          f.x[CancelQ] = 2;
          S.env[&I] = Fact::constant(-1);
          S.x[CancelQ] = 1;
          alts.push_back(std::move(f));
          return true;
        } else if (!ev.empty()) {
          S.x[NOther]++;
          if (has("vproot_gf_") && !has(("vproot_gf_" + ev + "_").c_str())) bad("wrong-operation", I, "the call made is " + ev);
          if (ev == "StartRead" && isa<AllocaInst>(getUnderlyingObject(arg(1)))) bad("buffer-lifetime", I, "gRPC is handed a buffer which does not outlive this call");
          if (ev == "StartCall") S.x[NStartCall]++;
        }
        if (ev == "Swap" || n.starts_with("_ZN4grpc10ByteBufferaS")) {
          auto [b, off] = place(arg(0));
          S.x[Filled2] = S.x[Filled];
          S.x[Filled] = key(b) * 100000 + off;
          if (ev == "Swap") { auto [b2, off2] = place(arg(1)); S.x[Filled2] = key(b2) * 100000 + off2; }
        }
        if (ev == "StartWrite" || ev == "StartWriteAndFinish") {
          auto [b, off] = place(arg(1));
          if (S.x[Filled] != key(b) * 100000 + off && S.x[Filled2] != key(b) * 100000 + off) bad("wrong-buffer", I, "the buffer written is not the one which was filled");
        }
        if (ev == "Create" && !has("vproot_gcq_")) {
          auto [b, off] = place(arg(3));
          if (S.x[Filled] != key(b) * 100000 + off && S.x[Filled2] != key(b) * 100000 + off) bad("wrong-buffer", I, "the request sent is not the one which was serialized");
        }
        if (ev == "Create") {
          auto [sb, soff] = place(arg(1));
          if (isa<Argument>(sb)) slots["stub " + meth][soff].push_back("the method of a call in " + dn);
          const Value *r = arg(CB->arg_size() - 1)->stripPointerCasts();
          if (CB->arg_size() == 6 || has("vproot_gcq_cstream")) slot("client response " + meth, arg(CB->arg_size() - 2), r, "the response of a call");
        }
        if (ev == "StartRead") slot((server ? "server request " : "client response ") + meth, arg(1), reactor ? reactor : arg(0)->stripPointerCasts(), "the target of a read");
        if (n.contains("byte_buffer_access") && (has("vproot_gcr_") || onDoneClient)) slot("client response " + meth, arg(0), reactor, "the source of the response");
        if (n.contains("on_read_ok") && CB->arg_size() > 2) slot("server request " + meth, arg(2), reactor, "the request handed to the handler");
        if (n.starts_with("_ZN4grpc8internal16RpcServiceMethodC") || n.starts_with("_ZN4grpc8internal9RpcMethodC")) {
          StringRef str;
          auto *ty = dyn_cast<ConstantInt>(arg(n.contains("RpcServiceMethodC") ? 2 : CB->arg_size() - 2));
          static const std::map<std::string, std::pair<int, const char *>> want = {{"/S/u", {0, "unary"}}, {"/S/c", {1, "cstream"}}, {"/S/s", {2, "sstream"}}, {"/S/b", {3, "bidi"}}};
          if (ty && getConstantStringInfo(arg(1), str)) {
            auto it = want.find(str.str());
            if (it == want.end() || it->second.first != (int)ty->getSExtValue()) bad("wrong-method", I, "a method is registered under another's name or kind");
            else {
              S.x[Names] |= 1 << it->second.first;
              if (!n.contains("Service") && isa<Argument>(place(arg(0)).first)) { auto [b, off] = place(arg(0)); slots[std::string("stub ") + it->second.second][off].push_back("the method set up in " + dn); }
            }
          }
        }
        if (n.contains("16SetServerApiType")) {
          auto *c = dyn_cast<ConstantInt>(arg(1));
          if (!c || c->getSExtValue() != 4) bad("wrong-method", I, "a method is not registered for raw callbacks");
          else S.x[NRaw]++;
        }
        // the handler and the user's callback
        if (n.starts_with("_ZNK9opaque_cbclE")) {
          S.x[NCallback]++;
          int a = as(S, arg(1));
          if (S.x[Codec] == 2 && a != ERR) bad("wrong-status", I, "a response which failed to parse is reported with the status of the call");
          if (S.x[Codec] == 0 && S.x[InOk] == 1 && a != ERR) bad("wrong-status", I, "a successful call is reported without its response having been read");
          if (S.x[Codec] == 0 && S.x[InOk] != 1 && a != USER) bad("wrong-status", I, "the status of the call is not the one reported");
          if (S.x[Codec] == 1 && a == ERR) bad("wrong-status", I, "a call that went well is reported as failed");
        }
        if (n.starts_with("_ZN4fullI") || n.starts_with("_ZN4bareI")) {
          bool dtor = n.contains("D1Ev") || n.contains("D2Ev") || n.contains("C1E") || n.contains("C2E");
          if (!dtor) {
            if (CB->getType()->isIntegerTy(1)) {
              S.x[NHandlerBool]++;
              if (n.contains("on_read_cancel") && S.x[CancelQ] != 1) bad("wrong-callback", I, "on_read_cancel is called for a read which was not cancelled");
              if (n.contains("on_read_eof") && S.x[CancelQ] != 2) bad("wrong-callback", I, "on_read_eof is called for a cancelled read");
              PState f = S;
              f.env[&I] = Fact::constant(0);
              f.x[Handled] = 2;
              S.env[&I] = Fact::constant(-1);
              S.x[Handled] = 1;
              alts.push_back(std::move(f));
              return true;
            }
            S.x[NHandlerVoid]++;
            bool okCb = n.contains("on_read_ok") || n.contains("on_write_ok");
            if (okCb && F.arg_size() > 1) {
              if (S.x[Flag] != 1) bad("wrong-callback", I, "the success callback is called for an operation that failed");
            }
          }
        }
        return true;
      };
      // a call which throws has not ended the object (OnDone() deletes it last)
      E.onInvokeEdge = [&](PState &S, InvokeInst &I, bool unwind) {
        if (unwind && !I.getCalledFunction()) S.x[Gone] = 0;
        return true;
      };
      E.onExit = [&](PState &S, Instruction &T) {
        if (!isa<ReturnInst>(T)) return;
        auto n = [&](int r) { return S.x.count(r) ? S.x[r] : 0; };
        rep.bump("paths_checked");
        auto once = [&](int64_t k, std::string what) {
          if (k == 0) bad("not-completed", T, "there is a way through on which " + what + " does not happen");
          else if (k > 1) bad("completed-twice", T, "there is a way through on which " + what + " happens more than once");
        };
        if (has("vproot_gb_") || has("vproot_gcr_")) {
          int a = result ? as(S, result) : UNK;
          if (n(Codec) == 1 && a != OK) bad("wrong-status", T, "a successful operation is not reported as OK");
          if (n(Codec) != 1 && a != ERR) bad("wrong-status", T, "an operation that failed, or was not done, is not reported as an error");
          if (has("_write") || has("_ser")) if (n(Codec) == 1 && !n(NSwap)) bad("no-output", T, "the serialized bytes are not handed to the caller's buffer");
        } else if (has("vproot_gcp_")) {
          once(n(NCreate) + n(NOnDone), "starting the call or reporting its failure");
          if (n(NCreate) && n(Codec) != 1) bad("wrong-status", T, "the call is made without its request");
        } else if (has("vproot_gcq_")) once(n(NCreate), "making the call");
        else if (has("vproot_gcu_")) {
          once(n(NCreate) + n(NOnDone), "making the call or reporting its failure");
          if (n(NCreate)) once(n(NStartCall), "starting the call");
          if (n(NOnDone) && n(NStartCall)) bad("completed-twice", T, "a call already reported as failed is started");
          if (n(NDelete)) bad("completed-twice", T, "the reactor of a call under way is deleted");
        } else if (has("vproot_gcw_")) {
          int a = result ? as(S, result) : UNK;
          if (n(Codec) == 1) { once(n(NWrite), "the write"); if (a != OK) bad("wrong-status", T, "a write under way is not reported as OK"); }
          else if (a != ERR || n(NWrite)) bad("wrong-status", T, "a request which failed to serialize is not reported as an error");
        } else if (has("vproot_gf_")) once(n(NOther), "the operation");
        else if (has("vproot_gsf_")) {
          if (n(Claim) == 2) { if (n(NFinish)) bad("completed-twice", T, "a call somebody else finished is finished again"); }
          else once(n(NFinish), "finishing the call");
        } else if (has("vproot_gsw_")) {
          if (n(Codec) == 2) { if (n(Claim) != 2) once(n(NFinish), "finishing a call whose message failed to serialize"); }
          else { once(n(NWrite), "the write"); if (n(NFinish)) bad("completed-twice", T, "a written message also finishes the call"); }
        } else if (has("vproot_gv_")) {
          if (has("stub")) { if (n(Names) != 15) bad("wrong-method", T, "the stub does not know every method by its name"); return; }
          if (n(NRaw) != 4 || n(Names) != 15) bad("wrong-method", T, "the service does not register every method by its name");
          if (n(NAdd) != 4) bad("not-registered", T, "a method with a handler is not registered");
        } else if (onDoneClient) {
          once(n(NCallback), "calling the user's function");
          once(n(NDelete), "deleting the reactor");
        } else if (m == "OnDone") {
          if (full) once(n(NHandlerVoid), "telling the handler");
          once(n(NDelete), "deleting the reactor");
        } else if (m == "OnReadDone" || m == "OnWriteDone") {
          if (n(Flag) == 1) {
            once(n(NHandlerVoid), "telling the handler");
            if (n(NFinish)) bad("completed-twice", T, "a successful operation finishes the call");
          } else {
            if (full) once(n(NHandlerBool), "asking the handler");
            if (n(Handled) == 1) { if (n(NFinish)) bad("completed-twice", T, "a call which the handler took care of is finished again"); }
            else if (n(Claim) == 2) { if (n(NFinish)) bad("completed-twice", T, "a call somebody else finished is finished again"); }
            else once(n(NFinish), "finishing a call nobody took care of");
          }
        } else if (full && (m == "OnCancel" || m == "OnSendInitialMetadataDone")) once(n(NHandlerVoid), "telling the handler");
      };
      PState init;
      for (int k = 0; k < NReg; ++k) init.x[k] = 0;
      // explore both values of the ok flag
      if (!root && F.arg_size() > 1 && F.getArg(1)->getType()->isIntegerTy(1)) {
        for (int v : {0, -1}) { PState s = init; s.x[Flag] = v ? 1 : 2; s.env[F.getArg(1)] = Fact::constant(v); E.run(s); }
      } else E.run(init);
      if (E.overflowed) rep.broken.push_back("state overflow in " + fnName(F));
      rep.bump("paths", E.explored);
      rep.note(fnName(F));
    }
    for (auto &[role, offs] : slots) {
      rep.bump("agreements");
      if (offs.size() < 2) continue;
      std::string msg = "the uses of the " + role + " buffer do not agree: ";
      for (auto &[o2, w] : offs) msg += w[0] + " (offset " + std::to_string(o2) + "); ";
      rep.violation("wrong-buffer", role, "/repo/include/hpp_proto/grpc/", msg, {});
    }
    if (o.has("slots")) for (auto &[r, os] : slots) for (auto &[k, w] : os) for (auto &x : w) errs() << r << " " << k << " " << x << "\n";
  }
  return 0;
}
static Register r1("grpc", cmdGrpc);

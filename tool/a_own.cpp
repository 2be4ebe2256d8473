// own: what the owning sub-message holders do with the objects they own, under every outcome of the element's and the
// allocator's operations (ownership typestate over an abstract heap)
#include "heap.h"
using namespace heap;
namespace {
struct Op { const char *name; std::vector<const char *> params; };
// H holder, R raw memory, T element, A allocator, G construction argument
const Op ops[] = {
    {"copy_ctor", {"R", "H"}}, {"move_ctor", {"R", "H"}}, {"copy_ctor_alloc", {"R", "H", "A"}}, {"move_ctor_alloc", {"R", "H", "A"}},
    {"default_ctor", {"R"}}, {"default_ctor_alloc", {"R", "A"}}, {"value_ctor", {"R", "T"}}, {"value_move_ctor", {"R", "T"}},
    {"value_move_ctor_alloc", {"R", "T", "A"}}, {"inplace_ctor", {"R", "G"}}, {"inplace_ctor_alloc", {"R", "G", "A"}},
    {"dtor", {"H"}}, {"copy_assign", {"H", "H"}}, {"move_assign", {"H", "H"}}, {"value_move_assign", {"H", "T"}}, {"value_assign", {"H", "T"}},
    {"swap", {"H", "H"}}, {"emplace", {"H", "G"}}, {"emplace_copy", {"H", "T"}}, {"reset", {"H"}}, {"equal", {"H", "H"}},
};
struct Own {
  Report &rep;
  Interp in;
  Function *root = nullptr;
  const Op *op = nullptr;
  bool optional = false, tagged = false, aliased = false;
  std::vector<int> params;
  std::vector<int> cells0; // none
  std::set<std::string> seen;
  std::string site(State &S, const Instruction *at) {
    // innermost frame in the repository
    if (at && inRepo(*at->getFunction())) return siteOf(*at);
    for (auto i = S.st.rbegin(); i != S.st.rend(); ++i)
      if (i->F && inRepo(*i->F)) {
        const Instruction *I = &*i->it;
        return siteOf(*I);
      }
    return siteOf(*root);
  }
  std::string rootName() {
    std::string n = in.name(root);
    auto a = n.find("own_roots<"), b = n.rfind(">::");
    std::string h = a == std::string::npos ? n : n.substr(a + 10, b - a - 10);
    return h + ", " + op->name + (aliased ? " with itself" : "");
  }
  void bad(State &S, const char *rule, const std::string &msg, const Instruction *at, bool kill = true) {
    std::string st = site(S, at);
    std::string fn;
    for (auto i = S.st.rbegin(); i != S.st.rend(); ++i)
      if (inRepo(*i->F)) { fn = fnName(*i->F); break; }
    if (fn.empty()) fn = S.reg.count("lastfn") ? fnName(*root) : fnName(*root);
    if (seen.insert(std::string(rule) + st + op->name).second) {
      json::Array tr;
      for (auto &t : S.trace) tr.push_back(t);
      rep.violation(rule, fn, st, rootName() + ": " + msg, std::move(tr));
    }
    if (kill) S.dead = true;
  }
  // the typestate of the element at a location
  int life(State &S, const Val &v) {
    if (v.obj < 0) return -1;
    auto &o = S.objs[v.obj];
    auto i = o.life.find(v.c);
    return i == o.life.end() ? 0 : i->second;
  }
  bool use(State &S, const Val &v, const char *what, const CallBase &CB) {
    rep.bump("element_uses");
    if (v.isNull() && !optional) { // a source that was moved from may only be assigned to or destroyed
      std::string o = op->name;
      if (S.reg.count("none:H1") || o == "swap" || o == "equal" || aliased) { S.dead = true; return false; }
    }
    if (v.isNull()) { bad(S, "null-element", std::string(what) + " through a null pointer", &CB); return false; }
    if (v.obj >= 0 && v.s.empty()) {
      if (S.objs[v.obj].cell == 2) { bad(S, "used-after-release", std::string(what) + " of an element whose memory was given back", &CB); return false; }
      if (life(S, v) != 1 && S.objs[v.obj].kind != Obj::Global) { bad(S, "not-alive", std::string(what) + " of an element that is not alive", &CB); return false; }
    } else if (v.obj < 0 && v.s.size() && S.reg.count("otherNull")) { S.dead = true; return false; }
    return true;
  }
  static bool has(const std::string &d, const char *s) { return d.find(s) != std::string::npos; }
  Val content(State &S, const Val &v) {
    if (v.obj < 0) return S.fresh();
    auto &c = S.objs[v.obj].content;
    auto i = c.find(v.c);
    if (i == c.end()) return c[v.c] = S.fresh();
    return i->second;
  }
  bool model(State &S, const CallBase &CB, Function *F, const std::string &d, const std::vector<Val> &a, std::vector<Outcome> &outs) {
    if (!F->isDeclaration()) return false;
    auto trace = [&](State &T, const std::string &t) { T.trace.push_back(site(T, &CB) + " " + t); };
    bool mayThrow = !CB.doesNotThrow() && !F->doesNotThrow();
    auto unwinding = [&](const std::string &what) {
      if (!mayThrow) return;
      State T = S;
      trace(T, what + " throws");
      outs.push_back({std::move(T), Val(), true});
    };
    if (has(d, "::allocate(")) {
      rep.bump("allocations");
      unwinding("allocate");
      int o = S.newObj("new cell", Obj::Heap);
      S.objs[o].cell = 1;
      if (has(d, "Tag<")) S.objs[o].owner = loadId(S, a[0]);
      trace(S, "allocate");
      outs.push_back({S, Val::ptr(o), false});
      return true;
    }
    if (has(d, "::deallocate(")) {
      rep.bump("releases");
      if (a[1].isNull()) { bad(S, "null-release", "a null pointer is given back to the allocator", &CB); return true; }
      if (a[1].obj >= 0) {
        auto &o = S.objs[a[1].obj];
        if (o.cell == 2) { bad(S, "double-release", "memory is given back twice", &CB); return true; }
        if (life(S, a[1]) == 1) { bad(S, "released-alive", "memory is given back while its element is alive", &CB); return true; }
        if (o.cell != 1) { bad(S, "foreign-release", "memory that was not allocated is given back", &CB); return true; }
        if (has(d, "Tag<")) {
          Val id = loadId(S, a[0]);
          if (!sameId(S, id, o.owner)) { bad(S, "wrong-allocator", "memory is given back to another allocator than the one it came from", &CB); return true; }
        }
        o.cell = 2;
      }
      trace(S, "deallocate");
      outs.push_back({S, Val(), false});
      return true;
    }
    if (has(d, "::operator==(vpo::Tag<")) {
      Val x = loadId(S, a[0]), y = loadId(S, a[1]);
      if (x == y) { outs.push_back({S, Val::k(1), false}); return true; }
      auto k = idKey(x, y);
      auto i = S.assume.find(k);
      for (int v = 0; v < 2; ++v)
        if (i == S.assume.end() || i->second == bool(v)) {
          State T = S;
          T.assume[k] = v;
          trace(T, v ? "the allocators are equal" : "the allocators differ");
          outs.push_back({std::move(T), Val::k(v), false});
        }
      return true;
    }
    if (!has(d, "vpo::T::") && !has(d, "vpo::Arg")) return false;
    if (has(d, "::T::~T(")) {
      if (!use(S, a[0], "destruction", CB)) return true;
      S.objs[std::max(0, a[0].obj)].life[a[0].c] = 2;
      trace(S, "destroy");
      outs.push_back({S, Val(), false});
      return true;
    }
    if (has(d, "::T::T(")) {
      rep.bump("constructions");
      bool from = has(d, "T::T(vpo::T");
      if (from && !use(S, a[1], "copy or move", CB)) return true;
      if (a[0].isNull()) { bad(S, "null-element", "construction through a null pointer", &CB); return true; }
      if (a[0].obj >= 0 && S.objs[a[0].obj].cell == 2) { bad(S, "used-after-release", "construction in memory that was given back", &CB); return true; }
      if (life(S, a[0]) == 1) { bad(S, "constructed-over", "an element is constructed over one that is alive", &CB); return true; }
      unwinding("construction");
      if (a[0].obj >= 0) {
        S.objs[a[0].obj].life[a[0].c] = 1;
        Val c = from ? content(S, a[1]) : has(d, "T::T(vpo::Arg") ? S.sym("made from the arguments") : S.sym("default");
        S.objs[a[0].obj].content[a[0].c] = c;
        if (has(d, "T::T(vpo::T&&") && a[1].obj >= 0) S.objs[a[1].obj].content[a[1].c] = S.sym("moved from");
      }
      trace(S, "construct");
      outs.push_back({S, Val(), false});
      return true;
    }
    if (has(d, "::T::operator=(")) {
      rep.bump("assignments");
      if (!use(S, a[0], "assignment to", CB) || !use(S, a[1], "assignment from", CB)) return true;
      unwinding("assignment");
      if (a[0].obj >= 0 && a[0] != a[1]) {
        Val c = content(S, a[1]);
        S.objs[a[0].obj].content[a[0].c] = c;
        if (has(d, "operator=(vpo::T&&") && a[1].obj >= 0) S.objs[a[1].obj].content[a[1].c] = S.sym("moved from");
      }
      trace(S, "assign");
      outs.push_back({S, a[0], false});
      return true;
    }
    if (has(d, "::T::operator==(")) {
      if (!use(S, a[0], "comparison", CB) || !use(S, a[1], "comparison", CB)) return true;
      unwinding("comparison");
      outs.push_back({S, S.fresh(), false});
      return true;
    }
    return false;
  }
  static std::string idKey(const Val &x, const Val &y) {
    auto a = Interp::key(x), b = Interp::key(y);
    if (b < a) std::swap(a, b);
    return "id:" + a + ":" + b;
  }
  bool sameId(State &S, const Val &x, const Val &y) {
    if (x == y) return true;
    auto i = S.assume.find(idKey(x, y));
    return i != S.assume.end() && i->second;
  }
  Val loadId(State &S, const Val &p) {
    if (p.obj < 0) return S.fresh();
    auto &m = S.objs[p.obj].mem;
    auto i = m.find(p.c);
    if (i != m.end()) return i->second;
    Val v = S.objs[p.obj].lazy ? S.sym("id of " + S.objs[p.obj].name) : S.fresh();
    S.objs[p.obj].mem[p.c] = v;
    return v;
  }
  int64_t ptrOff = -1;
  int hold(State &S, int o, int64_t off) {
    std::string n = S.objs[o].name;
    ptrOff = off;
    int c = S.newObj("cell of " + n, Obj::Heap);
    S.objs[c].cell = 1;
    S.objs[c].life[0] = 1;
    S.objs[c].content[0] = S.sym("content of " + n);
    S.objs[c].owner = S.sym("id of " + n);
    S.reg["some:" + n] = Val::ptr(c);
    S.trace.push_back(n + " holds an element");
    return c;
  }
  void lazy(State &S, int o, int64_t off, Type *T, std::vector<std::pair<State, Val>> &outs) {
    std::string n = S.objs[o].name;
    if (S.objs[o].kind != Obj::Param || n[0] != 'H') return;
    if (!T->isPointerTy()) {
      if (tagged && T->isIntegerTy(64)) outs.push_back({S, S.sym("id of " + n)});
      return;
    }
    State A = S;
    A.reg["none:" + n] = Val::k(1);
    A.trace.push_back(n + " holds nothing");
    outs.push_back({A, Val::k(0)});
    int c = hold(S, o, off);
    outs.push_back({S, Val::ptr(c)});
  }
  // what a holder held at first and holds now: "?" untouched, "-" nothing, else the content
  std::string before(State &S, const std::string &n) {
    if (S.reg.count("none:" + n)) return "-";
    if (S.reg.count("some:" + n)) return Interp::key(S.sym("content of " + n));
    return "untouched " + n;
  }
  std::string now(State &S, int o) {
    std::string r = "untouched " + S.objs[o].name;
    for (auto &[off, v] : S.objs[o].mem) {
      if (v.isNull() && !(tagged && off == idOff)) r = "-";
      if (v.obj >= 0 && S.objs[v.obj].cell) return Interp::key(content(S, v));
    }
    return r;
  }
  int64_t idOff = -1;
  void exit(State &S, bool unwound) {
    rep.bump("exits");
    std::string o = op->name;
    // who may own what at the end
    std::vector<int> owners;
    for (unsigned k = 0; k < params.size(); ++k) {
      char kind = op->params[k][0];
      if (kind == 'R' && unwound) continue;
      if (kind == 'H' && k == 0 && o == "dtor" && !unwound) continue;
      if ((kind == 'H' || kind == 'R') && std::find(owners.begin(), owners.end(), params[k]) == owners.end()) owners.push_back(params[k]);
    }
    const char *when = unwound ? " after an exception" : "";
    std::map<int, int> owned;
    for (int p : owners) {
      Val id;
      bool found = false;
      for (auto &[off, v] : S.objs[p].mem) if (v.obj < 0) { id = v; found = true; }
      if (tagged && !found) id = S.sym("id of " + S.objs[p].name); // never looked at
      for (auto &[off, v] : S.objs[p].mem) {
        if (v.obj < 0 || !S.objs[v.obj].cell) continue;
        auto &c = S.objs[v.obj];
        if (c.cell == 2) { bad(S, "dangling", std::string("the holder points to memory that was given back") + when, nullptr); return; }
        if (c.life[0] != 1) { bad(S, "dangling", std::string("the holder points to an element that is not alive") + when, nullptr); return; }
        if (owned[v.obj]++) { bad(S, "shared", std::string("two holders own one element") + when, nullptr); return; }
        if (tagged && !sameId(S, id, c.owner)) { bad(S, "wrong-allocator", std::string("a holder ends up with an element that came from another allocator than its own") + when, nullptr); return; }
      }
    }
    // a holder whose pointer was never looked at still owns its element
    for (unsigned k = 0; k < S.objs.size(); ++k)
      if (S.objs[k].cell == 1 && !owned.count(k)) { bad(S, "leak", std::string(S.objs[k].life[0] == 1 ? "an element" : "memory") + " is left without an owner" + when, nullptr); return; }
    for (unsigned k = 0; k < S.objs.size(); ++k)
      if (S.objs[k].kind == Obj::Stack)
        for (auto &[off, l] : S.objs[k].life) if (l == 1) { bad(S, "leak", std::string("a temporary element is never destroyed") + when, nullptr); return; }
    if (unwound) return;
    rep.bump("results");
    auto want = [&](int p, const std::string &w, const char *msg) {
      if (now(S, p) != w) bad(S, "wrong-result", msg, nullptr);
    };
    auto T = [&](int p) { return Interp::key(S.sym("content of " + S.objs[p].name)); };
    if (o.rfind("copy", 0) == 0) {
      int src = params[1];
      auto w = before(S, S.objs[src].name);
      if (params[0] == src) { want(src, w, "self-assignment changes the value"); return; }
      if (now(S, params[0]) == "untouched " + S.objs[params[0]].name && w == "untouched " + S.objs[src].name) { bad(S, "wrong-result", "nothing is copied", nullptr); return; }
      if (w[0] != 'u') want(params[0], w, "the copy does not hold what the source holds");
      want(src, w, "copying changes the source");
    } else if (o.rfind("move", 0) == 0) {
      int src = params[1];
      auto w = before(S, S.objs[src].name);
      if (params[0] == src) { if (w[0] != 'u') want(src, w, "assigning a holder to itself loses its value"); return; }
      if (w[0] == '-' && !optional) return;
      if (w[0] == 'u') bad(S, "wrong-result", "nothing is moved", nullptr);
      else want(params[0], w, "the target does not hold what the source held");
    } else if (o == "swap") {
      auto x = before(S, S.objs[params[0]].name), y = before(S, S.objs[params[1]].name);
      if (x[0] == 'u' && y[0] == 'u') { if (params[0] != params[1]) bad(S, "wrong-result", "nothing is exchanged", nullptr); return; }
      if (!optional && (x[0] == '-' || y[0] == '-')) return;
      want(params[0], y[0] == 'u' ? now(S, params[0]) : y, "the first does not hold what the second held");
      want(params[1], x[0] == 'u' ? now(S, params[1]) : x, "the second does not hold what the first held");
    } else if (o == "reset") want(params[0], "-", "a reset holder still holds something");
    else if (o == "emplace" || o.rfind("inplace", 0) == 0) want(params[0], Interp::key(S.sym("made from the arguments")), "the element was not made from the arguments");
    else if (o.rfind("value", 0) == 0 || o == "emplace_copy") {
      if (aliased) { want(params[0], Interp::key(S.sym("content of H0")), "storing a holder's own element in it loses the value"); return; }
      want(params[0], T(params[1]), "the holder does not hold the value it was given");
      if (o == "value_ctor" || o == "value_assign" || o == "emplace_copy") {
        if (Interp::key(content(S, Val::ptr(params[1]))) != T(params[1])) bad(S, "wrong-result", "the value it was given is changed", nullptr);
      }
    } else if (o.rfind("default", 0) == 0) {
      if (!optional) want(params[0], Interp::key(S.sym("default")), "a new holder holds no default element");
      else want(params[0], "-", "a new optional holder is not empty");
    } else if (o == "equal") {
      for (int p : params) { auto w = before(S, S.objs[p].name); want(p, w, "comparing changes an operand"); }
    }
    if (o.find("_alloc") != std::string::npos && tagged) {
      rep.bump("allocator_results");
      Val id;
      bool found = false;
      for (auto &[off, v] : S.objs[params[0]].mem) if (v == S.sym("id of " + S.objs[params.back()].name)) found = true;
      if (!found) bad(S, "wrong-allocator", "the allocator it was given is not the one the holder keeps", nullptr);
    }
  }
  explicit Own(Report &r) : rep(r) {
    in.model = [this](State &S, const CallBase &CB, Function *F, const std::string &d, const std::vector<Val> &a, std::vector<Outcome> &o) { return model(S, CB, F, d, a, o); };
    in.lazyLoad = [this](State &S, int o, int64_t off, Type *T, std::vector<std::pair<State, Val>> &outs) { lazy(S, o, off, T, outs); };
    in.lazyCopy = [this](State &S, int o, int64_t off, int64_t n) { // an allocator is copied
      if (tagged && n == 8 && S.objs[o].kind == Obj::Param && !S.objs[o].mem.count(off)) S.objs[o].mem[off] = S.sym("id of " + S.objs[o].name);
    };
    in.lazyStore = [this](State &S, int o, int64_t off, Type *T) { // the element it may have held is forgotten
      std::string n = S.objs[o].name;
      if (!T->isPointerTy() || S.objs[o].kind != Obj::Param || n[0] != 'H') return;
      hold(S, o, off);
    };
    in.exit = [this](State &S, bool u, Val) { exit(S, u); };
  }
  void analyse(Function *F, const Op &o, bool alias) {
    root = F; op = &o; aliased = alias;
    if (!alias) ptrOff = -1;
    State S;
    params.clear();
    int n = 0;
    for (auto *k : o.params) {
      if (alias && n == 1 && k[0] == 'T') { // its own element
        int c = hold(S, params[0], ptrOff);
        S.objs[params[0]].mem[ptrOff] = Val::ptr(c);
        params.push_back(c);
        ++n;
        continue;
      }
      if (alias && n == 1) { params.push_back(params[0]); ++n; continue; }
      int x = S.newObj(std::string(k) + std::to_string(n), Obj::Param);
      params.push_back(x);
      char c = k[0];
      if (c == 'H' || c == 'A') S.objs[x].lazy = true;
      if (c == 'T') { S.objs[x].life[0] = 1; S.objs[x].content[0] = S.sym("content of " + S.objs[x].name); }
      if (c == 'G') S.objs[x].life[0] = 1;
      ++n;
    }
    Frame f;
    f.F = F; f.bb = &F->getEntryBlock(); f.it = f.bb->begin();
    for (unsigned k = 0; k < F->arg_size() && k < params.size(); ++k) f.env[F->getArg(k)] = Val::ptr(params[k]);
    S.st.push_back(std::move(f));
    in.run(std::move(S));
  }
};
} // namespace
static int cmdOwn(const Options &o, Report &rep) {
  for (auto &file : o.files) {
    LLVMContext C;
    auto M = loadModule(C, file);
    std::map<std::string, std::vector<Function *>> byOp;
    for (auto &F : *M) {
      if (F.isDeclaration()) continue;
      std::string d = demangled(F.getName());
      if (d.rfind("own_roots<", 0) != 0 && d.find(" own_roots<") == std::string::npos) continue;
      auto b = d.rfind(">::");
      auto e = d.find('(', b);
      if (b == std::string::npos) continue;
      byOp[d.substr(b + 3, e - b - 3)].push_back(&F);
    }
    Own own(rep);
    own.in.DL = &M->getDataLayout();
    for (auto &op : ops) {
      auto i = byOp.find(op.name);
      if (i == byOp.end()) { rep.broken.push_back(std::string("no operation ") + op.name); continue; }
      for (auto *F : i->second) {
        rep.bump("operations");
        std::string d = demangled(F->getName());
        own.optional = d.find("optional_indirect<") != std::string::npos;
        own.tagged = d.find("vpo::Tag<") != std::string::npos;
        own.analyse(F, op, false);
        std::string n = op.name;
        if (n == "copy_assign" || n == "move_assign" || n == "swap" || n == "equal" || (n.rfind("value_", 0) == 0 && n.find("assign") != std::string::npos && own.ptrOff >= 0) || (n == "emplace_copy" && own.ptrOff >= 0)) own.analyse(F, op, true);
      }
    }
    rep.bump("paths", own.in.paths);
    if (own.in.cut) rep.bump("undecided", own.in.cut);
  }
  return 0;
}
static Register r_own("own", cmdOwn);

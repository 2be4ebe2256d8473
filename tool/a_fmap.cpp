// fmap: the operations of the sorted map over opaque containers: what they do to the keys they must do to the values, also
// when an operation throws; keys go where the comparisons made on the path put them
#include "heap.h"
using namespace heap;
namespace {
struct Op { const char *name; std::vector<const char *> params; char cls; const char *want; };
// M map, K key, V value, G construction argument, X key of another type, P pair, N keys container, W values container, R memory
// classes: i inserts or finds, a inserts or assigns, l looks up, L lower bound, U upper bound, E both, p position, d erases
// at a position, k erases a key, c clears, C copies, V moves, S swaps, R replaces, X extracts
const Op ops[] = {
    {"emplace", {"M", "K", "V"}, 'i', "the value"}, {"emplace_copy", {"M", "K", "V"}, 'i', "the value"},
    {"insert", {"M", "P"}, 'i', "the value"}, {"insert_move", {"M", "P"}, 'i', "the value"}, {"insert_hint", {"M", "P"}, 'i', "the value"},
    {"try_emplace", {"M", "K", "G"}, 'i', "made from the arguments"}, {"try_emplace_move", {"M", "K", "G"}, 'i', "made from the arguments"},
    {"try_emplace_hint", {"M", "K", "G"}, 'i', "made from the arguments"}, {"try_emplace_hint_move", {"M", "K", "G"}, 'i', "made from the arguments"},
    {"insert_or_assign", {"M", "K", "V"}, 'a', "the value"}, {"insert_or_assign_copy", {"M", "K", "V"}, 'a', "the value"},
    {"insert_or_assign_move", {"M", "K", "V"}, 'a', "the value"}, {"insert_or_assign_hint", {"M", "K", "V"}, 'a', "the value"},
    {"insert_or_assign_hint_move", {"M", "K", "V"}, 'a', "the value"},
    {"subscript", {"M", "K"}, 'i', "default"}, {"subscript_move", {"M", "K"}, 'i', "default"},
    {"at", {"M", "K"}, 'l', ""}, {"at_const", {"M", "K"}, 'l', ""},
    {"erase_it", {"M"}, 'd', "index"}, {"erase_const_it", {"M"}, 'd', "index"}, {"erase_range", {"M"}, 'd', "index..index2"},
    {"erase_key", {"M", "K"}, 'k', ""}, {"clear", {"M"}, 'c', ""},
    {"find", {"M", "K"}, 'l', ""}, {"find_const", {"M", "K"}, 'l', ""}, {"find_other", {"M", "X"}, 'l', ""}, {"find_other_const", {"M", "X"}, 'l', ""},
    {"contains", {"M", "K"}, 'l', ""}, {"contains_other", {"M", "X"}, 'l', ""}, {"count", {"M", "K"}, 'l', ""}, {"count_other", {"M", "X"}, 'l', ""},
    {"lower", {"M", "K"}, 'L', ""}, {"lower_const", {"M", "K"}, 'L', ""}, {"lower_other", {"M", "X"}, 'L', ""}, {"lower_other_const", {"M", "X"}, 'L', ""},
    {"upper", {"M", "K"}, 'U', ""}, {"upper_const", {"M", "K"}, 'U', ""}, {"upper_other", {"M", "X"}, 'U', ""}, {"upper_other_const", {"M", "X"}, 'U', ""},
    {"range", {"M", "K"}, 'E', ""}, {"range_const", {"M", "K"}, 'E', ""}, {"range_other", {"M", "X"}, 'E', ""}, {"range_other_const", {"M", "X"}, 'E', ""},
    {"begin", {"M"}, 'p', "0"}, {"end", {"M"}, 'p', "size"}, {"begin_const", {"M"}, 'p', "0"}, {"end_const", {"M"}, 'p', "size"},
    {"cbegin", {"M"}, 'p', "0"}, {"cend", {"M"}, 'p', "size"}, {"step", {"M"}, 'p', "index+1"}, {"step_back", {"M"}, 'p', "size-index-1"},
    {"step_after", {"M"}, 'p', "index+1"}, {"step_after_back", {"M"}, 'p', "index-1"}, {"step_const", {"M"}, 'p', "index+index2"},
    {"step_minus", {"M"}, 'p', "size-index"},
    {"copy_ctor", {"R", "M"}, 'C', ""}, {"move_ctor", {"R", "M"}, 'V', ""}, {"copy_assign", {"M", "M"}, 'C', ""}, {"move_assign", {"M", "M"}, 'V', ""},
    {"swap", {"M", "M"}, 'S', ""}, {"swap_free", {"M", "M"}, 'S', ""}, {"replace", {"M", "N", "W"}, 'R', ""}, {"extract", {"R", "M"}, 'X', ""},
    {"sorted_ctor", {"R", "N", "W"}, 'R', ""},
};
struct FMap {
  Report &rep;
  Interp in;
  Function *root = nullptr;
  const Op *op = nullptr;
  bool aliased = false;
  std::vector<int> params;
  std::set<std::string> seen;
  long undecided = 0;
  static bool has(const std::string &d, const char *s) { return d.find(s) != std::string::npos; }
  static Val rel(Val p) { p.obj = -1; return p; } // the position of a pointer in its buffer
  std::string site(State &S, const Instruction *at) {
    if (at && inRepo(*at->getFunction())) return siteOf(*at);
    for (auto i = S.st.rbegin(); i != S.st.rend(); ++i) if (i->F && inRepo(*i->F)) return siteOf(*i->it);
    if (S.reg.count("last")) return lastSite[S.reg["last"].c].first;
    return siteOf(*root);
  }
  std::vector<std::pair<std::string, std::string>> lastSite;
  std::string func(State &S) {
    for (auto i = S.st.rbegin(); i != S.st.rend(); ++i) if (inRepo(*i->F)) return fnName(*i->F);
    if (S.reg.count("last")) return lastSite[S.reg["last"].c].second;
    return fnName(*root);
  }
  void bad(State &S, const char *rule, const std::string &msg, const Instruction *at) {
    std::string st = site(S, at), fn = func(S);
    if (seen.insert(std::string(rule) + st + op->name).second) {
      json::Array tr;
      for (auto &t : S.trace) tr.push_back(t);
      rep.violation(rule, fn, st, std::string("flat_map, ") + op->name + (aliased ? " with itself" : "") + ": " + msg, std::move(tr));
    }
    S.dead = true;
  }
  void unknown(State &S) { ++undecided; S.dead = true; }
  int buffer(State &S, const std::string &n, int elems) {
    int b = S.newObj(n, Obj::Heap);
    S.objs[b].owner = Val::k(elems < 0 ? b : elems);
    return b;
  }
  Seq pristine(State &S, int o, char kind) {
    Seq q;
    q.kind = kind;
    std::string n = S.objs[o].name;
    bool given = n[0] == 'N' || n[0] == 'W';
    q.base = given ? "given" : S.objs[o].kind == Obj::Param ? n : "?";
    q.size = S.sym("size of " + q.base);
    q.buf = buffer(S, std::string(kind == 'k' ? "keys" : "values") + " of " + q.base, -1);
    return q;
  }
  Seq &seq(State &S, const Val &p, char kind) {
    auto k = std::make_pair(p.obj, p.c);
    auto i = S.seqs.find(k);
    if (i == S.seqs.end()) i = S.seqs.emplace(k, pristine(S, p.obj, kind)).first;
    return i->second;
  }
  const Seq *ofBuffer(State &S, int b) {
    for (auto &[k, q] : S.seqs) if (q.buf == b) return &q;
    return nullptr;
  }
  std::string elem(State &S, const Val &p) { return "elt:" + std::to_string(S.objs[p.obj].owner.c) + ":" + Interp::key(rel(p)); }
  bool isBuffer(State &S, int o) { return o >= 0 && S.objs[o].kind == Obj::Heap && S.objs[o].owner.c != 0; }
  Val content(State &S, const Val &p) {
    if (p.obj < 0) return S.fresh();
    if (isBuffer(S, p.obj)) {
      auto i = S.reg.find(elem(S, p));
      return i != S.reg.end() ? i->second : S.sym(elem(S, p));
    }
    if (!p.s.empty()) return S.fresh();
    auto &c = S.objs[p.obj].content;
    auto i = c.find(p.c);
    return i != c.end() ? i->second : c[p.c] = S.fresh();
  }
  void setContent(State &S, const Val &p, const Val &v) {
    if (p.obj < 0) return;
    if (isBuffer(S, p.obj)) S.reg[elem(S, p)] = v;
    else if (p.s.empty()) S.objs[p.obj].content[p.c] = v;
  }
  bool meaningful(State &S, const Val &v) {
    std::set<int> ok;
    for (auto &[n, k] : S.named) ok.insert(k);
    for (auto &[s, n] : v.s) if (!ok.count(s)) return false;
    return v.obj != -2;
  }
  // an element is about to be read or written
  bool use(State &S, const Val &p, const CallBase &CB) {
    if (!isBuffer(S, p.obj)) return true;
    rep.bump("element_uses");
    auto *q = ofBuffer(S, p.obj);
    if (!q) { bad(S, "stale", "an element is used through an iterator or reference from before the container changed", &CB); return false; }
    if (!meaningful(S, rel(p))) { unknown(S); return false; }
    Val end = Interp::add(Val::ptr(q->buf), q->size);
    int e = Interp::knownEq(S, p, end);
    if (e == 1 || (e == -1 && p.c == 0 && !p.s.empty() && S.loops == 0)) { bad(S, "past-the-end", "an element is used where the position may be the end", &CB); return false; }
    if (p.c == -1 && S.loops == 0) {
      Val b = rel(p); b.c = 0;
      bool positive = false; // a sum of positions one of which is not the first
      for (auto &[y, n] : b.s) { Val o; o.s[y] = 1; positive |= n > 0 && Interp::knownEq(S, o, Val::k(0)) == 0; }
      if (!b.s.empty() && !positive && Interp::knownEq(S, b, Val::k(0)) != 0 && !Interp::add(b, q->size, -1).isConst()) { bad(S, "before-the-start", "the element before a position is used where that may be the start", &CB); return false; }
    }
    return true;
  }
  bool alive(State &S, const Val &c, const CallBase &CB) {
    if (c == S.sym("moved from")) { bad(S, "moved-from", "an object is used after it was moved from", &CB); return false; }
    return true;
  }
  // the comparison of two contents: 1, 0 or -1
  static int lt(State &S, const std::string &x, const std::string &y) {
    if (x == y) return 0;
    auto i = S.assume.find("lt:" + x + ":" + y);
    if (i != S.assume.end()) return i->second;
    i = S.assume.find("lt:" + y + ":" + x);
    if (i != S.assume.end() && i->second) return 0;
    return -1;
  }
  // the comparison of an element with a key, also when it was made through another name of the position
  template <class F> int atSame(State &S, const Val &p, F look) {
    int r = look(p);
    if (r >= 0 || p.obj < 0) return r;
    std::vector<int> syms;
    for (auto &[n, k] : S.named) if (n.rfind("pick", 0) == 0 || n.rfind("index", 0) == 0 || n.rfind("size", 0) == 0) syms.push_back(k);
    if (Val o = Val::ptr(p.obj); o != p && Interp::knownEq(S, o, p) == 1 && (r = look(o)) >= 0) return r;
    for (unsigned a = 0; a < syms.size(); ++a)
      for (int b = -1; b < int(a); ++b)
        for (int c = -1; c < 1; ++c) {
          Val x = Val::ptr(p.obj, c);
          x.s[syms[a]] = 1;
          if (b >= 0) x.s[syms[b]] = 1;
          if (x != p && Interp::knownEq(S, x, p) == 1 && (r = look(x)) >= 0) return r;
        }
    return -1;
  }
  int before(State &S, const Val &p, const Val &k) { return atSame(S, p, [&](const Val &q) { return lt(S, Interp::key(content(S, q)), Interp::key(k)); }); } // element < key
  int after(State &S, const Val &p, const Val &k) { return atSame(S, p, [&](const Val &q) { return lt(S, Interp::key(k), Interp::key(content(S, q))); }); }  // key < element
  Val theKey(State &S) { return S.sym("the key"); }
  // where a pointer or iterator is, as a position of the container; false when it is not one of it
  bool position(State &S, const Seq &q, const Val &p, const CallBase &CB) {
    rep.bump("positions");
    if (p.obj == q.buf) {
      if (meaningful(S, rel(p))) return true;
      unknown(S);
      return false;
    }
    if (p.obj >= 0) bad(S, "stale", "a position is one of another container, or from before the container changed", &CB);
    else unknown(S);
    return false;
  }
  void changed(State &S, Seq &q) { q.buf = buffer(S, q.kind == 'k' ? "keys" : "values", -1); }
  bool model(State &S, const CallBase &CB, Function *F, const std::string &d, const std::vector<Val> &a, std::vector<Outcome> &outs) {
    if (!F->isDeclaration()) return false;
    if (d.find("vpm::") == std::string::npos) return false;
    auto at = [&](State &T, const std::string &t) { T.trace.push_back(site(T, &CB) + " " + t); T.reg["last"] = Val::k(int(lastSite.size())); lastSite.push_back({site(T, &CB), func(T)}); };
    bool mayThrow = !CB.doesNotThrow() && !F->doesNotThrow();
    auto unwinding = [&](const std::string &what, std::function<void(State &)> effect = {}) {
      if (!mayThrow) return;
      State T = S;
      at(T, what + " throws");
      if (effect) effect(T);
      outs.push_back({std::move(T), Val(), true});
    };
    auto done = [&](const Val &r) { outs.push_back({S, r, false}); return true; };
    std::string name = d;
    if (name.rfind("vpm::pick(", 0) == 0) {
      Val n = a[0];
      int z = Interp::knownEq(S, n, Val::k(0));
      S.reg["picks"];
      outs.push_back({S, Val::k(0), false});
      if (z != 1) {
        State T = S;
        T.assume[Interp::eqKey(n, Val::k(0))] = false;
        State U = T;
        outs.push_back({std::move(T), n, false});
        int c = int(U.reg["picks"].c++);
        Val p = U.sym("pick" + std::to_string(c));
        U.assume[Interp::eqKey(p, Val::k(0))] = false;
        U.assume[Interp::eqKey(p, n)] = false;
        outs.push_back({std::move(U), p, false});
      }
      return true;
    }
    if (name.rfind("vpm::never(", 0) == 0) { S.dead = true; return true; }
    if (name.rfind("vpm::index(", 0) == 0) return done(S.sym("index"));
    if (name.rfind("vpm::index2(", 0) == 0) return done(S.sym("index2"));
    if (name.rfind("vpm::said(", 0) == 0 || name.rfind("vpm::count_is(", 0) == 0) { S.reg["said"] = a[0]; return done(Val()); }
    if (name.rfind("vpm::at_pair(", 0) == 0) { S.reg["kit"] = a[0]; S.reg["vit"] = a[1]; return done(Val()); }
    if (name.rfind("vpm::at_second(", 0) == 0) { S.reg["kit2"] = a[0]; S.reg["vit2"] = a[1]; return done(Val()); }
    if (name.rfind("vpm::at_value(", 0) == 0) { S.reg["vit"] = a[0]; return done(Val()); }
    if (has(d, "Less::operator()(")) {
      rep.bump("comparisons");
      if (!use(S, a[1], CB) || !use(S, a[2], CB)) return true;
      Val x = content(S, a[1]), y = content(S, a[2]);
      if (!alive(S, x, CB) || !alive(S, y, CB)) return true;
      unwinding("a comparison");
      auto kx = Interp::key(x), ky = Interp::key(y);
      int k = lt(S, kx, ky);
      for (int v = 0; v < 2; ++v)
        if (k < 0 || k == v) {
          State T = S;
          T.assume["lt:" + kx + ":" + ky] = v;
          auto what = [&](const Val &c, const Val &p) { return c == theKey(T) ? std::string("the key") : isBuffer(T, p.obj) ? "element " + text(T, rel(p)) : std::string("a key"); };
          if (k < 0) T.trace.push_back(site(T, &CB) + " " + what(x, a[1]) + (v ? " < " : " is not < ") + what(y, a[2]));
          outs.push_back({std::move(T), Val::k(v), false});
        }
      return true;
    }
    // elements
    for (const char *t : {"Key", "Mapped"}) {
      std::string c = std::string("vpm::") + t + "::";
      if (name.rfind(c, 0) != 0) continue;
      std::string m = name.substr(c.size());
      if (m[0] == '~') return done(Val());
      bool ctor = m.rfind(t, 0) == 0, asg = m.rfind("operator=", 0) == 0;
      if (!ctor && !asg) { unknown(S); return true; }
      std::string par = m.substr(m.find('('));
      Val src;
      bool from = has(par, (std::string("vpm::") + t).c_str()), moves = from && has(par, "&&");
      if (from) {
        if (!use(S, a[1], CB)) return true;
        src = content(S, a[1]);
        if (!alive(S, src, CB)) return true;
      } else src = has(par, "Arg") ? S.sym("made from the arguments") : S.sym("default");
      if (asg) {
        if (!use(S, a[0], CB)) return true;
        if (isBuffer(S, a[0].obj)) {
          if (t[0] == 'K') { unknown(S); return true; } // keys rearranged in place
          S.reg["assigned"] = a[0];
        }
      }
      unwinding(ctor ? "a construction" : "an assignment");
      if (asg && isBuffer(S, a[0].obj)) at(S, "assigns the value at " + text(S, rel(a[0])));
      setContent(S, a[0], src);
      if (moves && a[0] != a[1]) setContent(S, a[1], S.sym("moved from"));
      return done(asg ? a[0] : Val());
    }
    // containers
    char kind = has(d, "Seq<vpm::Key>::") ? 'k' : has(d, "Seq<vpm::Mapped>::") ? 'v' : 0;
    if (!kind) return false;
    auto pos = d.find(kind == 'k' ? "Seq<vpm::Key>::" : "Seq<vpm::Mapped>::");
    std::string m = d.substr(pos + (kind == 'k' ? 15 : 18));
    std::string par = m.substr(m.find('('));
    std::string f = m.substr(0, m.find_first_of("(<"));
    const char *what = kind == 'k' ? "the keys" : "the values";
    if (f == "operator" && m.rfind("operator=", 0) == 0) f = "operator=";
    if (a[0].obj < 0 || !a[0].s.empty()) { unknown(S); return true; }
    auto key = std::make_pair(a[0].obj, a[0].c);
    auto fresh = [&](State &T) { Seq q; q.kind = kind; q.base = "-"; q.size = Val::k(0); changed(T, q); return q; };
    auto take = [&](State &T, const Val &from, bool moves) {
      Seq q = seq(T, from, kind);
      if (moves) { T.seqs[{from.obj, from.c}] = fresh(T); }
      else q.buf = buffer(T, q.kind == 'k' ? "keys" : "values", int(T.objs[q.buf].owner.c));
      return q;
    };
    if (f == "Seq") {
      rep.bump("container_operations");
      if (has(par, "Seq<")) {
        if (a[1].obj < 0 || !a[1].s.empty()) { unknown(S); return true; }
        bool moves = has(par, ">&&");
        unwinding(std::string("copying ") + what);
        seq(S, a[1], kind);
        Seq q = take(S, a[1], moves);
        S.seqs[key] = q;
      } else S.seqs[key] = fresh(S);
      return done(Val());
    }
    if (f == "~Seq") { S.seqs.erase(key); return done(Val()); }
    if (f == "operator=") {
      rep.bump("container_operations");
      if (a[1].obj < 0 || !a[1].s.empty()) { unknown(S); return true; }
      bool moves = has(par, ">&&");
      if (a[0] == a[1]) return done(a[0]); // nothing happens, or the same to both
      seq(S, a[0], kind); seq(S, a[1], kind);
      Val from = a[1];
      unwinding(std::string("assigning ") + what, [&](State &T) { T.seqs[key].broken = true; if (moves) T.seqs[{from.obj, from.c}].broken = true; });
      Seq q = take(S, from, moves);
      S.seqs[key] = q;
      at(S, std::string(moves ? "moves " : "copies ") + what);
      return done(a[0]);
    }
    Seq &q = seq(S, a[0], kind);
    Val begin = Val::ptr(q.buf), end = Interp::add(begin, q.size);
    if (f == "begin" || f == "cbegin" || f == "data") return done(begin);
    if (f == "end" || f == "cend") return done(end);
    if (f == "size") return done(q.size);
    if (f == "at") return done(Interp::add(begin, a[1]));
    if (f == "front") return done(begin);
    if (f == "back") return done(Interp::add(end, Val::k(-1)));
    if (f == "operator" || f == "max_size" || f == "capacity" || f == "get_allocator") {
      if (f == "operator" && has(m, "operator[]")) return done(Interp::add(begin, a[1]));
      return false;
    }
    if (f == "empty") {
      int k = Interp::knownEq(S, q.size, Val::k(0));
      for (int v = 0; v < 2; ++v)
        if (k < 0 || k == v) {
          State T = S;
          T.assume[Interp::eqKey(q.size, Val::k(0))] = v;
          outs.push_back({std::move(T), Val::k(v), false});
        }
      return true;
    }
    rep.bump("container_operations");
    if (f == "clear") {
      S.seqs[key] = fresh(S);
      at(S, std::string("clears ") + what);
      return done(Val());
    }
    if (f == "swap") {
      if (a[1].obj < 0 || !a[1].s.empty()) { unknown(S); return true; }
      Seq x = q, y = seq(S, a[1], kind);
      S.seqs[key] = y;
      S.seqs[{a[1].obj, a[1].c}] = x;
      at(S, std::string("swaps ") + what);
      return done(Val());
    }
    if (f == "reserve" || f == "shrink_to_fit") {
      unwinding(f);
      int e = int(S.objs[q.buf].owner.c);
      S.seqs[key].buf = buffer(S, "grown", e);
      return done(Val());
    }
    bool back = f == "push_back" || f == "emplace_back";
    if (f == "assign" || f == "resize" || (f == "insert" && a.size() > 3)) { unknown(S); return true; }
    if (f == "insert" || f == "emplace" || back) {
      Val p = back ? end : a[1];
      if (!position(S, q, p, CB)) return true;
      unsigned vi = back ? 1 : 2;
      Val c;
      std::string argt = par;
      if (!back) argt = par.substr(par.find(',') == std::string::npos ? par.size() : par.find(','));
      std::string me = kind == 'k' ? "vpm::Key" : "vpm::Mapped";
      bool from = has(argt, me.c_str()), moves = from && has(argt, (me + "&&").c_str());
      if (a.size() <= vi) c = S.sym("default");
      else if (from && a.size() == vi + 1) {
        c = content(S, a[vi]);
        if (isBuffer(S, a[vi].obj) && !use(S, a[vi], CB)) return true;
        if (!alive(S, c, CB)) return true;
      } else if (has(argt, "vpm::Arg") && a.size() == vi + 1) c = S.sym("made from the arguments");
      else c = S.fresh();
      if (kind == 'k') {
        rep.bump("insertions");
        // the comparisons made must put it here
        int l = Interp::knownEq(S, p, begin) == 1 ? 1 : before(S, Interp::add(p, Val::k(-1)), c);
        int r = Interp::knownEq(S, p, end) == 1 ? 1 : after(S, p, c);
        if (S.loops == 0 && (l != 1 || r != 1)) {
          bad(S, "misplaced", std::string("a key is inserted where ") + (l != 1 ? "the element before it" : "the element it goes before") + (l == 0 || r == 0 ? " does not order that way" : " was not found to order that way"), &CB);
          return true;
        }
        if (l != 1 || r != 1) { unknown(S); return true; }
      }
      unwinding(std::string("inserting into ") + what);
      Val off = rel(p);
      Seq n = q;
      n.size.c += 1;
      n.log.push_back({"ins", off, Val()});
      changed(S, n);
      S.seqs[key] = n;
      Val r = Interp::add(Val::ptr(n.buf), off);
      setContent(S, r, c);
      S.reg[kind == 'k' ? "inserted key" : "inserted value"] = c;
      S.reg[kind == 'k' ? "inserted key at" : "inserted value at"] = off;
      if (moves && a.size() > vi) setContent(S, a[vi], S.sym("moved from"));
      at(S, std::string("inserts into ") + what + " at " + text(S, off));
      return done(f == "push_back" ? Val() : r);
    }
    if (f == "erase" || f == "pop_back") {
      Val p = f == "erase" ? a[1] : Interp::add(end, Val::k(-1));
      bool range = f == "erase" && a.size() > 2;
      if (!position(S, q, p, CB) || (range && !position(S, q, a[2], CB))) return true;
      Seq::Edit entry{range ? "range" : "del", rel(p), range ? rel(a[2]) : Val()};
      bool undo = !range && !q.log.empty() && q.log.back().what == "ins" && Interp::knownEq(S, q.log.back().a, rel(p)) == 1;
      if (!range && Interp::knownEq(S, p, end) == 1) { bad(S, "past-the-end", "the end is erased", &CB); return true; }
      if (kind == 'k' && op->cls == 'k' && !undo && !range) {
        int l = before(S, p, theKey(S)), r = after(S, p, theKey(S));
        if (S.loops == 0 && (l != 0 || r != 0)) { bad(S, "wrong-element", "an element is erased which was not found to be the key's", &CB); return true; }
      }
      if (!undo) unwinding(std::string("erasing from ") + what, [&](State &T) { T.seqs[key].broken = true; });
      Seq n = q;
      if (undo) n.log.pop_back(); else n.log.push_back(entry);
      n.size = range ? Interp::add(n.size, Interp::add(a[2], p, -1), -1) : Interp::add(n.size, Val::k(-1));
      changed(S, n);
      S.seqs[key] = n;
      at(S, std::string("erases from ") + what + " at " + text(S, rel(p)));
      return done(f == "erase" ? Interp::add(Val::ptr(n.buf), rel(p)) : Val());
    }
    unknown(S);
    return true;
  }
  std::string text(State &S, const Val &v) {
    std::string r;
    for (auto &[s, n] : v.s) {
      std::string nm = "?";
      for (auto &[k, i] : S.named) if (i == s) nm = k;
      if (nm.rfind("size of", 0) == 0) nm = "size";
      if (n == 1) r += (r.empty() ? "" : "+") + nm;
      else if (n == -1) r += "-" + nm;
      else r += (r.empty() ? "" : "+") + std::to_string(n) + "*" + nm;
    }
    if (v.c || r.empty()) r += (v.c >= 0 && !r.empty() ? "+" : "") + std::to_string(v.c);
    return r;
  }
  std::pair<Seq, Seq> both(State &S, int o) {
    Seq k = pristine(S, o, 'k'), v = pristine(S, o, 'v');
    for (auto &[w, q] : S.seqs) if (w.first == o) (q.kind == 'k' ? k : v) = q;
    return {k, v};
  }
  std::string state(const Seq &q) {
    std::string r = q.base;
    for (auto &l : q.log) r += ";" + l.what + Interp::key(l.a) + Interp::key(l.b);
    return r;
  }
  bool inStep(const State &S, const Seq &x, const Seq &y) {
    if (x.base != y.base || x.log.size() != y.log.size()) return false;
    for (unsigned k = 0; k < x.log.size(); ++k)
      if (x.log[k].what != y.log[k].what || Interp::knownEq(S, x.log[k].a, y.log[k].a) != 1 || Interp::knownEq(S, x.log[k].b, y.log[k].b) != 1) return false;
    return true;
  }
  void exit(State &S, bool unwound) {
    rep.bump("exits");
    std::string when = unwound ? " after an exception" : "";
    for (unsigned k = 0; k < params.size(); ++k) {
      char c = op->params[k][0];
      if (c != 'M' && !(c == 'R' && !unwound)) continue;
      auto [x, y] = both(S, params[k]);
      if (x.broken || y.broken) { bad(S, "out-of-step", "the keys and the values are left as an exception left them, not in step", nullptr); return; }
      if (!inStep(S, x, y)) {
        bad(S, "out-of-step", "the keys and the values are not in step" + when + " (" + (x.log.size() > y.log.size() ? "something was done to the keys only" : x.log.size() < y.log.size() ? "something was done to the values only" : "different things were done to them") + ")", nullptr);
        return;
      }
    }
    if (unwound) {
      if (op->cls == 'l' && std::string(op->name).rfind("at", 0) == 0) absent(S);
      return;
    }
    rep.bump("results");
    int m = params[0];
    char cls = op->cls;
    auto [ks, vs] = both(S, m);
    auto reg = [&](const char *n) -> const Val * { auto i = S.reg.find(n); return i == S.reg.end() ? nullptr : &i->second; };
    // iterators point to the same place
    Val where;
    bool placed = false;
    for (auto [kn, vn] : {std::make_pair("kit", "vit"), std::make_pair("kit2", "vit2")}) {
      auto *k = reg(kn), *v = reg(vn);
      if (!v) continue;
      if (v->obj < 0 || (k && k->obj < 0) || !meaningful(S, rel(*v)) || (k && !meaningful(S, rel(*k)))) { unknown(S); return; }
      if (v->obj != vs.buf || (k && k->obj != ks.buf)) { bad(S, "stale", "the iterator or reference given back is not one into the map as it is now", nullptr); return; }
      if (k && Interp::knownEq(S, rel(*k), rel(*v)) != 1) { bad(S, "wrong-position", "the iterator given back pairs the key at " + text(S, rel(*k)) + " with the value at " + text(S, rel(*v)), nullptr); return; }
      if (!placed) where = rel(*v);
      placed = true;
    }
    Val key = theKey(S);
    auto atKeys = [&](const Val &off) { return Interp::add(Val::ptr(ks.buf), off); };
    auto present = [&](const Val &off, const char *msg) {
      if (S.loops || (std::string(op->name).find("_hint") == std::string::npos && !S.reg.count("picks"))) return;
      if (Interp::knownEq(S, off, ks.size) == 1 || before(S, atKeys(off), key) != 0 || after(S, atKeys(off), key) != 0) bad(S, "wrong-element", msg, nullptr);
    };
    if (cls == 'i' || cls == 'a') {
      std::string on = op->name;
      if (on.find("_move") == std::string::npos && on != "emplace" && params.size() > 1 && S.objs[params[1]].content[0] != key) { bad(S, "wrong-result", "the key given to be copied is moved from", nullptr); return; }
      if ((on == "emplace_copy" || on == "insert_or_assign_copy") && S.objs[params[2]].content[0] != S.sym("the value")) { bad(S, "wrong-result", "the value given to be copied is moved from", nullptr); return; }
      bool inserted = !ks.log.empty();
      if (ks.log.size() > 1) { bad(S, "wrong-result", "more than one element is inserted", nullptr); return; }
      if (auto *s = reg("said"); s && s->isConst() && bool(s->c & 1) != inserted) { bad(S, "wrong-result", inserted ? "the element was inserted, but the result says it was not" : "nothing was inserted, but the result says it was", nullptr); return; }
      Val want = S.sym(op->want);
      if (inserted) {
        if (!reg("inserted key") || *reg("inserted key") != key) { bad(S, "wrong-result", "the key inserted is not the one given", nullptr); return; }
        if (!reg("inserted value") || *reg("inserted value") != want) { bad(S, "wrong-result", "the value inserted is not the one given", nullptr); return; }
        if (placed && Interp::knownEq(S, where, *reg("inserted key at")) != 1) bad(S, "wrong-position", "what is given back is not the element inserted", nullptr);
        return;
      }
      if (placed) present(where, "an element is taken for the key's which was not found to be equivalent to it");
      if (S.dead) return;
      if (cls == 'a') {
        auto *t = reg("assigned");
        if (!t || t->obj != vs.buf || Interp::knownEq(S, rel(*t), where) != 1 || content(S, *t) != want) bad(S, "wrong-result", "the value of the element found is not replaced by the one given", nullptr);
      } else if (reg("assigned")) { bad(S, "wrong-result", "the value of the element found is replaced", nullptr); return; }
      if (std::string(op->name).rfind("try_emplace", 0) == 0 && S.objs[params[1]].content[0] != key) bad(S, "wrong-result", "the key given is moved from though nothing was inserted", nullptr);
    } else if (cls == 'l') {
      if (!ks.log.empty()) { bad(S, "wrong-result", "looking up changes the map", nullptr); return; }
      if (auto *s = reg("said")) {
        if (!s->isConst()) return;
        if (!s->c) { absent(S); return; }
        if (!S.loops && S.reg.count("picks") && !equalSomewhere(S, ks)) bad(S, "wrong-element", "an element is taken for the key's which was not found to be equivalent to it", nullptr);
        return;
      }
      if (!placed) return;
      if (Interp::knownEq(S, where, ks.size) == 1) absent(S);
      else present(where, "an element is taken for the key's which was not found to be equivalent to it");
    } else if (cls == 'L' || cls == 'U' || cls == 'E') {
      if (S.loops || !S.reg.count("picks")) return;
      auto bound = [&](Val off, bool upper) {
        Val p = atKeys(off), q = Interp::add(p, Val::k(-1));
        bool l = Interp::knownEq(S, off, Val::k(0)) == 1 || (upper ? after(S, q, key) == 0 : before(S, q, key) == 1);
        bool r = Interp::knownEq(S, off, ks.size) == 1 || (upper ? after(S, p, key) == 1 : before(S, p, key) == 0);
        if (!l || !r) bad(S, "wrong-position", std::string("the position given back is not the ") + (upper ? "first element after the key" : "first element not before the key"), nullptr);
      };
      if (!placed) return;
      bound(where, cls == 'U');
      if (!S.dead && cls == 'E' && reg("kit2")) bound(rel(*reg("kit2")), true);
    } else if (cls == 'p' || cls == 'd') {
      std::string w = op->want;
      if (cls == 'd') {
        Val i = S.sym("index");
        bool range = w != "index";
        if (ks.log.size() != 1 || ks.log[0].what != (range ? "range" : "del") || Interp::knownEq(S, ks.log[0].a, i) != 1 || (range && Interp::knownEq(S, ks.log[0].b, S.sym("index2")) != 1)) { bad(S, "wrong-result", "what is erased is not what was asked for", nullptr); return; }
        w = "index";
      }
      Val e;
      int64_t sign = 1;
      for (size_t k = 0; k < w.size();) {
        size_t j = w.find_first_of("+-", k);
        std::string t = w.substr(k, j == std::string::npos ? j : j - k);
        e = Interp::add(e, isdigit(t[0]) ? Val::k(atoi(t.c_str())) : t == "size" ? S.sym("size of " + S.objs[m].name) : S.sym(t), sign);
        if (j == std::string::npos) break;
        sign = w[j] == '-' ? -1 : 1;
        k = j + 1;
      }
      if (placed && Interp::knownEq(S, where, e) != 1) bad(S, "wrong-position", "the iterator given back is at " + text(S, where) + ", not at " + text(S, e), nullptr);
    } else if (cls == 'k') {
      auto *s = reg("said");
      if (!s || !s->isConst()) return;
      if (s->c != int64_t(ks.log.size())) { bad(S, "wrong-result", "the number given back is not how many elements were erased", nullptr); return; }
      if (!s->c) absent(S);
    } else if (cls == 'c') {
      if (state(ks) != "-") bad(S, "wrong-result", "the cleared map is not empty", nullptr);
    } else if (cls == 'C' || cls == 'V' || cls == 'X') {
      std::string n = S.objs[params[1]].name;
      if (aliased) return;
      if (state(ks) != n) { bad(S, "wrong-result", cls == 'C' ? "the copy does not hold what the source holds" : "the target does not hold what the source held", nullptr); return; }
      auto [sk, sv] = both(S, params[1]);
      if (cls == 'C' && state(sk) != n) bad(S, "wrong-result", "copying changes the source", nullptr);
      if (cls == 'X' && state(sk) != "-") bad(S, "wrong-result", "the map whose containers were taken is not empty", nullptr);
    } else if (cls == 'S') {
      if (aliased) return;
      auto [ok, ov] = both(S, params[1]);
      if (state(ks) != S.objs[params[1]].name || state(ok) != S.objs[m].name) bad(S, "wrong-result", "the maps are not exchanged", nullptr);
    } else if (cls == 'R') {
      if (state(ks) != "given") bad(S, "wrong-result", "the map does not hold the containers it was given", nullptr);
    }
  }
  bool equalSomewhere(State &S, const Seq &ks) {
    auto k = Interp::key(theKey(S));
    for (auto &[a, v] : S.assume)
      if (!v && a.rfind("lt:" + k + ":", 0) == 0) {
        std::string e = a.substr(4 + k.size());
        if (lt(S, e, k) == 0) return true;
      }
    return false;
  }
  // the result says the key is not there
  void absent(State &S) {
    if (equalSomewhere(S, both(S, params[0]).first)) bad(S, "wrong-element", "a key which was found is taken for absent", nullptr);
  }
  explicit FMap(Report &r) : rep(r) {
    in.maxVisits = 4;
    in.model = [this](State &S, const CallBase &CB, Function *F, const std::string &d, const std::vector<Val> &a, std::vector<Outcome> &o) { return model(S, CB, F, d, a, o); };
    in.nonneg = [this](State &S, const Val &v) { // sums of sizes and positions
      if (v.obj >= 0 || v.c < 0 || !meaningful(S, v)) return false;
      for (auto &[y, n] : v.s) if (n < 0) return false;
      return true;
    };
    in.exit = [this](State &S, bool u, Val) { if (!S.dead) exit(S, u); };
  }
  void analyse(Function *F, const Op &o, bool alias) {
    root = F; op = &o; aliased = alias;
    in.paths = 0;
    State S;
    params.clear();
    S.newObj("none", Obj::Global);
    int n = 0;
    for (auto *k : o.params) {
      if (alias && n == 1) { params.push_back(params[0]); ++n; continue; }
      int x = S.newObj(std::string(k) + std::to_string(n), Obj::Param);
      params.push_back(x);
      char c = k[0];
      if (c == 'K' || c == 'X' || c == 'P') S.objs[x].content[0] = S.sym("the key");
      if (c == 'V') S.objs[x].content[0] = S.sym("the value");
      if (c == 'P') S.objs[x].content[1] = S.sym("the value");
      ++n;
    }
    Frame f;
    f.F = F; f.bb = &F->getEntryBlock(); f.it = f.bb->begin();
    for (unsigned k = 0; k < F->arg_size() && k < params.size(); ++k) f.env[F->getArg(k)] = Val::ptr(params[k]);
    S.st.push_back(std::move(f));
    in.run(std::move(S));
  }
};
} // namespace
static int cmdFmap(const Options &o, Report &rep) {
  for (auto &file : o.files) {
    LLVMContext C;
    auto M = loadModule(C, file);
    std::map<std::string, Function *> byOp;
    for (auto &F : *M) {
      if (F.isDeclaration()) continue;
      std::string d = demangled(F.getName());
      auto b = d.find("map_roots<0>::");
      if (b == std::string::npos || b > 5) continue;
      byOp[d.substr(b + 14, d.find('(', b) - b - 14)] = &F;
    }
    FMap fm(rep);
    fm.in.DL = &M->getDataLayout();
    long paths = 0;
    for (auto &op : ops) {
      auto i = byOp.find(op.name);
      if (i == byOp.end()) { rep.broken.push_back(std::string("no operation ") + op.name); continue; }
      rep.bump("operations");
      fm.analyse(i->second, op, false);
      paths += fm.in.paths;
      if (o.has("verbose")) errs() << op.name << " paths " << fm.in.paths << " undecided " << fm.undecided << " cut " << fm.in.cut << "\n";
      std::string n = op.name;
      if (n == "copy_assign" || n == "move_assign" || n == "swap") { fm.analyse(i->second, op, true); paths += fm.in.paths; }
    }
    rep.bump("paths", paths);
    rep.bump("undecided", fm.in.cut + fm.undecided);
  }
  return 0;
}
static Register r_fmap("fmap", cmdFmap);

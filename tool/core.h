// Shared pieces of the analyser: module loading/preparation, reporting, the path-sensitive typestate engine.
#pragma once
#include "llvm/ADT/DenseMap.h"
#include "llvm/Analysis/CaptureTracking.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Support/FormatVariadic.h"
#include "llvm/ADT/DenseSet.h"
#include "llvm/ADT/SCCIterator.h"
#include "llvm/ADT/StringRef.h"
#include "llvm/Analysis/ValueTracking.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <vector>

using namespace llvm;

struct Options {
  std::vector<std::string> files;
  std::map<std::string, std::vector<std::string>> kv; // --key=value (repeatable)
  bool has(const std::string &k) const { return kv.count(k) != 0; }
  std::string one(const std::string &k, const std::string &d = "") const {
    auto i = kv.find(k);
    return i == kv.end() ? d : i->second.back();
  }
  std::vector<std::string> all(const std::string &k) const {
    auto i = kv.find(k);
    return i == kv.end() ? std::vector<std::string>{} : i->second;
  }
};

/// Result of one analysis over one or more modules.
struct Report {
  json::Array violations;   // {site, function, rule, message, path}
  json::Object counts;      // what was analysed
  json::Array notes;        // sample of analysed obligations
  json::Array broken;       // anchors which could not be found
  void violation(StringRef rule, StringRef func, StringRef site, StringRef msg, json::Array path = {}) {
    violations.push_back(json::Object{{"rule", rule.str()}, {"function", func.str()}, {"site", site.str()},
                                      {"message", json::fixUTF8(msg)}, {"path", std::move(path)}});
  }
  void bump(StringRef k, int64_t n = 1) {
    auto *v = counts.get(k);
    int64_t c = v ? v->getAsInteger().value_or(0) : 0;
    counts[k] = c + n;
  }
  void note(std::string s) {
    if (notes.size() < 400)
      notes.push_back(json::fixUTF8(s));
  }
};

std::string demangled(StringRef name);
std::string fnName(const Function &F);
/// "file:line" of an instruction, preferring the innermost frame that lies in /repo
std::string siteOf(const Instruction &I);
std::string siteOf(const Function &F);
/// true when the function was written in the repository (not libstdc++, not the driver)
bool inRepo(const Function &F);
std::string fileOf(const Function &F);
/// name of the return type according to the debug info (typedefs resolved), "" for void/unknown
std::string returnTypeName(const Function &F);

/// the parameter types (debug info; typedefs, references and const dropped), without the implicit object parameter
std::vector<std::string> paramTypeNames(const Function &F);
/// text of a result type: the failure kinds of the library's conventions
enum Kind { KNone, KStatus, KBool, KOptional, KExpect };
Kind resultKind(const Function &F);

std::unique_ptr<Module> loadModule(LLVMContext &C, const std::string &path);

struct PrepPolicy {
  // functions for which it returns true are inlined everywhere (must not be recursive)
  std::function<bool(Function &)> inlineIf;
  bool leafInline = false;          // inline call-free small functions first
  std::function<bool(Function &)> keep; // never inline
  bool inlineLambdas = false;   // closures with one caller become part of it
  bool jumpThread = false;
};
void prepare(Module &M, const PrepPolicy &P);
/// mark and inline everything reachable that is not recursive except functions selected by keep
void inlineAll(Module &M, const std::function<bool(Function &)> &keep, unsigned maxRounds = 60);
void simplify(Module &M, bool jumpThread);
void simplifyFn(Function &F);

/// every function that may be called by the call site (resolves constant function tables)
struct CallResolver {
  Module &M;
  explicit CallResolver(Module &M);
  std::vector<Function *> callees(const CallBase &CB);
  bool lastUnresolved = false;
  DenseMap<FunctionType *, std::vector<Function *>> addressTaken;
};

// ---------------------------------------------------------------------------------------------
// Path-sensitive typestate engine (property simulation): explores (block, automaton state, facts)
// where facts are constants / null-ness of SSA values that are live.
struct Fact {
  enum K { Unknown, Const, NonZero } k = Unknown;
  int64_t c = 0;
  bool operator<(const Fact &o) const { return std::tie(k, c) < std::tie(o.k, o.c); }
  bool operator==(const Fact &o) const { return k == o.k && c == o.c; }
  static Fact constant(int64_t v) { return {Const, v}; }
  static Fact nonzero() { return {NonZero, 0}; }
};
using Env = std::map<const Value *, Fact>;

struct PState {
  int s = 0;                           // automaton state
  std::map<int, int64_t> x;            // extra automaton registers
  Env env;
  std::map<std::pair<const Value *, int64_t>, Fact> mem; // facts about local memory (alloca, offset)
  bool operator<(const PState &o) const {
    if (s != o.s) return s < o.s;
    if (x != o.x) return x < o.x;
    if (mem != o.mem) return mem < o.mem;
    return env < o.env;
  }
};

struct PathEngine {
  Function &F;
  // called for each instruction (non-phi, non-terminator or invoke/call). May mutate the state; may return false to kill path.
  // For calls: set env[&I] to give the result a fact. The callback may push alternatives into `alts`.
  std::function<bool(PState &, Instruction &, std::vector<PState> &alts)> onInst;
  // for invoke: which edge is being followed (true=unwind). Return false when infeasible.
  std::function<bool(PState &, InvokeInst &, bool unwind)> onInvokeEdge;
  std::function<void(PState &, Instruction &term)> onExit; // ret / resume / unreachable
  std::function<void(PState &, BranchInst &, bool taken)> onBranch;
  std::function<void(PState &, SwitchInst &, const ConstantInt *)> onSwitch; // null: default
  size_t maxStatesPerBlock = 3000;
  bool overflowed = false;
  size_t explored = 0;
  bool trackMemory = true;

  explicit PathEngine(Function &F) : F(F) {}
  void run(const PState &init);
  Fact eval(const PState &S, const Value *V, int depth = 0) const;
  bool assume(PState &S, const Value *cond, bool truth, int depth = 0); // false -> contradiction
  /// path (sites) leading to the state currently processed
  json::Array trace() const;
  const Instruction *here() const { return nodes[cur].bb->getTerminator(); }

private:
  DenseMap<const BasicBlock *, DenseSet<const Value *>> liveIn;
  void computeLiveness();
  struct Node { BasicBlock *bb; PState st; int parent; };
  std::vector<Node> nodes;
  int cur = -1;
};

using Cmd = std::function<int(const Options &, Report &)>;
std::map<std::string, Cmd> &commands();
struct Register {
  Register(const char *n, Cmd c) { commands()[n] = std::move(c); }
};

#pragma once
#include "exec.h"
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/IR/Dominators.h>
#include <unordered_set>
namespace dv {
using namespace llvm;
struct Leaf { uint64_t off; uint32_t w; };
struct PtrCase { T guard; uint64_t id; T off; bool ok; };
struct FnInfo {
  Function *F; std::unordered_map<const Value *, unsigned> slot; unsigned nslots = 0;
  std::map<BasicBlock *, BasicBlock *> ipdom;
  uint64_t calls = 0;
  std::unique_ptr<DominatorTree> DT; std::unique_ptr<LoopInfo> LI;
};
struct Ctx {
  State st; std::vector<Val> regs; std::vector<uint64_t> allocas; std::vector<Val> extra;
  const GlobalVariable *curTi = nullptr; T curPtr = nullptr; int64_t curSel = 0;
  std::vector<std::pair<BasicBlock *, int>> loops;
};
struct Outcome { enum Kind { STOP, RET, THROW } kind; Ctx c; Val ret; const GlobalVariable *ti = nullptr; };
struct Access { uint64_t id; T off; uint32_t nb; bool wr; std::vector<T> pc; T guard; };

struct VM {
  Module *M; const DataLayout *DL;
  std::unordered_map<Type *, std::vector<Leaf>> leafCache;
  const std::vector<Leaf> &leaves(Type *t);
  uint64_t nextId = 1;
  std::vector<std::pair<GlobalVariable *, ObjP>> globInit;
  std::unordered_map<const GlobalValue *, T> gaddr;
  std::unordered_map<uint64_t, Function *> fnByAddr;
  std::unordered_map<Constant *, Val> constCache;
  std::map<Function *, std::unique_ptr<FnInfo>> finfo;
  std::map<std::pair<T, T>, std::pair<size_t, bool>> ktCache;
  std::vector<Instruction *> callStack;
  std::vector<Obligation> obls; std::set<std::string> oblSeen;
  std::map<std::string, uint64_t> nTriv;
  std::set<std::string> covers, coversSeen; std::map<std::string, bool> coverHit;
  std::map<std::string, uint64_t> choices; std::vector<std::array<std::string, 3>> choiceLog; // name lo hi
  std::map<std::string, std::vector<Function *>> replaced; Function *contractOf(const std::string &name, Function *F) { auto it = replaced.find(name); if (it != replaced.end()) for (Function *r : it->second) if (r != F && r->getFunctionType() == F->getFunctionType()) return r; return nullptr; } // an overload is told by its type
  std::set<std::string> usedContracts, fnsSeen, externsSeen, replMissing;
  std::vector<std::pair<std::string, T>> inputs; // name -> term of symbolic inputs
  uint64_t nInstr = 0, nForks = 0, nMerges = 0, nUndef = 0; int depth = 0;
  double deadline = 1e30; unsigned feasMs = 400; uint64_t maxCand = 4096;
  bool trackOn = false; std::vector<std::vector<Access>> tracks; int curTask = -1; uint64_t trackBase = ~0ull;
  std::unordered_map<Function *, std::string> baseNames;
  bool verbose = false; std::vector<std::string> loopNotes;
  std::map<std::string, uint64_t> opts;
  ObjP deadObj = [] { auto o = std::make_shared<Obj>(); o->dead = true; o->size = mkC(64, 0); o->name = "(dead)"; return o; }();

  uint64_t newId();
  ObjP allocObj(State &s, uint64_t size, int kind, const std::string &name);
  ObjP allocSym(State &s, T size, const std::string &uf, int kind);
  T addrOf(const ObjP &o, uint64_t off = 0);
  const ObjP &getObj(State &s, uint64_t id);
  Obj &mut(State &s, uint64_t id);
  void writeConst(Obj &o, uint64_t off, Constant *c);
  ObjP makeGlobal(uint64_t id, GlobalVariable *g);
  T globalAddr(const GlobalValue *g);
  Val constVal(Constant *c);
  T simpUnder(const State &s, T c);
  bool knownTrue(const State &s, T c);
  bool maybe(const State &s, T c);
  void assume(State &s, T c);
  void oblige(State &s, T c, const std::string &name, const std::string &kind);
  std::string where();
  void ptrCases(State &s, T p, std::vector<PtrCase> &out, T guard, int depth);
  bool candidates(State &s, T off, uint64_t size, uint64_t nb, std::vector<uint64_t> &out);
  T undefByte(const Obj &o, uint64_t off);
  T readConcrete(Obj &o, uint64_t off, uint32_t nb);
  void writeConcrete(Obj &o, uint64_t off, T v);
  T readObj(State &s, uint64_t id, T off, uint32_t nb);
  void writeObj(State &s, uint64_t id, T off, T v, T guard);
  void checkAccess(State &s, const PtrCase &pc, uint64_t nb, bool wr);
  T load(State &s, T p, uint32_t nb);
  void store(State &s, T p, T v);
  Val loadTy(State &s, T p, Type *t);
  void storeTy(State &s, T p, Type *t, const Val &v);
  uint64_t constU(T t, const char *what);
  std::string cstr(State &s, T p);
  void copyBytes(State &s, T dst, T src, T len, bool move);
  void setBytes(State &s, T dst, T byte, T len);
  void mergeObj(T sel, Obj &a, const Obj &b);
  void mergeState(State &a, const State &b);
  T selectorOf(const State &a, const State &b);
  FnInfo &info(Function *F);
  bool typeMatches(const GlobalVariable *thrown, const GlobalVariable *want);
  std::map<const GlobalValue *, int64_t> tids;
  int64_t typeId(const GlobalValue *g) { auto &x = tids[g]; if (!x) x = tids.size() + 1; return x; }
  Val get(Ctx &c, FnInfo &fi, Value *v);
  void takeEdge(Ctx &c, FnInfo &fi, BasicBlock *from, BasicBlock *to);
  void mergeOutcome(std::vector<Outcome> &outs, Outcome &&o);
  std::vector<Outcome> callFunction(Function *F, std::vector<Val> args, State st, Instruction *site);
  std::vector<Outcome> runMany(std::vector<std::pair<Ctx, BasicBlock *>> starts, FnInfo &fi, BasicBlock *join);
  std::vector<Outcome> run(Ctx c, FnInfo &fi, BasicBlock *bb, BasicBlock *stop);
  // step.cpp
  void step(Ctx &c, FnInfo &fi, Instruction *I);
  Val evalPure(Instruction *I, const std::vector<Val> &ops);
  std::vector<Outcome> doCall(Ctx &c, FnInfo &fi, CallBase *cb);
  std::vector<Outcome> callTarget(Ctx &c, Function *F, CallBase *cb, std::vector<Val> args, State st);
  bool intrinsic(Ctx &c, CallBase *cb, Function *F, std::vector<Val> &args, State &s, Val &ret);
  bool external(Ctx &c, CallBase *cb, const std::string &n, std::vector<Val> &args, State &s, Val &ret, std::vector<Outcome> &outs);
  bool x86(const std::string &n, CallBase *cb, std::vector<Val> &args, Val &ret);
  void noteFunction(Function *F);
  void noteAccess(State &s, const PtrCase &p, uint64_t nb, bool wr);
  void runCtors(State &s);
  // sym.cpp
  T readSym(State &s, Obj &o, T off, uint32_t nb);
  T readSymFrom(State &s, Obj &o, size_t layer, T off, uint32_t nb);
  void writeSym(State &s, uint64_t id, T off, T v, T guard);
  bool copySym(State &s, T dst, T src, T len);
  bool setSym(State &s, T dst, T byte, T len);
  void mergeSym(T sel, Obj &a, const Obj &b);
  bool loopEnter(Ctx &c, FnInfo &fi, BasicBlock *bb, BasicBlock *stop, std::vector<Outcome> &result);
};
} // namespace dv

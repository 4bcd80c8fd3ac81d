#include "exec.h"
#include "vm.h"
#include <llvm/IR/Constants.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/Demangle/Demangle.h>
#include <algorithm>
#include <chrono>
#include <cstring>
#include <iostream>

using namespace llvm;
namespace dv {
static const unsigned ZS = 36;
static inline uint64_t baseOf(uint64_t id) { return ((id + 1) << ZS) | (1ULL << (ZS - 1)); }
static double nowS() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
void dvFail(const std::string &msg) { throw EngineError{msg}; }

// ---------------------------------------------------------------- layout
const std::vector<Leaf> &VM::leaves(Type *t) {
  auto it = leafCache.find(t);
  if (it != leafCache.end()) return it->second;
  std::vector<Leaf> r;
  if (t->isIntegerTy()) r.push_back({0, t->getIntegerBitWidth()});
  else if (t->isPointerTy()) r.push_back({0, 64});
  else if (t->isDoubleTy()) r.push_back({0, 64});
  else if (t->isFloatTy()) r.push_back({0, 32});
  else if (t->isX86_FP80Ty()) r.push_back({0, 80});
  else if (auto *vt = dyn_cast<FixedVectorType>(t)) {
    auto e = leaves(vt->getElementType());
    uint64_t st = DL->getTypeAllocSize(vt->getElementType());
    for (unsigned i = 0; i < vt->getNumElements(); i++) r.push_back({i * st, e[0].w});
  } else if (auto *at = dyn_cast<ArrayType>(t)) {
    auto e = leaves(at->getElementType());
    uint64_t st = DL->getTypeAllocSize(at->getElementType());
    for (uint64_t i = 0; i < at->getNumElements(); i++) for (auto &l : e) r.push_back({i * st + l.off, l.w});
  } else if (auto *s = dyn_cast<StructType>(t)) {
    auto *sl = DL->getStructLayout(s);
    for (unsigned i = 0; i < s->getNumElements(); i++) {
      auto e = leaves(s->getElementType(i));
      for (auto &l : e) r.push_back({(uint64_t)sl->getElementOffset(i) + l.off, l.w});
    }
  } else { std::string n; raw_string_ostream o(n); t->print(o); dvFail("unsupported type " + n); }
  return leafCache[t] = r;
}

// ---------------------------------------------------------------- objects
uint64_t VM::newId() { return nextId++; }
ObjP VM::allocObj(State &s, uint64_t size, int kind, const std::string &name) {
  auto o = std::make_shared<Obj>();
  o->id = newId();
  o->size = mkC(64, size); o->kind = kind; o->name = name;
  o->cells.resize(size);
  if (s.mem.size() <= o->id) s.mem.resize(o->id + 64);
  s.mem[o->id] = o;
  return o;
}
ObjP VM::allocSym(State &s, T size, const std::string &uf, int kind) {
  auto o = std::make_shared<Obj>();
  o->id = newId();
  o->size = size; o->kind = kind; o->name = uf; o->symb = true; o->uf = uf;
  if (s.mem.size() <= o->id) s.mem.resize(o->id + 64);
  s.mem[o->id] = o;
  return o;
}
T VM::addrOf(const ObjP &o, uint64_t off) { return mkC(64, baseOf(o->id) + off); }
const ObjP &VM::getObj(State &s, uint64_t id) {
  static ObjP none;
  if (id < s.mem.size() && s.mem[id]) return s.mem[id];
  if (id < globInit.size() && (globInit[id].first)) {
    // materialise a global
    if (s.mem.size() <= id) s.mem.resize(id + 64);
    if (!globInit[id].second) globInit[id].second = makeGlobal(id, globInit[id].first);
    s.mem[id] = globInit[id].second;
    return s.mem[id];
  }
  return none;
}
Obj &VM::mut(State &s, uint64_t id) {
  getObj(s, id);
  ObjP &p = s.mem[id];
  if (p.use_count() > 1) p = std::make_shared<Obj>(*p);
  return *p;
}
void VM::writeConst(Obj &o, uint64_t off, Constant *c) {
  Type *t = c->getType();
  if (isa<ConstantAggregateZero>(c)) { for (uint64_t i = 0; i < DL->getTypeStoreSize(t); i++) o.cells[off + i] = {mkC(8, 0), 0}; return; }
  if (isa<UndefValue>(c)) { for (uint64_t i = 0; i < DL->getTypeStoreSize(t); i++) o.cells[off + i] = {mkC(8, 0), 0}; return; }
  if (auto *cs = dyn_cast<ConstantStruct>(c)) {
    auto *sl = DL->getStructLayout(cs->getType());
    for (unsigned i = 0; i < cs->getNumOperands(); i++) writeConst(o, off + sl->getElementOffset(i), cs->getOperand(i));
    return;
  }
  if (auto *ca = dyn_cast<ConstantArray>(c)) {
    uint64_t st = DL->getTypeAllocSize(ca->getType()->getElementType());
    for (unsigned i = 0; i < ca->getNumOperands(); i++) writeConst(o, off + i * st, ca->getOperand(i));
    return;
  }
  if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
    uint64_t st = DL->getTypeAllocSize(cd->getElementType());
    for (unsigned i = 0; i < cd->getNumElements(); i++) writeConst(o, off + i * st, cd->getElementAsConstant(i));
    return;
  }
  Val v = constVal(c);
  auto &lv = leaves(t);
  for (size_t i = 0; i < lv.size(); i++) {
    uint32_t nb = (lv[i].w + 7) / 8;
    T x = mkZext(v.v[i], nb * 8);
    for (uint32_t b = 0; b < nb; b++) o.cells[off + lv[i].off + b] = {x, b};
  }
}
ObjP VM::makeGlobal(uint64_t id, GlobalVariable *g) {
  auto o = std::make_shared<Obj>();
  o->id = id; o->kind = 2; o->name = g->getName().str(); o->ro = g->isConstant();
  uint64_t sz = g->getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(g->getValueType()) : 64;
  if (!g->hasInitializer()) sz = std::max<uint64_t>(sz, 64);
  o->size = mkC(64, sz);
  o->cells.resize(sz);
  if (g->hasInitializer()) {
    for (auto &c : o->cells) c = {mkC(8, 0), 0};
    writeConst(*o, 0, g->getInitializer());
  }
  return o;
}
T VM::globalAddr(const GlobalValue *g) {
  if (auto *ga = dyn_cast<GlobalAlias>(g)) return constVal(const_cast<Constant *>(cast<Constant>(ga->getAliasee()))).s();
  auto it = gaddr.find(g);
  if (it != gaddr.end()) return it->second;
  uint64_t id = newId();
  T a = mkC(64, baseOf(id));
  gaddr[g] = a;
  if (auto *f = dyn_cast<Function>(g)) { fnByAddr[baseOf(id)] = const_cast<Function *>(f); }
  else {
    if (globInit.size() <= id) globInit.resize(id + 64);
    globInit[id].first = const_cast<GlobalVariable *>(cast<GlobalVariable>(g));
  }
  return a;
}

// ---------------------------------------------------------------- constants
Val VM::constVal(Constant *c) {
  auto it = constCache.find(c);
  if (it != constCache.end()) return it->second;
  Val r;
  if (auto *ci = dyn_cast<ConstantInt>(c)) r.v.push_back(mkConst(ci->getValue()));
  else if (auto *cf = dyn_cast<ConstantFP>(c)) r.v.push_back(mkConst(cf->getValueAPF().bitcastToAPInt()));
  else if (isa<ConstantPointerNull>(c)) r.v.push_back(mkC(64, 0));
  else if (isa<ConstantAggregateZero>(c)) { for (auto &l : leaves(c->getType())) r.v.push_back(mkC(l.w, 0)); }
  else if (isa<UndefValue>(c)) { for (auto &l : leaves(c->getType())) r.v.push_back(mkFresh("undef", l.w)); return r; }
  else if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
    for (unsigned i = 0; i < cd->getNumElements(); i++) r.v.append(constVal(cd->getElementAsConstant(i)).v);
  } else if (isa<ConstantStruct>(c) || isa<ConstantArray>(c) || isa<ConstantVector>(c)) {
    for (unsigned i = 0; i < c->getNumOperands(); i++) r.v.append(constVal(cast<Constant>(c->getOperand(i))).v);
  } else if (auto *g = dyn_cast<GlobalValue>(c)) r.v.push_back(globalAddr(g));
  else if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    Instruction *I = ce->getAsInstruction();
    State dummy;
    std::vector<Val> ops;
    for (auto &o : I->operands()) ops.push_back(constVal(cast<Constant>(o.get())));
    r = evalPure(I, ops);
    I->deleteValue();
  } else if (auto *de = dyn_cast<DSOLocalEquivalent>(c)) r.v.push_back(globalAddr(de->getGlobalValue()));
  else dvFail("unsupported constant");
  constCache[c] = r;
  return r;
}

// ---------------------------------------------------------------- path condition helpers
static T simpUnderRec(T c, const std::set<T> &lits, int d) {
  if (lits.count(c)) return mkTrue();
  T n = mkNot(c);
  if (lits.count(n)) return mkFalse();
  if (d == 0) return c;
  if (c->op == AND && c->w == 1) {
    TV v; bool ch = false;
    for (uint32_t i = 0; i < c->n; i++) { T x = simpUnderRec(c->a[i], lits, d - 1); ch |= x != c->a[i]; v.push_back(x); }
    return ch ? mkAndV(v) : c;
  }
  if (n->op == AND && n->w == 1) { T x = simpUnderRec(n, lits, d - 1); return x == n ? c : mkNot(x); }
  if (c->op == ITE) {
    T g = simpUnderRec(c->a[0], lits, d - 1);
    if (g->isConst()) return simpUnderRec(g->c->isZero() ? c->a[2] : c->a[1], lits, d - 1);
  }
  return c;
}
T VM::simpUnder(const State &s, T c) {
  if (c->isConst() || s.pc.empty()) return c;
  std::set<T> lits;
  for (T p : s.pc) { lits.insert(p); if (p->op == AND) for (uint32_t i = 0; i < p->n; i++) lits.insert(p->a[i]); }
  return simpUnderRec(c, lits, 3);
}
bool VM::knownTrue(const State &s, T c) {
  c = simpUnder(s, c);
  if (c->isConst()) return !c->c->isZero();
  if (s.pc.empty()) return false;
  auto key = std::make_pair(c, s.pc.empty() ? nullptr : s.pc.back());
  auto it = ktCache.find(key);
  if (it != ktCache.end() && it->second.first == s.pc.size()) return it->second.second;
  std::vector<T> v(s.pc); v.push_back(mkNot(c));
  bool r = !feasible(v, feasMs);
  ktCache[key] = {s.pc.size(), r};
  return r;
}
bool VM::maybe(const State &s, T c) {
  c = simpUnder(s, c);
  if (c->isConst()) return !c->c->isZero();
  std::vector<T> v(s.pc); v.push_back(c);
  return feasible(v, feasMs);
}
void VM::assume(State &s, T c) {
  c = simpUnder(s, c);
  if (c->isConst()) { if (c->c->isZero()) throw AbortPath(); return; }
  s.pc.push_back(c);
}
void VM::oblige(State &s, T c, const std::string &name, const std::string &kind) {
  T c0 = c;
  c = simpUnder(s, c);
  if (c->isConst() && !c->c->isZero()) {
    nTriv[kind]++;
    if (kind == "ensure") { Obligation o; o.name = name; o.kind = kind; o.cond = c; o.res = PROVED; o.backend = "rewriter"; obls.push_back(o); }
    return;
  }
  auto key = std::make_pair(c, name);
  Obligation o;
  o.name = name; o.kind = kind; o.where = where(); o.pc = s.pc; o.cond = c;
  if (kind != "ensure") {
    // implicit obligations: deduplicate by condition and path
    std::string k = o.where + "#" + std::to_string(c->id) + "#" + (s.pc.empty() ? "" : std::to_string(s.pc.back()->id)) + "#" + std::to_string(s.pc.size());
    if (!oblSeen.insert(k).second) return;
  }
  obls.push_back(o);
}
std::string baseName(const std::string &mangled);
std::string VM::where() {
  std::string r;
  int n = 0;
  for (auto it = callStack.rbegin(); it != callStack.rend() && n < 4; ++it, ++n) {
    Instruction *I = *it;
    if (!I) continue;
    std::string f = baseName(I->getFunction()->getName().str());
    unsigned ln = I->getDebugLoc() ? I->getDebugLoc().getLine() : 0;
    std::string file = I->getDebugLoc() ? cast<DIScope>(I->getDebugLoc().getScope())->getFilename().str() : "";
    size_t sl = file.rfind('/'); if (sl != std::string::npos) file = file.substr(sl + 1);
    if (!r.empty()) r += " < ";
    r += f + "@" + file + ":" + std::to_string(ln);
  }
  return r;
}

// ---------------------------------------------------------------- pointers
// Split a pointer into guarded cases that each lie in one object.
void VM::ptrCases(State &s, T p, std::vector<PtrCase> &out, T guard, int depth) {
  if (p->isConst()) {
    uint64_t v = p->c->getZExtValue();
    out.push_back({guard, (v >> ZS) - 1, mkC(64, v - baseOf((v >> ZS) - 1)), v >> ZS != 0});
    return;
  }
  if (depth > 40) dvFail("pointer too deep");
  if (p->op == ITE) {
    T c = simpUnder(s, p->a[0]);
    if (c->isConst()) return ptrCases(s, c->c->isZero() ? p->a[2] : p->a[1], out, guard, depth + 1);
    ptrCases(s, p->a[1], out, mkAnd(guard, c), depth + 1);
    ptrCases(s, p->a[2], out, mkAnd(guard, mkNot(c)), depth + 1);
    return;
  }
  if (p->op == ADD) {
    // constant part names the object
    T k = nullptr;
    for (uint32_t i = 0; i < p->n; i++) if (p->a[i]->isConst()) k = p->a[i];
    if (k && (k->c->getZExtValue() >> ZS) != 0 && (k->c->getZExtValue() >> ZS) <= nextId) {
      uint64_t id = (k->c->getZExtValue() >> ZS) - 1;
      out.push_back({guard, id, mkSub(p, mkC(64, baseOf(id))), true});
      return;
    }
    for (uint32_t i = 0; i < p->n; i++) {
      T x = p->a[i];
      if (x->op == ITE && x->w == 64) {
        TV r1, r2;
        for (uint32_t j = 0; j < p->n; j++) { r1.push_back(j == i ? x->a[1] : p->a[j]); r2.push_back(j == i ? x->a[2] : p->a[j]); }
        T c = simpUnder(s, x->a[0]);
        if (!(c->isConst() && c->c->isZero())) ptrCases(s, mkAddV(r1), out, mkAnd(guard, c), depth + 1);
        if (!(c->isConst() && !c->c->isZero())) ptrCases(s, mkAddV(r2), out, mkAnd(guard, mkNot(c)), depth + 1);
        return;
      }
    }
  }
  out.push_back({guard, 0, p, false});
}
static void linParts(T off, uint64_t &c, T &rest, uint64_t &stride) {
  c = 0; stride = 0; rest = off;
  auto coef = [](T t) -> uint64_t {
    if (t->op == MUL && t->a[0]->isConst()) { return t->a[0]->c->getZExtValue(); }
    if (t->op == CONCAT && t->a[0]->isConst() && t->a[0]->c->isZero()) return 1ULL << std::min(63u, t->a[0]->w);
    if (t->op == ITE && t->a[1]->isConst() && t->a[2]->isConst()) {
      uint64_t x = t->a[1]->c->getZExtValue(), y = t->a[2]->c->getZExtValue();
      uint64_t g = std::__gcd(x, y);
      return g ? g : 1;
    }
    return 1;
  };
  auto gcd = [](uint64_t a, uint64_t b) { return std::__gcd(a, b); };
  auto absS = [](uint64_t x) { return (int64_t)x < 0 ? 0 - x : x; };
  if (off->op == ADD) {
    TV r;
    for (uint32_t i = 0; i < off->n; i++) {
      if (off->a[i]->isConst()) c = off->a[i]->c->getZExtValue();
      else { r.push_back(off->a[i]); stride = gcd(stride, absS(coef(off->a[i]))); }
    }
    rest = mkAddV(r);
  } else stride = absS(coef(off));
}
// candidate concrete offsets of a symbolic offset within an object
bool VM::candidates(State &s, T off, uint64_t size, uint64_t nb, std::vector<uint64_t> &out) {
  uint64_t lo = off->lo, hi = off->hi;
  if (lo > size) return true;
  // refine by literals on the path
  for (T p : s.pc) {
    T q = mkNot(p);
    if (p->op == ULT && p->a[0] == off) hi = std::min(hi, p->a[1]->hi - 1);
    if (q->op == ULT && q->a[1] == off) hi = std::min(hi, q->a[0]->hi);
    if (p->op == ULT && p->a[1] == off) lo = std::max(lo, p->a[0]->lo + 1);
    if (q->op == ULT && q->a[0] == off) lo = std::max(lo, q->a[1]->lo);
  }
  uint64_t c, stride; T rest;
  linParts(off, c, rest, stride);
  if (stride == 0) stride = 1;
  if (hi > size - nb) hi = size - nb;
  uint64_t r0 = (c % stride);
  uint64_t st = lo;
  while (st % stride != r0 && st < lo + stride) st++;
  for (uint64_t x = st; x <= hi && x >= st; x += stride) { out.push_back(x); if (out.size() > maxCand) return false; }
  return true;
}
static T cellByte(const Cell &c) { return mkExtract(c.t, c.i * 8, 8); }

T VM::undefByte(const Obj &o, uint64_t off) { nUndef++; return mkVar("undef_" + std::to_string(o.id) + "_" + std::to_string(off), 8); }

T VM::readConcrete(Obj &o, uint64_t off, uint32_t nb) {
  Cell &c0 = o.cells[off];
  if (c0.t && c0.i == 0 && c0.t->w == nb * 8) {
    bool all = true;
    for (uint32_t i = 1; i < nb && all; i++) all = o.cells[off + i].t == c0.t && o.cells[off + i].i == i;
    if (all) return c0.t;
  }
  TV parts;
  for (uint32_t i = 0; i < nb;) {
    Cell &c = o.cells[off + i];
    if (!c.t) { parts.push_back(undefByte(o, off + i)); i++; continue; }
    uint32_t j = i + 1;
    while (j < nb && o.cells[off + j].t == c.t && o.cells[off + j].i == c.i + (j - i)) j++;
    parts.push_back(mkExtract(c.t, c.i * 8, (j - i) * 8));
    i = j;
  }
  return mkConcat(parts);
}
void VM::writeConcrete(Obj &o, uint64_t off, T v) {
  uint32_t nb = v->w / 8;
  for (uint32_t i = 0; i < nb; i++) o.cells[off + i] = {v, i};
}
static T gatherLut(T off, const std::vector<uint64_t> &cand, const std::vector<T> &vals, uint32_t w) {
  // off = c + stride*idx with idx narrow: a table
  if (w > 64) return nullptr;
  for (T v : vals) if (!v->isConst()) return nullptr;
  uint64_t c, stride; T rest;
  linParts(off, c, rest, stride);
  // find the single varying term
  T idx = nullptr; uint64_t k = 1;
  T t = rest;
  if (t->op == MUL && t->a[0]->isConst() && t->n == 2) { k = t->a[0]->c->getZExtValue(); t = t->a[1]; }
  if (t->op == CONCAT) {
    uint32_t i = 0; 
    uint64_t sh = 0;
    if (t->a[0]->isConst() && t->a[0]->c->isZero()) { sh = t->a[0]->w; i = 1; }
    uint32_t j = t->n;
    while (j > i && t->a[j - 1]->isConst() && t->a[j - 1]->c->isZero()) j--;
    TV p(t->a + i, t->a + j);
    if (p.empty()) return nullptr;
    idx = mkConcat(p); k <<= sh;
  } else if (t->op != ADD) {
    idx = t;
  } else return nullptr;
  if (idx->w > 13) {
    if (idx->hi < 8192) { uint32_t nw = 1; while ((idx->hi >> nw) != 0) nw++; idx = mkExtract(idx, 0, nw); }
    else return nullptr;
  }
  std::vector<uint64_t> tab(size_t(1) << idx->w, 0);
  std::unordered_map<uint64_t, T> m;
  for (size_t i = 0; i < cand.size(); i++) m[cand[i]] = vals[i];
  for (size_t i = 0; i < tab.size(); i++) {
    auto it = m.find(c + k * i);
    if (it != m.end()) tab[i] = it->second->c->getZExtValue();
  }
  return mkLut(tableId(idx->w, w, tab), idx);
}
T VM::readObj(State &s, uint64_t id, T off, uint32_t nb) {
  const ObjP &op = getObj(s, id);
  if (op->symb) return readSym(s, *op, off, nb);
  Obj &o = *op;
  uint64_t size = o.cells.size();
  if (off->isConst()) {
    uint64_t x = off->c->getZExtValue();
    if (x > size || x + nb > size) return mkFresh("oob", nb * 8);
    return readConcrete(o, x, nb);
  }
  std::vector<uint64_t> cand;
  if (size < nb) return mkFresh("oob", nb * 8);
  if (!candidates(s, off, size, nb, cand)) dvFail("too many candidate addresses in a read at " + where());
  if (cand.empty()) return mkFresh("oob", nb * 8);
  std::vector<T> vals;
  for (uint64_t c : cand) vals.push_back(readConcrete(o, c, nb));
  if (T l = gatherLut(off, cand, vals, nb * 8)) return l;
  // balanced selection is not needed: equal neighbours collapse
  T r = vals.back();
  for (size_t i = cand.size() - 1; i-- > 0;) r = mkIte(mkEq(off, mkC(64, cand[i])), vals[i], r);
  return r;
}
void VM::writeObj(State &s, uint64_t id, T off, T v, T guard) {
  if (getObj(s, id)->symb) { writeSym(s, id, off, v, guard); return; }
  Obj &o = mut(s, id);
  uint32_t nb = v->w / 8;
  uint64_t size = o.cells.size();
  bool always = guard->isConst() && !guard->c->isZero();
  if (off->isConst()) {
    uint64_t x = off->c->getZExtValue();
    if (x > size || x + nb > size) return;
    if (!always) { T old = readConcrete(o, x, nb); v = mkIte(guard, v, old); }
    writeConcrete(o, x, v);
    return;
  }
  std::vector<uint64_t> cand;
  if (size < nb) return;
  if (!candidates(s, off, size, nb, cand)) dvFail("too many candidate addresses in a write at " + where());
  for (uint64_t c : cand) {
    T old = readConcrete(o, c, nb);
    T g = mkAnd(guard, mkEq(off, mkC(64, c)));
    T nv = mkIte(g, v, old);
    if (nv != old) writeConcrete(o, c, nv);
  }
}
void VM::checkAccess(State &s, const PtrCase &pc, uint64_t nb, bool wr) {
  T g = pc.guard;
  auto implied = [&](T c) { return mkOr(mkNot(g), c); };
  if (!pc.ok) { oblige(s, implied(mkFalse()), wr ? "write through a null or wild pointer" : "read through a null or wild pointer", "memory"); if (g->isConst()) throw AbortPath(); return; }
  const ObjP &o = getObj(s, pc.id);
  if (!o || o->dead) {
    oblige(s, implied(mkFalse()), std::string(wr ? "write" : "read") + " of freed or dead object " + (o ? o->name : ""), "memory");
    if (g->isConst()) throw AbortPath();
    return;
  }
  T off = pc.off;
  if (!o->symb && off->isConst()) {
    uint64_t x = off->c->getZExtValue(), n = o->cells.size();
    if (x <= n && nb <= n - x) { nTriv["memory"]++; return; }
    oblige(s, implied(mkFalse()), std::string(wr ? "write" : "read") + " out of bounds of " + o->name + " offset " + std::to_string((int64_t)x) + " of " + std::to_string(n), "memory");
    if (g->isConst()) throw AbortPath();
    return;
  }
  // off + nb <= size, off not wrapped: sizes are below 2^35
  T c = mkAnd(mkUle(off, o->size), mkUle(mkC(64, nb), mkSub(o->size, off)));
  if (!o->symb) c = o->cells.size() < nb ? mkFalse() : mkUle(off, mkC(64, o->cells.size() - nb));
  oblige(s, implied(c), std::string(wr ? "write" : "read") + " within bounds of " + o->name, "memory");
  T ci = simpUnder(s, implied(c));
  if (!(ci->isConst()) ) { s.pc.push_back(ci); }
  else if (ci->c->isZero()) throw AbortPath();
}
T VM::load(State &s, T p, uint32_t nb) {
  std::vector<PtrCase> cs;
  ptrCases(s, p, cs, mkTrue(), 0);
  T r = nullptr;
  for (size_t i = cs.size(); i-- > 0;) {
    auto &c = cs[i];
    checkAccess(s, c, nb, false);
    const ObjP &o = c.ok ? getObj(s, c.id) : *new ObjP();
    T v = (!c.ok || !o || o->dead) ? mkFresh("wild", nb * 8) : readObj(s, c.id, c.off, nb);
    if (c.ok && trackOn) noteAccess(s, c, nb, false);
    r = r ? mkIte(c.guard, v, r) : v;
  }
  return r;
}
void VM::store(State &s, T p, T v) {
  std::vector<PtrCase> cs;
  ptrCases(s, p, cs, mkTrue(), 0);
  for (auto &c : cs) {
    checkAccess(s, c, v->w / 8, true);
    if (!c.ok) continue;
    const ObjP &o = getObj(s, c.id);
    if (!o || o->dead) continue;
    if (o->ro) oblige(s, mkNot(c.guard), "write to constant " + o->name, "memory");
    if (trackOn) noteAccess(s, c, v->w / 8, true);
    writeObj(s, c.id, c.off, v, c.guard);
  }
}
Val VM::loadTy(State &s, T p, Type *t) {
  Val r;
  auto &lv = leaves(t);
  if (isa<FixedVectorType>(t) && lv[0].w >= 8 && lv[0].w % 8 == 0) {
    uint32_t n = lv.size() * lv[0].w / 8;
    T x = load(s, p, n);
    for (auto &l : lv) r.v.push_back(mkExtract(x, l.off * 8, l.w));
    return r;
  }
  for (auto &l : lv) {
    uint32_t nb = (l.w + 7) / 8;
    T x = load(s, l.off ? mkAdd(p, mkC(64, l.off)) : p, nb);
    r.v.push_back(mkExtract(x, 0, l.w));
  }
  return r;
}
void VM::storeTy(State &s, T p, Type *t, const Val &v) {
  auto &lv = leaves(t);
  if (isa<FixedVectorType>(t) && lv[0].w >= 8 && lv[0].w % 8 == 0) {
    // keep the lanes as separate cells when the address is known
    if (p->isConst()) { for (size_t i = 0; i < lv.size(); i++) store(s, mkAdd(p, mkC(64, lv[i].off)), v.v[i]); return; }
    store(s, p, mkConcat(TV(v.v.begin(), v.v.end())));
    return;
  }
  for (size_t i = 0; i < lv.size(); i++) {
    uint32_t nb = (lv[i].w + 7) / 8;
    store(s, lv[i].off ? mkAdd(p, mkC(64, lv[i].off)) : p, mkZext(v.v[i], nb * 8));
  }
}
uint64_t VM::constU(T t, const char *what) {
  if (!t->isConst()) dvFail(std::string("symbolic ") + what + " at " + where() + ": " + show(t, 3));
  return t->c->getZExtValue();
}
std::string VM::cstr(State &s, T p) {
  std::string r;
  for (int i = 0; i < 4096; i++) {
    T b = load(s, mkAdd(p, mkC(64, i)), 1);
    uint64_t c = constU(b, "string");
    if (!c) break;
    r.push_back((char)c);
  }
  return r;
}
void VM::copyBytes(State &s, T dst, T src, T len, bool move) {
  if (len->isConst()) {
    uint64_t n = len->c->getZExtValue();
    if (n == 0) return;
    std::vector<PtrCase> a, b;
    ptrCases(s, dst, a, mkTrue(), 0); ptrCases(s, src, b, mkTrue(), 0);
    if (a.size() == 1 && b.size() == 1 && a[0].ok && b[0].ok && a[0].off->isConst() && b[0].off->isConst()) {
      checkAccess(s, b[0], n, false); checkAccess(s, a[0], n, true);
      const ObjP &so = getObj(s, b[0].id), &dob = getObj(s, a[0].id);
      if (!so->symb && !dob->symb) {
        if (dob->ro) oblige(s, mkFalse(), "write to constant " + dob->name, "memory");
        if (trackOn) { noteAccess(s, b[0], n, false); noteAccess(s, a[0], n, true); }
        uint64_t x = b[0].off->c->getZExtValue(), y = a[0].off->c->getZExtValue();
        std::vector<Cell> tmp(so->cells.begin() + x, so->cells.begin() + x + n);
        Obj &d = mut(s, a[0].id);
        std::copy(tmp.begin(), tmp.end(), d.cells.begin() + y);
        return;
      }
    }
    if (n > 65536) dvFail("large copy through a symbolic pointer at " + where());
    std::vector<T> vals;
    uint64_t i = 0;
    std::vector<std::pair<uint64_t, uint32_t>> pieces;
    while (i < n) { uint32_t k = n - i >= 8 ? 8 : n - i >= 4 ? 4 : 1; pieces.push_back({i, k}); i += k; }
    for (auto &p : pieces) vals.push_back(load(s, mkAdd(src, mkC(64, p.first)), p.second));
    for (size_t j = 0; j < pieces.size(); j++) store(s, mkAdd(dst, mkC(64, pieces[j].first)), vals[j]);
    return;
  }
  if (copySym(s, dst, src, len)) return;
  // symbolic length between objects of known size
  uint64_t hi = len->hi;
  std::vector<PtrCase> a, b;
  ptrCases(s, dst, a, mkTrue(), 0); ptrCases(s, src, b, mkTrue(), 0);
  if (a.size() != 1 || b.size() != 1 || !a[0].ok || !b[0].ok) dvFail("symbolic copy through split pointers at " + where());
  // bound the length by a solver-free argument: it must fit in both objects
  const ObjP &so = getObj(s, b[0].id), &dobj = getObj(s, a[0].id);
  if (!so || !dobj) dvFail("symbolic copy of dead object");
  uint64_t mx = std::min(so->cells.size(), dobj->cells.size());
  T cS = mkAnd(mkUle(b[0].off, mkC(64, so->cells.size())), mkUle(len, mkSub(mkC(64, so->cells.size()), b[0].off)));
  T cD = mkAnd(mkUle(a[0].off, mkC(64, dobj->cells.size())), mkUle(len, mkSub(mkC(64, dobj->cells.size()), a[0].off)));
  oblige(s, cS, "copy reads within bounds of " + so->name, "memory");
  oblige(s, cD, "copy writes within bounds of " + dobj->name, "memory");
  hi = std::min(hi, mx);
  assume(s, cS); assume(s, cD);
  if (hi > 4096) dvFail("symbolic copy too long at " + where());
  std::vector<T> vals;
  for (uint64_t i = 0; i < hi; i++) {
    T g = mkUlt(mkC(64, i), len);
    if (!maybe(s, g)) { hi = i; break; }
    T o = mkAdd(b[0].off, mkC(64, i));
    vals.push_back(o->isConst() && o->c->getZExtValue() >= so->cells.size() ? mkC(8, 0) : readObj(s, b[0].id, o, 1));
  }
  for (uint64_t i = 0; i < hi; i++) writeObj(s, a[0].id, mkAdd(a[0].off, mkC(64, i)), vals[i], mkUlt(mkC(64, i), len));
}
void VM::setBytes(State &s, T dst, T byte, T len) {
  if (len->isConst()) {
    uint64_t n = len->c->getZExtValue();
    if (!n) return;
    std::vector<PtrCase> a;
    ptrCases(s, dst, a, mkTrue(), 0);
    if (a.size() == 1 && a[0].ok && a[0].off->isConst()) {
      checkAccess(s, a[0], n, true);
      const ObjP &d0 = getObj(s, a[0].id);
      if (!d0->symb) {
        if (d0->ro) oblige(s, mkFalse(), "write to constant " + d0->name, "memory");
        if (trackOn) noteAccess(s, a[0], n, true);
        Obj &d = mut(s, a[0].id);
        uint64_t y = a[0].off->c->getZExtValue();
        for (uint64_t i = 0; i < n; i++) d.cells[y + i] = {byte, 0};
        return;
      }
    }
    for (uint64_t i = 0; i < n; i++) store(s, mkAdd(dst, mkC(64, i)), byte);
    return;
  }
  if (setSym(s, dst, byte, len)) return;
  std::vector<PtrCase> a;
  ptrCases(s, dst, a, mkTrue(), 0);
  if (a.size() != 1 || !a[0].ok) dvFail("symbolic fill through split pointers at " + where());
  const ObjP &dobj = getObj(s, a[0].id);
  T cD = mkAnd(mkUle(a[0].off, mkC(64, dobj->cells.size())), mkUle(len, mkSub(mkC(64, dobj->cells.size()), a[0].off)));
  oblige(s, cD, "fill writes within bounds of " + dobj->name, "memory");
  assume(s, cD);
  uint64_t hi = std::min<uint64_t>(len->hi, dobj->cells.size());
  if (hi > 4096) dvFail("symbolic fill too long at " + where());
  for (uint64_t i = 0; i < hi; i++) writeObj(s, a[0].id, mkAdd(a[0].off, mkC(64, i)), byte, mkUlt(mkC(64, i), len));
}

// ---------------------------------------------------------------- merging
static T selector(const State &a, const State &b, size_t &common) {
  common = 0;
  while (common < a.pc.size() && common < b.pc.size() && a.pc[common] == b.pc[common]) common++;
  if (common < a.pc.size() && common < b.pc.size() && a.pc[common] == mkNot(b.pc[common])) return a.pc[common];
  TV v(a.pc.begin() + common, a.pc.end());
  if (v.empty()) {
    TV u(b.pc.begin() + common, b.pc.end());
    return u.empty() ? mkTrue() : mkNot(mkAndV(u));
  }
  return mkAndV(v);
}
static Val mergeVal(T sel, const Val &a, const Val &b) {
  if (a.v.empty()) return b;
  if (b.v.empty()) return a;
  Val r;
  if (a.v.size() != b.v.size()) return a;
  for (size_t i = 0; i < a.v.size(); i++) r.v.push_back(a.v[i] == b.v[i] ? a.v[i] : mkIte(sel, a.v[i], b.v[i]));
  return r;
}
void VM::mergeObj(T sel, Obj &a, const Obj &b) {
  if (a.symb) { mergeSym(sel, a, b); return; }
  size_t n = a.cells.size();
  for (size_t i = 0; i < n;) {
    Cell &x = a.cells[i]; const Cell &y = b.cells[i];
    if (x.t == y.t && x.i == y.i) { i++; continue; }
    if (!x.t) { a.cells[i] = {mkIte(sel, undefByte(a, i), cellByte(y)), 0}; i++; continue; }
    if (!y.t) { a.cells[i] = {mkIte(sel, cellByte(x), undefByte(a, i)), 0}; i++; continue; }
    // a run covered by one word on each side
    size_t j = i + 1;
    T xt = x.t, yt = y.t; uint32_t xi = x.i, yi = y.i;
    while (j < n && a.cells[j].t == xt && a.cells[j].i == xi + (j - i) && b.cells[j].t == yt && b.cells[j].i == yi + (j - i)) j++;
    uint32_t len = j - i;
    T m = mkIte(sel, mkExtract(xt, xi * 8, len * 8), mkExtract(yt, yi * 8, len * 8));
    for (uint32_t k = 0; k < len; k++) a.cells[i + k] = {m, k};
    i = j;
  }
}
void VM::mergeState(State &a, const State &b) {
  size_t common;
  T sel = selector(a, b, common);
  size_t n = std::max(a.mem.size(), b.mem.size());
  a.mem.resize(n);
  for (size_t i = 0; i < n; i++) {
    const ObjP &y = i < b.mem.size() ? b.mem[i] : nullptr;
    if (a.mem[i] == y) continue;
    if (!y) continue;
    if (!a.mem[i]) { a.mem[i] = y; continue; }
    if (a.mem[i]->dead || y->dead) { // freed on one side only: using it is then a fault on that side
      if (a.mem[i]->dead != y->dead) { auto o = std::make_shared<Obj>(*(a.mem[i]->dead ? a.mem[i] : y)); a.mem[i] = o; }
      continue;
    }
    Obj &x = mut(a, i);
    mergeObj(sel, x, *y);
  }
  TV ra(a.pc.begin() + common, a.pc.end()), rb(b.pc.begin() + common, b.pc.end());
  a.pc.resize(common);
  if (!ra.empty() && !rb.empty()) {
    T c = mkOr(mkAndV(ra), mkAndV(rb));
    if (!c->isConst()) a.pc.push_back(c);
  }
}
T VM::selectorOf(const State &a, const State &b) { size_t c; return selector(a, b, c); }

// ---------------------------------------------------------------- control-flow information
FnInfo &VM::info(Function *F) {
  auto it = finfo.find(F);
  if (it != finfo.end()) return *it->second;
  auto fi = std::make_unique<FnInfo>();
  fi->F = F;
  unsigned slot = 0;
  for (auto &A : F->args()) fi->slot[&A] = slot++;
  for (auto &B : *F) for (auto &I : B) if (!I.getType()->isVoidTy()) fi->slot[&I] = slot++;
  fi->nslots = slot;
  // post-dominators, ignoring unwind edges and blocks that never return
  std::vector<BasicBlock *> bl; std::map<BasicBlock *, int> ix;
  for (auto &B : *F) { ix[&B] = bl.size(); bl.push_back(&B); }
  int n = bl.size();
  std::vector<std::vector<int>> succ(n);
  std::vector<bool> ret(n, false), live(n, false);
  for (int i = 0; i < n; i++) {
    auto *t = bl[i]->getTerminator();
    if (isa<ReturnInst>(t)) { ret[i] = true; continue; }
    if (auto *iv = dyn_cast<InvokeInst>(t)) { succ[i].push_back(ix[iv->getNormalDest()]); continue; }
    for (auto *sb : successors(bl[i])) succ[i].push_back(ix[sb]);
  }
  // blocks from which a return is reachable
  for (int i = 0; i < n; i++) live[i] = ret[i];
  for (bool ch = true; ch;) { ch = false; for (int i = 0; i < n; i++) if (!live[i]) for (int j : succ[i]) if (live[j]) { live[i] = true; ch = true; break; } }
  // iterative post-dominator computation on reverse post-order of the reverse graph; exit node = n
  std::vector<std::vector<int>> s2(n + 1);
  for (int i = 0; i < n; i++) { if (!live[i]) continue; if (ret[i]) s2[i].push_back(n); for (int j : succ[i]) if (live[j]) s2[i].push_back(j); }
  std::vector<std::vector<int>> pred(n + 1);
  for (int i = 0; i < n; i++) for (int j : s2[i]) pred[j].push_back(i);
  std::vector<int> order, num(n + 1, -1); // post-order on reverse graph from n
  {
    std::vector<bool> seen(n + 1, false);
    std::vector<std::pair<int, size_t>> st{{n, 0}}; seen[n] = true;
    while (!st.empty()) {
      auto &[x, k] = st.back();
      if (k < pred[x].size()) { int y = pred[x][k++]; if (!seen[y]) { seen[y] = true; st.push_back({y, 0}); } }
      else { num[x] = order.size(); order.push_back(x); st.pop_back(); }
    }
  }
  std::vector<int> ip(n + 1, -1); ip[n] = n;
  for (bool ch = true; ch;) {
    ch = false;
    for (int q = (int)order.size() - 2; q >= 0; q--) {
      int x = order[q], nw = -1;
      for (int y : s2[x]) if (ip[y] != -1) {
        if (nw == -1) nw = y;
        else { int a = y, b = nw; while (a != b) { while (num[a] < num[b]) a = ip[a]; while (num[b] < num[a]) b = ip[b]; } nw = a; }
      }
      if (nw != -1 && ip[x] != nw) { ip[x] = nw; ch = true; }
    }
  }
  for (int i = 0; i < n; i++) fi->ipdom[bl[i]] = (ip[i] >= 0 && ip[i] < n) ? bl[ip[i]] : nullptr;
  return *(finfo[F] = std::move(fi));
}

// ---------------------------------------------------------------- exceptions
bool VM::typeMatches(const GlobalVariable *thrown, const GlobalVariable *want) {
  if (thrown == want || thrown->getName() == want->getName()) return true;
  if (!thrown->hasInitializer()) return want->getName() == "_ZTISt9exception" && thrown->getName().starts_with("_ZTISt");
  auto *cs = dyn_cast<ConstantStruct>(thrown->getInitializer());
  if (!cs) return false;
  for (unsigned i = 2; i < cs->getNumOperands(); i++)
    if (auto *g = dyn_cast<GlobalVariable>(cs->getOperand(i)->stripPointerCasts())) if (typeMatches(g, want)) return true;
  return false;
}

// ---------------------------------------------------------------- the interpreter
Val VM::get(Ctx &c, FnInfo &fi, Value *v) {
  if (auto *k = dyn_cast<Constant>(v)) return constVal(k);
  auto it = fi.slot.find(v);
  if (it == fi.slot.end()) dvFail("value without slot");
  return c.regs[it->second];
}
void VM::takeEdge(Ctx &c, FnInfo &fi, BasicBlock *from, BasicBlock *to) {
  std::vector<std::pair<unsigned, Val>> nv;
  for (auto &I : *to) {
    auto *p = dyn_cast<PHINode>(&I);
    if (!p) break;
    nv.push_back({fi.slot[p], get(c, fi, p->getIncomingValueForBlock(from))});
  }
  for (auto &x : nv) c.regs[x.first] = x.second;
}
void VM::mergeOutcome(std::vector<Outcome> &outs, Outcome &&o) {
  for (auto &x : outs) {
    if (x.kind != o.kind) continue;
    if (x.kind == Outcome::THROW && (x.ti != o.ti)) continue;
    if (x.kind == Outcome::STOP && x.c.curTi && o.c.curTi && x.c.curTi != o.c.curTi) continue;
    T sel = selectorOf(x.c.st, o.c.st);
    if (x.kind == Outcome::STOP) {
      for (size_t i = 0; i < x.c.regs.size(); i++) x.c.regs[i] = mergeVal(sel, x.c.regs[i], o.c.regs[i]);
      if (!x.c.curTi) { x.c.curTi = o.c.curTi; x.c.curPtr = o.c.curPtr; x.c.curSel = o.c.curSel; }
      for (uint64_t id : o.c.allocas) if (std::find(x.c.allocas.begin(), x.c.allocas.end(), id) == x.c.allocas.end()) x.c.allocas.push_back(id);
    } else {
      x.ret = mergeVal(sel, x.ret, o.ret);
    }
    nMerges++;
    mergeState(x.c.st, o.c.st);
    return;
  }
  outs.push_back(std::move(o));
}

std::vector<Outcome> VM::callFunction(Function *F, std::vector<Val> args, State st, Instruction *site) {
  if (++depth > 400) dvFail("call depth");
  FnInfo &fi = info(F);
  if (fi.calls++ == 0) noteFunction(F);
  Ctx c; c.st = std::move(st); c.regs.resize(fi.nslots);
  for (size_t i = 0; i < F->arg_size() && i < args.size(); i++) {
    if (F->hasParamAttribute(i, Attribute::ByVal)) {
      uint64_t sz = DL->getTypeAllocSize(F->getParamByValType(i));
      ObjP o = allocObj(c.st, sz, 0, "byval");
      copyBytes(c.st, addrOf(o), args[i].s(), mkC(64, sz), false);
      args[i].v[0] = addrOf(o);
    }
    c.regs[i] = args[i];
  }
  if (F->isVarArg() && args.size() > F->arg_size()) c.extra.assign(args.begin() + F->arg_size(), args.end());
  callStack.push_back(nullptr);
  std::vector<Outcome> out;
  try { out = run(std::move(c), fi, &F->getEntryBlock(), nullptr); }
  catch (AbortPath &) {}
  callStack.pop_back();
  depth--;
  return out;
}

std::vector<Outcome> VM::runMany(std::vector<std::pair<Ctx, BasicBlock *>> starts, FnInfo &fi, BasicBlock *join) {
  std::vector<Outcome> outs;
  size_t d0 = callStack.size(); int dep = depth;
  for (auto &p : starts) {
    std::vector<Outcome> r;
    try { r = run(std::move(p.first), fi, p.second, join); }
    catch (AbortPath &) { callStack.resize(d0); depth = dep; }
    for (auto &o : r) mergeOutcome(outs, std::move(o));
  }
  return outs;
}

std::vector<Outcome> VM::run(Ctx c, FnInfo &fi, BasicBlock *bb, BasicBlock *stop) {
  std::vector<Outcome> result;
  for (;;) {
    if (bb == stop) { Outcome o; o.kind = Outcome::STOP; o.c = std::move(c); mergeOutcome(result, std::move(o)); return result; }
    if (!loopEnter(c, fi, bb, stop, result)) return result;
    std::vector<std::pair<Ctx, BasicBlock *>> next;
    bool transferred = false;
    for (auto it = bb->begin(); it != bb->end(); ++it) {
      Instruction *I = &*it;
      callStack.back() = I;
      if (++nInstr % 65536 == 0 && nowS() > deadline) dvFail("time limit during symbolic execution at " + where());
      if (isa<PHINode>(I)) continue;
      if (auto *br = dyn_cast<BranchInst>(I)) {
        if (br->isUnconditional()) { next.push_back({std::move(c), br->getSuccessor(0)}); takeEdge(next[0].first, fi, bb, br->getSuccessor(0)); transferred = true; break; }
        T cond = simpUnder(c.st, get(c, fi, br->getCondition()).s());
        BasicBlock *t = br->getSuccessor(0), *f = br->getSuccessor(1);
        if (cond->isConst()) { BasicBlock *to = cond->c->isZero() ? f : t; next.push_back({std::move(c), to}); takeEdge(next[0].first, fi, bb, to); transferred = true; break; }
        if (t == f) { next.push_back({std::move(c), t}); takeEdge(next[0].first, fi, bb, t); transferred = true; break; }
        nForks++;
        bool ft = maybe(c.st, cond), ff = ft ? maybe(c.st, mkNot(cond)) : true;
        if (ft && ff) {
          Ctx c2 = c;
          c2.st.pc.push_back(mkNot(cond)); c.st.pc.push_back(cond);
          next.push_back({std::move(c), t}); takeEdge(next[0].first, fi, bb, t);
          next.push_back({std::move(c2), f}); takeEdge(next[1].first, fi, bb, f);
        } else if (ft || ff) {
          BasicBlock *to = ft ? t : f;
          next.push_back({std::move(c), to}); takeEdge(next[0].first, fi, bb, to);
        }
        transferred = true; break;
      }
      if (auto *sw = dyn_cast<SwitchInst>(I)) {
        T v = get(c, fi, sw->getCondition()).s();
        if (v->isConst()) {
          BasicBlock *to = sw->getDefaultDest();
          for (auto &cs : sw->cases()) if (cs.getCaseValue()->getValue() == *v->c) to = cs.getCaseSuccessor();
          next.push_back({std::move(c), to}); takeEdge(next[0].first, fi, bb, to);
          transferred = true; break;
        }
        std::vector<std::pair<BasicBlock *, TV>> tgt; TV dflt;
        for (auto &cs : sw->cases()) {
          T e = mkEq(v, mkConst(cs.getCaseValue()->getValue()));
          dflt.push_back(mkNot(e));
          bool found = false;
          for (auto &x : tgt) if (x.first == cs.getCaseSuccessor()) { x.second.push_back(e); found = true; }
          if (!found) tgt.push_back({cs.getCaseSuccessor(), TV{e}});
        }
        std::vector<std::pair<T, BasicBlock *>> br;
        for (auto &x : tgt) br.push_back({x.second.size() == 1 ? x.second[0] : mkOrV(x.second), x.first});
        br.push_back({dflt.empty() ? mkTrue() : mkAndV(dflt), sw->getDefaultDest()});
        for (auto &x : br) {
          T cd = simpUnder(c.st, x.first);
          if (cd->isConst() && cd->c->isZero()) continue;
          if (!maybe(c.st, cd)) continue;
          nForks++;
          Ctx c2 = c;
          if (!cd->isConst()) c2.st.pc.push_back(cd);
          takeEdge(c2, fi, bb, x.second);
          next.push_back({std::move(c2), x.second});
        }
        transferred = true; break;
      }
      if (auto *ri = dyn_cast<ReturnInst>(I)) {
        Outcome o; o.kind = Outcome::RET;
        if (ri->getReturnValue()) o.ret = get(c, fi, ri->getReturnValue());
        for (uint64_t id : c.allocas) if (id < c.st.mem.size() && c.st.mem[id]) c.st.mem[id] = deadObj;
        c.allocas.clear();
        o.c.st = std::move(c.st);
        mergeOutcome(result, std::move(o));
        return result;
      }
      if (isa<UnreachableInst>(I)) {
        oblige(c.st, mkFalse(), "unreachable code is not reached", "unreachable");
        return result;
      }
      if (auto *re = dyn_cast<ResumeInst>(I)) {
        Val v = get(c, fi, re->getValue());
        Outcome o; o.kind = Outcome::THROW; o.ret.v.push_back(v.v[0]); o.ti = c.curTi;
        for (uint64_t id : c.allocas) if (id < c.st.mem.size() && c.st.mem[id]) c.st.mem[id] = deadObj;
        o.c.st = std::move(c.st);
        mergeOutcome(result, std::move(o));
        return result;
      }
      if (auto *cb = dyn_cast<CallBase>(I)) {
        std::vector<Outcome> r = doCall(c, fi, cb);
        // drop impossible outcomes, keep normal ones merged
        auto *iv = dyn_cast<InvokeInst>(cb);
        std::vector<Outcome> thr; int ri = -1;
        for (size_t k = 0; k < r.size(); k++) if (r[k].kind == Outcome::RET) ri = k;
        if (!iv && r.size() == 1 && ri == 0) {
          c.st = std::move(r[0].c.st);
          if (!I->getType()->isVoidTy()) c.regs[fi.slot[I]] = r[0].ret;
          continue;
        }
        Ctx base; base.regs = c.regs; base.allocas = c.allocas; base.curTi = c.curTi; base.extra = c.extra; base.loops = c.loops;
        for (size_t k = 0; k < r.size(); k++) {
          if (r[k].kind == Outcome::RET) continue;
          // a throw
          if (!iv) {
            Outcome o; o.kind = Outcome::THROW; o.ret = r[k].ret; o.ti = r[k].ti; o.c.st = std::move(r[k].c.st);
            for (uint64_t id : c.allocas) if (id < o.c.st.mem.size() && o.c.st.mem[id]) o.c.st.mem[id] = deadObj;
            mergeOutcome(result, std::move(o));
            continue;
          }
          BasicBlock *ub = iv->getUnwindDest();
          LandingPadInst *lp = ub->getLandingPadInst();
          int64_t sel = -1; bool enter = lp->isCleanup();
          for (unsigned q = 0; q < lp->getNumClauses(); q++) {
            if (!lp->isCatch(q)) { enter = true; continue; }
            auto *cl = lp->getClause(q);
            if (isa<ConstantPointerNull>(cl)) { sel = 1; enter = true; break; }
            auto *g = dyn_cast<GlobalVariable>(cl->stripPointerCasts());
            if (g && r[k].ti && typeMatches(r[k].ti, g)) { sel = typeId(g); enter = true; break; }
          }
          if (!enter) {
            Outcome o; o.kind = Outcome::THROW; o.ret = r[k].ret; o.ti = r[k].ti; o.c.st = std::move(r[k].c.st);
            for (uint64_t id : c.allocas) if (id < o.c.st.mem.size() && o.c.st.mem[id]) o.c.st.mem[id] = deadObj;
            mergeOutcome(result, std::move(o));
            continue;
          }
          Ctx c2 = base; c2.st = std::move(r[k].c.st); c2.curTi = r[k].ti; c2.curPtr = r[k].ret.v.empty() ? mkC(64, 0) : r[k].ret.v[0]; c2.curSel = sel < 0 ? 0 : sel;
          takeEdge(c2, fi, bb, ub);
          next.push_back({std::move(c2), ub});
        }
        if (ri >= 0) {
          base.st = std::move(r[ri].c.st);
          if (!I->getType()->isVoidTy()) base.regs[fi.slot[I]] = r[ri].ret;
          if (!iv) { c = std::move(base); continue; }
          takeEdge(base, fi, bb, iv->getNormalDest());
          next.insert(next.begin(), {std::move(base), iv->getNormalDest()});
        }
        transferred = true;
        break;
      }
      step(c, fi, I);
    }
    (void)transferred;
    if (next.empty()) return result;
    if (next.size() == 1) { c = std::move(next[0].first); bb = next[0].second; continue; }
    BasicBlock *join = fi.ipdom.count(bb) ? fi.ipdom[bb] : nullptr;
    if (isa<InvokeInst>(bb->getTerminator())) {
      // the normal path continues; handlers run to the end of the region
      Ctx nc = std::move(next[0].first); BasicBlock *nb = next[0].second;
      bool hasNormal = nb == cast<InvokeInst>(bb->getTerminator())->getNormalDest();
      join = nullptr;
      if (!hasNormal) { next[0].first = std::move(nc); }
      std::vector<std::pair<Ctx, BasicBlock *>> h;
      for (size_t k = hasNormal ? 1 : 0; k < next.size(); k++) h.push_back({std::move(next[k].first), next[k].second});
      auto outs = runMany(std::move(h), fi, stop);
      for (auto &o : outs) mergeOutcome(result, std::move(o));
      if (!hasNormal) return result;
      c = std::move(nc); bb = nb;
      continue;
    }
    if (!join || join == stop) {
      auto outs = runMany(std::move(next), fi, stop);
      for (auto &o : outs) mergeOutcome(result, std::move(o));
      return result;
    }
    auto outs = runMany(std::move(next), fi, join);
    std::vector<std::pair<Ctx, BasicBlock *>> stops;
    for (auto &o : outs) {
      if (o.kind == Outcome::STOP) stops.push_back({std::move(o.c), join});
      else mergeOutcome(result, std::move(o));
    }
    if (stops.empty()) return result;
    if (stops.size() > 1) {
      auto o2 = runMany(std::move(stops), fi, stop);
      for (auto &o : o2) mergeOutcome(result, std::move(o));
      return result;
    }
    c = std::move(stops[0].first);
    bb = join;
  }
}
} // namespace dv

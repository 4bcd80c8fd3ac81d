// Instructions, intrinsics, library functions and the harness interface.
#include "vm.h"
#include <llvm/IR/Constants.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/ADT/APFloat.h>
#include <llvm/ADT/APSInt.h>
#include <llvm/IR/InlineAsm.h>
#include <algorithm>
#include <iostream>
#include <cmath>

namespace dv {
// qualified name without return type and parameters
std::string baseName(const std::string &mangled) {
  std::string d = demangle(mangled);
  int depth = 0; size_t start = 0, end = d.size();
  for (size_t i = 0; i < d.size(); i++) {
    char ch = d[i];
    if (ch == '<') depth++;
    else if (ch == '>' && i && d[i - 1] != '-') depth--;
    else if (ch == '(' && depth == 0) { if (d.compare(i, 21, "(anonymous namespace)") == 0) { i += 20; continue; } end = i; break; }
    else if (ch == ' ' && depth == 0) { if (i >= 8 && d.compare(i - 8, 8, "operator") == 0) continue; start = i + 1; }
  }
  return d.substr(start, end - start);
}
void VM::noteFunction(Function *F) {
  auto it = baseNames.find(F);
  if (it == baseNames.end()) it = baseNames.emplace(F, baseName(F->getName().str())).first;
  if (it->second.compare(0, 5, "CEX::") == 0) fnsSeen.insert(it->second);
}
static inline void lanes(const std::vector<Val> &o, Val &r, std::function<T(T, T)> f) {
  for (size_t i = 0; i < o[0].v.size(); i++) r.v.push_back(f(o[0].v[i], o[1].v[i]));
}
static T cmpInt(CmpInst::Predicate p, T a, T b) {
  switch (p) {
  case CmpInst::ICMP_EQ: return mkEq(a, b);
  case CmpInst::ICMP_NE: return mkNot(mkEq(a, b));
  case CmpInst::ICMP_ULT: return mkUlt(a, b);
  case CmpInst::ICMP_ULE: return mkNot(mkUlt(b, a));
  case CmpInst::ICMP_UGT: return mkUlt(b, a);
  case CmpInst::ICMP_UGE: return mkNot(mkUlt(a, b));
  case CmpInst::ICMP_SLT: return mkSlt(a, b);
  case CmpInst::ICMP_SLE: return mkNot(mkSlt(b, a));
  case CmpInst::ICMP_SGT: return mkSlt(b, a);
  case CmpInst::ICMP_SGE: return mkNot(mkSlt(a, b));
  default: dvFail("predicate");
  }
  return nullptr;
}
static const fltSemantics &sem(uint32_t w) { return w == 64 ? APFloat::IEEEdouble() : w == 32 ? APFloat::IEEEsingle() : APFloat::x87DoubleExtended(); }
static APFloat toF(T t) { if (!t->isConst()) dvFail("symbolic floating point"); return APFloat(sem(t->w), *t->c); }

static std::vector<Leaf> lv0;
Val VM::evalPure(Instruction *I, const std::vector<Val> &o) {
  Val r;
  unsigned w = 0;
  if (!leaves(I->getType()).empty()) w = leaves(I->getType())[0].w;
  switch (I->getOpcode()) {
  case Instruction::Add: lanes(o, r, mkAdd); break;
  case Instruction::Sub: lanes(o, r, mkSub); break;
  case Instruction::Mul: lanes(o, r, mkMul); break;
  case Instruction::UDiv: lanes(o, r, [](T a, T b) { return mkDiv(UDIV, a, b); }); break;
  case Instruction::URem: lanes(o, r, [](T a, T b) { return mkDiv(UREM, a, b); }); break;
  case Instruction::SDiv: lanes(o, r, [](T a, T b) { return mkDiv(SDIV, a, b); }); break;
  case Instruction::SRem: lanes(o, r, [](T a, T b) { return mkDiv(SREM, a, b); }); break;
  case Instruction::And: lanes(o, r, mkAnd); break;
  case Instruction::Or: lanes(o, r, mkOr); break;
  case Instruction::Xor: lanes(o, r, mkXor); break;
  case Instruction::Shl: lanes(o, r, [](T a, T b) { return mkShift(SHL, a, b); }); break;
  case Instruction::LShr: lanes(o, r, [](T a, T b) { return mkShift(LSHR, a, b); }); break;
  case Instruction::AShr: lanes(o, r, [](T a, T b) { return mkShift(ASHR, a, b); }); break;
  case Instruction::ICmp: { auto p = cast<ICmpInst>(I)->getPredicate(); lanes(o, r, [&](T a, T b) { return cmpInt(p, a, b); }); break; }
  case Instruction::Trunc: for (T x : o[0].v) r.v.push_back(mkExtract(x, 0, w)); break;
  case Instruction::ZExt: for (T x : o[0].v) r.v.push_back(mkZext(x, w)); break;
  case Instruction::SExt: for (T x : o[0].v) r.v.push_back(mkSext(x, w)); break;
  case Instruction::PtrToInt: case Instruction::IntToPtr:
    for (T x : o[0].v) r.v.push_back(w <= x->w ? mkExtract(x, 0, w) : mkZext(x, w));
    break;
  case Instruction::AddrSpaceCast: case Instruction::Freeze: r = o[0]; break;
  case Instruction::BitCast: {
    auto &lv = leaves(I->getType());
    if (lv.size() == o[0].v.size()) { r = o[0]; break; }
    T x = mkConcat(TV(o[0].v.begin(), o[0].v.end()));
    uint32_t s = 0;
    for (auto &l : lv) { r.v.push_back(mkExtract(x, s, l.w)); s += l.w; }
    break;
  }
  case Instruction::Select: {
    if (o[0].v.size() == 1) { for (size_t i = 0; i < o[1].v.size(); i++) r.v.push_back(mkIte(o[0].v[0], o[1].v[i], o[2].v[i])); }
    else for (size_t i = 0; i < o[1].v.size(); i++) r.v.push_back(mkIte(o[0].v[i], o[1].v[i], o[2].v[i]));
    break;
  }
  case Instruction::GetElementPtr: {
    auto *G = cast<GEPOperator>(I);
    T p = o[0].s();
    unsigned k = 1;
    TV sum{p}; uint64_t c = 0;
    for (auto gi = gep_type_begin(G), ge = gep_type_end(G); gi != ge; ++gi, ++k) {
      T ix = o[k].s();
      if (StructType *st = gi.getStructTypeOrNull()) c += DL->getStructLayout(st)->getElementOffset(ix->c->getZExtValue());
      else {
        uint64_t sz = DL->getTypeAllocSize(gi.getIndexedType());
        if (ix->isConst()) c += (uint64_t)ix->c->getSExtValue() * sz;
        else sum.push_back(mkMul(mkC(64, sz), mkSext(ix, 64)));
      }
    }
    if (c) sum.push_back(mkC(64, c));
    r.v.push_back(sum.size() == 1 ? p : mkAddV(sum));
    break;
  }
  case Instruction::ExtractElement: {
    T ix = o[1].s();
    if (ix->isConst()) r.v.push_back(o[0].v[ix->c->getZExtValue()]);
    else { T x = o[0].v[0]; for (size_t i = 1; i < o[0].v.size(); i++) x = mkIte(mkEq(ix, mkC(ix->w, i)), o[0].v[i], x); r.v.push_back(x); }
    break;
  }
  case Instruction::InsertElement: {
    r = o[0]; T ix = o[2].s();
    if (ix->isConst()) r.v[ix->c->getZExtValue()] = o[1].s();
    else for (size_t i = 0; i < r.v.size(); i++) r.v[i] = mkIte(mkEq(ix, mkC(ix->w, i)), o[1].s(), r.v[i]);
    break;
  }
  case Instruction::ShuffleVector: {
    auto *sv = cast<ShuffleVectorInst>(I);
    size_t n = o[0].v.size();
    for (int m : sv->getShuffleMask()) {
      if (m < 0) r.v.push_back(mkC(leaves(sv->getType())[0].w, 0));
      else r.v.push_back((size_t)m < n ? o[0].v[m] : o[1].v[m - n]);
    }
    break;
  }
  case Instruction::ExtractValue: case Instruction::InsertValue: {
    Type *t = I->getOperand(0)->getType();
    auto idx = isa<ExtractValueInst>(I) ? cast<ExtractValueInst>(I)->getIndices() : cast<InsertValueInst>(I)->getIndices();
    size_t pos = 0;
    for (unsigned ix : idx) {
      if (auto *st = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < ix; k++) pos += leaves(st->getElementType(k)).size(); t = st->getElementType(ix); }
      else { t = cast<ArrayType>(t)->getElementType(); pos += ix * leaves(t).size(); }
    }
    size_t n = leaves(t).size();
    if (isa<ExtractValueInst>(I)) r.v.append(o[0].v.begin() + pos, o[0].v.begin() + pos + n);
    else { r = o[0]; for (size_t k = 0; k < n; k++) r.v[pos + k] = o[1].v[k]; }
    break;
  }
  // floating point: concrete only
  case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: {
    APFloat a = toF(o[0].s()), b = toF(o[1].s());
    auto rm = APFloat::rmNearestTiesToEven;
    switch (I->getOpcode()) { case Instruction::FAdd: a.add(b, rm); break; case Instruction::FSub: a.subtract(b, rm); break; case Instruction::FMul: a.multiply(b, rm); break; default: a.divide(b, rm); }
    r.v.push_back(mkConst(a.bitcastToAPInt()));
    break;
  }
  case Instruction::FNeg: { APFloat a = toF(o[0].s()); a.changeSign(); r.v.push_back(mkConst(a.bitcastToAPInt())); break; }
  case Instruction::FPToUI: case Instruction::FPToSI: {
    APFloat a = toF(o[0].s()); APSInt z(w, I->getOpcode() == Instruction::FPToUI); bool ex; a.convertToInteger(z, APFloat::rmTowardZero, &ex);
    r.v.push_back(mkConst(z)); break;
  }
  case Instruction::UIToFP: case Instruction::SIToFP: {
    if (!o[0].s()->isConst()) dvFail("symbolic integer to floating point at " + where());
    APFloat a(sem(w)); a.convertFromAPInt(*o[0].s()->c, I->getOpcode() == Instruction::SIToFP, APFloat::rmNearestTiesToEven);
    r.v.push_back(mkConst(a.bitcastToAPInt())); break;
  }
  case Instruction::FPExt: case Instruction::FPTrunc: { APFloat a = toF(o[0].s()); bool li; a.convert(sem(w), APFloat::rmNearestTiesToEven, &li); r.v.push_back(mkConst(a.bitcastToAPInt())); break; }
  case Instruction::FCmp: {
    APFloat a = toF(o[0].s()), b = toF(o[1].s());
    auto c = a.compare(b); bool u = c == APFloat::cmpUnordered, lt = c == APFloat::cmpLessThan, gt = c == APFloat::cmpGreaterThan, eq = c == APFloat::cmpEqual;
    bool x = false;
    switch (cast<FCmpInst>(I)->getPredicate()) {
    case CmpInst::FCMP_OEQ: x = eq; break; case CmpInst::FCMP_OGT: x = gt; break; case CmpInst::FCMP_OGE: x = gt || eq; break;
    case CmpInst::FCMP_OLT: x = lt; break; case CmpInst::FCMP_OLE: x = lt || eq; break; case CmpInst::FCMP_ONE: x = lt || gt; break;
    case CmpInst::FCMP_UNE: x = !eq; break; case CmpInst::FCMP_UEQ: x = u || eq; break; case CmpInst::FCMP_ORD: x = !u; break; case CmpInst::FCMP_UNO: x = u; break;
    case CmpInst::FCMP_UGT: x = u || gt; break; case CmpInst::FCMP_UGE: x = !lt; break; case CmpInst::FCMP_ULT: x = u || lt; break; case CmpInst::FCMP_ULE: x = !gt; break;
    default: break;
    }
    r.v.push_back(x ? mkTrue() : mkFalse()); break;
  }
  default: { std::string n; raw_string_ostream os(n); I->print(os); dvFail("unsupported instruction " + n); }
  }
  return r;
}

void VM::step(Ctx &c, FnInfo &fi, Instruction *I) {
  if (auto *ai = dyn_cast<AllocaInst>(I)) {
    uint64_t n = DL->getTypeAllocSize(ai->getAllocatedType());
    if (ai->isArrayAllocation()) n *= constU(get(c, fi, ai->getArraySize()).s(), "alloca size");
    ObjP o = allocObj(c.st, n, 0, ai->getName().empty() ? "local" : ai->getName().str());
    c.allocas.push_back(o->id);
    c.regs[fi.slot[I]].v.assign(1, addrOf(o));
    return;
  }
  if (auto *li = dyn_cast<LoadInst>(I)) { c.regs[fi.slot[I]] = loadTy(c.st, get(c, fi, li->getPointerOperand()).s(), li->getType()); return; }
  if (auto *si = dyn_cast<StoreInst>(I)) { storeTy(c.st, get(c, fi, si->getPointerOperand()).s(), si->getValueOperand()->getType(), get(c, fi, si->getValueOperand())); return; }
  if (isa<LandingPadInst>(I)) {
    Val r; r.v.push_back(c.curPtr ? c.curPtr : mkC(64, 0)); r.v.push_back(mkC(32, (uint64_t)c.curSel));
    c.regs[fi.slot[I]] = r;
    return;
  }
  if (isa<FenceInst>(I)) return;
  if (auto *cx = dyn_cast<AtomicCmpXchgInst>(I)) {
    T p = get(c, fi, cx->getPointerOperand()).s(), e = get(c, fi, cx->getCompareOperand()).s(), n = get(c, fi, cx->getNewValOperand()).s();
    T old = load(c.st, p, e->w / 8);
    T eq = mkEq(old, e);
    store(c.st, p, mkIte(eq, n, old));
    Val r; r.v.push_back(old); r.v.push_back(eq);
    c.regs[fi.slot[I]] = r;
    return;
  }
  if (auto *rmw = dyn_cast<AtomicRMWInst>(I)) {
    T p = get(c, fi, rmw->getPointerOperand()).s(), v = get(c, fi, rmw->getValOperand()).s();
    T old = load(c.st, p, v->w / 8), n = nullptr;
    switch (rmw->getOperation()) {
    case AtomicRMWInst::Xchg: n = v; break; case AtomicRMWInst::Add: n = mkAdd(old, v); break; case AtomicRMWInst::Sub: n = mkSub(old, v); break;
    case AtomicRMWInst::And: n = mkAnd(old, v); break; case AtomicRMWInst::Or: n = mkOr(old, v); break; case AtomicRMWInst::Xor: n = mkXor(old, v); break;
    default: dvFail("atomicrmw");
    }
    store(c.st, p, n);
    c.regs[fi.slot[I]].v.assign(1, old);
    return;
  }
  std::vector<Val> o;
  for (auto &u : I->operands()) o.push_back(get(c, fi, u.get()));
  for (auto &x : o) if (x.v.empty() && !I->getType()->isVoidTy()) dvFail("use of an undefined register at " + where());
  switch (I->getOpcode()) {
  case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem:
    for (T d : o[1].v) if (!d->isConst() || d->c->isZero()) oblige(c.st, mkNot(mkEq(d, mkC(d->w, 0))), "divisor is not zero", "arithmetic");
    break;
  case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
    for (T d : o[1].v) {
      if (d->isConst() ? d->c->uge(d->w) : !(d->w <= 64 && d->hi < d->w)) {
        bool vec = o[1].v.size() > 1;
        // an optimizer may compute the shift ahead of the test that guards it: then the result is poison, an arbitrary value
        auto guarded = [](auto &&self, Instruction *x, int depth) -> bool {
          if (depth > 4 || x->use_empty()) return false;
          for (User *u : x->users()) {
            auto *y = dyn_cast<Instruction>(u);
            if (!y) return false;
            if (auto *sl = dyn_cast<SelectInst>(y)) { if (sl->getCondition() == x) return false; continue; }
            if ((isa<BinaryOperator>(y) || isa<CastInst>(y)) && self(self, y, depth + 1)) continue;
            return false;
          }
          return true;
        };
        if (!vec && guarded(guarded, I, 0)) {
          Val r = evalPure(I, o); T ok = mkUlt(d, mkC(d->w, d->w));
          r.v[0] = mkIte(ok, r.v[0], mkFresh("poison", d->w)); c.regs[fi.slot[I]] = r; return;
        }
        if (!vec) oblige(c.st, mkUlt(d, mkC(d->w, d->w)), "shift amount is below the width", "arithmetic");
      }
    }
    break;
  default: break;
  }
  c.regs[fi.slot[I]] = evalPure(I, o);
}

// ---------------------------------------------------------------- calls
std::vector<Outcome> VM::doCall(Ctx &c, FnInfo &fi, CallBase *cb) {
  std::vector<Val> args;
  State st = std::move(c.st);
  auto single = [&](Val r) { std::vector<Outcome> v(1); v[0].kind = Outcome::RET; v[0].c.st = std::move(st); v[0].ret = r; return v; };
  if (cb->isInlineAsm()) {
    auto *ia = cast<InlineAsm>(cb->getCalledOperand());
    std::string as = ia->getAsmString();
    if (as.empty() || cb->getType()->isVoidTy()) return single(Val());
    // processor identification: an unknown but fixed answer is not needed, return zeros
    if (as.find("cpuid") != std::string::npos || as.find("xgetbv") != std::string::npos) { Val r; for (auto &l : leaves(cb->getType())) r.v.push_back(mkC(l.w, 0)); return single(r); }
    dvFail("inline assembly: " + as);
  }
  for (auto &a : cb->args()) {
    if (a->getType()->isMetadataTy()) { args.push_back(Val()); continue; }
    c.st = std::move(st); args.push_back(get(c, fi, a.get())); st = std::move(c.st);
  }
  if (auto *F = cb->getCalledFunction()) return callTarget(c, F, cb, std::move(args), std::move(st));
  Value *cv = cb->getCalledOperand()->stripPointerCasts();
  if (auto *F = dyn_cast<Function>(cv)) return callTarget(c, F, cb, std::move(args), std::move(st));
  T tgt = get(c, fi, cb->getCalledOperand()).s();
  if (tgt->isConst()) {
    auto it = fnByAddr.find(tgt->c->getZExtValue());
    if (it == fnByAddr.end()) { oblige(st, mkFalse(), "call through a valid function pointer", "memory"); return {}; }
    return callTarget(c, it->second, cb, std::move(args), std::move(st));
  }
  // several possible targets
  std::vector<std::pair<T, T>> cases;
  std::function<void(T, T)> split = [&](T t, T g) {
    if (t->op == ITE) { split(t->a[1], mkAnd(g, t->a[0])); split(t->a[2], mkAnd(g, mkNot(t->a[0]))); return; }
    cases.push_back({g, t});
  };
  split(tgt, mkTrue());
  std::vector<Outcome> outs;
  for (auto &cs : cases) {
    if (!cs.second->isConst() || !fnByAddr.count(cs.second->c->getZExtValue())) dvFail("symbolic call target at " + where());
    if (!maybe(st, cs.first)) continue;
    State s2 = st; s2.pc.push_back(cs.first);
    for (auto &o : callTarget(c, fnByAddr[cs.second->c->getZExtValue()], cb, args, std::move(s2))) mergeOutcome(outs, std::move(o));
  }
  return outs;
}
std::vector<Outcome> VM::callTarget(Ctx &c, Function *F, CallBase *cb, std::vector<Val> args, State st) {
  std::string n = F->getName().str();
  if (!replaced.empty()) {
    auto bi = baseNames.find(F);
    if (bi == baseNames.end()) bi = baseNames.emplace(F, baseName(n)).first;
    if (Function *r = contractOf(bi->second, F)) {
      usedContracts.insert(bi->second);
      return callFunction(r, std::move(args), std::move(st), cb);
    }
  }
  Val ret; std::vector<Outcome> outs;
  auto done = [&]() { std::vector<Outcome> v(1); v[0].kind = Outcome::RET; v[0].c.st = std::move(st); v[0].ret = ret; return v; };
  if (F->isIntrinsic()) {
    if (intrinsic(c, cb, F, args, st, ret)) return done();
    dvFail("unsupported intrinsic " + n);
  }
  if (n.compare(0, 3, "dv_") == 0 || F->isDeclaration() || n == "_Znwy" || n == "_ZdlPv") {
    if (external(c, cb, n, args, st, ret, outs)) { if (!outs.empty()) return outs; return done(); }
    if (F->isDeclaration()) dvFail("no body for " + demangle(n) + " at " + where());
  }
  return callFunction(F, std::move(args), std::move(st), cb);
}

static T lane(T x, uint32_t i, uint32_t w) { return mkExtract(x, i * w, w); }
static T vcat(const Val &v) { return mkConcat(TV(v.v.begin(), v.v.end())); }
static Val unpack(T x, const std::vector<Leaf> &lv) { Val r; uint32_t s = 0; for (auto &l : lv) { r.v.push_back(mkExtract(x, s, l.w)); s += l.w; } return r; }
static T satS2U(T x, uint32_t w) { // signed to unsigned saturation
  T zero = mkC(x->w, 0), mx = mkC(x->w, (1ULL << w) - 1);
  return mkExtract(mkIte(mkSlt(x, zero), zero, mkIte(mkSlt(mx, x), mx, x)), 0, w);
}
static T satS2S(T x, uint32_t w) {
  T mn = mkConst(APInt::getSignedMinValue(w).sext(x->w)), mx = mkConst(APInt::getSignedMaxValue(w).sext(x->w));
  return mkExtract(mkIte(mkSlt(x, mn), mn, mkIte(mkSlt(mx, x), mx, x)), 0, w);
}

// ---------------------------------------------------------------- AES primitives
static std::vector<uint64_t> aesS, aesI;
static uint32_t tS, tI;
static uint8_t gmul(uint8_t a, uint8_t b) { uint8_t p = 0; while (b) { if (b & 1) p ^= a; a = (a << 1) ^ (a & 0x80 ? 0x1b : 0); b >>= 1; } return p; }
static void aesInit() {
  if (!aesS.empty()) return;
  aesS.resize(256); aesI.resize(256);
  for (int x = 0; x < 256; x++) {
    uint8_t inv = 0;
    for (int y = 1; y < 256 && x; y++) if (gmul(x, y) == 1) { inv = y; break; }
    uint8_t s = inv, r = inv;
    for (int i = 0; i < 4; i++) { s = (s << 1) | (s >> 7); r ^= s; }
    aesS[x] = r ^ 0x63;
  }
  for (int x = 0; x < 256; x++) aesI[aesS[x]] = x;
  tS = tableId(8, 8, aesS); tI = tableId(8, 8, aesI);
}
static uint32_t mulTab(uint8_t k) {
  static std::map<uint8_t, uint32_t> m;
  auto it = m.find(k); if (it != m.end()) return it->second;
  std::vector<uint64_t> v(256); for (int i = 0; i < 256; i++) v[i] = gmul(i, k);
  return m[k] = tableId(8, 8, v);
}
static void mixCol(T *s, bool inv) {
  static const uint8_t f[4] = {2, 3, 1, 1}, g[4] = {14, 11, 13, 9};
  T o[16];
  for (int c = 0; c < 4; c++) for (int r = 0; r < 4; r++) {
    TV v;
    for (int k = 0; k < 4; k++) { uint8_t m = (inv ? g : f)[(k - r + 4) & 3]; T x = s[4 * c + k]; v.push_back(m == 1 ? x : mkLut(mulTab(m), x)); }
    o[4 * c + r] = mkXorV(v);
  }
  std::copy(o, o + 16, s);
}
static T aesRound(T st, T key, bool dec, bool last) {
  aesInit();
  T s[16], o[16];
  for (int i = 0; i < 16; i++) s[i] = lane(st, i, 8);
  for (int c = 0; c < 4; c++) for (int r = 0; r < 4; r++) {
    int src = dec ? ((c - r + 4) & 3) : ((c + r) & 3);
    o[4 * c + r] = mkLut(dec ? tI : tS, s[4 * src + r]);
  }
  if (!last) mixCol(o, dec);
  TV v;
  for (int i = 0; i < 16; i++) v.push_back(mkXor(o[i], lane(key, i, 8)));
  return mkConcat(v);
}
static T rotr32(T x, unsigned k) { return mkConcat({mkExtract(x, k, 32 - k), mkExtract(x, 0, k)}); }

bool VM::x86(const std::string &n, CallBase *cb, std::vector<Val> &a, Val &ret) {
  auto has = [&](const char *s) { return n.find(s) != std::string::npos; };
  const std::vector<Leaf> *lvp = nullptr;
  auto &lv = leaves(cb->getType());
  lvp = &lv;
  uint32_t ew = lv.empty() ? 0 : lv[0].w;
  if (has("aesni.aesenclast")) { ret = unpack(aesRound(vcat(a[0]), vcat(a[1]), false, true), lv); return true; }
  if (has("aesni.aesenc")) { ret = unpack(aesRound(vcat(a[0]), vcat(a[1]), false, false), lv); return true; }
  if (has("aesni.aesdeclast")) { ret = unpack(aesRound(vcat(a[0]), vcat(a[1]), true, true), lv); return true; }
  if (has("aesni.aesdec")) { ret = unpack(aesRound(vcat(a[0]), vcat(a[1]), true, false), lv); return true; }
  if (has("aesni.aesimc")) {
    aesInit(); T x = vcat(a[0]); T s[16]; for (int i = 0; i < 16; i++) s[i] = lane(x, i, 8);
    mixCol(s, true); ret = unpack(mkConcat(TV(s, s + 16)), lv); return true;
  }
  if (has("aesni.aeskeygenassist")) {
    aesInit(); T x = vcat(a[0]); uint64_t rc = constU(a[1].s(), "rcon");
    auto sub = [&](T w) { TV v; for (int i = 0; i < 4; i++) v.push_back(mkLut(tS, lane(w, i, 8))); return mkConcat(v); };
    T x1 = lane(x, 1, 32), x3 = lane(x, 3, 32), s1 = sub(x1), s3 = sub(x3);
    ret = unpack(mkConcat({s1, mkXor(rotr32(s1, 8), mkC(32, rc)), s3, mkXor(rotr32(s3, 8), mkC(32, rc))}), lv); return true;
  }
  if (has("sha256rnds2")) {
    T x = vcat(a[0]), y = vcat(a[1]), k = vcat(a[2]);
    T A = lane(y, 3, 32), B = lane(y, 2, 32), C = lane(x, 3, 32), D = lane(x, 2, 32), E = lane(y, 1, 32), F = lane(y, 0, 32), G = lane(x, 1, 32), H = lane(x, 0, 32);
    for (int i = 0; i < 2; i++) {
      T ch = mkXor(mkAnd(E, F), mkAnd(mkNot(E), G)), maj = mkXorV({mkAnd(A, B), mkAnd(A, C), mkAnd(B, C)});
      T s0 = mkXorV({rotr32(A, 2), rotr32(A, 13), rotr32(A, 22)}), s1 = mkXorV({rotr32(E, 6), rotr32(E, 11), rotr32(E, 25)});
      T t1 = mkAddV({ch, s1, lane(k, i, 32), H});
      T na = mkAddV({t1, maj, s0}), ne = mkAdd(t1, D);
      H = G; G = F; F = E; E = ne; D = C; C = B; B = A; A = na;
    }
    ret = unpack(mkConcat({F, E, B, A}), lv); return true;
  }
  if (has("sha256msg1")) {
    T x = vcat(a[0]), y = vcat(a[1]);
    TV w; for (int i = 0; i < 4; i++) w.push_back(lane(x, i, 32)); w.push_back(lane(y, 0, 32));
    TV r; for (int i = 0; i < 4; i++) { T z = w[i + 1]; T s0 = mkXorV({rotr32(z, 7), rotr32(z, 18), mkShift(LSHR, z, mkC(32, 3))}); r.push_back(mkAdd(w[i], s0)); }
    ret = unpack(mkConcat(r), lv); return true;
  }
  if (has("sha256msg2")) {
    T x = vcat(a[0]), y = vcat(a[1]);
    auto s1 = [](T z) { return mkXorV({rotr32(z, 17), rotr32(z, 19), mkShift(LSHR, z, mkC(32, 10))}); };
    T w14 = lane(y, 2, 32), w15 = lane(y, 3, 32);
    T w16 = mkAdd(lane(x, 0, 32), s1(w14)), w17 = mkAdd(lane(x, 1, 32), s1(w15)), w18 = mkAdd(lane(x, 2, 32), s1(w16)), w19 = mkAdd(lane(x, 3, 32), s1(w17));
    ret = unpack(mkConcat({w16, w17, w18, w19}), lv); return true;
  }
  if (has("pclmulqdq")) {
    uint64_t im = constU(a[2].s(), "immediate");
    T x = lane(vcat(a[0]), im & 1, 64), y = lane(vcat(a[1]), (im >> 4) & 1, 64);
    TV v;
    for (int i = 0; i < 64; i++) { T b = mkExtract(y, i, 1); v.push_back(mkIte(b, mkShift(SHL, mkZext(x, 128), mkC(128, i)), mkC(128, 0))); }
    ret = unpack(mkXorV(v), lv); return true;
  }
  if (has("pshuf.b")) {
    size_t m = a[0].v.size();
    for (size_t i = 0; i < m; i++) {
      T c = a[1].v[i]; size_t b = i & ~size_t(15);
      if (c->isConst()) { uint64_t k = c->c->getZExtValue(); ret.v.push_back(k & 0x80 ? mkC(8, 0) : a[0].v[b + (k & 15)]); }
      else { T x = a[0].v[b]; T ix = mkExtract(c, 0, 4); for (int j = 1; j < 16; j++) x = mkIte(mkEq(ix, mkC(4, j)), a[0].v[b + j], x); ret.v.push_back(mkIte(mkExtract(c, 7, 1), mkC(8, 0), x)); }
    }
    return true;
  }
  auto shiftop = [&]() -> Op { return has("psll") ? SHL : has("psrl") ? LSHR : ASHR; };
  if (has("psllv") || has("psrlv") || has("psrav")) { for (size_t i = 0; i < a[0].v.size(); i++) ret.v.push_back(mkShift(shiftop(), a[0].v[i], a[1].v[i])); return true; }
  if (has("pslli.") || has("psrli.") || has("psrai.")) { T k = a[1].s(); for (T x : a[0].v) ret.v.push_back(mkShift(shiftop(), x, ew <= 32 ? (ew == 32 ? k : mkIte(mkUlt(k, mkC(32, ew)), mkExtract(k, 0, ew), mkC(ew, ew))) : mkZext(k, ew))); return true; }
  if (has("psll.") || has("psrl.") || has("psra.")) {
    T k = mkConcat(TV(a[1].v.begin(), a[1].v.begin() + 64 / a[1].v[0]->w));
    if (!k->isConst()) dvFail("symbolic vector shift count");
    uint64_t s = std::min<uint64_t>(k->c->getZExtValue(), ew);
    for (T x : a[0].v) ret.v.push_back(mkShift(shiftop(), x, mkC(ew, s)));
    return true;
  }
  if (has("pmul.hr.sw")) { for (size_t i = 0; i < a[0].v.size(); i++) { T p = mkMul(mkSext(a[0].v[i], 32), mkSext(a[1].v[i], 32)); ret.v.push_back(mkExtract(mkAdd(mkShift(ASHR, p, mkC(32, 14)), mkC(32, 1)), 1, 16)); } return true; }
  if (has("pmulhu.w")) { for (size_t i = 0; i < a[0].v.size(); i++) ret.v.push_back(mkExtract(mkMul(mkZext(a[0].v[i], 32), mkZext(a[1].v[i], 32)), 16, 16)); return true; }
  if (has("pmulh.w")) { for (size_t i = 0; i < a[0].v.size(); i++) ret.v.push_back(mkExtract(mkMul(mkSext(a[0].v[i], 32), mkSext(a[1].v[i], 32)), 16, 16)); return true; }
  if (has("pmadd.wd")) { for (size_t i = 0; i + 1 < a[0].v.size(); i += 2) ret.v.push_back(mkAdd(mkMul(mkSext(a[0].v[i], 32), mkSext(a[1].v[i], 32)), mkMul(mkSext(a[0].v[i + 1], 32), mkSext(a[1].v[i + 1], 32)))); return true; }
  if (has("pmadd.ub.sw")) { for (size_t i = 0; i + 1 < a[0].v.size(); i += 2) ret.v.push_back(satS2S(mkAdd(mkMul(mkZext(a[0].v[i], 32), mkSext(a[1].v[i], 32)), mkMul(mkZext(a[0].v[i + 1], 32), mkSext(a[1].v[i + 1], 32))), 16)); return true; }
  if (has("packuswb") || has("packusdw") || has("packsswb") || has("packssdw")) {
    size_t m = a[0].v.size(), h = 128 / a[0].v[0]->w; bool u = has("packus");
    for (size_t b = 0; b < m; b += h) {
      for (size_t i = 0; i < h; i++) ret.v.push_back(u ? satS2U(a[0].v[b + i], ew) : satS2S(a[0].v[b + i], ew));
      for (size_t i = 0; i < h; i++) ret.v.push_back(u ? satS2U(a[1].v[b + i], ew) : satS2S(a[1].v[b + i], ew));
    }
    return true;
  }
  if (has("pblendvb")) { for (size_t i = 0; i < a[0].v.size(); i++) ret.v.push_back(mkIte(mkExtract(a[2].v[i], 7, 1), a[1].v[i], a[0].v[i])); return true; }
  if (has("blendv.ps") || has("blendv.pd")) { for (size_t i = 0; i < a[0].v.size(); i++) ret.v.push_back(mkIte(mkExtract(a[2].v[i], a[2].v[i]->w - 1, 1), a[1].v[i], a[0].v[i])); return true; }
  if (has("pmovmskb") || has("movmsk")) { TV v; for (T x : a[0].v) v.push_back(mkExtract(x, x->w - 1, 1)); ret.v.push_back(mkZext(mkConcat(v), 32)); return true; }
  if (has("permd") || has("permps")) {
    for (size_t i = 0; i < 8; i++) { T ix = mkExtract(a[1].v[i], 0, 3); T x = a[0].v[0]; if (ix->isConst()) x = a[0].v[ix->c->getZExtValue()]; else for (int j = 1; j < 8; j++) x = mkIte(mkEq(ix, mkC(3, j)), a[0].v[j], x); ret.v.push_back(x); }
    return true;
  }
  if (has("ptestz")) { T x = mkAnd(vcat(a[0]), vcat(a[1])); ret.v.push_back(mkZext(mkEq(x, mkC(x->w, 0)), 32)); return true; }
  if (has("ptestc")) { T x = mkAnd(mkNot(vcat(a[0])), vcat(a[1])); ret.v.push_back(mkZext(mkEq(x, mkC(x->w, 0)), 32)); return true; }
  if (has("addcarry")) {
    uint32_t w = a[1].s()->w;
    T s = mkAddV({mkZext(a[1].s(), w + 1), mkZext(a[2].s(), w + 1), mkZext(mkNot(mkEq(a[0].s(), mkC(8, 0))), w + 1)});
    ret.v.push_back(mkZext(mkExtract(s, w, 1), 8)); ret.v.push_back(mkExtract(s, 0, w)); return true;
  }
  if (has("subborrow")) {
    uint32_t w = a[1].s()->w;
    T s = mkSub(mkSub(mkZext(a[1].s(), w + 1), mkZext(a[2].s(), w + 1)), mkZext(mkNot(mkEq(a[0].s(), mkC(8, 0))), w + 1));
    ret.v.push_back(mkZext(mkExtract(s, w, 1), 8)); ret.v.push_back(mkExtract(s, 0, w)); return true;
  }
  if (has("bmi.pext")) {
    T x = a[0].s(); uint64_t m = constU(a[1].s(), "pext mask"); TV v;
    for (uint32_t i = 0; i < x->w; i++) if (m >> i & 1) v.push_back(mkExtract(x, i, 1));
    if (v.size() < x->w) v.push_back(mkC(x->w - v.size(), 0));
    ret.v.push_back(mkConcat(v)); return true;
  }
  if (has("bmi.pdep")) {
    T x = a[0].s(); uint64_t m = constU(a[1].s(), "pdep mask"); TV v; uint32_t k = 0;
    for (uint32_t i = 0; i < x->w; i++) v.push_back((m >> i & 1) ? mkExtract(x, k++, 1) : mkC(1, 0));
    ret.v.push_back(mkConcat(v)); return true;
  }
  if (has("rdtsc")) { ret.v.push_back(mkFresh("rdtsc", 64)); return true; }
  if (has("xgetbv")) { ret.v.push_back(mkC(64, 0)); return true; }
  if (has("rdrand") || has("rdseed")) { for (auto &l : *lvp) ret.v.push_back(mkFresh("rdrand", l.w)); return true; }
  return false;
}
bool VM::intrinsic(Ctx &c, CallBase *cb, Function *F, std::vector<Val> &a, State &s, Val &ret) {
  std::string n = F->getName().str();
  switch (F->getIntrinsicID()) {
  case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::lifetime_start: case Intrinsic::lifetime_end:
  case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::prefetch: case Intrinsic::stackrestore: case Intrinsic::donothing:
  case Intrinsic::var_annotation: case Intrinsic::invariant_start: case Intrinsic::invariant_end: return true;
  case Intrinsic::stacksave: ret.v.push_back(mkC(64, 0)); return true;
  case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: copyBytes(s, a[0].s(), a[1].s(), a[2].s(), true); return true;
  case Intrinsic::memset: setBytes(s, a[0].s(), a[1].s(), a[2].s()); return true;
  case Intrinsic::trap: oblige(s, mkFalse(), "trap is not reached", "unreachable"); throw AbortPath();
  case Intrinsic::eh_typeid_for: ret.v.push_back(mkC(32, typeId(cast<GlobalValue>(cb->getArgOperand(0)->stripPointerCasts())))); return true;
  case Intrinsic::expect: ret = a[0]; return true;
  case Intrinsic::is_constant: ret.v.push_back(mkFalse()); return true;
  case Intrinsic::objectsize: ret.v.push_back(mkConst(APInt::getAllOnes(leaves(cb->getType())[0].w))); return true;
  case Intrinsic::threadlocal_address: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: ret = a[0]; return true;
  case Intrinsic::bswap: for (T x : a[0].v) { TV v; for (int i = x->w / 8 - 1; i >= 0; i--) v.push_back(lane(x, i, 8)); ret.v.push_back(mkConcat(v)); } return true;
  case Intrinsic::bitreverse: for (T x : a[0].v) { TV v; for (int i = x->w - 1; i >= 0; i--) v.push_back(mkExtract(x, i, 1)); ret.v.push_back(mkConcat(v)); } return true;
  case Intrinsic::ctpop: for (T x : a[0].v) { TV v; for (uint32_t i = 0; i < x->w; i++) v.push_back(mkZext(mkExtract(x, i, 1), x->w)); ret.v.push_back(mkAddV(v)); } return true;
  case Intrinsic::ctlz: for (T x : a[0].v) { T r = mkC(x->w, x->w); for (uint32_t i = 0; i < x->w; i++) r = mkIte(mkExtract(x, i, 1), mkC(x->w, x->w - 1 - i), r); ret.v.push_back(r); } return true;
  case Intrinsic::cttz: for (T x : a[0].v) { T r = mkC(x->w, x->w); for (int i = x->w - 1; i >= 0; i--) r = mkIte(mkExtract(x, i, 1), mkC(x->w, i), r); ret.v.push_back(r); } return true;
  case Intrinsic::fshl: case Intrinsic::fshr:
    for (size_t i = 0; i < a[0].v.size(); i++) {
      T x = a[0].v[i], y = a[1].v[i], k = a[2].v[i]; uint32_t w = x->w;
      bool left = F->getIntrinsicID() == Intrinsic::fshl;
      if (k->isConst()) {
        uint64_t q = k->c->getZExtValue() % w;
        T z = mkConcat({y, x});
        ret.v.push_back(left ? mkExtract(z, w - q, w) : mkExtract(z, q, w));
        if (left && q == 0) ret.v.back() = x;
      } else {
        T q = mkDiv(UREM, k, mkC(w, w));
        T z = mkConcat({y, x}), q2 = mkZext(q, 2 * w);
        ret.v.push_back(left ? mkExtract(mkShift(SHL, z, q2), w, w) : mkExtract(mkShift(LSHR, z, q2), 0, w));
      }
    }
    return true;
  case Intrinsic::umin: for (size_t i = 0; i < a[0].v.size(); i++) ret.v.push_back(mkIte(mkUlt(a[0].v[i], a[1].v[i]), a[0].v[i], a[1].v[i])); return true;
  case Intrinsic::umax: for (size_t i = 0; i < a[0].v.size(); i++) ret.v.push_back(mkIte(mkUlt(a[0].v[i], a[1].v[i]), a[1].v[i], a[0].v[i])); return true;
  case Intrinsic::smin: for (size_t i = 0; i < a[0].v.size(); i++) ret.v.push_back(mkIte(mkSlt(a[0].v[i], a[1].v[i]), a[0].v[i], a[1].v[i])); return true;
  case Intrinsic::smax: for (size_t i = 0; i < a[0].v.size(); i++) ret.v.push_back(mkIte(mkSlt(a[0].v[i], a[1].v[i]), a[1].v[i], a[0].v[i])); return true;
  case Intrinsic::abs: for (T x : a[0].v) ret.v.push_back(mkIte(mkExtract(x, x->w - 1, 1), mkNeg(x), x)); return true;
  case Intrinsic::usub_sat: for (size_t i = 0; i < a[0].v.size(); i++) ret.v.push_back(mkIte(mkUlt(a[0].v[i], a[1].v[i]), mkC(a[0].v[i]->w, 0), mkSub(a[0].v[i], a[1].v[i]))); return true;
  case Intrinsic::uadd_sat: for (size_t i = 0; i < a[0].v.size(); i++) { T z = mkAdd(a[0].v[i], a[1].v[i]); ret.v.push_back(mkIte(mkUlt(z, a[0].v[i]), mkConst(APInt::getAllOnes(z->w)), z)); } return true;
  case Intrinsic::uadd_with_overflow: { T x = a[0].s(), y = a[1].s(); T z = mkAdd(x, y); ret.v.push_back(z); ret.v.push_back(mkUlt(z, x)); return true; }
  case Intrinsic::usub_with_overflow: { T x = a[0].s(), y = a[1].s(); ret.v.push_back(mkSub(x, y)); ret.v.push_back(mkUlt(x, y)); return true; }
  case Intrinsic::umul_with_overflow: {
    T x = a[0].s(), y = a[1].s(); uint32_t w = x->w;
    T z = mkMul(x, y); ret.v.push_back(z);
    if (y->isConst()) std::swap(x, y);
    if (x->isConst()) { if (x->c->isZero()) ret.v.push_back(mkFalse()); else ret.v.push_back(mkUlt(mkConst(APInt::getAllOnes(w).udiv(*x->c)), y)); }
    else { T q = mkMul(mkZext(x, 2 * w), mkZext(y, 2 * w)); ret.v.push_back(mkNot(mkEq(mkExtract(q, w, w), mkC(w, 0)))); }
    return true;
  }
  case Intrinsic::vector_reduce_add: { T r = a[0].v[0]; for (size_t i = 1; i < a[0].v.size(); i++) r = mkAdd(r, a[0].v[i]); ret.v.push_back(r); return true; }
  case Intrinsic::vector_reduce_or: { T r = a[0].v[0]; for (size_t i = 1; i < a[0].v.size(); i++) r = mkOr(r, a[0].v[i]); ret.v.push_back(r); return true; }
  case Intrinsic::vector_reduce_and: { T r = a[0].v[0]; for (size_t i = 1; i < a[0].v.size(); i++) r = mkAnd(r, a[0].v[i]); ret.v.push_back(r); return true; }
  case Intrinsic::vector_reduce_xor: { T r = a[0].v[0]; for (size_t i = 1; i < a[0].v.size(); i++) r = mkXor(r, a[0].v[i]); ret.v.push_back(r); return true; }
  case Intrinsic::ceil: case Intrinsic::floor: case Intrinsic::sqrt: case Intrinsic::trunc: case Intrinsic::round: case Intrinsic::fabs: {
    if (a[0].s()->w != 64) return false;
    double d = toF(a[0].s()).convertToDouble();
    switch (F->getIntrinsicID()) { case Intrinsic::ceil: d = ceil(d); break; case Intrinsic::floor: d = floor(d); break; case Intrinsic::sqrt: d = sqrt(d); break; case Intrinsic::trunc: d = trunc(d); break; case Intrinsic::round: d = round(d); break; default: d = fabs(d); }
    ret.v.push_back(mkConst(APFloat(d).bitcastToAPInt())); return true;
  }
  case Intrinsic::masked_load: case Intrinsic::masked_gather: {
    auto &lv = leaves(cb->getType());
    bool g = F->getIntrinsicID() == Intrinsic::masked_gather;
    for (size_t i = 0; i < lv.size(); i++) {
      T m = a[2].v[i]; T p = g ? a[0].v[i] : mkAdd(a[0].s(), mkC(64, lv[i].off));
      if (m->isConst() && m->c->isZero()) { ret.v.push_back(a[3].v[i]); continue; }
      T x = load(s, p, lv[i].w / 8);
      ret.v.push_back(mkIte(m, x, a[3].v[i]));
    }
    return true;
  }
  default: break;
  }
  if (n.find("gather.q.q.256") != std::string::npos || n.find("avx2.gather") != std::string::npos) {
    auto &lv = leaves(cb->getType());
    uint64_t sc = constU(a[4].s(), "scale");
    for (size_t i = 0; i < lv.size(); i++) {
      T p = mkAdd(a[1].s(), mkMul(mkC(64, sc), mkSext(a[2].v[i], 64)));
      ret.v.push_back(load(s, p, lv[i].w / 8));
    }
    return true;
  }
  if (n.compare(0, 9, "llvm.x86.") == 0) return x86(n, cb, a, ret);
  return false;
}

// ---------------------------------------------------------------- library functions and the harness interface
bool VM::external(Ctx &c, CallBase *cb, const std::string &n, std::vector<Val> &a, State &s, Val &ret, std::vector<Outcome> &outs) {
  auto A = [&](size_t i) { return a[i].s(); };
  auto retC = [&](uint64_t v) { if (!cb->getType()->isVoidTy()) ret.v.push_back(mkC(leaves(cb->getType())[0].w, v)); };
  externsSeen.insert(n);
  // ---- harness
  if (n == "dv_sym") {
    uint64_t len = constU(A(1), "size"); std::string nm = cstr(s, A(2));
    uint64_t chunk = 8;
    if (a.size() > 3) chunk = 8;
    // natural words: 8-byte variables, smaller at the tail
    for (uint64_t i = 0; i < len;) {
      uint32_t k = len - i >= chunk ? chunk : len - i >= 4 ? 4 : len - i >= 2 ? 2 : 1;
      T v = mkVar(nm + "." + std::to_string(i), k * 8);
      inputs.push_back({nm + "." + std::to_string(i), v});
      store(s, mkAdd(A(0), mkC(64, i)), v);
      i += k;
    }
    return true;
  }
  if (n == "dv_symw") { // (ptr, count, width in bytes, name)
    uint64_t cnt = constU(A(1), "count"), k = constU(A(2), "width"); std::string nm = cstr(s, A(3));
    for (uint64_t i = 0; i < cnt; i++) {
      T v = mkVar(nm + "." + std::to_string(i * k), k * 8);
      inputs.push_back({nm + "." + std::to_string(i * k), v});
      store(s, mkAdd(A(0), mkC(64, i * k)), v);
    }
    return true;
  }
  if (n == "dv_range") {
    std::string nm = cstr(s, A(0)); uint64_t lo = constU(A(1), "bound"), hi = constU(A(2), "bound");
    T v = (lo == 0 && hi == ~0ULL) ? mkVar(nm, 64) : mkVarRange(nm, 64, lo, hi);
    inputs.push_back({nm, v});
    ret.v.push_back(v); return true;
  }
  if (n == "dv_choose") {
    std::string nm = cstr(s, A(0)); uint64_t lo = constU(A(1), "bound"), hi = constU(A(2), "bound");
    bool seen = false;
    for (auto &x : choiceLog) seen |= x[0] == nm;
    if (!seen) choiceLog.push_back({nm, std::to_string(lo), std::to_string(hi)});
    auto it = choices.find(nm);
    uint64_t v = it == choices.end() ? lo : it->second;
    choices[nm] = v;
    ret.v.push_back(mkC(64, v)); return true;
  }
  if (n == "dv_assume") { assume(s, mkExtract(A(0), 0, 1)); return true; }
  if (n == "dv_ensure") { oblige(s, mkExtract(A(0), 0, 1), cstr(s, A(1)), "ensure"); return true; }
  if (n == "dv_ensure_eq") {
    uint64_t len = constU(A(2), "size"); std::string nm = cstr(s, A(3));
    for (uint64_t i = 0; i < len;) {
      uint32_t k = len - i >= 8 ? 8 : len - i >= 4 ? 4 : 1;
      T x = load(s, mkAdd(A(0), mkC(64, i)), k), y = load(s, mkAdd(A(1), mkC(64, i)), k);
      oblige(s, mkEq(x, y), nm + "[" + std::to_string(i) + ".." + std::to_string(i + k - 1) + "]", "ensure");
      i += k;
    }
    return true;
  }
  if (n == "dv_cover") { std::string nm = cstr(s, A(0)); coversSeen.insert(nm); if (!coverHit[nm]) { std::vector<T> v(s.pc); if (feasible(v, 4000)) coverHit[nm] = true; } return true; }
  if (n == "dv_uf") { // name, out, outlen, in, inlen
    std::string nm = cstr(s, A(0)); uint64_t ol = constU(A(2), "size"), il = constU(A(4), "size");
    TV in;
    for (uint64_t i = 0; i < il;) { uint32_t k = il - i >= 8 ? 8 : il - i; in.push_back(load(s, mkAdd(A(3), mkC(64, i)), k)); i += k; }
    T all = mkConcat(in);
    for (uint64_t i = 0; i < ol;) {
      uint32_t k = ol - i >= 8 ? 8 : ol - i >= 4 ? 4 : ol - i >= 2 ? 2 : 1;
      store(s, mkAdd(A(1), mkC(64, i)), mkUF(nm + "@" + std::to_string(i), k * 8, {all}));
      i += k;
    }
    return true;
  }
  if (n == "dv_replace") {
    std::string nm = cstr(s, A(0)); uint64_t f = constU(A(1), "function");
    if (!f) replaced.erase(nm); else { auto &v = replaced[nm]; Function *r = fnByAddr.at(f); v.erase(std::remove_if(v.begin(), v.end(), [&](Function *o) { return o->getFunctionType() == r->getFunctionType(); }), v.end()); v.push_back(r); }
    return true;
  }
  if (n == "dv_opt") { opts[cstr(s, A(0))] = constU(A(1), "option"); if (opts.count("feasMs")) feasMs = opts["feasMs"]; if (opts.count("maxCand")) maxCand = opts["maxCand"]; if (opts.count("barrier")) gBarrier = opts["barrier"]; if (opts.count("arx")) gArx = opts["arx"]; return true; }
  if (n == "dv_is_symbolic") { ret.v.push_back(mkC(32, 1)); return true; }
  if (n == "dv_print") { std::cerr << cstr(s, A(0)) << ": " << show(A(1), 6) << "\n"; return true; }
  if (n == "dv_print_mem") { std::cerr << cstr(s, A(0)) << ": " << show(load(s, A(1), constU(A(2), "n")), 6) << "\n"; return true; }
  if (n == "dv_task") { // begin task number k, or end tracking with -1, or check with -2
    int64_t k = (int64_t)constU(A(0), "task");
    if (k >= 0) { if (tracks.empty()) trackBase = nextId; trackOn = true; curTask = k; if ((int)tracks.size() <= k) tracks.resize(k + 1); }
    else if (k == -1) trackOn = false;
    else {
      // no two tasks may touch the same byte unless both only read; accesses at constant offsets are merged to ranges first
      uint64_t conf = 0, pairs = 0;
      struct Rg { uint64_t lo, hi; };
      struct Per { std::vector<Rg> rg[2]; std::vector<const Access *> sy; };
      std::vector<std::unordered_map<uint64_t, Per>> per(tracks.size());
      for (size_t i = 0; i < tracks.size(); i++) {
        for (auto &x : tracks[i]) { auto &p = per[i][x.id]; if (x.off->isConst()) { uint64_t o = x.off->c->getZExtValue(); p.rg[x.wr].push_back({o, o + x.nb}); } else p.sy.push_back(&x); }
        for (auto &kv : per[i]) for (auto &v : kv.second.rg) {
          std::sort(v.begin(), v.end(), [](const Rg &a, const Rg &b) { return a.lo < b.lo; });
          std::vector<Rg> m; for (auto &r : v) { if (!m.empty() && r.lo <= m.back().hi) m.back().hi = std::max(m.back().hi, r.hi); else m.push_back(r); }
          v.swap(m);
        }
      }
      auto clash = [&](uint64_t id, T dis) { pairs++; if (dis->isConst() && !dis->c->isZero()) return; if (conf++ < 20) oblige(s, dis, "parallel tasks touch disjoint memory (" + getObj(s, id)->name + ")", "race"); };
      auto disj = [&](T a, uint64_t an, T b, uint64_t bn) { return mkOr(mkNot(mkUlt(a, mkAdd(b, mkC(64, bn)))), mkNot(mkUlt(b, mkAdd(a, mkC(64, an))))); };
      for (size_t i = 0; i < per.size(); i++) for (size_t j = i + 1; j < per.size(); j++)
        for (auto &kv : per[i]) {
          auto it = per[j].find(kv.first); if (it == per[j].end()) continue;
          Per &a = kv.second, &b = it->second;
          for (int wa = 0; wa < 2; wa++) for (int wb = 0; wb < 2; wb++) if (wa || wb)
            for (auto &x : a.rg[wa]) for (auto &y : b.rg[wb]) clash(kv.first, x.hi <= y.lo || y.hi <= x.lo ? mkTrue() : mkFalse());
          for (auto *x : a.sy) {
            for (int w = 0; w < 2; w++) if (w || x->wr) for (auto &y : b.rg[w]) clash(kv.first, disj(x->off, x->nb, mkC(64, y.lo), y.hi - y.lo));
            for (auto *y : b.sy) if (x->wr || y->wr) clash(kv.first, disj(x->off, x->nb, y->off, y->nb));
          }
          for (auto *y : b.sy) for (int w = 0; w < 2; w++) if (w || y->wr) for (auto &x : a.rg[w]) clash(kv.first, disj(y->off, y->nb, mkC(64, x.lo), x.hi - x.lo));
        }
      nTriv["race"] += pairs - conf;
      tracks.clear(); trackOn = false;
    }
    return true;
  }
  if (n == "dv_poke") { // the live heap word of this width that holds the known number A(0), and its copy where there is one, now holds A(1)
    uint64_t old = constU(A(0), "number"), w = constU(A(2), "width"), found = 0; std::vector<std::pair<uint64_t, uint64_t>> at;
    for (auto &o : s.mem) {
      if (!o || o->dead || o->symb || o->ro || o->kind != 1 || o->cells.size() < w) continue;
      for (uint64_t i = 0; i + w <= o->cells.size(); i += 4) {
        uint64_t v = 0; bool ok = true;
        for (uint64_t j = 0; j < w && ok; j++) { Cell &c = o->cells[i + j]; if (!c.t || !c.t->isConst()) ok = false; else v |= c.t->c->extractBitsAsZExtValue(8, c.i * 8) << (8 * j); }
        if (ok && v == old) { found++; at.push_back({o->id, i}); }
      }
    }
    bool ok = found == 1 || found == 2; if (ok) for (auto &p : at) writeConcrete(mut(s, p.first), p.second, w == 8 ? A(1) : mkExtract(A(1), 0, w * 8));
    if (opts.count("trace")) std::cerr << "poke " << old << ": " << found << " found\n";
    ret.v.push_back(mkC(64, ok)); return true;
  }
  if (n == "dv_forget") { // frame condition: havoc memory
    uint64_t len = constU(A(1), "size");
    for (uint64_t i = 0; i < len; i++) store(s, mkAdd(A(0), mkC(64, i)), mkFresh("havoc", 8));
    return true;
  }
  if (n == "dv_symbuf") { // name, size term -> pointer to an object of symbolic size with unknown content
    std::string nm = cstr(s, A(0));
    ObjP o = allocSym(s, A(1), nm, 3);
    ret.v.push_back(addrOf(o)); return true;
  }
  // ---- memory
  auto alloc = [&](T sz, int kind, const char *nm) {
    if (sz->isConst()) {
      uint64_t k = sz->c->getZExtValue();
      if (k > (1ULL << 31)) dvFail("huge allocation at " + where());
      ret.v.push_back(addrOf(allocObj(s, k, kind, std::string(nm))));
    } else {
      ObjP o = allocSym(s, sz, "heap", kind);
      o->uf = "undef_heap" + std::to_string(o->id);
      ret.v.push_back(addrOf(o));
    }
  };
  auto release = [&](T p) {
    if (p->isConst() && p->c->isZero()) return;
    std::vector<PtrCase> cs; ptrCases(s, p, cs, mkTrue(), 0);
    for (auto &k : cs) {
      if (!k.ok) { // a null alternative is fine
        if (k.off->isConst() && k.off->c->isZero()) continue;
        if (k.off->isConst() && mkAdd(k.off, mkC(64, 0))->c->isZero()) continue;
        T z = k.off; (void)z;
        if (p->op == ITE || cs.size() > 1) continue;
      }
      const ObjP &o = getObj(s, k.id);
      if (!o || o->dead) { oblige(s, mkNot(k.guard), "no double free", "memory"); continue; }
      if (!(k.off->isConst() && k.off->c->isZero())) oblige(s, mkOr(mkNot(k.guard), mkEq(k.off, mkC(64, 0))), "free of the start of an object", "memory");
      if (o->kind != 1) oblige(s, mkNot(k.guard), "free of a heap object", "memory");
      if (k.guard->isConst()) s.mem[k.id] = deadObj;
    }
  };
  if (n == "_Znwy" || n == "_Znay" || n == "malloc" || n == "_ZnwySt11align_val_t" || n == "_aligned_malloc" || n == "_mm_malloc" || n == "_ZnaySt11align_val_t") { alloc(A(0), 1, "heap"); return true; }
  if (n == "calloc") { uint64_t k = constU(mkMul(A(0), A(1)), "size"); ObjP o = allocObj(s, k, 1, "heap"); for (auto &x : o->cells) x = {mkC(8, 0), 0}; ret.v.push_back(addrOf(o)); return true; }
  if (n == "_ZdlPv" || n == "_ZdaPv" || n == "free" || n == "_aligned_free" || n == "_mm_free" || n == "_ZdlPvSt11align_val_t" || n == "_ZdlPvy" || n == "_ZdlPvySt11align_val_t" || n == "_ZdaPvy") { release(A(0)); return true; }
  if (n == "memcpy" || n == "memmove") { copyBytes(s, A(0), A(1), A(2), true); ret = a[0]; return true; }
  if (n == "memset") { setBytes(s, A(0), mkExtract(A(1), 0, 8), A(2)); ret = a[0]; return true; }
  if (n == "RtlSecureZeroMemory" || n == "SecureZeroMemory") { setBytes(s, A(0), mkC(8, 0), A(1)); ret = a[0]; return true; }
  if (n == "memcmp") {
    uint64_t k = constU(A(2), "size"); T r = mkC(32, 0);
    for (uint64_t i = k; i-- > 0;) {
      T x = load(s, mkAdd(A(0), mkC(64, i)), 1), y = load(s, mkAdd(A(1), mkC(64, i)), 1);
      r = mkIte(mkEq(x, y), r, mkIte(mkUlt(x, y), mkC(32, 0xffffffff), mkC(32, 1)));
    }
    ret.v.push_back(r); return true;
  }
  if (n == "strlen") { ret.v.push_back(mkC(64, cstr(s, A(0)).size())); return true; }
  if (n == "tolower") { T x = A(0); T lo = mkNot(mkUlt(x, mkC(32, 'A'))), hi = mkUlt(x, mkC(32, 'Z' + 1)); ret.v.push_back(mkIte(mkAnd(lo, hi), mkAdd(x, mkC(32, 32)), x)); return true; }
  // ---- exceptions
  if (n == "__cxa_allocate_exception") { ret.v.push_back(addrOf(allocObj(s, constU(A(0), "size"), 4, "exception"))); return true; }
  if (n == "__cxa_free_exception" || n == "__cxa_init_primary_exception") { if (!cb->getType()->isVoidTy()) ret = a[0]; return true; }
  if (n == "__cxa_throw") {
    auto *g = dyn_cast<GlobalVariable>(cb->getArgOperand(1)->stripPointerCasts());
    Outcome o; o.kind = Outcome::THROW; o.ret = a[0]; o.ti = g; o.c.st = std::move(s);
    outs.push_back(std::move(o)); return true;
  }
  if (n == "__cxa_rethrow") {
    Outcome o; o.kind = Outcome::THROW; o.ret.v.push_back(c.curPtr ? c.curPtr : mkC(64, 0)); o.ti = c.curTi; o.c.st = std::move(s);
    outs.push_back(std::move(o)); return true;
  }
  if (n == "__cxa_begin_catch") { ret = a[0]; return true; }
  if (n == "__cxa_get_exception_ptr") { ret = a[0]; return true; }
  if (n == "__cxa_end_catch") { return true; }
  if (n == "__gxx_personality_seh0") { retC(0); return true; }
  if (n == "_ZSt9terminatev" || n == "__clang_call_terminate" || n == "abort" || n == "exit" || n == "_exit") { oblige(s, mkFalse(), "std::terminate or abort is not reached", "unreachable"); throw AbortPath(); }
  if (n.compare(0, 9, "_ZSt20__t") == 0 || n.compare(0, 6, "_ZSt17") == 0 || n.compare(0, 6, "_ZSt19") == 0 || n.compare(0, 6, "_ZSt24") == 0 || n.compare(0, 6, "_ZSt25") == 0 || n.compare(0, 6, "_ZSt28") == 0 || n.compare(0, 6, "_ZSt16") == 0) {
    // std::__throw_*: an exception of the standard library
    static std::map<std::string, GlobalVariable *> fake;
    GlobalVariable *&g = fake[n];
    if (!g) g = new GlobalVariable(*M, Type::getInt8Ty(M->getContext()), true, GlobalValue::ExternalLinkage, nullptr, "_ZTISt_" + n);
    Outcome o; o.kind = Outcome::THROW; o.ret.v.push_back(addrOf(allocObj(s, 64, 4, "stdexception"))); o.ti = g; o.c.st = std::move(s);
    outs.push_back(std::move(o)); return true;
  }
  if (n == "_ZNSt9exceptionD2Ev" || n == "_ZNSt9exceptionC2Ev") return true;
  if (n == "atexit" || n == "__cxa_atexit") { retC(0); return true; }
  if (n == "__cxa_guard_acquire") { T g = load(s, A(0), 1); ret.v.push_back(mkZext(mkEq(g, mkC(8, 0)), 32)); return true; }
  if (n == "__cxa_guard_release") { store(s, A(0), mkC(8, 1)); return true; }
  if (n == "__cxa_guard_abort") return true;
  if (n.compare(0, 8, "pthread_") == 0) { retC(0); return true; }
  if (n == "_ZNSt6thread20hardware_concurrencyEv") { retC(opts.count("threads") ? opts["threads"] : 4); return true; }
  if (n == "VirtualLock" || n == "VirtualUnlock" || n == "VirtualFree") { retC(1); return true; }
  if (n == "_ZNSt8ios_base4InitC1Ev" || n == "_ZNSt8ios_base4InitD1Ev") return true;
  if (n == "__main") return true;
  return false;
}
void VM::noteAccess(State &s, const PtrCase &p, uint64_t nb, bool wr) {
  const ObjP &o = getObj(s, p.id);
  if (!o || curTask < 0 || p.id >= trackBase) return; // what the tasks allocate themselves is their own
  auto &v = tracks[curTask];
  if (!v.empty()) { auto &l = v.back(); if (l.id == p.id && l.wr == wr && l.off->isConst() && p.off->isConst() && l.off->c->getZExtValue() + l.nb == p.off->c->getZExtValue()) { l.nb += nb; return; } }
  v.push_back({p.id, p.off, (uint32_t)nb, wr, {}, p.guard});
}
void VM::runCtors(State &s) {
  GlobalVariable *g = M->getGlobalVariable("llvm.global_ctors");
  if (!g || !g->hasInitializer()) return;
  auto *ca = dyn_cast<ConstantArray>(g->getInitializer());
  if (!ca) return;
  for (auto &op : ca->operands()) {
    auto *cs = cast<ConstantStruct>(op);
    auto *f = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts());
    if (!f || f->isDeclaration()) continue;
    State saved = s;
    try {
      auto r = callFunction(f, {}, s, nullptr);
      bool ok = false;
      for (auto &o : r) if (o.kind == Outcome::RET) { s = std::move(o.c.st); ok = true; }
      if (!ok) s = saved;
    } catch (EngineError &e) { s = saved; callStack.clear(); depth = 0; if (verbose) std::cerr << "global constructor " << f->getName().str() << ": " << e.msg << "\n"; }
  }
  obls.clear(); oblSeen.clear(); nTriv.clear(); fnsSeen.clear();
  for (auto &x : finfo) x.second->calls = 0;
}
} // namespace dv

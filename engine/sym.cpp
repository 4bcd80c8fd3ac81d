// Objects of symbolic size, and summaries of loops with a symbolic trip count.
#include "vm.h"
#include <algorithm>
#include <iostream>
namespace dv {
T subst(T t, const std::unordered_map<T, T> &m0) {
  std::unordered_map<T, T> memo(m0);
  std::vector<std::pair<T, bool>> st{{t, false}};
  while (!st.empty()) {
    auto [x, d] = st.back();
    if (memo.count(x)) { st.pop_back(); continue; }
    if (!d) { st.back().second = true; for (uint32_t i = 0; i < x->n; i++) if (!memo.count(x->a[i])) st.push_back({x->a[i], false}); continue; }
    st.pop_back();
    bool ch = false; TV a;
    for (uint32_t i = 0; i < x->n; i++) { T y = memo[x->a[i]]; ch |= y != x->a[i]; a.push_back(y); }
    if (!ch) { memo[x] = x; continue; }
    T r = nullptr;
    switch (x->op) {
    case UF: r = mkUF(gNames[x->p], x->w, a); break;
    case LUT: r = mkLut(x->p, a[0]); break;
    case ADD: r = mkAddV(a); break;
    case MUL: { r = a[0]; for (size_t i = 1; i < a.size(); i++) r = mkMul(r, a[i]); break; }
    case UDIV: case UREM: case SDIV: case SREM: r = mkDiv(x->op, a[0], a[1]); break;
    case AND: r = mkAndV(a); break;
    case OR: r = mkOrV(a); break;
    case XOR: r = mkXorV(a); break;
    case SHL: case LSHR: case ASHR: r = mkShift(x->op, a[0], a[1]); break;
    case CONCAT: r = mkConcat(a); break;
    case EXTRACT: r = mkExtract(a[0], x->p, x->w); break;
    case SEXT: r = mkSext(a[0], x->w); break;
    case ITE: r = mkIte(a[0], a[1], a[2]); break;
    case EQ: r = mkEq(a[0], a[1]); break;
    case ULT: r = mkUlt(a[0], a[1]); break;
    case SLT: r = mkSlt(a[0], a[1]); break;
    default: r = x;
    }
    memo[x] = r;
  }
  return memo[t];
}
T VM::readSym(State &s, Obj &o, T off, uint32_t nb) { return readSymFrom(s, o, o.log.size(), off, nb); }
T VM::readSymFrom(State &s, Obj &o, size_t k, T off, uint32_t nb) {
  auto bytes = [&](size_t layer) {
    TV v;
    for (uint32_t i = 0; i < nb; i++) v.push_back(readSymFrom(s, o, layer, mkAdd(off, mkC(64, i)), 1));
    return mkConcat(v);
  };
  while (k > 0) {
    Layer &l = o.log[k - 1];
    if (l.kind == Layer::WRITE) {
      uint32_t wn = l.val->w / 8;
      T d = mkSub(off, l.off);
      if (d->isConst()) {
        int64_t x = d->c->getSExtValue();
        if (x >= (int64_t)wn || x + (int64_t)nb <= 0) { k--; continue; }
        if (x >= 0 && x + nb <= wn) return mkExtract(l.val, x * 8, nb * 8);
        return bytes(k);
      }
      T dis = mkAnd(mkUle(mkC(64, wn), d), mkUle(d, mkC(64, 0 - (uint64_t)nb)));
      if (knownTrue(s, dis)) { k--; continue; }
      if (nb > 1) return bytes(k);
      T r = readSymFrom(s, o, k - 1, off, 1);
      for (uint32_t j = 0; j < wn; j++) r = mkIte(mkEq(d, mkC(64, j)), mkExtract(l.val, j * 8, 8), r);
      return r;
    }
    if (l.kind == Layer::RANGE || l.kind == Layer::COPY) {
      T d = mkSub(off, l.off);
      T in = mkUlt(d, l.len);
      T dis = mkAnd(mkUle(l.len, d), mkUle(d, mkC(64, 0 - (uint64_t)nb)));
      if (nb > 1) {
        if (knownTrue(s, dis)) { k--; continue; }
        if (l.kind == Layer::COPY) {
          T all = mkAnd(mkUle(mkC(64, nb), l.len), mkUle(d, mkSub(l.len, mkC(64, nb))));
          if (knownTrue(s, all)) return readSymFrom(s, *l.src, l.src->log.size(), mkAdd(d, l.soff), nb);
        }
        return bytes(k);
      }
      T g = simpUnder(s, in);
      bool t = knownTrue(s, g), f = !t && knownTrue(s, mkNot(g));
      if (f) { k--; continue; }
      T v;
      if (l.kind == Layer::COPY) {
        if (l.src->symb) v = readSymFrom(s, *l.src, l.src->log.size(), mkAdd(d, l.soff), 1);
        else {
          // a frozen object of known size
          State tmp; tmp.pc = s.pc; tmp.pc.push_back(g);
          uint64_t id = l.src->id; tmp.mem.resize(id + 1); tmp.mem[id] = l.src;
          v = readObj(tmp, id, mkAdd(d, l.soff), 1);
        }
      }
      else v = subst(l.val, {{l.bound, off}});
      if (t) return v;
      return mkIte(g, v, readSymFrom(s, o, k - 1, off, 1));
    }
    dvFail("layer");
  }
  if (nb > 1) return bytes(0);
  if (o.src2) return mkIte(o.sel, readSymFrom(s, *o.src2, o.src2->log.size(), off, 1), readSymFrom(s, *o.src3, o.src3->log.size(), off, 1));
  if (o.uf.empty()) return mkC(8, 0);
  return mkUF(o.uf, 8, {off});
}
void VM::writeSym(State &s, uint64_t id, T off, T v, T guard) {
  if (!(guard->isConst() && !guard->c->isZero())) v = mkIte(guard, v, readObj(s, id, off, v->w / 8));
  Obj &o = mut(s, id);
  // a write to the same place replaces the previous one
  if (!o.log.empty()) {
    auto &l = o.log.back();
    if (l.kind == Layer::WRITE && l.off == off && l.val->w == v->w) { l.val = v; return; }
  }
  Layer l; l.kind = Layer::WRITE; l.off = off; l.val = v; l.len = nullptr;
  o.log.push_back(l);
}
bool VM::copySym(State &s, T dst, T src, T len) {
  std::vector<PtrCase> a, b;
  ptrCases(s, dst, a, mkTrue(), 0); ptrCases(s, src, b, mkTrue(), 0);
  if (a.size() != 1 || b.size() != 1 || !a[0].ok || !b[0].ok) return false;
  ObjP so = getObj(s, b[0].id), d = getObj(s, a[0].id);
  if (!so || !d || !d->symb) return false;
  auto bound = [&](const ObjP &o, T off, const char *w) {
    T c = mkOr(mkEq(len, mkC(64, 0)), mkAnd(mkUle(off, o->size), mkUle(len, mkSub(o->size, off))));
    oblige(s, c, std::string("copy ") + w + " within bounds of " + o->name, "memory");
    assume(s, c);
  };
  bound(so, b[0].off, "reads"); bound(d, a[0].off, "writes");
  Layer l; l.kind = Layer::COPY; l.off = a[0].off; l.len = len; l.val = nullptr; l.src = so; l.soff = b[0].off;
  mut(s, a[0].id).log.push_back(l);
  return true;
}
bool VM::setSym(State &s, T dst, T byte, T len) {
  std::vector<PtrCase> a;
  ptrCases(s, dst, a, mkTrue(), 0);
  if (a.size() != 1 || !a[0].ok) return false;
  ObjP d = getObj(s, a[0].id);
  if (!d || !d->symb) return false;
  T c = mkOr(mkEq(len, mkC(64, 0)), mkAnd(mkUle(a[0].off, d->size), mkUle(len, mkSub(d->size, a[0].off))));
  oblige(s, c, "fill writes within bounds of " + d->name, "memory");
  assume(s, c);
  Layer l; l.kind = Layer::RANGE; l.off = a[0].off; l.len = len; l.val = byte; l.bound = mkVar("bound!off", 64);
  mut(s, a[0].id).log.push_back(l);
  return true;
}
static bool sameLayer(const Layer &x, const Layer &y) { return x.kind == y.kind && x.off == y.off && x.len == y.len && x.val == y.val && x.src == y.src && x.soff == y.soff; }
void VM::mergeSym(T sel, Obj &a, const Obj &b) {
  size_t k = 0;
  while (k < a.log.size() && k < b.log.size() && sameLayer(a.log[k], b.log[k])) k++;
  if (k == a.log.size() && k == b.log.size()) return;
  auto x = std::make_shared<Obj>(a), y = std::make_shared<Obj>(b);
  a.log.clear(); a.src2 = x; a.src3 = y; a.sel = sel;
  if (a.uf.empty()) a.uf = "merged";
}
bool VM::loopEnter(Ctx &c, FnInfo &fi, BasicBlock *bb, BasicBlock *stop, std::vector<Outcome> &result) { return true; }
} // namespace dv

#include "term.h"
#include <llvm/Support/raw_ostream.h>
#include <algorithm>
#include <cassert>
#include <unordered_set>
#include <set>

namespace dv {
using llvm::SmallVector;
using llvm::ArrayRef;

std::vector<std::string> gNames;
static std::unordered_map<std::string, uint32_t> gNameIdx;
uint32_t nameId(const std::string &s) {
  auto it = gNameIdx.find(s);
  if (it != gNameIdx.end()) return it->second;
  gNames.push_back(s);
  return gNameIdx[s] = gNames.size() - 1;
}
std::vector<Table> gTables;
static std::map<std::pair<std::pair<uint32_t, uint32_t>, std::vector<uint64_t>>, uint32_t> gTabIdx;
uint32_t tableId(uint32_t iw, uint32_t ow, const std::vector<uint64_t> &v) {
  auto key = std::make_pair(std::make_pair(iw, ow), v);
  auto it = gTabIdx.find(key);
  if (it != gTabIdx.end()) return it->second;
  Table t{iw, ow, v, ~0ULL, 0};
  for (auto x : v) { t.lo = std::min(t.lo, x); t.hi = std::max(t.hi, x); }
  gTables.push_back(t);
  return gTabIdx[key] = gTables.size() - 1;
}

// ---------------------------------------------------------------- arena and hash-consing
static char *arenaP = nullptr, *arenaE = nullptr;
static void *arena(size_t n) {
  n = (n + 15) & ~size_t(15);
  if (arenaP + n > arenaE) {
    size_t sz = std::max<size_t>(n, 4 << 20);
    arenaP = (char *)malloc(sz);
    arenaE = arenaP + sz;
  }
  void *r = arenaP;
  arenaP += n;
  return r;
}
static std::vector<T> gTab(1 << 16, nullptr);
static size_t gCount = 0;
uint64_t nodeCount() { return gCount; }
static inline size_t mix(size_t h, size_t v) { h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); return h * 0xff51afd7ed558ccdULL; }


static inline uint64_t maxOf(uint32_t w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
static void interval(Node *n);

static T cons(Op op, uint32_t w, uint64_t p, ArrayRef<T> a, const APInt *c = nullptr) {
  size_t h = mix(mix(op, w), p);
  for (T x : a) h = mix(h, x->id);
  if (c) h = mix(h, llvm::hash_value(*c));
  h ^= h >> 29;
  size_t m = gTab.size() - 1, i = h & m;
  while (gTab[i]) {
    T t = gTab[i];
    if (t->h == h && t->op == op && t->w == w && t->p == p && t->n == a.size() && std::equal(a.begin(), a.end(), t->a) &&
        (!c || *c == *t->c))
      return t;
    i = (i + 1) & m;
  }
  Node *n = (Node *)arena(sizeof(Node));
  n->id = ++gCount;
  n->op = op; n->w = w; n->n = a.size(); n->p = p; n->h = h;
  n->a = a.empty() ? nullptr : (T *)arena(sizeof(T) * a.size());
  std::copy(a.begin(), a.end(), n->a);
  n->c = c ? new APInt(*c) : nullptr;
  interval(n);
  gTab[i] = n;
  if (gCount * 2 > gTab.size()) {
    std::vector<T> nt(gTab.size() * 2, nullptr);
    size_t mm = nt.size() - 1;
    for (T t : gTab) if (t) {
      size_t j = t->h & mm;
      while (nt[j]) j = (j + 1) & mm;
      nt[j] = t;
    }
    gTab.swap(nt);
  }
  return n;
}

static bool splitCoefS(T t, __int128 &coef, T &base) {
  if (t->op == MUL && t->a[0]->isConst() && t->n == 2 && t->w <= 64) {
    coef = t->a[0]->c->getSExtValue();
    base = t->a[1];
    return true;
  }
  coef = 1; base = t;
  return true;
}

static void interval(Node *n) {
  n->lo = 0; n->hi = maxOf(n->w);
  if (n->w > 64) return;
  uint64_t mx = maxOf(n->w);
  switch (n->op) {
  case CONST: n->lo = n->hi = n->c->getZExtValue(); break;
  case LUT: n->lo = gTables[n->p].lo; n->hi = gTables[n->p].hi; break;
  case ADD: {
    __int128 lo = 0, hi = 0;
    for (uint32_t i = 0; i < n->n; i++) {
      T t = n->a[i];
      if (t->isConst()) {
        __int128 v = t->c->getSExtValue();
        lo += v; hi += v;
        continue;
      }
      __int128 k; T b;
      splitCoefS(t, k, b);
      __int128 bl = b->lo, bh = b->hi;
      // keep well inside 128 bits
      if ((k > 0 ? k : -k) > ((__int128)1 << 56) || n->n > 32) { lo = -1; break; }
      lo += k > 0 ? k * bl : k * bh;
      hi += k > 0 ? k * bh : k * bl;
    }
    if (lo >= 0 && hi <= (__int128)mx) { n->lo = (uint64_t)lo; n->hi = (uint64_t)hi; }
    else {
      // retry with the constant as an unsigned number
      lo = hi = 0;
      bool ok = true;
      for (uint32_t i = 0; i < n->n && ok; i++) {
        T t = n->a[i];
        if (t->isConst()) { lo += t->lo; hi += t->hi; continue; }
        lo += t->lo; hi += t->hi;
      }
      if (ok && hi <= (__int128)mx) { n->lo = (uint64_t)lo; n->hi = (uint64_t)hi; }
    }
    break;
  }
  case MUL: {
    unsigned __int128 l = 1, h = 1;
    bool ok = true;
    for (uint32_t i = 0; i < n->n; i++) {
      l *= n->a[i]->lo; h *= n->a[i]->hi;
      if (h > mx) { ok = false; break; }
    }
    if (ok) { n->lo = (uint64_t)l; n->hi = (uint64_t)h; }
    break;
  }
  case UDIV:
    if (n->a[1]->lo > 0) { n->lo = n->a[0]->lo / n->a[1]->hi; n->hi = n->a[0]->hi / n->a[1]->lo; }
    break;
  case UREM:
    if (n->a[1]->lo > 0) n->hi = std::min(n->a[1]->hi - 1, n->a[0]->hi);
    break;
  case AND: {
    uint64_t h = mx;
    for (uint32_t i = 0; i < n->n; i++) h = std::min(h, n->a[i]->hi);
    n->hi = h;
    break;
  }
  case OR: case XOR: {
    uint64_t h = 0, l = 0;
    for (uint32_t i = 0; i < n->n; i++) { h |= n->a[i]->hi; l = std::max(l, n->a[i]->lo); }
    if (h) { unsigned b = 64 - __builtin_clzll(h); n->hi = maxOf(b); } else n->hi = 0;
    if (n->op == OR) n->lo = l;
    break;
  }
  case CONCAT: {
    uint64_t l = 0, h = 0; uint32_t sh = 0;
    for (uint32_t i = 0; i < n->n; i++) { l |= n->a[i]->lo << sh; h |= n->a[i]->hi << sh; sh += n->a[i]->w; }
    n->lo = l; n->hi = h;
    break;
  }
  case EXTRACT: {
    T x = n->a[0];
    if (x->w <= 64) {
      if (n->p + n->w == x->w || (x->hi >> n->p) <= mx) { n->lo = x->lo >> n->p; n->hi = x->hi >> n->p; }
    }
    break;
  }
  case ITE: n->lo = std::min(n->a[1]->lo, n->a[2]->lo); n->hi = std::max(n->a[1]->hi, n->a[2]->hi); break;
  case LSHR: n->hi = n->a[0]->hi; break;
  case VAR: default: break;
  }
}

// ---------------------------------------------------------------- constants and variables
T mkConst(const APInt &v) { return cons(CONST, v.getBitWidth(), 0, {}, &v); }
T mkC(uint32_t w, uint64_t v) { return mkConst(APInt(w, v)); }
T mkTrue() { static T t = mkC(1, 1); return t; }
T mkFalse() { static T t = mkC(1, 0); return t; }
T mkVar(const std::string &name, uint32_t w) { return cons(VAR, w, nameId(name), {}); }
T mkVarRange(const std::string &name, uint32_t w, uint64_t lo, uint64_t hi) {
  if (lo == hi) return mkC(w, lo);
  T v = mkVar(name, w);
  const_cast<Node *>(v)->lo = lo;
  const_cast<Node *>(v)->hi = hi;
  return v;
}
static uint64_t gFresh = 0;
T mkFresh(const std::string &prefix, uint32_t w) { return mkVar(prefix + "!" + std::to_string(gFresh++), w); }
T mkUF(const std::string &name, uint32_t w, const TV &args) { return cons(UF, w, nameId(name), args); }

static inline bool isZero(T t) { return t->isConst() && t->c->isZero(); }
static inline bool isOnes(T t) { return t->isConst() && t->c->isAllOnes(); }
static inline bool isOne(T t) { return t->isConst() && t->c->isOne(); }

// ---------------------------------------------------------------- evaluation
APInt evalOp(T n, ArrayRef<APInt> a) {
  switch (n->op) {
  case CONST: return *n->c;
  case LUT: return APInt(n->w, gTables[n->p].v[a[0].getZExtValue()]);
  case ADD: { APInt r = a[0]; for (size_t i = 1; i < a.size(); i++) r += a[i]; return r; }
  case MUL: { APInt r = a[0]; for (size_t i = 1; i < a.size(); i++) r *= a[i]; return r; }
  case AND: { APInt r = a[0]; for (size_t i = 1; i < a.size(); i++) r &= a[i]; return r; }
  case OR: { APInt r = a[0]; for (size_t i = 1; i < a.size(); i++) r |= a[i]; return r; }
  case XOR: { APInt r = a[0]; for (size_t i = 1; i < a.size(); i++) r ^= a[i]; return r; }
  case UDIV: return a[1].isZero() ? APInt::getAllOnes(n->w) : a[0].udiv(a[1]);
  case UREM: return a[1].isZero() ? a[0] : a[0].urem(a[1]);
  case SDIV: if (a[1].isZero()) return a[0].isNegative() ? APInt(n->w, 1) : APInt::getAllOnes(n->w);
             return a[0].sdiv(a[1]);
  case SREM: return a[1].isZero() ? a[0] : a[0].srem(a[1]);
  case SHL: return a[1].uge(n->w) ? APInt(n->w, 0) : a[0].shl(a[1].getZExtValue());
  case LSHR: return a[1].uge(n->w) ? APInt(n->w, 0) : a[0].lshr(a[1].getZExtValue());
  case ASHR: return a[0].ashr(a[1].uge(n->w) ? n->w - 1 : a[1].getZExtValue());
  case CONCAT: {
    if (n->w <= 64) {
      uint64_t r = 0; unsigned s = 0;
      for (auto &x : a) { r |= x.getZExtValue() << s; s += x.getBitWidth(); }
      return APInt(n->w, r);
    }
    APInt r(n->w, 0); unsigned s = 0;
    for (auto &x : a) { r.insertBits(x, s); s += x.getBitWidth(); }
    return r;
  }
  case EXTRACT: return a[0].extractBits(n->w, n->p);
  case SEXT: return a[0].sext(n->w);
  case ITE: return a[0].getBoolValue() ? a[1] : a[2];
  case EQ: return APInt(1, a[0] == a[1]);
  case ULT: return APInt(1, a[0].ult(a[1]));
  case SLT: return APInt(1, a[0].slt(a[1]));
  default: assert(0); return APInt(n->w, 0);
  }
}
static uint64_t hashAP(const APInt &x, uint64_t h) {
  for (unsigned i = 0; i < x.getNumWords(); i++) {
    h ^= x.getRawData()[i]; h *= 0x9E3779B97F4A7C15ULL; h ^= h >> 32; h *= 0xD6E8FEB86659FD93ULL; h ^= h >> 29;
  }
  return h;
}
// dv_rt.cpp computes the same function, so a counterexample over unknown functions replays
static uint64_t nameHash(uint32_t id) {
  static std::vector<uint64_t> memo;
  if (memo.size() <= id) memo.resize(gNames.size() + 16, 0);
  if (!memo[id]) { uint64_t h = 1469598103934665603ULL; for (unsigned char c : gNames[id]) { h ^= c; h *= 1099511628211ULL; } memo[id] = h; }
  return memo[id];
}
const APInt &Evaluator::eval(T root) {
  auto f = memo.find(root);
  if (f != memo.end()) return f->second;
  std::vector<std::pair<T, bool>> st{{root, false}};
  SmallVector<APInt, 8> av;
  while (!st.empty()) {
    auto [t, done] = st.back();
    if (!done) {
      if (memo.count(t)) { st.pop_back(); continue; }
      st.back().second = true;
      for (uint32_t i = 0; i < t->n; i++) if (!memo.count(t->a[i])) st.push_back({t->a[i], false});
      continue;
    }
    st.pop_back();
    if (memo.count(t)) continue;
    if (t->op == VAR) { memo.emplace(t, var(t)); continue; }
    av.clear();
    for (uint32_t i = 0; i < t->n; i++) av.push_back(memo.find(t->a[i])->second);
    if (t->op == UF) {
      uint64_t h = ufSalt * 1000003 + nameHash(t->p);
      for (auto &x : av) h = hashAP(x, h + x.getBitWidth());
      SmallVector<uint64_t, 4> ws;
      for (unsigned i = 0; i < (t->w + 63) / 64; i++) { h = hashAP(APInt(64, i + 1), h); ws.push_back(h); }
      memo.emplace(t, APInt(t->w, ws));
      continue;
    }
    memo.emplace(t, evalOp(t, av));
  }
  return memo.find(root)->second;
}
static T foldAll(Op op, uint32_t w, uint64_t p, ArrayRef<T> a) {
  for (T x : a) if (!x->isConst()) return nullptr;
  Node tmp; tmp.op = op; tmp.w = w; tmp.p = p; tmp.n = a.size(); tmp.a = nullptr; tmp.c = nullptr;
  SmallVector<APInt, 8> v;
  for (T x : a) v.push_back(*x->c);
  return mkConst(evalOp(&tmp, v));
}

// ---------------------------------------------------------------- single-byte support: collapse to tables
static bool depOnly(T t, T y, int depth) {
  if (t == y || t->isConst()) return true;
  if (depth == 0 || t->op == VAR || t->op == UF) return false;
  for (uint32_t i = 0; i < t->n; i++) if (!depOnly(t->a[i], y, depth - 1)) return false;
  return true;
}
static APInt evalY(T t, T y, const APInt &v) {
  if (t == y) return v;
  if (t->isConst()) return *t->c;
  SmallVector<APInt, 8> av;
  for (uint32_t i = 0; i < t->n; i++) av.push_back(evalY(t->a[i], y, v));
  return evalOp(t, av);
}
static T collapse(Op op, uint32_t w, uint64_t p, ArrayRef<T> a) {
  if (w > 64) return nullptr;
  T y = nullptr;
  for (T x : a) if (x->op == LUT) { y = x->a[0]; break; }
  if (!y) return nullptr;
  for (T x : a) if (!depOnly(x, y, 4)) return nullptr;
  Node tmp; tmp.op = op; tmp.w = w; tmp.p = p; tmp.n = a.size(); tmp.a = nullptr; tmp.c = nullptr;
  std::vector<uint64_t> tab(size_t(1) << y->w);
  SmallVector<APInt, 8> av;
  for (size_t v = 0; v < tab.size(); v++) {
    av.clear();
    APInt vv(y->w, v);
    for (T x : a) av.push_back(evalY(x, y, vv));
    tab[v] = evalOp(&tmp, av).getZExtValue();
  }
  return mkLut(tableId(y->w, w, tab), y);
}
static bool isAffine(uint32_t table) {
  static std::vector<int8_t> memo;
  if (memo.size() <= table) memo.resize(table + 1, -1);
  if (memo[table] >= 0) return memo[table];
  auto &v = gTables[table].v; bool ok = true;
  for (size_t i = 1; i < v.size() && ok; i++) { size_t l = i & (~i + 1); ok = (v[i] ^ v[0]) == ((v[l] ^ v[0]) ^ (v[i ^ l] ^ v[0])); }
  return memo[table] = ok;
}
T mkLut(uint32_t table, T idx) {
  Table tb = gTables[table];
  assert(idx->w == tb.iw);
  if (idx->isConst()) return mkC(tb.ow, tb.v[idx->c->getZExtValue()]);
  if (tb.lo == tb.hi) return mkC(tb.ow, tb.lo);
  if (tb.ow >= tb.iw) {
    bool id = true;
    for (size_t i = 0; i < tb.v.size() && id; i++) id = tb.v[i] == i;
    if (id) return mkZext(idx, tb.ow);
  }
  if (idx->op == XOR && tb.iw == 8 && isAffine(table)) {
    TV v; uint64_t t0 = tb.v[0];
    std::vector<uint64_t> lv(tb.v); for (auto &z : lv) z ^= t0;
    uint32_t l = tableId(tb.iw, tb.ow, lv);
    for (uint32_t i = 0; i < idx->n; i++) v.push_back(mkLut(l, idx->a[i]));
    v.push_back(mkC(tb.ow, t0));
    return mkXorV(v);
  }
  if (idx->op == LUT) {
    Table t2 = gTables[idx->p];
    std::vector<uint64_t> v(t2.v.size());
    for (size_t i = 0; i < v.size(); i++) v[i] = tb.v[t2.v[i]];
    return mkLut(tableId(t2.iw, tb.ow, v), idx->a[0]);
  }
  return cons(LUT, tb.ow, table, {idx});
}

// ---------------------------------------------------------------- concat / extract
struct Sig { SmallVector<uint32_t, 8> w; };
static bool sameSig(T a, T b) {
  if (a->op != CONCAT || b->op != CONCAT || a->n != b->n) return false;
  for (uint32_t i = 0; i < a->n; i++) if (a->a[i]->w != b->a[i]->w) return false;
  return true;
}
static T mergeAdj(T lo, T hi);
static T tryMergeNary(T lo, T hi) {
  // XOR(x_l, y_l) next to XOR(x_h, y_h) where the parts are slices of the same words
  if (lo->op != hi->op || lo->n != hi->n || (lo->op != XOR && lo->op != AND && lo->op != OR) || lo->n > 6 || lo->w == 1) return nullptr;
  TV args;
  SmallVector<bool, 8> used(hi->n, false);
  for (uint32_t i = 0; i < lo->n; i++) {
    T l = lo->a[i], r = nullptr;
    for (uint32_t j = 0; j < hi->n && !r; j++) {
      if (used[j]) continue;
      T h = hi->a[j];
      if (l->isConst() && h->isConst()) r = mkConst(h->c->concat(*l->c));
      else if (l->op == EXTRACT && h->op == EXTRACT && l->a[0] == h->a[0] && l->p + l->w == h->p)
        r = mkExtract(l->a[0], l->p, l->w + h->w);
      if (r) used[j] = true;
    }
    if (!r) return nullptr;
    args.push_back(r);
  }
  return lo->op == XOR ? mkXorV(args) : lo->op == AND ? mkAndV(args) : mkOrV(args);
}
static T mergeXorConst(T lo, T hi) {
  // c ^ w[a..b) next to w[b..d), for a constant c
  auto split = [](T t, T &c, T &e) { c = nullptr; e = nullptr; if (t->op == EXTRACT) { e = t; return; } if (t->op == XOR && t->n == 2) for (int i = 0; i < 2; i++) if (t->a[i]->isConst() && t->a[1 - i]->op == EXTRACT) { c = t->a[i]; e = t->a[1 - i]; } };
  T c, e, d, f; split(lo, c, e); split(hi, d, f);
  if (!e || !f || (!c && !d) || e->a[0] != f->a[0] || e->p + e->w != f->p) return nullptr;
  APInt k = (d ? *d->c : APInt(hi->w, 0)).concat(c ? *c->c : APInt(lo->w, 0));
  return mkXorV({mkExtract(e->a[0], e->p, lo->w + hi->w), mkConst(k)});
}
static T mergeAdj(T lo, T hi) {
  if (T m = mergeXorConst(lo, hi)) return m;
  if (lo->isConst() && hi->isConst()) return mkConst(hi->c->concat(*lo->c));
  if (lo->op == EXTRACT && hi->op == EXTRACT && lo->a[0] == hi->a[0] && lo->p + lo->w == hi->p)
    return mkExtract(lo->a[0], lo->p, lo->w + hi->w);
  if (lo->op == ITE && hi->op == ITE && lo->a[0] == hi->a[0]) {
    return mkIte(lo->a[0], mkConcat({lo->a[1], hi->a[1]}), mkConcat({lo->a[2], hi->a[2]}));
  }
  // sign bits next to their own word
  if (lo->op == LUT && hi->op == LUT && lo->a[0] == hi->a[0] && lo->w + hi->w <= 64) {
    Table a = gTables[lo->p], b = gTables[hi->p];
    std::vector<uint64_t> v(a.v.size());
    for (size_t i = 0; i < v.size(); i++) v[i] = a.v[i] | (b.v[i] << lo->w);
    return mkLut(tableId(a.iw, lo->w + hi->w, v), lo->a[0]);
  }
  return tryMergeNary(lo, hi);
}
T mkConcat(const TV &in) {
  TV f;
  for (T x : in) {
    if (x->w == 0) continue;
    if (x->op == CONCAT) for (uint32_t i = 0; i < x->n; i++) f.push_back(x->a[i]);
    else f.push_back(x);
  }
  TV r;
  for (T x : f) {
    while (!r.empty()) {
      T m = mergeAdj(r.back(), x);
      // the low bits of a sum may have been narrowed: put sum[0..k) and sum[k..] together again
      if (!m && x->op == EXTRACT && (x->a[0]->op == ADD || x->a[0]->op == MUL) && x->p == r.back()->w && mkExtract(x->a[0], 0, x->p) == r.back())
        m = mkExtract(x->a[0], 0, x->p + x->w);
      if (T b = r.back(); !m && x->op == EXTRACT && b->op == EXTRACT && b->a[0]->op == x->a[0]->op && (x->a[0]->op == ADD || x->a[0]->op == MUL) && b->p + b->w == x->p && b->a[0]->w == x->p && x->a[0]->w > x->p && mkExtract(x->a[0], 0, x->p) == b->a[0])
        m = mkExtract(x->a[0], b->p, b->w + x->w);
      if (!m) break;
      r.pop_back();
      x = m;
      if (x->op == CONCAT) break;
    }
    if (x->op == CONCAT) for (uint32_t i = 0; i < x->n; i++) r.push_back(x->a[i]);
    else r.push_back(x);
  }
  if (r.size() == 1) return r[0];
  uint32_t w = 0;
  for (T x : r) w += x->w;
  return cons(CONCAT, w, 0, r);
}
static bool narrowable(T t, uint32_t w) {
  // taking the low w bits of t strictly simplifies it
  if (t->isConst()) return true;
  if (t->op == CONCAT) { uint32_t s = 0; for (uint32_t i = 0; i < t->n; i++) { if (s == w) return true; s += t->a[i]->w; if (s > w && (t->a[i]->op == EXTRACT || t->a[i]->isConst())) return true; } return false; }
  if (t->op == SEXT) return true;
  if (t->op == MUL || t->op == ADD) { for (uint32_t i = 0; i < t->n; i++) if (!narrowable(t->a[i], w)) return false; return true; }
  if (t->op == EXTRACT) return true;
  return false;
}
bool gArx = false;
static bool cutsCleanly(T y, uint32_t at) {
  // may y be cut at bit `at` without cutting through a compound term
  uint32_t s = 0;
  for (uint32_t i = 0; i < y->n; i++) {
    if (s == at) return true;
    T z = y->a[i];
    if (at < s + z->w) { if (at % 8 == 0 && s % 8 == 0 && z->w % 8 == 0) return true; T b = z->op == EXTRACT ? z->a[0] : z; return b->op == CONST || b->op == VAR || b->op == UF || b->op == LUT || b->op == SEXT; }
    s += z->w;
  }
  return s == at;
}
static T mkExtract1(T x, uint32_t lo, uint32_t w);
static std::unordered_map<uint64_t, T> gExtractMemo;
T mkExtract(T x, uint32_t lo, uint32_t w) {
  assert(lo + w <= x->w && w > 0);
  if (w == x->w) return x;
  if (!(x->op == XOR || x->op == AND || x->op == OR || x->op == ITE || x->op == ADD || x->op == MUL) || x->id >= (1ull << 36) || x->w > 8192) return mkExtract1(x, lo, w);
  uint64_t k = ((uint64_t)x->id << 26) | ((uint64_t)lo << 13) | w;
  auto it = gExtractMemo.find(k);
  if (it != gExtractMemo.end()) return it->second;
  T r = mkExtract1(x, lo, w);
  gExtractMemo[k] = r;
  return r;
}
static T mkExtract1(T x, uint32_t lo, uint32_t w) {
  switch (x->op) {
  case CONST: return mkConst(x->c->extractBits(w, lo));
  case EXTRACT: return mkExtract(x->a[0], x->p + lo, w);
  case CONCAT: {
    TV r; uint32_t s = 0;
    for (uint32_t i = 0; i < x->n; i++) {
      T y = x->a[i];
      uint32_t b = std::max(s, lo), e = std::min(s + y->w, lo + w);
      if (b < e) r.push_back(mkExtract(y, b - s, e - b));
      s += y->w;
    }
    return mkConcat(r);
  }
  case SEXT: {
    T y = x->a[0];
    if (lo + w <= y->w) return mkExtract(y, lo, w);
    if (lo >= y->w) return mkSext(mkExtract(y, y->w - 1, 1), w);
    return mkSext(mkExtract(y, lo, y->w - lo), w);
  }
  case LUT: {
    Table tb = gTables[x->p];
    std::vector<uint64_t> v(tb.v);
    for (auto &z : v) z = (z >> lo) & maxOf(w);
    return mkLut(tableId(tb.iw, w, v), x->a[0]);
  }
  case XOR: case AND: case OR: {
    if (gArx && x->op == XOR && x->w <= 64 && x->w >= 32 && w < 32) break;   // rotations of a word stay extractions of it
    bool push = false, allc = true;
    for (uint32_t i = 0; i < x->n; i++) {
      Op o = x->a[i]->op;
      if (o == CONCAT) { if (x->w <= 8 || (cutsCleanly(x->a[i], lo) && cutsCleanly(x->a[i], lo + w))) push = true; else { push = false; allc = false; break; } }
      if (o == LUT || o == SEXT || o == ITE) push = true;
      if (!(o == EXTRACT || o == CONST || (x->op == XOR && x->n <= 6 && (o == VAR || o == UF || (o == ADD && w == 8 && x->n <= 3))))) allc = false;
    }
    if (push || (allc)) {
      TV r;
      for (uint32_t i = 0; i < x->n; i++) r.push_back(mkExtract(x->a[i], lo, w));
      return x->op == XOR ? mkXorV(r) : x->op == AND ? mkAndV(r) : mkOrV(r);
    }
    break;
  }
  case ITE: {
    T a = x->a[1], b = x->a[2];
    if (a->isConst() || b->isConst() || a->op == CONCAT || b->op == CONCAT || a->op == ITE || b->op == ITE)
      return mkIte(x->a[0], mkExtract(a, lo, w), mkExtract(b, lo, w));
    break;
  }
  case ADD: case MUL: {
    uint32_t up = (lo + w + 63) / 64 * 64;   // a part of a wide sum is a part of the narrowest sum of whole words
    if (up < x->w) {
      bool all = true;
      for (uint32_t i = 0; i < x->n && all; i++) all = narrowable(x->a[i], up);
      if (all && (lo || w < up)) return mkExtract(mkExtract(x, 0, up), lo, w);
    }
    if (lo == 0) {
      bool all = true;
      for (uint32_t i = 0; i < x->n && all; i++) all = narrowable(x->a[i], w);
      if (all) {
        T r = nullptr; TV v;
        for (uint32_t i = 0; i < x->n; i++) v.push_back(mkExtract(x->a[i], 0, w));
        if (x->op == ADD) return mkAddV(v);
        r = v[0];
        for (uint32_t i = 1; i < v.size(); i++) r = mkMul(r, v[i]);
        return r;
      }
    }
    break;
  }
  default: break;
  }
  // bits above a known upper bound are zero
  if (x->w <= 64 && lo < 64 && (x->hi >> lo) == 0) return mkC(w, 0);
  if (x->w <= 64 && x->op != VAR) {
    uint64_t hb = x->hi >> lo;
    if (hb < (w >= 64 ? ~0ULL : maxOf(w))) {
      uint32_t k = 64 - __builtin_clzll(hb);
      if (k < w) return mkConcat({cons(EXTRACT, k, lo, {x}), mkC(w - k, 0)});
    }
  }
  return cons(EXTRACT, w, lo, {x});
}
T mkZext(T x, uint32_t w) { return x->w == w ? x : mkConcat({x, mkC(w - x->w, 0)}); }
T mkSext(T x, uint32_t w) {
  if (x->w == w) return x;
  if (x->isConst()) return mkConst(x->c->sext(w));
  if (x->op == SEXT) return mkSext(x->a[0], w);
  if (x->op == CONCAT && x->a[x->n - 1]->isConst() && !x->a[x->n - 1]->c->isNegative()) return mkZext(x, w);
  if (x->w <= 64 && x->w > 1 && x->hi <= maxOf(x->w - 1)) return mkZext(x, w);
  if (x->op == LUT && w <= 64) if (T r = collapse(SEXT, w, 0, {x})) return r;
  if (x->op == ITE && (x->a[1]->isConst() && x->a[2]->isConst())) return mkIte(x->a[0], mkSext(x->a[1], w), mkSext(x->a[2], w));
  return cons(SEXT, w, 0, {x});
}

// ---------------------------------------------------------------- bitwise operators
static void sortById(TV &v) { std::sort(v.begin(), v.end(), [](T a, T b) { return a->id < b->id; }); }

// slices: cut all arguments at the union of their piece boundaries
static bool disjointMerge(const TV &args, uint32_t w, T &out) {
  if (args.size() < 2 || args.size() > 70) return false;
  // quick test: at least all but one of the arguments must contain a constant-zero piece
  unsigned withz = 0;
  for (T x : args) {
    bool z = false;
    if (x->op == CONCAT) for (uint32_t i = 0; i < x->n; i++) if (isZero(x->a[i])) z = true;
    if (x->isConst()) z = true;
    if (!z) return false;
    withz++;
  }
  std::set<uint32_t> cuts{0, w};
  for (T x : args) if (x->op == CONCAT) { uint32_t s = 0; for (uint32_t i = 0; i < x->n; i++) { cuts.insert(s); s += x->a[i]->w; } }
  if (cuts.size() > 200) return false;
  TV r;
  auto it = cuts.begin();
  uint32_t b = *it; ++it;
  for (; it != cuts.end(); ++it) {
    uint32_t e = *it;
    T nz = nullptr;
    for (T x : args) {
      // is the slice of x zero?
      T sl;
      if (x->isConst()) sl = mkConst(x->c->extractBits(e - b, b));
      else {
        uint32_t s = 0; T pc = nullptr; uint32_t ps = 0;
        for (uint32_t i = 0; i < x->n; i++) { if (s <= b && e <= s + x->a[i]->w) { pc = x->a[i]; ps = s; } s += x->a[i]->w; }
        if (isZero(pc)) continue;
        sl = mkExtract(pc, b - ps, e - b);
      }
      if (isZero(sl)) continue;
      if (nz) return false;
      nz = sl;
    }
    r.push_back(nz ? nz : mkC(e - b, 0));
    b = e;
  }
  out = mkConcat(r);
  return true;
}

// truth tables over at most 4 atoms
struct BF { TV atoms; uint16_t tt; bool ok; };
static const uint16_t kVarTT[4] = {0xAAAA, 0xCCCC, 0xF0F0, 0xFF00};
static uint16_t bfRec(T t, TV &atoms, bool &ok, int depth) {
  if (!ok) return 0;
  if (isOnes(t)) return 0xFFFF;
  if (isZero(t)) return 0;
  if (depth > 0 && (t->op == AND || t->op == OR || t->op == XOR) && t->n <= 5) {
    uint16_t r = t->op == AND ? 0xFFFF : 0;
    for (uint32_t i = 0; i < t->n; i++) {
      uint16_t x = bfRec(t->a[i], atoms, ok, depth - 1);
      if (!ok) return 0;
      r = t->op == AND ? (r & x) : t->op == OR ? (r | x) : (r ^ x);
    }
    return r;
  }
  for (size_t i = 0; i < atoms.size(); i++) if (atoms[i] == t) return kVarTT[i];
  if (atoms.size() == 4) { ok = false; return 0; }
  atoms.push_back(t);
  return kVarTT[atoms.size() - 1];
}
extern bool gBarrier;
static T bitCanon(Op op, const TV &args, uint32_t w) {
  if (gBarrier) return nullptr;
  if (w == 1 || args.size() > 5) return nullptr;
  bool nested = op != XOR;
  bool inner = false;
  for (T x : args) if ((x->op == AND || x->op == OR || (x->op == XOR && op != XOR)) && x->n <= 5) inner = true;
  if (op == XOR && !inner) return nullptr;
  if (op == AND && !inner) return nullptr;
  (void)nested;
  TV atoms; bool ok = true;
  uint16_t tt = op == AND ? 0xFFFF : 0;
  for (T x : args) {
    uint16_t v = bfRec(x, atoms, ok, 4);
    if (!ok) return nullptr;
    tt = op == AND ? (tt & v) : op == OR ? (tt | v) : (tt ^ v);
  }
  // canonical order of atoms: by id
  TV sorted(atoms.begin(), atoms.end());
  sortById(sorted);
  uint16_t tt2 = 0;
  for (int m = 0; m < 16; m++) {
    int src = 0;
    for (size_t i = 0; i < sorted.size(); i++) if (m >> i & 1) {
      size_t j = std::find(atoms.begin(), atoms.end(), sorted[i]) - atoms.begin();
      src |= 1 << j;
    }
    if (tt >> src & 1) tt2 |= 1 << m;
  }
  int n = sorted.size();
  // Moebius transform -> algebraic normal form
  uint16_t anf = tt2;
  for (int i = 0; i < n; i++)
    for (int m = 0; m < (1 << n); m++) if (m >> i & 1) { if (anf >> (m ^ (1 << i)) & 1) anf ^= 1 << m; }
  TV terms; bool ones = false;
  for (int m = 0; m < (1 << n); m++) if (anf >> m & 1) {
    if (m == 0) { ones = true; continue; }
    TV f;
    for (int i = 0; i < n; i++) if (m >> i & 1) f.push_back(sorted[i]);
    if (f.size() == 1) terms.push_back(f[0]);
    else { sortById(f); terms.push_back(cons(AND, w, 0, f)); }
  }
  if (ones) terms.push_back(mkConst(APInt::getAllOnes(w)));
  if (terms.empty()) return mkC(w, 0);
  if (terms.size() == 1) return terms[0];
  // flatten nested XOR atoms, cancel
  std::map<uint32_t, std::pair<T, int>> cnt;
  APInt k(w, 0);
  std::function<void(T)> add = [&](T x) {
    if (x->isConst()) { k ^= *x->c; return; }
    if (x->op == XOR) { for (uint32_t i = 0; i < x->n; i++) add(x->a[i]); return; }
    auto &e = cnt[x->id]; e.first = x; e.second ^= 1;
  };
  for (T x : terms) add(x);
  TV fin;
  for (auto &e : cnt) if (e.second.second) fin.push_back(e.second.first);
  if (!k.isZero() || fin.empty()) fin.push_back(mkConst(k));
  sortById(fin);
  if (fin.size() == 1) return fin[0];
  return cons(XOR, w, 0, fin);
}

// Only byte structure is pushed into; rotations and shifts by other amounts stay whole, so that sums of them stay sums.
static bool byteSig(T x) {
  if (x->w <= 8) return true;
  for (uint32_t i = 0; i < x->n; i++) if (x->a[i]->w & 7) return false;
  return true;
}
static T pushConcat(Op op, TV &rest, uint32_t w) {
  // all arguments CONCAT with one signature, or constants: apply piecewise
  T first = nullptr;
  for (T x : rest) if (x->op == CONCAT) { first = x; break; }
  if (!first || !byteSig(first)) return nullptr;
  for (T x : rest) if (!x->isConst() && !sameSig(x, first)) return nullptr;
  TV r; uint32_t s = 0;
  for (uint32_t i = 0; i < first->n; i++) {
    uint32_t pw = first->a[i]->w;
    TV p;
    for (T x : rest) p.push_back(x->isConst() ? mkConst(x->c->extractBits(pw, s)) : x->a[i]);
    r.push_back(op == XOR ? mkXorV(p) : op == AND ? mkAndV(p) : mkOrV(p));
    s += pw;
  }
  return mkConcat(r);
}
static T pushIte(Op op, const TV &rest) {
  T c = nullptr;
  unsigned ites = 0;
  for (T x : rest) if (x->op == ITE) { if (c && x->a[0] != c) return nullptr; c = x->a[0]; ites++; } else if (!x->isConst()) return nullptr;
  if (!c) return nullptr;
  TV a, b;
  for (T x : rest) { a.push_back(x->op == ITE ? x->a[1] : x); b.push_back(x->op == ITE ? x->a[2] : x); }
  auto f = [&](const TV &v) { return op == XOR ? mkXorV(v) : op == AND ? mkAndV(v) : mkOrV(v); };
  return mkIte(c, f(a), f(b));
}
// partially group: concats with equal signature
static bool groupConcats(Op op, TV &rest) {
  bool changed = false;
  for (size_t i = 0; i < rest.size(); i++) {
    if (!rest[i] || rest[i]->op != CONCAT || !byteSig(rest[i])) continue;
    TV g{rest[i]};
    for (size_t j = i + 1; j < rest.size(); j++)
      if (rest[j] && sameSig(rest[i], rest[j])) { g.push_back(rest[j]); rest[j] = nullptr; }
    if (g.size() > 1) { rest[i] = pushConcat(op, g, g[0]->w); changed = true; }
  }
  TV r;
  for (T x : rest) if (x) r.push_back(x);
  rest.swap(r);
  return changed;
}

// Data laid out in bytes, without arithmetic: words of unknowns, slices of them and constants side by side.
static bool plain(T x) { T b = x->op == EXTRACT ? x->a[0] : x; return b->op == VAR || b->op == UF || b->op == CONST; }
static bool plainXor(T x) { if (plain(x)) return true; if (x->op != XOR) return false; for (uint32_t i = 0; i < x->n; i++) if (!plain(x->a[i])) return false; return true; }
static T cutLayout(const TV &all, uint32_t w) {
  if (w & 7) return nullptr;
  std::set<uint32_t> cut;
  for (T x : all) {
    if (x->op == CONCAT) { uint32_t s = 0; for (uint32_t i = 0; i < x->n; i++) { if (!plainXor(x->a[i]) || (x->a[i]->w & 7)) return nullptr; s += x->a[i]->w; cut.insert(s); } }
    else if (!plain(x)) return nullptr;
  }
  if (cut.empty()) return nullptr;
  TV r; uint32_t s = 0;
  for (uint32_t e : cut) { TV p; for (T x : all) p.push_back(mkExtract(x, s, e - s)); r.push_back(mkXorV(p)); s = e; }
  return mkConcat(r);
}

// With the barrier on, a sum with products in it is one argument of a larger sum, so that what a step of a cipher computes stays a term of its own.
bool gBarrier = false;
static bool nonlinear(T x) { for (uint32_t i = 0; i < x->n; i++) if (x->a[i]->op == AND || x->a[i]->op == OR || x->a[i]->op == XOR) return true; return false; }
T mkXorV(const TV &in) {
  assert(!in.empty());
  uint32_t w = in[0]->w;
  if (w == 1) {
    // booleans: no flattening of deep chains beyond cancellation
  }
  APInt k(w, 0);
  std::map<uint32_t, std::pair<T, int>> cnt;
  SmallVector<T, 16> st(in.begin(), in.end());
  // next to a table of bytes the words it is combined with are split into bytes
  bool hasLut = false;
  if (w > 1 && w <= 8) for (T x : in) {
    if (x->op == LUT) hasLut = true;
    if (x->op == XOR) for (uint32_t i = 0; i < x->n && !hasLut; i++) hasLut = x->a[i]->op == LUT;
  }
  while (!st.empty()) {
    T x = st.pop_back_val();
    assert(x->w == w);
    if (x->isConst()) { k ^= *x->c; continue; }
    if (x->op == XOR && !(gBarrier && w >= 16 && nonlinear(x))) { for (uint32_t i = 0; i < x->n; i++) st.push_back(x->a[i]); continue; }
    if (x->op == EXTRACT && hasLut && x->a[0]->op == XOR) {
      for (uint32_t i = 0; i < x->a[0]->n; i++) st.push_back(mkExtract(x->a[0]->a[i], x->p, w));
      continue;
    }
    auto &e = cnt[x->id]; e.first = x; e.second ^= 1;
  }
  TV r;
  for (auto &e : cnt) if (e.second.second) r.push_back(e.second.first);
  if (r.empty()) return mkConst(k);
  if (r.size() == 1 && k.isZero()) return r[0];
  // NOT of a sign mask
  if (r.size() == 1 && k.isAllOnes() && w > 1) {
    if (r[0]->op == SEXT && r[0]->a[0]->w == 1) return mkSext(mkNot(r[0]->a[0]), w);
  }
  // tables over one byte
  if (w > 1 || true) {
    bool any = false;
    for (size_t i = 0; i < r.size(); i++) {
      if (!r[i] || r[i]->op != LUT) continue;
      for (size_t j = i + 1; j < r.size(); j++) {
        if (r[j] && ((r[j]->op == LUT && r[j]->a[0] == r[i]->a[0]) || r[j] == r[i]->a[0])) {
          T m = collapse(XOR, w, 0, {r[i], r[j]});
          if (m) { r[j] = nullptr; r[i] = m; any = true; if (m->op != LUT) break; }
        }
      }
    }
    if (any) {
      TV v; for (T x : r) if (x) v.push_back(x);
      if (!k.isZero() || v.empty()) v.push_back(mkConst(k));
      return mkXorV(v);
    }
    if (r.size() == 1 && r[0]->op == LUT) { if (T m = collapse(XOR, w, 0, {r[0], mkConst(k)})) return m; }
  }
  TV all(r);
  if (!k.isZero()) all.push_back(mkConst(k));
  T out;
  if (w > 1) {
    if (disjointMerge(all, w, out)) return out;
    if (groupConcats(XOR, r)) {
      if (!k.isZero()) r.push_back(mkConst(k));
      return mkXorV(r);
    }
    if (T p = pushConcat(XOR, all, w)) return p;
    if (T p = cutLayout(all, w)) return p;
    if (T p = pushIte(XOR, all)) return p;
    // IEEE-like: a zero-extended byte against a word with no other use stays as it is
    if (T b = bitCanon(XOR, all, w)) return b;
  } else {
    if (r.size() == 1 && r[0]->op == ITE && (r[0]->a[1]->isConst() || r[0]->a[2]->isConst())) {
    }
  }
  sortById(all);
  if (all.size() == 1) return all[0];
  return cons(XOR, w, 0, all);
}

T mkAndV(const TV &in) {
  uint32_t w = in[0]->w;
  APInt k = APInt::getAllOnes(w);
  std::map<uint32_t, T> set;
  SmallVector<T, 16> st(in.begin(), in.end());
  while (!st.empty()) {
    T x = st.pop_back_val();
    assert(x->w == w);
    if (x->isConst()) { k &= *x->c; continue; }
    if (x->op == AND) { for (uint32_t i = 0; i < x->n; i++) st.push_back(x->a[i]); continue; }
    set[x->id] = x;
  }
  if (k.isZero()) return mkC(w, 0);
  TV r;
  for (auto &e : set) r.push_back(e.second);
  if (r.empty()) return mkConst(k);
  if (r.size() == 1 && k.isAllOnes()) return r[0];
  // complements
  for (T x : r) if (x->op == XOR && x->n == 2) {
    for (int i = 0; i < 2; i++) if (isOnes(x->a[i]) && set.count(x->a[1 - i]->id)) return mkC(w, 0);
  }
  if (w == 1) {
    // absorption: a & !(a & b) handled by substitution of a in negated conjunctions
    bool ch = false;
    for (T &x : r) {
      if (x->op == XOR && x->n == 2 && (isOnes(x->a[0]) || isOnes(x->a[1]))) {
        T y = isOnes(x->a[0]) ? x->a[1] : x->a[0];
        if (y->op == AND) {
          TV v; bool drop = false, zero = false;
          for (uint32_t i = 0; i < y->n; i++) {
            if (set.count(y->a[i]->id)) { drop = true; continue; }
            T ny = mkNot(y->a[i]);
            if (ny->op != CONST && set.count(ny->id)) zero = true;
            v.push_back(y->a[i]);
          }
          if (zero) { x = mkTrue(); ch = true; }
          else if (drop) { x = v.empty() ? mkFalse() : mkNot(mkAndV(v)); ch = true; }
        }
      }
    }
    if (ch) return mkAndV(r);
  }
  // sign masks select
  for (size_t i = 0; i < r.size(); i++)
    if (r[i]->op == SEXT && r[i]->a[0]->w == 1 && w > 1) {
      T c = r[i]->a[0];
      TV rest;
      for (size_t j = 0; j < r.size(); j++) if (j != i) rest.push_back(r[j]);
      if (!k.isAllOnes() || rest.empty()) rest.push_back(mkConst(k));
      return mkIte(c, mkAndV(rest), mkC(w, 0));
    }
  // constant mask as slices
  if (!k.isAllOnes() && w > 1) {
    SmallVector<std::pair<uint32_t, bool>, 8> runs; // end, bit
    for (uint32_t i = 0; i < w;) {
      bool b = k[i]; uint32_t j = i;
      while (j < w && k[j] == b) j++;
      runs.push_back({j, b});
      i = j;
      if (runs.size() > 5) break;
    }
    bool bytewise = false;
    if (runs.size() > 5) {
      // a mask of whole bytes, on something that is itself made of pieces
      bytewise = true;
      for (uint32_t i = 0; i < w && bytewise; i++) if (k[i] != k[i & ~7u]) bytewise = false;
      if (bytewise) {
        runs.clear();
        for (uint32_t i = 0; i < w;) { bool b = k[i]; uint32_t j = i; while (j < w && k[j] == b) j++; runs.push_back({j, b}); i = j; }
      }
    }
    if (runs.size() <= 5 || bytewise) {
      T body = mkAndV(r);
      TV p; uint32_t s = 0;
      for (auto &q : runs) { p.push_back(q.second ? mkExtract(body, s, q.first - s) : mkC(q.first - s, 0)); s = q.first; }
      return mkConcat(p);
    }
  }
  TV all(r);
  if (!k.isAllOnes()) all.push_back(mkConst(k));
  if (T c = collapse(AND, w, 0, all)) return c;
  if (w > 1) {
    if (groupConcats(AND, r)) {
      if (!k.isAllOnes()) r.push_back(mkConst(k));
      return mkAndV(r);
    }
    if (T p = pushConcat(AND, all, w)) return p;
    // a zero piece kills that slice of everything
    for (T x : all) if (x->op == CONCAT) {
      bool z = false;
      for (uint32_t i = 0; i < x->n; i++) z |= isZero(x->a[i]);
      if (!z) continue;
      TV p; uint32_t s = 0;
      for (uint32_t i = 0; i < x->n; i++) {
        uint32_t pw = x->a[i]->w;
        if (isZero(x->a[i])) p.push_back(x->a[i]);
        else {
          TV q;
          for (T y : all) q.push_back(y == x ? x->a[i] : mkExtract(y, s, pw));
          p.push_back(mkAndV(q));
        }
        s += pw;
      }
      return mkConcat(p);
    }
    if (T p = pushIte(AND, all)) return p;
    if (T b = bitCanon(AND, all, w)) return b;
  }
  sortById(all);
  if (all.size() == 1) return all[0];
  return cons(AND, w, 0, all);
}

T mkOrV(const TV &in) {
  uint32_t w = in[0]->w;
  if (w == 1) {
    TV v;
    for (T x : in) v.push_back(mkNot(x));
    return mkNot(mkAndV(v));
  }
  APInt k(w, 0);
  std::map<uint32_t, T> set;
  SmallVector<T, 16> st(in.begin(), in.end());
  while (!st.empty()) {
    T x = st.pop_back_val();
    assert(x->w == w);
    if (x->isConst()) { k |= *x->c; continue; }
    if (x->op == OR) { for (uint32_t i = 0; i < x->n; i++) st.push_back(x->a[i]); continue; }
    set[x->id] = x;
  }
  if (k.isAllOnes()) return mkConst(k);
  TV r;
  for (auto &e : set) r.push_back(e.second);
  if (r.empty()) return mkConst(k);
  if (r.size() == 1 && k.isZero()) return r[0];
  for (T x : r) if (x->op == XOR && x->n == 2)
    for (int i = 0; i < 2; i++) if (isOnes(x->a[i]) && set.count(x->a[1 - i]->id)) return mkConst(APInt::getAllOnes(w));
  TV all(r);
  if (!k.isZero()) all.push_back(mkConst(k));
  T out;
  if (disjointMerge(all, w, out)) return out;
  if (T c = collapse(OR, w, 0, all)) return c;
  if (groupConcats(OR, r)) {
    if (!k.isZero()) r.push_back(mkConst(k));
    return mkOrV(r);
  }
  if (T p = pushConcat(OR, all, w)) return p;
  if (T p = pushIte(OR, all)) return p;
  // a sign mask: all ones or nothing
  for (size_t i = 0; i < r.size(); i++)
    if (r[i]->op == SEXT && r[i]->a[0]->w == 1) {
      TV rest;
      for (size_t j = 0; j < r.size(); j++) if (j != i) rest.push_back(r[j]);
      if (!k.isZero() || rest.empty()) rest.push_back(mkConst(k));
      return mkIte(r[i]->a[0], mkConst(APInt::getAllOnes(w)), mkOrV(rest));
    }
  if (!k.isZero()) {
    // constant ones as slices
    SmallVector<std::pair<uint32_t, bool>, 8> runs;
    for (uint32_t i = 0; i < w && runs.size() <= 5;) {
      bool b = k[i]; uint32_t j = i;
      while (j < w && k[j] == b) j++;
      runs.push_back({j, b});
      i = j;
    }
    if (runs.size() <= 5) {
      T body = mkOrV(r);
      TV p; uint32_t s = 0;
      for (auto &q : runs) { p.push_back(q.second ? mkConst(APInt::getAllOnes(q.first - s)) : mkExtract(body, s, q.first - s)); s = q.first; }
      return mkConcat(p);
    }
  }
  if (T b = bitCanon(OR, all, w)) return b;
  sortById(all);
  if (all.size() == 1) return all[0];
  return cons(OR, w, 0, all);
}
T mkAnd(T a, T b) { return mkAndV({a, b}); }
T mkXor(T a, T b) { return mkXorV({a, b}); }
T mkOr(T a, T b) { return mkOrV({a, b}); }
T mkNot(T a) { return mkXorV({a, mkConst(APInt::getAllOnes(a->w))}); }

// ---------------------------------------------------------------- arithmetic
static void splitCoef(T t, APInt &coef, T &base) {
  uint32_t w = t->w;
  if (t->op == MUL && t->a[0]->isConst()) {
    coef = *t->a[0]->c;
    if (t->n == 2) base = t->a[1];
    else { TV v(t->a + 1, t->a + t->n); base = cons(MUL, w, 0, v); }
    return;
  }
  if (t->op == CONCAT && isZero(t->a[0]) && t->n == 2 && t->a[1]->op == EXTRACT && t->a[1]->p == 0 && t->a[1]->a[0]->w == w) {
    coef = APInt(w, 1).shl(t->a[0]->w);
    base = t->a[1]->a[0];
    return;
  }
  if (t->op == CONCAT && isZero(t->a[0]) && isZero(t->a[t->n - 1]) && t->n >= 3) {
    coef = APInt(w, 1).shl(t->a[0]->w);
    TV v(t->a + 1, t->a + t->n);
    v.push_back(mkC(t->a[0]->w, 0));
    base = mkConcat(v);
    return;
  }
  coef = APInt(w, 1);
  base = t;
}
T mkAddV(const TV &in) {
  uint32_t w = in[0]->w;
  if (w == 1) return mkXorV(in);
  APInt k(w, 0);
  std::map<uint32_t, std::pair<T, APInt>> lin;
  SmallVector<std::pair<T, APInt>, 16> st;
  for (T x : in) st.push_back({x, APInt(w, 1)});
  while (!st.empty()) {
    auto [x, m] = st.pop_back_val();
    assert(x->w == w);
    if (x->isConst()) { k += m * *x->c; continue; }
    if (x->op == ADD && x->n <= 400) { for (uint32_t i = 0; i < x->n; i++) st.push_back({x->a[i], m}); continue; }
    APInt c(w, 0); T b;
    splitCoef(x, c, b);
    if (b->op == ADD && b->n <= 400) { st.push_back({b, m * c}); continue; }
    auto it = lin.find(b->id);
    if (it == lin.end()) lin.emplace(b->id, std::make_pair(b, m * c));
    else it->second.second += m * c;
  }
  TV r;
  bool onlyPlain = k.isZero();
  for (auto &e : lin) {
    APInt &c = e.second.second; T b = e.second.first;
    if (c.isZero()) continue;
    if (c.isOne()) r.push_back(b);
    else {
      if (!c.isPowerOf2()) onlyPlain = false;
      TV m{mkConst(c)};
      if (b->op == MUL) m.append(b->a, b->a + b->n); else m.push_back(b);
      r.push_back(cons(MUL, w, 0, m));
    }
  }
  if (r.empty()) return mkConst(k);
  if (r.size() == 1 && r[0]->op == MUL && r[0]->a[0]->isConst()) {
    APInt c = *r[0]->a[0]->c;
    T b; APInt cc(w, 0);
    splitCoef(r[0], cc, b);
    // negated boolean is a mask
    if (b->op == CONCAT && b->n == 2 && b->a[0]->w == 1 && isZero(b->a[1]) && c.isAllOnes() ) {
      if (k.isZero()) return mkSext(b->a[0], w);
    }
    if (b->op == SEXT && b->a[0]->w == 1 && c.isAllOnes() && k.isZero()) return mkZext(b->a[0], w);
    if (k.isZero() && c.isPowerOf2()) return mkShift(SHL, b, mkC(w, c.logBase2()));
  }
  if (r.size() == 1 && r[0]->op == CONCAT && r[0]->n == 2 && r[0]->a[0]->w == 1 && isZero(r[0]->a[1]) && k.isAllOnes())
    return mkSext(mkNot(r[0]->a[0]), w);
  if (r.size() == 1 && k.isZero()) return r[0];
  if (onlyPlain && r.size() >= 2) {
    TV v;
    for (T x : r) {
      if (x->op == MUL && x->a[0]->isConst()) {
        APInt cc(w, 0); T b; splitCoef(x, cc, b);
        v.push_back(mkShift(SHL, b, mkC(w, cc.logBase2())));
      } else v.push_back(x);
    }
    T out;
    if (disjointMerge(v, w, out)) return out;
  }
  if (!k.isZero()) r.push_back(mkConst(k));
  if (w <= 64) if (T c = collapse(ADD, w, 0, r)) return c;
  // ITE with constant branches plus constants
  if (r.size() == 2 && r[1]->isConst() && r[0]->op == ITE && r[0]->a[1]->isConst() && r[0]->a[2]->isConst())
    return mkIte(r[0]->a[0], mkAdd(r[0]->a[1], r[1]), mkAdd(r[0]->a[2], r[1]));
  sortById(r);
  return cons(ADD, w, 0, r);
}
T mkAdd(T a, T b) {
  if (isZero(a)) return b;
  if (isZero(b)) return a;
  return mkAddV({a, b});
}
T mkNeg(T a) {
  if (a->isConst()) return mkConst(-*a->c);
  return mkMul(mkConst(APInt::getAllOnes(a->w)), a);
}
T mkSub(T a, T b) {
  if (a == b) return mkC(a->w, 0);
  if (isZero(b)) return a;
  if (b->isConst()) return mkAddV({a, mkConst(-*b->c)});
  T m = mkMul(mkConst(APInt::getAllOnes(b->w)), b);
  return mkAddV({a, m});
}
T mkMul(T a, T b) {
  uint32_t w = a->w;
  if (a->isConst() && b->isConst()) return mkConst(*a->c * *b->c);
  if (w == 1) return mkAnd(a, b);
  if (b->isConst()) std::swap(a, b);
  if (a->isConst()) {
    if (a->c->isZero()) return a;
    if (a->c->isOne()) return b;
    if (b->op == ADD) {
      TV v;
      for (uint32_t i = 0; i < b->n; i++) v.push_back(mkMul(a, b->a[i]));
      return mkAddV(v);
    }
    if (b->op == MUL && b->a[0]->isConst()) {
      APInt c = *a->c * *b->a[0]->c; T base; APInt cc(w, 0);
      splitCoef(b, cc, base);
      return mkMul(mkConst(c), base);
    }
    if (b->op == ITE && b->a[1]->isConst() && b->a[2]->isConst()) return mkIte(b->a[0], mkMul(a, b->a[1]), mkMul(a, b->a[2]));
    APInt cc(w, 0); T base;
    splitCoef(b, cc, base);
    if (!cc.isOne()) {
      APInt c = cc * *a->c;
      if (c.isZero()) return mkC(w, 0);
      return mkMul(mkConst(c), base);
    }
    if (a->c->isPowerOf2()) return mkShift(SHL, b, mkC(w, a->c->logBase2()));
    if (a->c->isAllOnes()) {
      if (b->op == CONCAT && b->n == 2 && b->a[0]->w == 1 && isZero(b->a[1])) return mkSext(b->a[0], w);
      if (b->op == SEXT && b->a[0]->w == 1) return mkZext(b->a[0], w);
    }
    if (b->op == CONCAT && b->n == 2 && b->a[0]->w == 1 && isZero(b->a[1])) return mkIte(b->a[0], a, mkC(w, 0));
    if (T c = collapse(MUL, w, 0, {a, b})) return c;
    TV v{a};
    if (b->op == MUL) v.append(b->a, b->a + b->n); else v.push_back(b);
    return cons(MUL, w, 0, v);
  }
  // zero-extended bit times x
  for (int k = 0; k < 2; k++) {
    if (a->op == CONCAT && a->n == 2 && a->a[0]->w == 1 && isZero(a->a[1])) return mkIte(a->a[0], b, mkC(w, 0));
    std::swap(a, b);
  }
  TV f; APInt k(w, 1);
  for (T x : {a, b}) {
    APInt c(w, 0); T base;
    splitCoef(x, c, base);
    k *= c;
    if (base->op == MUL) f.append(base->a, base->a + base->n); else f.push_back(base);
  }
  sortById(f);
  if (k.isZero()) return mkC(w, 0);
  if (T c = collapse(MUL, w, 0, f)) return mkMul(mkConst(k), c);
  T m = cons(MUL, w, 0, f);
  if (k.isOne()) return m;
  return mkMul(mkConst(k), m);
}
T mkDiv(Op op, T a, T b) {
  uint32_t w = a->w;
  if (T f = foldAll(op, w, 0, {a, b})) return f;
  if (b->isConst() && (op == UDIV || op == UREM) && b->c->isPowerOf2()) {
    uint32_t k = b->c->logBase2();
    if (op == UDIV) return mkShift(LSHR, a, mkC(w, k));
    return k == 0 ? mkC(w, 0) : mkZext(mkExtract(a, 0, k), w);
  }
  if (w <= 64 && op == UREM && a->hi < b->lo) return a;
  if (w <= 64 && op == UDIV && a->hi < b->lo) return mkC(w, 0);
  // signed operators on non-negative operands
  if (w <= 64 && (op == SDIV || op == SREM) && a->hi <= maxOf(w - 1) && b->hi <= maxOf(w - 1) && b->lo > 0)
    return mkDiv(op == SDIV ? UDIV : UREM, a, b);
  if (b->isConst() && w <= 64 && (op == UDIV || op == UREM) && b->lo > 0) {
    // narrow the operation to the bits that matter
    uint64_t m = std::max(a->hi, b->hi);
    uint32_t nw = m ? 64 - __builtin_clzll(m) : 1;
    if (nw < w) return mkZext(mkDiv(op, mkExtract(a, 0, nw), mkExtract(b, 0, nw)), w);
  }
  if (T c = collapse(op, w, 0, {a, b})) return c;
  if (op == UREM) {
    // a mod b = a - b * (a div b) keeps both forms comparable
  }
  return cons(op, w, 0, {a, b});
}
T mkShift(Op op, T a, T b) {
  uint32_t w = a->w;
  if (T f = foldAll(op, w, 0, {a, b})) return f;
  if (b->isConst()) {
    if (b->c->uge(w)) {
      if (op == ASHR) return mkSext(mkExtract(a, w - 1, 1), w);
      return mkC(w, 0);
    }
    uint32_t k = b->c->getZExtValue();
    if (k == 0) return a;
    if (op == SHL) return mkConcat({mkC(k, 0), mkExtract(a, 0, w - k)});
    if (op == LSHR) return mkConcat({mkExtract(a, k, w - k), mkC(k, 0)});
    return mkSext(mkExtract(a, k, w - k), w);
  }
  if (isZero(a)) return a;
  if (b->op == ITE && b->a[1]->isConst() && b->a[2]->isConst()) return mkIte(b->a[0], mkShift(op, a, b->a[1]), mkShift(op, a, b->a[2]));
  if (T c = collapse(op, w, 0, {a, b})) return c;
  return cons(op, w, 0, {a, b});
}

// ---------------------------------------------------------------- conditionals and comparisons
T mkIte(T c, T a, T b) {
  assert(c->w == 1 && a->w == b->w);
  if (c->isConst()) return c->c->isZero() ? b : a;
  if (a == b) return a;
  if (c->op == XOR && c->n == 2 && (isOnes(c->a[0]) || isOnes(c->a[1])))
    return mkIte(isOnes(c->a[0]) ? c->a[1] : c->a[0], b, a);
  uint32_t w = a->w;
  if (w == 1) {
    if (a->isConst() && b->isConst()) return a->c->isZero() ? mkNot(c) : c;
    if (a->isConst()) return a->c->isZero() ? mkAnd(mkNot(c), b) : mkOr(c, b);
    if (b->isConst()) return b->c->isZero() ? mkAnd(c, a) : mkOr(mkNot(c), a);
    if (a == c) return mkOr(c, b);
    if (b == c) return mkAnd(c, a);
  }
  if (a->op == ITE && a->a[0] == c) return mkIte(c, a->a[1], b);
  if (b->op == ITE && b->a[0] == c) return mkIte(c, a, b->a[2]);
  if (isOnes(a) && isZero(b) && w > 1) return mkSext(c, w);
  if (isZero(a) && isOnes(b) && w > 1) return mkSext(mkNot(c), w);
  if (a->isConst() && b->isConst() && w > 1 && isZero(b) && a->c->isOne()) return mkZext(c, w);
  if (a->isConst() && b->isConst() && w > 1 && isZero(a) && b->c->isOne()) return mkZext(mkNot(c), w);
  if (c->op == LUT) if (T l = collapse(ITE, w, 0, {c, a, b})) return l;
  if (sameSig(a, b)) {
    bool same = false;
    for (uint32_t i = 0; i < a->n; i++) same |= a->a[i] == b->a[i];
    if (same) {
      TV r;
      for (uint32_t i = 0; i < a->n; i++) r.push_back(mkIte(c, a->a[i], b->a[i]));
      return mkConcat(r);
    }
  }
  // common constant-zero top
  auto topz = [](T x) -> uint32_t {
    if (x->isConst()) return x->c->countl_zero();
    if (x->op == CONCAT && isZero(x->a[x->n - 1])) return x->a[x->n - 1]->w;
    return 0;
  };
  uint32_t tz = std::min(topz(a), topz(b));
  if (tz > 0 && tz < w && w > 8 && tz >= 8) {
    tz &= ~7u;
    return mkConcat({mkIte(c, mkExtract(a, 0, w - tz), mkExtract(b, 0, w - tz)), mkC(tz, 0)});
  }
  return cons(ITE, w, 0, {c, a, b});
}
T mkEq(T a, T b) {
  assert(a->w == b->w);
  if (a == b) return mkTrue();
  if (a->isConst() && b->isConst()) return *a->c == *b->c ? mkTrue() : mkFalse();
  if (a->isConst()) std::swap(a, b);
  uint32_t w = a->w;
  if (w <= 64 && (a->hi < b->lo || b->hi < a->lo)) return mkFalse();
  if (w == 1) {
    if (b->isConst()) return b->c->isZero() ? mkNot(a) : a;
    return mkNot(mkXor(a, b));
  }
  if (b->isConst()) {
    if (a->op == LUT) if (T c = collapse(EQ, 1, 0, {a, b})) return c;
    if (a->op == ADD) {
      for (uint32_t i = 0; i < a->n; i++) if (a->a[i]->isConst()) {
        TV v; for (uint32_t j = 0; j < a->n; j++) if (j != i) v.push_back(a->a[j]);
        return mkEq(mkAddV(v), mkConst(*b->c - *a->a[i]->c));
      }
    }
    if (a->op == XOR) {
      for (uint32_t i = 0; i < a->n; i++) if (a->a[i]->isConst()) {
        TV v; for (uint32_t j = 0; j < a->n; j++) if (j != i) v.push_back(a->a[j]);
        return mkEq(mkXorV(v), mkConst(*b->c ^ *a->a[i]->c));
      }
      if (isZero(b) && a->n == 2) return mkEq(a->a[0], a->a[1]);
    }
    if (a->op == ITE) {
      if (a->a[1]->isConst() || a->a[2]->isConst()) {
        T x = mkEq(a->a[1], b), y = mkEq(a->a[2], b);
        return mkIte(a->a[0], x, y);
      }
    }
    if (a->op == SEXT) {
      T y = a->a[0];
      if (b->c->trunc(y->w).sext(w) != *b->c) return mkFalse();
      return mkEq(y, mkConst(b->c->trunc(y->w)));
    }
    if (a->op == MUL && a->n == 2 && a->a[0]->isConst() && a->a[0]->c->isAllOnes()) return mkEq(a->a[1], mkConst(-*b->c));
    if (a->op == OR && isZero(b)) {
      TV v;
      for (uint32_t i = 0; i < a->n; i++) v.push_back(mkEq(a->a[i], mkC(w, 0)));
      return mkAndV(v);
    }
  }
  if (a->op == CONCAT && (b->isConst() || sameSig(a, b))) {
    TV v; uint32_t s = 0;
    for (uint32_t i = 0; i < a->n; i++) {
      uint32_t pw = a->a[i]->w;
      v.push_back(mkEq(a->a[i], b->isConst() ? mkConst(b->c->extractBits(pw, s)) : b->a[i]));
      s += pw;
    }
    return mkAndV(v);
  }
  if (a->op == CONCAT || b->op == CONCAT) {
    // cut at common boundaries so that equal slices vanish
    if (a->op == CONCAT && b->op == CONCAT) {
      std::set<uint32_t> ca, cb; uint32_t s = 0;
      for (uint32_t i = 0; i < a->n; i++) { ca.insert(s); s += a->a[i]->w; }
      s = 0;
      for (uint32_t i = 0; i < b->n; i++) { cb.insert(s); s += b->a[i]->w; }
      std::vector<uint32_t> cuts;
      for (auto x : ca) if (cb.count(x)) cuts.push_back(x);
      cuts.push_back(w);
      if (cuts.size() > 2) {
        TV v;
        for (size_t i = 0; i + 1 < cuts.size(); i++)
          v.push_back(mkEq(mkExtract(a, cuts[i], cuts[i + 1] - cuts[i]), mkExtract(b, cuts[i], cuts[i + 1] - cuts[i])));
        return mkAndV(v);
      }
    }
  }
  if (a->op == XOR && b->op == XOR) {
    T x = mkXor(a, b);
    if (x->isConst()) return x->c->isZero() ? mkTrue() : mkFalse();
  }
  if (a->op == ADD || b->op == ADD) {
    T d = mkSub(a, b);
    if (d->isConst()) return d->c->isZero() ? mkTrue() : mkFalse();
    if (w <= 64 && d->lo > 0) return mkFalse();
    if (a->op == ADD && b->op == ADD) {
      // keep small differences in canonical form
      if (d->op != ADD || d->n + 0u < a->n + b->n) {
        if (!(d->op == ADD)) return mkEq(d, mkC(w, 0));
      }
    }
  }
  if (a->op == ITE && b->op == ITE && a->a[0] == b->a[0]) return mkIte(a->a[0], mkEq(a->a[1], b->a[1]), mkEq(a->a[2], b->a[2]));
  if (a->id > b->id) std::swap(a, b);
  return cons(EQ, 1, 0, {a, b});
}
T mkUlt(T a, T b) {
  assert(a->w == b->w);
  uint32_t w = a->w;
  if (a == b) return mkFalse();
  if (T f = foldAll(ULT, 1, 0, {a, b})) return f;
  if (w <= 64) {
    if (a->hi < b->lo) return mkTrue();
    if (a->lo >= b->hi) return mkFalse();
  }
  if (w == 1) return mkAnd(mkNot(a), b);
  if (isZero(b) || isOnes(a)) return mkFalse();
  if (isOne(b)) return mkEq(a, mkC(w, 0));
  if (isZero(a)) return mkNot(mkEq(b, a));
  if (isOnes(b)) return mkNot(mkEq(a, b));
  auto topz = [](T x) -> uint32_t {
    if (x->isConst()) return x->c->countl_zero();
    if (x->op == CONCAT && isZero(x->a[x->n - 1])) return x->a[x->n - 1]->w;
    return 0;
  };
  uint32_t tz = std::min(topz(a), topz(b));
  if (tz > 0 && tz < w) return mkUlt(mkExtract(a, 0, w - tz), mkExtract(b, 0, w - tz));
  if (T c = collapse(ULT, 1, 0, {a, b})) return c;
  if (a->op == ITE && b->isConst() && (a->a[1]->isConst() || a->a[2]->isConst())) return mkIte(a->a[0], mkUlt(a->a[1], b), mkUlt(a->a[2], b));
  if (b->op == ITE && a->isConst() && (b->a[1]->isConst() || b->a[2]->isConst())) return mkIte(b->a[0], mkUlt(a, b->a[1]), mkUlt(a, b->a[2]));
  return cons(ULT, 1, 0, {a, b});
}
T mkSlt(T a, T b) {
  uint32_t w = a->w;
  if (a == b) return mkFalse();
  if (T f = foldAll(SLT, 1, 0, {a, b})) return f;
  if (w == 1) return mkAnd(a, mkNot(b));
  if (isZero(b)) return mkExtract(a, w - 1, 1);
  if (w <= 64) {
    uint64_t s = maxOf(w - 1);
    bool an = a->lo > s, ap = a->hi <= s, bn = b->lo > s, bp = b->hi <= s;
    if ((an && bn) || (ap && bp)) return mkUlt(a, b);
    if (an && bp) return mkTrue();
    if (ap && bn) return mkFalse();
  }
  if (b->isConst() && b->c->isAllOnes()) { // a < -1
  }
  if (isOnes(a)) return mkNot(mkExtract(b, w - 1, 1)) == nullptr ? nullptr : mkNot(mkExtract(b, w - 1, 1)); // -1 < b  <=> b >= 0
  if (T c = collapse(SLT, 1, 0, {a, b})) return c;
  return cons(SLT, 1, 0, {a, b});
}

// ---------------------------------------------------------------- printing and statistics
std::string show(T t, int d) {
  static const char *nm[] = {"const", "var", "uf", "lut", "add", "mul", "udiv", "urem", "sdiv", "srem", "and", "or", "xor", "shl", "lshr", "ashr", "concat", "extract", "sext", "ite", "eq", "ult", "slt"};
  std::string s;
  if (t->isConst()) { llvm::SmallString<40> b; t->c->toString(b, 16, false, true); return std::string(b) + ":" + std::to_string(t->w); }
  if (t->op == VAR) return gNames[t->p];
  s = "(";
  s += t->op == UF ? gNames[t->p] : nm[t->op];
  if (t->op == EXTRACT) s += "[" + std::to_string(t->p) + "+" + std::to_string(t->w) + "]";
  if (t->op == LUT) s += "#" + std::to_string(t->p);
  if (t->op == SEXT) s += std::to_string(t->w);
  if (d == 0) return s + " ...)";
  for (uint32_t i = 0; i < t->n && i < 12; i++) s += " " + show(t->a[i], d - 1);
  if (t->n > 12) s += " ...";
  return s + ")";
}
size_t dagSize(T t) {
  std::unordered_set<T> seen{t};
  std::vector<T> st{t};
  while (!st.empty()) {
    T x = st.back(); st.pop_back();
    for (uint32_t i = 0; i < x->n; i++) if (seen.insert(x->a[i]).second) st.push_back(x->a[i]);
  }
  return seen.size();
}
void collectVars(T t, std::vector<T> &out) {
  std::unordered_set<T> seen{t};
  std::vector<T> st{t};
  while (!st.empty()) {
    T x = st.back(); st.pop_back();
    if (x->op == VAR) out.push_back(x);
    for (uint32_t i = 0; i < x->n; i++) if (seen.insert(x->a[i]).second) st.push_back(x->a[i]);
  }
}
} // namespace dv

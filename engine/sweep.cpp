// Equivalence sweeping: find nodes with equal simulation signatures, prove them equal over a small cut, merge.
#include "solver.h"
#include <chrono>
#include <unordered_set>
#include <algorithm>
namespace dv {
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
T mkOp(T x, const TV &a) {
  switch (x->op) {
  case UF: return mkUF(gNames[x->p], x->w, a);
  case LUT: return mkLut(x->p, a[0]);
  case ADD: return mkAddV(a);
  case MUL: { T r = a[0]; for (size_t i = 1; i < a.size(); i++) r = mkMul(r, a[i]); return r; }
  case UDIV: case UREM: case SDIV: case SREM: return mkDiv(x->op, a[0], a[1]);
  case AND: return mkAndV(a);
  case OR: return mkOrV(a);
  case XOR: return mkXorV(a);
  case SHL: case LSHR: case ASHR: return mkShift(x->op, a[0], a[1]);
  case CONCAT: return mkConcat(a);
  case EXTRACT: return mkExtract(a[0], x->p, x->w);
  case SEXT: return mkSext(a[0], x->w);
  case ITE: return mkIte(a[0], a[1], a[2]);
  case EQ: return mkEq(a[0], a[1]);
  case ULT: return mkUlt(a[0], a[1]);
  case SLT: return mkSlt(a[0], a[1]);
  default: return x;
  }
}
namespace {
const unsigned K = 64, ONES = 52; // vectors with every variable near its maximum, for counters
struct Sweeper {
  std::vector<Evaluator> ev;
  std::unordered_map<T, T> rep;
  std::unordered_map<uint64_t, std::vector<T>> bucket;
  std::unordered_set<T> inBucket;
  std::set<std::pair<T, T>> failed;
  std::unordered_map<T, bool> settled; unsigned ncut = 0;
  uint64_t merges = 0, tries = 0;
  Sweeper() : ev(K) {
    for (unsigned k = 0; k < K; k++) {
      ev[k].var = [k](T v) {
        llvm::SmallVector<uint64_t, 4> w;
        for (unsigned i = 0; i < (v->w + 63) / 64; i++) {
          uint64_t h = 0x1234567 + k * 0x9E3779B97F4A7C15ULL + v->p * 0xD6E8FEB86659FD93ULL + i * 0xC2B2AE3D27D4EB4FULL;
          h ^= h >> 31; h *= 0x7FB5D329728EA185ULL; h ^= h >> 27; h *= 0x81DADEF4BC2DD44DULL; h ^= h >> 33;
          w.push_back(h);
        }
        APInt x(v->w, w); if (k < ONES) x = APInt::getAllOnes(v->w) - APInt(v->w, v->w > 5 && ((v->p * 0x9E3779B97F4A7C15ULL >> (20 + k / 2)) & 1) == (k & 1) ? k / 4 : 0);
        if (v->w <= 64) { uint64_t u = x.getZExtValue(); if (u < v->lo || u > v->hi) { uint64_t sp = v->hi - v->lo + 1; u = sp ? v->lo + u % sp : u; x = APInt(v->w, u); } }
        return x;
      };
    }
  }
  uint64_t sig(T t) {
    uint64_t h = t->w;
    for (unsigned k = 0; k < K; k++) {
      const APInt &x = ev[k].eval(t);
      for (unsigned i = 0; i < x.getNumWords(); i++) { h ^= x.getRawData()[i]; h *= 0x9E3779B97F4A7C15ULL; h ^= h >> 32; }
    }
    return h;
  }
  // the nodes below a or b but not below both: ids grow from children to parents, so the highest id is settled first
  static bool exclusive(T a, T b, std::unordered_set<T> &ex, size_t cap) {
    std::map<uint64_t, std::pair<T, int>, std::greater<uint64_t>> heap; size_t open = 0;
    auto add = [&](T x, int m) { if (!x->n) return; auto &e = heap[x->id]; if (!e.first) { e = {x, m}; if (m != 3) open++; } else if (e.second != 3 && (e.second | m) == 3) { e.second = 3; open--; } };
    add(a, 1); add(b, 2);
    while (open) {
      auto it = heap.begin(); T x = it->second.first; int m = it->second.second; heap.erase(it);
      if (m != 3) open--;
      if (m != 3 || x == a || x == b) { ex.insert(x); if (ex.size() > cap) return false; }
      for (uint32_t i = 0; i < x->n; i++) add(x->a[i], m);
    }
    return true;
  }
  T abstract(T r, const std::unordered_set<T> &ex, const std::unordered_map<T, int> &lev, int L, std::unordered_map<T, T> &memo) {
    std::vector<std::pair<T, bool>> st{{r, false}};
    while (!st.empty()) {
      auto [x, d] = st.back();
      if (memo.count(x)) { st.pop_back(); continue; }
      if (x->isConst() || x->op == VAR) { memo[x] = x; st.pop_back(); continue; }
      if (!d) {
        auto lv = lev.find(x);
        if (x != r && x->op != EXTRACT && x->op != CONCAT && !ex.count(x) && !(lv != lev.end() && lv->second <= L)) {
          memo[x] = mkVar("cut!" + std::to_string(ncut++) + "!" + std::to_string(x->w), x->w); st.pop_back(); continue;
        }
        st.back().second = true;
        for (uint32_t i = 0; i < x->n; i++) if (!memo.count(x->a[i])) st.push_back({x->a[i], false});
        continue;
      }
      st.pop_back();
      TV a; for (uint32_t i = 0; i < x->n; i++) a.push_back(memo[x->a[i]]);
      memo[x] = mkOp(x, a);
    }
    return memo[r];
  }
  static void levels(T r, std::unordered_map<T, int> &lev, int L) {
    std::vector<T> cur{r}; lev[r] = 0;
    for (int l = 1; l <= L; l++) { std::vector<T> nx; for (T x : cur) for (uint32_t i = 0; i < x->n; i++) if (lev.emplace(x->a[i], l).second) nx.push_back(x->a[i]); cur.swap(nx); }
  }
  bool prove(T a, T b, double deadline) {
    if (a == b) return true;
    if (a->w != b->w) return false;
    if (failed.count({a, b})) return false;
    tries++;
    std::unordered_set<T> ex; if (!exclusive(a, b, ex, 20000)) { failed.insert({a, b}); return false; }
    for (int L : {0, 3, 7}) {
      if (now() > deadline) return false;
      std::unordered_map<T, int> lev; if (L) { levels(a, lev, L); levels(b, lev, L); }
      std::unordered_map<T, T> memo; ncut = 0;
      T x = abstract(a, ex, lev, L, memo), y = abstract(b, ex, lev, L, memo);
      T e = mkEq(x, y);
      if (e->isConst()) { if (!e->c->isZero()) return true; continue; }
      auto known = settled.find(e); if (known != settled.end()) { if (known->second) return true; continue; }
      if (dagSize(e) > 3000) continue;
      Model m;
      // cheap refutation of the abstraction first
      if (simulate({}, mkNot(e), m, 8, 99 + L)) { settled[e] = false; continue; }
      int r = solveZ3({mkNot(e)}, L == 0 ? 600 : 1200);
      settled[e] = r == -1; if (r == -1) return true;
    }
    failed.insert({a, b});
    if (getenv("DV_SWEEP") && getenv("DV_SWEEP")[0] == 50) { std::unordered_map<T, int> lev; std::unordered_map<T, T> memo; T x = abstract(a, ex, lev, 0, memo), y = abstract(b, ex, lev, 0, memo); fprintf(stderr, "FAIL %s\n", show(mkEq(x, y), 12).substr(0, 3000).c_str()); }
    return false;
  }
  T run(T root, double limit) {
    double start = now(), deadline = start + limit; uint64_t m0 = merges, k0 = tries;
    std::vector<std::pair<T, bool>> st{{root, false}};
    while (!st.empty()) {
      auto [x, d] = st.back();
      if (rep.count(x)) { st.pop_back(); continue; }
      if (x->n == 0) { rep[x] = x; st.pop_back(); continue; }
      if (!d) { st.back().second = true; for (uint32_t i = 0; i < x->n; i++) if (!rep.count(x->a[i])) st.push_back({x->a[i], false}); continue; }
      st.pop_back();
      TV a; bool ch = false;
      for (uint32_t i = 0; i < x->n; i++) { T y = rep[x->a[i]]; ch |= y != x->a[i]; a.push_back(y); }
      T r = ch ? mkOp(x, a) : x;
      if (r != x) { auto it = rep.find(r); if (it != rep.end()) { rep[x] = it->second; continue; } }
      double t = now(); if (t > deadline && t < start + 4 * limit && (merges - m0) * 2 > tries - k0) deadline = t + limit / 4; // it makes progress
      if (r->w >= 8 && !r->isConst() && r->op != VAR && t < deadline) {
        auto &b = bucket[sig(r)];
        T hit = nullptr; int k = 0;
        for (T m : b) { if (m == r) { hit = r; break; } }
        if (!hit) for (T m : b) { if (k++ >= 3) break; if (prove(r, m, deadline)) { hit = m; merges++; break; } }
        if (!hit) b.push_back(r); else r = hit;
      }
      rep[x] = r; rep.emplace(r, r);
    }
    return rep[root];
  }
};
}
T sweep(T goal, double timeout) {
  static Sweeper *S = nullptr;
  if (!S || S->rep.size() > 3000000) { delete S; S = new Sweeper; }
  double t0 = now(); uint64_t m0 = S->merges, k0 = S->tries;
  T r = S->run(goal, timeout);
  if (getenv("DV_SWEEP")) fprintf(stderr, "sweep: size %zu -> %zu, %llu merges of %llu tries, %zu settled, %.1f s\n", dagSize(goal), dagSize(r), (unsigned long long)(S->merges - m0), (unsigned long long)(S->tries - k0), S->settled.size(), now() - t0);
  return r;
}
} // namespace dv

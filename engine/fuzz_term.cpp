// Self-test of the rewriter: random operator sequences, rewritten term against direct evaluation.
#include "term.h"
#include <random>
#include <cstdio>
#include <cstdlib>
#include <llvm/ADT/SmallString.h>
using namespace dv;
static const int NA = 6;
struct E { T t; std::vector<APInt> v; std::string d; };
int main(int argc, char **argv) {
  uint64_t seed = argc > 1 ? atoll(argv[1]) : 1; int rounds = argc > 2 ? atoi(argv[2]) : 2000;
  std::mt19937_64 rng(seed);
  uint32_t tid = 0;
  { std::vector<uint64_t> s(256); for (auto &x : s) x = rng() & 255; tid = tableId(8, 8, s); }
  long checks = 0;
  for (int r = 0; r < rounds; r++) {
    std::vector<E> pool;
    uint32_t ws[] = {1, 8, 16, 32, 64, 8, 32, 128};
    std::vector<std::map<T, APInt>> asg(NA);
    auto addv = [&](uint32_t w, uint64_t lo, uint64_t hi) {
      std::string nm = "v" + std::to_string(r) + "_" + std::to_string(pool.size());
      T t = (lo == 0 && hi == ~0ULL) ? mkVar(nm, w) : mkVarRange(nm, w, lo, hi);
      E e; e.t = t; e.d = nm;
      for (int i = 0; i < NA; i++) {
        APInt x(w, 0);
        for (unsigned k = 0; k < w; k += 64) x.insertBits(APInt(std::min(64u, w - k), i == 0 ? 0 : i == 1 ? ~0ULL : rng()), k);
        if (!(lo == 0 && hi == ~0ULL)) x = APInt(w, lo + rng() % (hi - lo + 1));
        if (t->isConst()) x = *t->c;
        asg[i].emplace(t, x); e.v.push_back(x);
      }
      pool.push_back(e);
    };
    for (uint32_t w : ws) addv(w, 0, ~0ULL);
    addv(8, 0, ~0ULL); addv(32, 0, ~0ULL); addv(64, 0, ~0ULL); addv(1, 0, ~0ULL); addv(64, 0, 5 + rng() % 300); addv(32, 3, 90);
    for (int k = 0; k < 60; k++) {
      int op = rng() % 26;
      E e; std::vector<APInt> r1;
      auto pick = [&](uint32_t w) -> int {
        std::vector<int> c; for (size_t i = 0; i < pool.size(); i++) if (!w || pool[i].t->w == w) c.push_back(i);
        if (c.empty()) return -1;
        if (rng() % 2) return c[c.size() - 1 - rng() % std::min<size_t>(c.size(), 8)];
        return c[rng() % c.size()];
      };
      int a = pick(0); uint32_t w = pool[a].t->w;
      int b = pick(w), c = pick(w), q = pick(1);
      if (rng() % 4 == 0) { // a constant
        E ce; APInt v(w, 0);
        switch (rng() % 5) { case 0: v = APInt(w, rng() % 4); break; case 1: v = APInt::getAllOnes(w); break; case 2: v = APInt(w, 1).shl(rng() % w); break;
          case 3: { unsigned s = rng() % w, n = 1 + rng() % (w - s); v = APInt::getBitsSet(w, s, s + n); break; } default: for (unsigned z = 0; z < w; z += 64) v.insertBits(APInt(std::min(64u, w - z), rng()), z); }
        ce.t = mkConst(v); for (int i = 0; i < NA; i++) ce.v.push_back(v); ce.d = "k"; pool.push_back(ce); b = pool.size() - 1;
      }
      E &A = pool[a], &B = pool[b], &C = pool[c], &Q = pool[q];
      auto map2 = [&](std::function<APInt(const APInt &, const APInt &)> f) { for (int i = 0; i < NA; i++) e.v.push_back(f(A.v[i], B.v[i])); };
      switch (op) {
      case 0: case 1: e.t = mkAdd(A.t, B.t); map2([](auto &x, auto &y) { return x + y; }); e.d = "add"; break;
      case 2: e.t = mkSub(A.t, B.t); map2([](auto &x, auto &y) { return x - y; }); e.d = "sub"; break;
      case 3: e.t = mkMul(A.t, B.t); map2([](auto &x, auto &y) { return x * y; }); e.d = "mul"; break;
      case 4: case 5: e.t = mkAnd(A.t, B.t); map2([](auto &x, auto &y) { return x & y; }); e.d = "and"; break;
      case 6: case 7: e.t = mkOr(A.t, B.t); map2([](auto &x, auto &y) { return x | y; }); e.d = "or"; break;
      case 8: case 9: e.t = mkXor(A.t, B.t); map2([](auto &x, auto &y) { return x ^ y; }); e.d = "xor"; break;
      case 10: e.t = mkEq(A.t, B.t); map2([](auto &x, auto &y) { return APInt(1, x == y); }); e.d = "eq"; break;
      case 11: e.t = mkUlt(A.t, B.t); map2([](auto &x, auto &y) { return APInt(1, x.ult(y)); }); e.d = "ult"; break;
      case 12: e.t = mkSlt(A.t, B.t); map2([](auto &x, auto &y) { return APInt(1, x.slt(y)); }); e.d = "slt"; break;
      case 13: e.t = mkUle(A.t, B.t); map2([](auto &x, auto &y) { return APInt(1, x.ule(y)); }); e.d = "ule"; break;
      case 14: e.t = mkIte(Q.t, A.t, B.t); for (int i = 0; i < NA; i++) e.v.push_back(Q.v[i].isZero() ? B.v[i] : A.v[i]); e.d = "ite"; break;
      case 15: { uint32_t lo = rng() % w, n = 1 + rng() % (w - lo); if (rng() % 2) { lo &= ~7u; n = std::max(1u, n & ~7u); } e.t = mkExtract(A.t, lo, n); for (auto &x : A.v) e.v.push_back(x.extractBits(n, lo)); e.d = "extract"; break; }
      case 16: { int d = pick(0); if (pool[d].t->w + w > 256) continue; e.t = mkConcat({A.t, pool[d].t}); for (int i = 0; i < NA; i++) e.v.push_back(pool[d].v[i].concat(A.v[i])); e.d = "concat"; break; }
      case 17: { if (w >= 128) continue; uint32_t n = w * 2; e.t = mkZext(A.t, n); for (auto &x : A.v) e.v.push_back(x.zext(n)); e.d = "zext"; break; }
      case 18: { if (w >= 128) continue; uint32_t n = w == 1 ? 32 : w * 2; e.t = mkSext(A.t, n); for (auto &x : A.v) e.v.push_back(x.sext(n)); e.d = "sext"; break; }
      case 19: { Op o = rng() % 3 == 0 ? SHL : rng() % 2 ? LSHR : ASHR; if (rng() % 3) { uint32_t k = rng() % w; e.t = mkShift(o, A.t, mkC(w, k)); for (auto &x : A.v) e.v.push_back(o == SHL ? x.shl(k) : o == LSHR ? x.lshr(k) : x.ashr(k)); }
        else { e.t = mkShift(o, A.t, B.t); map2([&](auto &x, auto &y) { if (y.uge(w)) return o == ASHR && x.isNegative() ? APInt::getAllOnes(w) : APInt(w, 0); uint64_t k = y.getZExtValue(); return o == SHL ? x.shl(k) : o == LSHR ? x.lshr(k) : x.ashr(k); }); } e.d = "shift"; break; }
      case 20: { int d = pick(8); if (d < 0) continue; e.t = mkLut(tid, pool[d].t); for (auto &x : pool[d].v) e.v.push_back(APInt(8, gTables[tid].v[x.getZExtValue()])); e.d = "lut"; break; }
      case 21: { Op o = rng() % 2 ? UDIV : UREM; e.t = mkDiv(o, A.t, B.t); map2([&](auto &x, auto &y) { if (y.isZero()) return o == UDIV ? APInt::getAllOnes(w) : x; return o == UDIV ? x.udiv(y) : x.urem(y); }); e.d = "div"; break; }
      case 22: e.t = mkNot(A.t); for (auto &x : A.v) e.v.push_back(~x); e.d = "not"; break;
      case 23: { uint32_t k = rng() % w; e.t = mkOr(mkShift(SHL, A.t, mkC(w, k)), mkShift(LSHR, A.t, mkC(w, (w - k) % w))); for (auto &x : A.v) e.v.push_back(k ? x.rotl(k) : x); if (k == 0) { } e.d = "rot"; break; }
      case 24: e.t = mkXorV({A.t, B.t, C.t}); for (int i = 0; i < NA; i++) e.v.push_back(A.v[i] ^ B.v[i] ^ C.v[i]); e.d = "xor3"; break;
      case 25: e.t = mkAddV({A.t, B.t, C.t}); for (int i = 0; i < NA; i++) e.v.push_back(A.v[i] + B.v[i] + C.v[i]); e.d = "add3"; break;
      }
      e.d = e.d + "(" + show(A.t, 3) + " ; " + show(B.t, 3) + ")";
      for (int i = 0; i < NA; i++) {
        Evaluator ev; ev.var = [&](T v) { return asg[i].find(v)->second; };
        APInt x = ev.eval(e.t);
        checks++;
        if (x != e.v[i] || (e.t->w <= 64 && (x.getZExtValue() < e.t->lo || x.getZExtValue() > e.t->hi))) {
          llvm::SmallString<40> s1, s2; x.toString(s1, 16, false); e.v[i].toString(s2, 16, false);
          printf("MISMATCH round %d op %s w=%u\n got %s want %s lo=%lx hi=%lx\n term %s\n", r, e.d.c_str(), e.t->w, s1.c_str(), s2.c_str(), e.t->lo, e.t->hi, show(e.t, 4).c_str());
          return 1;
        }
      }
      pool.push_back(e);
    }
  }
  printf("ok %ld checks, %lu nodes\n", checks, nodeCount());
}

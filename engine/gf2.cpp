// Bit-level algebraic normal form: two terms are equal if every bit has the same multilinear polynomial over GF(2).
// Bits of terms outside the fragment (and, or, xor, not, shifts by constants, selections) are unknowns of the polynomials.
#include "solver.h"
#include <chrono>
#include <algorithm>
#include <unordered_map>
namespace dv {
namespace {
using Mono = uint64_t;                 // 0: the constant one; (a<<32|b) with a<b, or (0<<32|b): product of at most two unknowns
using Poly = std::vector<Mono>;        // sorted, each once
struct TooBig {};
struct Anf {
  std::unordered_map<T, std::vector<Poly>> memo;
  std::unordered_map<uint64_t, uint32_t> ids; uint32_t next = 1;
  size_t total = 0, cap; double deadline;
  static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
  Anf(size_t c, double t) : cap(c), deadline(now() + t) {}
  Poly one() { return Poly{0}; }
  Poly add(const Poly &a, const Poly &b) { Poly r; r.reserve(a.size() + b.size()); std::set_symmetric_difference(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(r)); return r; }
  Poly sum(std::vector<const Poly *> v) {
    if (v.empty()) return {};
    if (v.size() == 1) return *v[0];
    if (v.size() == 2) return add(*v[0], *v[1]);
    Poly all; size_t n = 0; for (auto p : v) n += p->size(); all.reserve(n); for (auto p : v) all.insert(all.end(), p->begin(), p->end());
    std::sort(all.begin(), all.end()); Poly r; for (size_t i = 0; i < all.size();) { size_t j = i; while (j < all.size() && all[j] == all[i]) j++; if ((j - i) & 1) r.push_back(all[i]); i = j; } return r;
  }
  Poly mul(const Poly &a, const Poly &b) {
    if (a.empty() || b.empty()) return {};
    if (a.size() == 1 && a[0] == 0) return b;
    if (b.size() == 1 && b[0] == 0) return a;
    if (a.size() * b.size() > 200000) throw TooBig();
    Poly all; all.reserve(a.size() * b.size());
    for (Mono x : a) for (Mono y : b) {
      uint32_t v[4] = {(uint32_t)(x >> 32), (uint32_t)x, (uint32_t)(y >> 32), (uint32_t)y}; std::sort(v, v + 4);
      uint32_t u[4]; int k = 0; for (uint32_t z : v) if (z && (!k || u[k - 1] != z)) u[k++] = z;
      if (k > 2) throw TooBig();
      all.push_back(k == 0 ? 0 : k == 1 ? u[0] : ((uint64_t)u[0] << 32 | u[1]));
    }
    std::sort(all.begin(), all.end()); Poly r; for (size_t i = 0; i < all.size();) { size_t j = i; while (j < all.size() && all[j] == all[i]) j++; if ((j - i) & 1) r.push_back(all[i]); i = j; } return r;
  }
  Poly unknown(T x, uint32_t bit) { auto &i = ids[(uint64_t)x->id << 12 | bit]; if (!i) i = next++; return Poly{i}; }
  const std::vector<Poly> &get(T x) { return memo.at(x); }
  void compute(T root) {
    std::vector<std::pair<T, bool>> st{{root, false}};
    while (!st.empty()) {
      auto [x, d] = st.back();
      if (memo.count(x)) { st.pop_back(); continue; }
      bool in = x->op == AND || x->op == OR || x->op == XOR || x->op == CONCAT || x->op == EXTRACT || x->op == SEXT || x->op == ITE || ((x->op == SHL || x->op == LSHR) && x->a[1]->isConst()) || (x->op == EQ && x->a[0]->w == 1);
      if (in && !d) { st.back().second = true; for (uint32_t i = 0; i < x->n; i++) if (!memo.count(x->a[i])) st.push_back({x->a[i], false}); continue; }
      st.pop_back();
      std::vector<Poly> r(x->w);
      auto A = [&](uint32_t i) -> const std::vector<Poly> & { return memo.at(x->a[i]); };
      if (x->isConst()) { for (uint32_t b = 0; b < x->w; b++) if ((*x->c)[b]) r[b] = one(); }
      else if (!in) { if (x->w > 4095) throw TooBig(); for (uint32_t b = 0; b < x->w; b++) r[b] = unknown(x, b); }
      else switch (x->op) {
        case XOR: for (uint32_t b = 0; b < x->w; b++) { std::vector<const Poly *> v; for (uint32_t i = 0; i < x->n; i++) v.push_back(&A(i)[b]); r[b] = sum(v); } break;
        case AND: for (uint32_t b = 0; b < x->w; b++) { r[b] = A(0)[b]; for (uint32_t i = 1; i < x->n; i++) r[b] = mul(r[b], A(i)[b]); } break;
        case OR: for (uint32_t b = 0; b < x->w; b++) { r[b] = A(0)[b]; for (uint32_t i = 1; i < x->n; i++) { const Poly &p = A(i)[b]; Poly q = mul(r[b], p); r[b] = add(add(r[b], p), q); } } break;
        case CONCAT: { uint32_t o = 0; for (uint32_t i = 0; i < x->n; i++) for (auto &p : A(i)) r[o++] = p; break; }
        case EXTRACT: for (uint32_t b = 0; b < x->w; b++) r[b] = A(0)[x->p + b]; break;
        case SEXT: for (uint32_t b = 0; b < x->w; b++) r[b] = A(0)[std::min(b, x->a[0]->w - 1)]; break;
        case ITE: for (uint32_t b = 0; b < x->w; b++) r[b] = add(mul(A(0)[0], add(A(1)[b], A(2)[b])), A(2)[b]); break;
        case EQ: r[0] = add(add(A(0)[0], A(1)[0]), one()); break;
        default: { uint64_t k = x->a[1]->c->getLimitedValue(x->w); for (uint32_t b = 0; b < x->w; b++) if (x->op == SHL ? b >= k : b + k < x->w) r[b] = x->op == SHL ? A(0)[b - k] : A(0)[b + k]; }
      }
      for (auto &p : r) total += p.size();
      if (total > cap || now() > deadline) throw TooBig();
      memo.emplace(x, std::move(r));
    }
  }
};
}
bool equalGF2(T a, T b, double timeout) {
  static Anf *S = nullptr; static double wasted = 0;
  if (wasted > 30) return false;
  double t0 = Anf::now();
  if (!S || S->total > 60000000) { delete S; S = new Anf(120000000, timeout); }
  S->deadline = Anf::now() + timeout;
  try { S->compute(a); S->compute(b); } catch (TooBig &) { if (getenv("DV_ANF")) fprintf(stderr, "anf: gave up, total %zu\n", S->total); delete S; S = nullptr; wasted += Anf::now() - t0; return false; }
  bool eq = S->get(a) == S->get(b); if (!eq) wasted += Anf::now() - t0;
  return eq;
}
} // namespace dv

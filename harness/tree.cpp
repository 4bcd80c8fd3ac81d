// The parallel (tree) digests: blocks dealt to P leaves in turn, a root over the leaf digests.
#include "uf_dgst.h"
#include "ParallelTools.h"
#include <functional>
#include "SHA2256.h"
#include "SHA2512.h"
#include "SHA3256.h"
#include "SHA3512.h"
#include "Blake256.h"
#include "Blake512.h"
#include "Skein256.h"
#include "Skein512.h"
#include "Skein1024.h"
using namespace CEX; using namespace CEX::Digest; using Bytes = std::vector<uint8_t>;
// every schedule of the leaf tasks gives this result when no two of them touch the same memory; that is an obligation
static void c_parallelFor(size_t from, size_t to, const std::function<void(size_t)> &f) {
  for (size_t i = from; i < to; i++) { dv_task((int64_t)(i - from)); f(i); dv_task(-1); }
  dv_task(-2);
}
static const size_t rates[] = {64, 128, 136, 72, 64, 128, 32, 64, 128}, sizes[] = {32, 64, 32, 64, 32, 64, 32, 64, 128};
// ---- the definition
// the blocks of leaf i: those of whole stripes, and what is left for it after the last whole stripe
static void deal(const Bytes &m, size_t R, size_t P, size_t i, Bytes &whole, Bytes &rest) {
  size_t S = R * P, n = m.size() / S * S; whole.clear(); rest.clear();
  for (size_t o = i * R; o < n; o += S) whole.insert(whole.end(), m.begin() + o, m.begin() + o + R);
  for (size_t o = n + i * R; o < m.size() && o < n + (i + 1) * R; o++) rest.push_back(m[o]);
}
template<class T, size_t W, size_t B, Bytes (*H)(Bytes)> static Bytes sha2Tree(const char *name, const T *iv, const Bytes &m, size_t P, Bytes (*node)(size_t, size_t)) {
  Bytes all;
  for (size_t i = 0; i < P; i++) {
    Bytes w, r; deal(m, B, P, i, w, r); T h[8]; memcpy(h, iv, sizeof h);
    Bytes x = node(P, i); x.resize(B); x.insert(x.end(), w.begin(), w.end());
    if (!r.empty()) { x.insert(x.end(), r.begin(), r.end()); spec::sha2Pad(x, B); }
    for (size_t o = 0; o < x.size(); o += B) spec::comp<8 * sizeof(T), B>(name, h, x.data() + o);
    for (size_t j = 0; j < 8 * sizeof(T); j++) all.push_back((uint8_t)(h[j / sizeof(T)] >> (8 * (sizeof(T) - 1 - j % sizeof(T)))));
  }
  return H(all);
}
template<size_t R, size_t D, Bytes (*H)(Bytes)> static Bytes sha3Tree(const Bytes &m, size_t P, Bytes (*node)(size_t, size_t)) {
  Bytes all;
  for (size_t i = 0; i < P; i++) {
    Bytes w, r; deal(m, R, P, i, w, r); spec::Sponge s(R); Bytes x = node(P, i); x.resize(R); x.insert(x.end(), w.begin(), w.end()); s.absorb(x);
    if (!r.empty()) s.absorbFinal(r, 6);
    all.insert(all.end(), s.s, s.s + D);
  }
  return H(all);
}
// BLAKE2sp and BLAKE2bp with P leaves
template<class T, size_t B> static Bytes b2node(const char *name, const T *iv, Bytes m, size_t P, size_t off, size_t depth, bool last) {
  const size_t D = 8 * sizeof(T); uint8_t par[8 * sizeof(T)] = {0}; par[0] = D; par[2] = (uint8_t)P; par[3] = 2; par[8] = (uint8_t)off; par[sizeof(T) == 4 ? 14 : 16] = (uint8_t)depth; par[sizeof(T) == 4 ? 15 : 17] = D;
  T h[8], p[8]; memcpy(p, par, sizeof p); for (int i = 0; i < 8; i++) h[i] = iv[i] ^ p[i];
  uint64_t n = m.size(), t = 0; if (m.empty()) m.push_back(0); while (m.size() % B) m.push_back(0);
  for (size_t i = 0; i < m.size(); i += B) {
    bool fin = i + B == m.size(); t = fin ? n : t + B; T v[8]; memcpy(v, iv, sizeof v); v[4] ^= (T)spec::at(t); if (sizeof(T) == 4) v[5] ^= (T)(spec::at(t) >> 32); if (fin) { v[6] = ~v[6]; if (last) v[7] = ~v[7]; }
    uint8_t x[D + B]; memcpy(x, v, D); memcpy(x + D, m.data() + i, B); spec::comp<D, D + B>(name, h, x); }
  Bytes o(D); memcpy(o.data(), h, D); return o;
}
template<class T, size_t B> static Bytes b2Tree(const char *name, const T *iv, const Bytes &m, size_t P) {
  Bytes all;
  for (size_t i = 0; i < P; i++) { Bytes x; for (size_t o = 0; o < m.size(); o++) if (o / B % P == i) x.push_back(m[o]); Bytes d = b2node<T, B>(name, iv, x, P, i, 0, i == P - 1); all.insert(all.end(), d.begin(), d.end()); }
  return b2node<T, B>(name, iv, all, P, 0, 1, true);
}
// the library's Skein tree: leaf states chained from the configuration block
template<size_t N> static const char *tf() { return N == 4 ? "threefish256" : N == 8 ? "threefish512" : "threefish1024"; }
template<size_t N> static void tfEnc(uint8_t *key, uint64_t t0, uint64_t t1, const uint8_t *blk) { uint8_t x[16 + 8 * N]; memcpy(x, &t0, 8); memcpy(x + 8, &t1, 8); memcpy(x + 16, blk, 8 * N); spec::comp<8 * N, 16 + 8 * N>(tf<N>(), key, x); }
template<size_t N> struct Leaf { uint8_t s[8 * N]; uint64_t pos = 0; bool first = true; uint64_t type = 48;
  void block(const uint8_t *m, size_t n, bool fin) { pos += n; uint8_t k[8 * N]; memcpy(k, s, 8 * N); tfEnc<N>(k, spec::at(pos), (type << 56) | (first ? 1ull << 62 : 0) | (fin ? 1ull << 63 : 0), m); for (size_t i = 0; i < 8 * N; i++) s[i] = k[i] ^ m[i]; first = false; }
  void out() { type = 63; first = true; pos = 0; uint8_t z[8 * N] = {0}; block(z, 8, true); } };
template<size_t N> static Bytes config(size_t P) { SkeinParams p = P ? SkeinParams(8 * N, (uint8_t)(8 * N), (uint8_t)P) : SkeinParams(8 * N); std::vector<uint64_t> c = p.GetConfig(); Bytes r(8 * N); memcpy(r.data(), c.data(), 8 * N); return r; }
template<size_t N> static Bytes skeinTree(const Bytes &m, size_t P) {
  const size_t B = 8 * N; Bytes c = config<N>(P), prev = c, all; const uint64_t cfg = (4ull << 56) | (3ull << 62);
  for (size_t i = 0; i < P; i++) {
    uint8_t v[B] = {0}; tfEnc<N>(v, 32, cfg, prev.data()); for (size_t j = 0; j < B; j++) prev[j] = v[j] ^ c[j];
    Leaf<N> l; memcpy(l.s, prev.data(), B); Bytes w, r; deal(m, B, P, i, w, r);
    for (size_t o = 0; o < w.size(); o += B) l.block(&w[o], B, false);
    if (!r.empty()) { size_t n = r.size(); r.resize(B); l.block(r.data(), n, true); l.out(); }
    all.insert(all.end(), l.s, l.s + B);
  }
  Bytes lin = config<N>(0); Leaf<N> root; memset(root.s, 0, B); tfEnc<N>(root.s, 32, cfg, lin.data()); root.pos = 32; root.type = 4;
  for (size_t o = 0; o < all.size(); o += B) root.block(&all[o], B, true);
  root.out(); return Bytes(root.s, root.s + B);
}
static const uint32_t iv32[8] = {0x6a09e667,0xbb67ae85,0x3c6ef372,0xa54ff53a,0x510e527f,0x9b05688c,0x1f83d9ab,0x5be0cd19};
static const uint64_t iv64[8] = {0x6a09e667f3bcc908,0xbb67ae8584caa73b,0x3c6ef372fe94f82b,0xa54ff53a5f1d36f1,0x510e527fade682d1,0x9b05688c2b3e6c1f,0x1f83d9abfb41bd6b,0x5be0cd19137e2179};
static Bytes le(uint64_t v, size_t n) { Bytes r; for (size_t i = 0; i < n; i++) r.push_back((uint8_t)(v >> (8 * i))); return r; }
// a node's parameter block: offset, version 1, digest size, leaf size, depth 0, fan-out, zeros (to 72 bytes for the 64-byte digests; SHA-2 fills its longer block with 1F)
static Bytes nodeBlock(size_t D, size_t R, size_t P, size_t i) { Bytes b = le(i, 4); for (auto &x : {le(1, 2), le(D, 8), le(R, 4), le(0, 1), le(P, 1)}) b.insert(b.end(), x.begin(), x.end()); b.resize(D == 64 && R == 128 ? 72 : 136); b.resize(136, 0x1f); return b; }
static size_t made = 0; // the number of leaves the object was made with, when it differs
template<size_t D, size_t R> static Bytes node(size_t P, size_t i) { return nodeBlock(D, R, made ? made : P, i); }
static Bytes want(int d, const Bytes &m, size_t P) {
  switch (d) {
    case 0: return sha2Tree<uint32_t, 32, 64, spec::sha256>("sha256", iv32, m, P, node<32, 64>);
    case 1: return sha2Tree<uint64_t, 64, 128, spec::sha512>("sha512", iv64, m, P, node<64, 128>);
    case 2: return sha3Tree<136, 32, spec::sha3_256>(m, P, node<32, 136>);
    case 3: return sha3Tree<72, 64, spec::sha3_512>(m, P, node<64, 72>);
    case 4: return b2Tree<uint32_t, 64>("blake256", iv32, m, P);
    case 5: return b2Tree<uint64_t, 128>("blake512", iv64, m, P);
    case 6: return skeinTree<4>(m, P);
    case 7: return skeinTree<8>(m, P);
    default: return skeinTree<16>(m, P);
  }
}
template<class D, class A> static IDigest *mk(A p, size_t P, bool dflt) { return dflt ? new D(true) : new D(p); }
static IDigest *make(int d, size_t P, bool dflt) {
  uint8_t n = (uint8_t)P;
  switch (d) {
    case 0: return mk<SHA2256>(SHA2Params(32, 64, n), P, dflt);
    case 1: return mk<SHA2512>(SHA2Params(64, 128, n), P, dflt);
    case 2: return mk<SHA3256>(KeccakParams(32, 136, n), P, dflt);
    case 3: return mk<SHA3512>(KeccakParams(64, 72, n), P, dflt);
    case 4: return mk<Blake256>(BlakeParams(32, 2, n, 0, 32), P, dflt);
    case 5: return mk<Blake512>(BlakeParams(64, 2, n, 0, 64), P, dflt);
    case 6: return mk<Skein256>(SkeinParams(32, 32, n), P, dflt);
    case 7: return mk<Skein512>(SkeinParams(64, 64, n), P, dflt);
    default: return mk<Skein1024>(SkeinParams(128, 128, n), P, dflt);
  }
}
static void check(int d, IDigest &x, size_t P, const Bytes &m, std::initializer_list<size_t> cuts) {
  Bytes o(sizes[d] + 5), was; dv_sym(o.data(), o.size(), "out"); was = o;
  size_t at = 0; for (size_t c : cuts) { if (c > m.size()) c = m.size(); if (c < at) c = at; x.Update(m, at, c - at); at = c; }
  x.Update(m, at, m.size() - at); x.Finalize(o, 3);
  Bytes w = want(d, m, P); dv_ensure_eq(o.data() + 3, w.data(), w.size(), "digest");
  dv_ensure_eq(o.data(), was.data(), 3, "before"); dv_ensure_eq(o.data() + 3 + w.size(), was.data() + 3 + w.size(), 2, "after");
}
// lengths around every edge, in one call and in parts; the object is used again for each message
static void run(int d, size_t P, bool dflt, size_t part) {
  REPLACE("CEX::Tools::ParallelTools::ParallelFor", c_parallelFor);
  ufd::hashes(); IDigest *x = make(d, P, dflt); size_t R = rates[d], S = R * P;
  dv_ensure(x->IsParallel(), "parallel"); dv_ensure(x->ParallelProfile().ParallelMaxDegree() == P, "as many tasks as leaves"); dv_ensure(x->ParallelProfile().ParallelMinimumSize() == S, "stripe");
  x->ParallelProfile().SetBlockSize(2 * S);
  size_t lens[] = {0, 1, R - 1, R, R + 1, S - R, S - R + 1, S - 1, S, S + 1, S + R, 2 * S - 1, 2 * S, 2 * S + 1, 3 * S - R, 3 * S - R + 1, 3 * S, 4 * S + 5, 5 * S + 1, 5 * S - R + 1, 6 * S + R + 3};
  for (size_t k = part; k < sizeof lens / sizeof *lens; k += 7) {
    Bytes m(lens[k]); dv_sym(m.data(), m.size(), "m");
    check(d, *x, P, m, {}); check(d, *x, P, m, {1}); check(d, *x, P, m, {R}); check(d, *x, P, m, {S - 1, S}); check(d, *x, P, m, {S, 2 * S}); check(d, *x, P, m, {S + 1, 2 * S + 1, 3 * S}); check(d, *x, P, m, {2 * S, 2 * S + 1, 4 * S - R + 2});
  }
  delete x; dv_cover("end");
}
HARNESS(tree_leaves) { int d = dv_choose("digest", 0, 8); size_t P = 2 << dv_choose("leaves", 0, 1); run(d, P, false, dv_choose("part", 0, 6)); }
// the default number of leaves, on a processor of four threads: the digest does not depend on the processor
HARNESS(tree_default) { int d = dv_choose("digest", 0, 8); run(d, d == 5 ? 4 : 8, true, dv_choose("part", 0, 6)); }
// another number of leaves asked of the object: the same function as for an object made with it (SHA-2 and SHA-3 keep the node blocks they were made with)
HARNESS(tree_degree) {
  int d = dv_choose("digest", 0, 8); size_t P = dv_choose("leaves", 0, 1) ? 10 : 2;
  REPLACE("CEX::Tools::ParallelTools::ParallelFor", c_parallelFor);
  ufd::hashes(); IDigest *x = make(d, 8, true); made = 8; x->ParallelMaxDegree(P); size_t R = rates[d], S = R * P;
  for (size_t n : {(size_t)0, R + 1, S, 3 * S - R + 1, 4 * S + 5}) { Bytes m(n); dv_sym(m.data(), n, "m"); check(d, *x, P, m, {}); check(d, *x, P, m, {S + 1}); }
  delete x; dv_cover("end");
}
// two leaves of any length: after 37 stripes the bytes counted by each leaf become any multiple of the block
HARNESS(tree_long) {
  static const int which[] = {0, 1, 4, 5, 6, 7, 8}; int d = which[dv_choose("digest", 0, 6)]; size_t R = rates[d], S = 2 * R, tails[] = {0, 1, R, S + 3, 3 * S - R + 1, 4 * S + 5}, t = tails[dv_choose("tail", 0, 5)];
  REPLACE("CEX::Tools::ParallelTools::ParallelFor", c_parallelFor); ufd::hashes(); IDigest *x = make(d, 2, false); Bytes m(37 * S + 1 + t), o(sizes[d]); dv_sym(m.data(), m.size(), "m"); x->ParallelProfile().SetBlockSize(2 * S);
  uint64_t b; dv_sym(&b, 8, "blocks"); dv_assume(b >= 40 && b < (1ull << 60) / R);
  x->Update(m, 0, 37 * S + 1); for (uint64_t k = 35; k <= 39; k++) if (dv_poke(k * R, b * R, 8)) { spec::longFrom = k * R; spec::longBy = b * R - k * R; dv_cover("any length"); break; }
  x->Update(m, 37 * S + 1, t); x->Finalize(o, 0); Bytes w = want(d, m, 2); dv_ensure_eq(o.data(), w.data(), w.size(), "digest"); delete x; dv_cover("end");
}

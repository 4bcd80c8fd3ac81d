#include "mock_digest.h"
#include "mock_cipher.h"
#include "uf_dgst.h"
#include "spec_aes.h"
#include "IProvider.h"
#include "BCG.h"
#include "CSG.h"
#include "HCG.h"
#include "CryptoGeneratorException.h"
using namespace CEX; using namespace CEX::Drbg; using CEX::Cipher::SymmetricKey; using CEX::Exception::CryptoGeneratorException; using CEX::Enumeration::Providers; using CEX::Enumeration::ShakeModes;
using Bytes = std::vector<uint8_t>; using Sec = SecureVector<uint8_t>; using mock::cat;
static Bytes any(size_t n, const char *name) { Bytes b(n); if (n) dv_sym(b.data(), n, name); return b; }
static Sec sec(const Bytes &b) { Sec s(b.size()); if (!b.empty()) memcpy(s.data(), b.data(), b.size()); return s; }
static size_t pick(size_t i, std::initializer_list<size_t> l) { return l.begin()[i % l.size()]; }
static Bytes str(const char *s) { return Bytes(s, s + strlen(s)); }
// an entropy source: every request is answered with unknown bytes
static Bytes entropy; static int requests;
class Source final : public Provider::IProvider {
  template<class V> void fill(V &o, size_t off, size_t n) { dv_ensure(off <= o.size() && n <= o.size() - off, "entropy within its array"); entropy = any(n, "entropy"); requests++; if (n) memcpy(o.data() + off, entropy.data(), n); }
public:
  const Providers Enumeral() override { return Providers::CSP; }
  const bool IsAvailable() override { return true; }
  const std::string Name() override { return "mock"; }
  void Generate(Bytes &o) override { fill(o, 0, o.size()); }
  void Generate(Sec &o) override { fill(o, 0, o.size()); }
  void Generate(Bytes &o, size_t f, size_t n) override { fill(o, f, n); }
  void Generate(Sec &o, size_t f, size_t n) override { fill(o, f, n); }
  uint16_t NextUInt16() override { return 0; }
  uint32_t NextUInt32() override { return 0; }
  uint64_t NextUInt64() override { return 0; }
  void Reset() override {}
};
// n bytes of output through one of the four calls; nothing else is written
static void take(IDrbg &k, const Bytes &want, int api) {
  size_t n = want.size(); api &= 3;
  if (api == 0) { Bytes o(n); k.Generate(o); dv_ensure_eq(o.data(), want.data(), n, "output"); }
  else if (api == 1) { Sec o(n); k.Generate(o); dv_ensure_eq(o.data(), want.data(), n, "output"); }
  else {
    Bytes o = any(n + 5, "out"), was = o;
    if (api == 2) k.Generate(o, 3, n); else { Sec s = sec(o); k.Generate(s, 3, n); memcpy(o.data(), s.data(), n + 5); }
    dv_ensure_eq(o.data() + 3, want.data(), n, "output"); dv_ensure_eq(o.data(), was.data(), 3, "before"); dv_ensure_eq(o.data() + 3 + n, was.data() + 3 + n, 2, "after");
  }
}
static void key(IDrbg &g, const Bytes &k, const Bytes &iv, const Bytes &info) { SymmetricKey kp(k, iv, info); g.Initialize(kp); dv_ensure(g.IsInitialized(), "initialized"); }
static void update(IDrbg &g, const Bytes &k, bool secure) { if (secure) g.Update(sec(k)); else g.Update(k); }
template<class F> static bool refuses(F f) { try { f(); } catch (CEX::Exception::CryptoException &) { return true; } return false; }
// every call that would write outside its array is refused, and so is every call before initialization
static void misuse(IDrbg &g, bool ready) {
  Bytes o = any(20, "out"), was = o; Sec s = sec(o); size_t bad[][2] = {{0, 21}, {1, 20}, {20, 1}, {21, 1}, {21, 0}, {40, 4}, {(size_t)-1, 2}, {3, (size_t)-2}};
  for (auto &b : bad) { dv_ensure(refuses([&] { g.Generate(o, b[0], b[1]); }), "refused"); dv_ensure(refuses([&] { g.Generate(s, b[0], b[1]); }), "refused"); }
  if (!ready) { dv_ensure(refuses([&] { g.Generate(o); }) && refuses([&] { g.Generate(s); }) && refuses([&] { g.Generate(o, 0, 8); }) && refuses([&] { g.Generate(s, 0, 8); }) && !g.IsInitialized(), "not before initialization"); }
  dv_ensure_eq(o.data(), was.data(), 20, "nothing written"); dv_ensure_eq(s.data(), was.data(), 20, "nothing written");
}

// ---- HCG: HMAC in feedback mode with a counter
struct SHcg {
  size_t B, S, cached; Bytes key, code, buf; uint64_t ctr; const char *name;
  SHcg(int d) : B(d ? 128 : 64), S(B / 2), name(d ? "HCG-SHA2512" : "HCG-SHA2256") {}
  Bytes be() { Bytes o(8); for (int i = 0; i < 8; i++) o[i] = (uint8_t)(ctr >> (56 - 8 * i)); return o; }
  void init(const Bytes &k, const Bytes &iv, const Bytes &info) {
    key = k; code = str("CEX-"); cat(code, str(name)); cat(code, Bytes{(uint8_t)(B / 4 * 8), (uint8_t)(B / 4 * 8 >> 8)}); cat(code, info); ctr = 0; for (size_t i = 0; i < 8; i++) ctr = ctr << 8 | (i < iv.size() ? iv[i] : 0);
    ctr += code.size(); Bytes m = code; cat(m, be()); buf = mock::hmac(key, m, B, S); cached = 0;
  }
  void fill() { Bytes m = buf; cat(m, code); ctr += B; cat(m, be()); buf = mock::hmac(key, m, B, S); cached = S; }
  Bytes take(size_t n) {
    Bytes o; if (n <= cached) { o.assign(buf.begin() + (S - cached), buf.begin() + (S - cached + n)); cached -= n; return o; }
    o.assign(buf.begin() + (S - cached), buf.end()); cached = 0; while (o.size() < n) { fill(); size_t t = n - o.size() < S ? n - o.size() : S; o.insert(o.end(), buf.begin(), buf.begin() + t); cached = S - t; }
    if (cached) memset(buf.data(), 0, S - cached); return o; // bytes given out are not kept
  }
  void rekey(const Bytes &first) { Bytes k = first; fill(); cat(k, mock::hmac(key, buf, B, S)); key = k; fill(); }
  void update(const Bytes &k) { rekey(mock::hmac(key, k, B, S)); }
};
static void c_beAdd8(Bytes &v, uint32_t n) { dv_ensure(v.size() == 8, "a counter of 8 bytes"); uint64_t x = 0; for (int i = 0; i < 8; i++) x = x << 8 | v[i]; x += n; for (int i = 0; i < 8; i++) v[i] = (uint8_t)(x >> (56 - 8 * i)); }
static void hcgContracts() { REPLACE("CEX::Tools::IntegerTools::BeIncrease8<" VB ", unsigned int>", c_beAdd8); }
HARNESS(hcg) {
  int d = dv_choose("digest", 0, 1), api = dv_choose("api", 0, 3); hcgContracts(); SHcg s(d); mock::DigestFn *dg = new mock::DigestFn(s.B, s.S); HCG *g = new HCG(dg, nullptr); size_t S = s.S;
  dv_ensure(g->Name() == s.name, "name"); misuse(*g, false);
  for (size_t i = 0; i < 9; i++) {
    Bytes k = any(pick(i, {16, 17, S, 2 * S, 2 * S + 3}), "key"), iv = any(pick(i, {8, 8, 4, 8, 12, 8, 0}), "nonce"), info = any(i % 2 ? pick(i, {1, 8, 40}) : 0, "info"); if (iv.empty()) info.clear();
    if (iv.empty()) { SymmetricKey kp(k); g->Initialize(kp); } else if (info.empty()) { SymmetricKey kp(k, iv); g->Initialize(kp); } else key(*g, k, iv, info);
    s.init(k, iv, info);
    for (size_t j = 0; j < 5; j++) {
      size_t n = pick(i + 3 * j, {S, 1, S + 1, 3, 2 * S, 0, 3 * S + 5, S - 1, 7}); take(*g, s.take(n), api + j);
      if ((i + j) % 4 == 3) { Bytes u = any(pick(j, {S, 16 + 16 * (size_t)d, S + 9}), "update"); update(*g, u, j & 1); s.update(u); }
    }
  }
  misuse(*g, true); dv_ensure(refuses([&] { SymmetricKey kp(any(15, "key")); g->Initialize(kp); }), "a short key is refused"); dv_ensure(refuses([&] { g->Update(any(s.B / 4 - 1, "key")); }), "a short update key is refused"); dv_cover("end");
}
// with an entropy source: once the threshold is reached, the key is replaced with new entropy
HARNESS(hcg_reseed) {
  int d = dv_choose("digest", 0, 1); hcgContracts(); SHcg s(d); HCG *g = new HCG(new mock::DigestFn(s.B, s.S), new Source()); size_t S = s.S; g->ReseedThreshold() = 3 * S; requests = 0;
  Bytes k = any(2 * S, "key"), iv = any(8, "nonce"), info = any(8, "info"); key(*g, k, iv, info); s.init(k, iv, info); size_t used = 0; int seen = 0;
  for (size_t j = 0; j < 12; j++) { size_t n = pick(j, {S, 5, 2 * S, S - 5, S, 3 * S + 1, 1}); take(*g, s.take(n), j); used += n; if (used >= 3 * S) { used = 0; seen++; dv_ensure(requests == seen && entropy.size() == S, "reseeded"); s.rekey(entropy); } dv_ensure(requests == seen, "reseeded when due"); }
  dv_ensure(seen >= 2, "reseeds happened"); dv_cover("end");
}

// ---- CSG: SHAKE or cSHAKE, the state kept between requests
struct SCsg {
  spec::Sponge s; size_t cached = 0; uint8_t dom; Bytes buf;
  SCsg(size_t rate) : s(rate) {}
  void in(Bytes m) { m.push_back(dom); while (m.size() % s.rate) m.push_back(0); m.back() |= 0x80; for (size_t i = 0; i < m.size(); i += s.rate) { for (size_t j = 0; j < s.rate; j++) s.s[j] ^= m[i + j]; if (i + s.rate < m.size()) s.p(); } } // the last block waits for its permutation
  void init(const Bytes &k, const Bytes &iv, const Bytes &info) { s = spec::Sponge(s.rate); cached = 0; bool c = iv.size() || info.size(); dom = c ? 4 : 0x1F; if (c) s.absorb(spec::customPad(info, iv, s.rate)); in(k); }
  void fill() { s.p(); buf.assign(s.s, s.s + s.rate); cached = s.rate; }
  Bytes take(size_t n) { Bytes o; while (o.size() < n) { if (!cached) fill(); size_t t = n - o.size() < cached ? n - o.size() : cached; o.insert(o.end(), buf.begin() + (s.rate - cached), buf.begin() + (s.rate - cached + t)); cached -= t; } return o; }
  void update(const Bytes &k) { in(k); fill(); }
};
static const size_t rates[] = {168, 136, 72}; static const ShakeModes modes[] = {ShakeModes::SHAKE128, ShakeModes::SHAKE256, ShakeModes::SHAKE512};
HARNESS(csg) {
  int m = dv_choose("mode", 0, 2), part = dv_choose("part", 0, 3); ufd::hashes(); size_t R = rates[m]; SCsg s(R); CSG *g = new CSG(modes[m], Providers::None); misuse(*g, false);
  for (size_t i = 0; i < 10; i++) {
    Bytes k = any(pick(i + 3 * part, {16, R - 1, R, R + 1, 32, 64, 2 * R, 2 * R + 5}), "key"), iv = any(pick(i + part, {0, 4, 32, R - 9, R, 16, R + 40}), "customization"), info = any(pick(i / 2 + part, {0, 6, R - 2, R - 3, 0, 32}), "info"); if (iv.empty()) info.clear();
    if (iv.empty()) { SymmetricKey kp(k); g->Initialize(kp); } else if (info.empty()) { SymmetricKey kp(k, iv); g->Initialize(kp); } else key(*g, k, iv, info);
    s.init(k, iv, info);
    for (size_t j = 0; j < 5; j++) {
      size_t n = pick(i + 3 * j + part, {R, 1, R + 1, 3, 2 * R, 0, 2 * R + 5, R - 1, 7}); take(*g, s.take(n), i + j);
      if ((i + j) % 4 == 3) { Bytes u = any(pick(j, {16, R, R + 9}), "update"); update(*g, u, j & 1); s.update(u); }
    }
  }
  misuse(*g, true); dv_ensure(refuses([&] { SymmetricKey kp(any(15, "key")); g->Initialize(kp); }), "a short key is refused"); dv_ensure(refuses([&] { g->Update(any(15, "key")); }), "a short update key is refused"); dv_cover("end");
}
HARNESS(csg_reseed) {
  int m = dv_choose("mode", 0, 2); ufd::hashes(); size_t R = rates[m]; SCsg s(R); CSG *g = new CSG(modes[m], new Source()); g->ReseedThreshold() = 3 * R; requests = 0;
  Bytes k = any(R, "key"), iv = any(32, "nonce"), info = any(8, "info"); key(*g, k, iv, info); s.init(k, iv, info); size_t used = 0; int seen = 0;
  for (size_t j = 0; j < 12; j++) { size_t n = pick(j, {R, 5, 2 * R, R - 5, R, 3 * R + 1, 1}); take(*g, s.take(n), j); used += n; if (used >= 3 * R) { used = 0; seen++; dv_ensure(requests == seen && entropy.size() == (200 - R) / 2, "reseeded"); s.update(entropy); } dv_ensure(requests == seen, "reseeded when due"); }
  Bytes u = any(32, "update"); g->Update(u); dv_ensure(requests == seen + 1, "an update adds entropy"); s.update(entropy); s.update(u); take(*g, s.take(R + 3), 0); dv_ensure(seen >= 2, "reseeds happened"); dv_cover("end");
}

// ---- BCG: wide Rijndael in counter mode, round keys from cSHAKE-256
struct SBcg {
  Bytes mat, ctr, info; size_t rounds; bool whole; spec::AesTab t; SBcg(bool w) : whole(w) {}
  void init(const Bytes &k, const Bytes &iv, const Bytes &i) {
    info = i; ctr = iv; rounds = k.size() == 32 ? 22 : k.size() == 64 ? 30 : 38; Bytes c = str("BCG version 1.0b"), n{(uint8_t)(8 * k.size()), (uint8_t)(8 * k.size() >> 8)}; cat(c, i); cat(n, str("BCG"));
    mat = spec::cshake(k, n, c, 136, 32 * (rounds + 1));
  }
  static uint8_t times2(uint8_t x) { return (uint8_t)(x << 1 ^ (x >> 7) * 0x1b); }
  void blk(uint8_t *o) {
    if (whole) { Bytes x(mat); cat(x, ctr); dv_uf("rijndael", o, 32, x.data(), x.size()); return; }
    size_t sh[] = {0, 1, 3, 4}; uint8_t s[32], n[32]; for (size_t i = 0; i < 32; i++) s[i] = ctr[i] ^ mat[i];
    for (size_t r = 1; r <= rounds; r++) {
      for (size_t c = 0; c < 8; c++) for (size_t w = 0; w < 4; w++) n[w + 4 * c] = t.s[s[w + 4 * ((c + sh[w]) % 8)]];
      if (r != rounds) for (size_t c = 0; c < 8; c++) { uint8_t *q = n + 4 * c, a = q[0], b = q[1], d = q[2], e = q[3]; q[0] = times2(a ^ b) ^ b ^ d ^ e; q[1] = times2(b ^ d) ^ a ^ d ^ e; q[2] = times2(d ^ e) ^ a ^ b ^ e; q[3] = times2(e ^ a) ^ a ^ b ^ d; }
      for (size_t i = 0; i < 32; i++) s[i] = n[i] ^ mat[32 * r + i];
    }
    memcpy(o, s, 32);
  }
  Bytes take(size_t n) { Bytes o((n + 31) / 32 * 32); for (size_t i = 0; i < n; i += 32) { blk(o.data() + i); mock::putLe128(ctr.data(), mock::le128(ctr.data()) + 1); } o.resize(n); return o; }
  void update(const Bytes &k) { init(k, ctr, info); }
};
static SBcg *ghost;
static void c_block(void *, const Sec &in, size_t io, Sec &out, size_t oo) { dv_ensure(io + 32 <= in.size() && oo + 32 <= out.size(), "the block lies within its arrays"); Bytes x(ghost->mat); x.insert(x.end(), in.data() + io, in.data() + io + 32); dv_uf("rijndael", out.data() + oo, 32, x.data(), x.size()); }
static void c_inc(Sec &v, size_t n) { dv_ensure(n == 16 && v.size() >= 16, "a counter of 16 bytes"); mock::putLe128(v.data(), mock::le128(v.data()) + 1); }
static void c_add(const Sec &a, Sec &b, size_t off, size_t n, const uint32_t k) { dv_ensure(off == 0 && n == 16 && a.size() >= 16 && b.size() >= a.size(), "a counter of 16 bytes"); auto v = mock::le128(a.data()) + k; if (&a != &b) memcpy(b.data(), a.data(), a.size()); mock::putLe128(b.data(), v); }
#define VS "std::vector<unsigned char, CEX::SecureAllocator<unsigned char>>"
static void bcgContracts(SBcg &s) {
  ufd::hashes(); mock::counters(); ghost = &s; if (s.whole) REPLACE("CEX::Drbg::BCG::Transform256", c_block);
  REPLACE("CEX::Tools::IntegerTools::LeIncrement<" VS ">", c_inc); REPLACE("CEX::Tools::IntegerTools::LeIncrease8<" VS ", " VS ", unsigned int>", c_add);
}
static const size_t keyLens[] = {32, 64, 128};
HARNESS(bcg) {
  int kind = dv_choose("key", 0, 2), api = dv_choose("api", 0, 3); SBcg s(true); bcgContracts(s); BCG *g = new BCG(Providers::None, false); misuse(*g, false);
  for (size_t i = 0; i < 4; i++) {
    Bytes k = any(keyLens[kind], "key"), iv = any(32, "nonce"), info = any(pick(i, {16, 0, 5, 40}), "info"); key(*g, k, iv, info); s.init(k, iv, info); dv_ensure(g->SecurityStrength() == 8 * k.size(), "strength");
    for (size_t j = 0; j < 5; j++) {
      size_t n = pick(i + 3 * j, {32, 1, 33, 3, 256, 0, 8 * 32 + 37, 31, 7, 17 * 32}); take(*g, s.take(n), api + j);
      if ((i + j) % 3 == 2) { Bytes u = any(keyLens[(kind + j) % 3], "update"); update(*g, u, j & 1); s.update(u); }
    }
  }
  misuse(*g, true); size_t bad[][2] = {{31, 32}, {33, 32}, {16, 32}, {65, 32}, {127, 32}, {32, 31}, {32, 33}, {64, 16}, {128, 64}};
  for (auto &b : bad) dv_ensure(refuses([&] { SymmetricKey kp(any(b[0], "key"), any(b[1], "nonce")); g->Initialize(kp); }), "a wrong size is refused");
  dv_ensure(refuses([&] { g->Update(any(15, "key")); }), "a short update key is refused"); dv_cover("end");
}
HARNESS(bcg_reseed) {
  SBcg s(true); bcgContracts(s); BCG *g = new BCG(new Source(), false); g->ReseedThreshold() = 100; requests = 0; int kind = dv_choose("key", 0, 2);
  Bytes k = any(keyLens[kind], "key"), iv = any(32, "nonce"), info = any(7, "info"); key(*g, k, iv, info); s.init(k, iv, info); size_t used = 0; int seen = 0;
  for (size_t j = 0; j < 9; j++) {
    size_t n = pick(j, {32, 5, 64, 99, 1, 100, 101}); take(*g, s.take(n), j); used += n;
    if (used >= 100 || j == 7) { Bytes u; if (used >= 100) u = s.take(32); else { u = any(64, "update"); g->Update(u); } used = 0; seen++; dv_ensure(requests == seen && entropy.size() == 32, "reseeded"); u = spec::cshake(u, Bytes(), entropy, 136, u.size()); s.update(u); }
    dv_ensure(requests == seen, "reseeded when due");
  }
  dv_ensure(seen >= 2, "reseeds happened"); dv_cover("end");
}
// the same output when the work is shared between threads
HARNESS(bcg_parallel) {
  size_t degree = 2 * dv_choose("pairs", 1, 2), extra = dv_choose("extra", 0, 3); SBcg s(true); bcgContracts(s); BCG *g = new BCG(Providers::None, true);
  g->ParallelProfile().IsParallel() = true; g->ParallelProfile().SetMaxDegree(degree); g->ParallelProfile().SetBlockSize(g->ParallelProfile().ParallelMinimumSize()); size_t n = g->ParallelProfile().ParallelMinimumSize(); dv_ensure(n <= 16 * degree * 32, "small enough to be worth sharing");
  Bytes k = any(32, "key"), iv = any(32, "nonce"), info = any(3, "info"); key(*g, k, iv, info); s.init(k, iv, info); take(*g, s.take(n + pick(extra, {0, 5, 33, n + 40})), extra); take(*g, s.take(70), extra + 1); dv_cover("end");
}
HARNESS(bcg_block) {
  int kind = dv_choose("key", 0, 2); SBcg s(false); bcgContracts(s); BCG *g = new BCG(Providers::None, false); Bytes k = any(keyLens[kind], "key"), iv = any(32, "nonce"), info = any(16, "info"); key(*g, k, iv, info); s.init(k, iv, info); take(*g, s.take(40), 0); dv_cover("end");
}

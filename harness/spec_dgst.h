// The digests, from their standards, over an unknown compression function or permutation (the contracts P03 to P07 prove).
#pragma once
#include "dv.h"
#include <array>
#include <vector>
namespace spec {
using Bytes = std::vector<uint8_t>;
// unknown compressions: the bytes of the chaining value, then everything else
template<size_t H, size_t X> static void comp(const char *n, void *h, const void *x) { uint8_t t[H + X]; memcpy(t, h, H); memcpy(t + H, x, X); dv_uf(n, h, H, t, H + X); }
static void perm(const char *n, void *s) { uint8_t t[200]; memcpy(t, s, 200); dv_uf(n, s, 200, t, 200); }
static const char *keccakName(int rounds) { return rounds == 24 ? "keccak24" : rounds == 12 ? "keccak12" : "keccak48"; }

// the bytes from longFrom on stand longBy further into the message: what was absorbed between is any whole number of blocks, and the chaining value is whatever it left
static uint64_t longFrom = ~0ull, longBy = 0;
static uint64_t at(uint64_t n) { return n > longFrom ? n + longBy : n; }
static void sha2Pad(Bytes &m, size_t block) {
  uint64_t bits = at(m.size()) * 8; size_t lf = block / 8;
  m.push_back(0x80); while (m.size() % block != block - lf) m.push_back(0);
  for (size_t i = 0; i < lf - 8; i++) m.push_back(0);
  for (int i = 7; i >= 0; i--) m.push_back((uint8_t)(bits >> (8 * i)));
}
static Bytes sha256(Bytes m) {
  uint32_t h[8] = {0x6a09e667,0xbb67ae85,0x3c6ef372,0xa54ff53a,0x510e527f,0x9b05688c,0x1f83d9ab,0x5be0cd19};
  sha2Pad(m, 64); for (size_t i = 0; i < m.size(); i += 64) comp<32, 64>("sha256", h, m.data() + i);
  Bytes o(32); for (int i = 0; i < 32; i++) o[i] = (uint8_t)(h[i / 4] >> (24 - 8 * (i % 4))); return o;
}
static Bytes sha512(Bytes m) {
  uint64_t h[8] = {0x6a09e667f3bcc908,0xbb67ae8584caa73b,0x3c6ef372fe94f82b,0xa54ff53a5f1d36f1,0x510e527fade682d1,0x9b05688c2b3e6c1f,0x1f83d9abfb41bd6b,0x5be0cd19137e2179};
  sha2Pad(m, 128); for (size_t i = 0; i < m.size(); i += 128) comp<64, 128>("sha512", h, m.data() + i);
  Bytes o(64); for (int i = 0; i < 64; i++) o[i] = (uint8_t)(h[i / 8] >> (56 - 8 * (i % 8))); return o;
}
struct Sponge { // rate in bytes
  uint8_t s[200] = {0}; size_t rate; int rounds;
  Sponge(size_t r, int n = 24) : rate(r), rounds(n) {}
  void p() { perm(keccakName(rounds), s); }
  void absorb(const Bytes &m) { for (size_t i = 0; i + rate <= m.size(); i += rate) { for (size_t j = 0; j < rate; j++) s[j] ^= m[i + j]; p(); } }
  void absorbFinal(Bytes m, uint8_t domain) { m.push_back(domain); while (m.size() % rate) m.push_back(0); m.back() |= 0x80; absorb(m); }
  Bytes squeeze(size_t n) { Bytes o; for (;;) { for (size_t j = 0; j < rate && o.size() < n; j++) o.push_back(s[j]); if (o.size() >= n) break; p(); } return o; }
};
static Bytes sponge(const Bytes &m, size_t rate, uint8_t domain, size_t out, int rounds = 24) { Sponge s(rate, rounds); s.absorbFinal(m, domain); return s.squeeze(out); }
static Bytes sha3_256(Bytes m) { return sponge(m, 136, 6, 32); }
static Bytes sha3_512(Bytes m) { return sponge(m, 72, 6, 64); }
static Bytes blake2s(Bytes m) {
  uint32_t iv[8] = {0x6A09E667,0xBB67AE85,0x3C6EF372,0xA54FF53A,0x510E527F,0x9B05688C,0x1F83D9AB,0x5BE0CD19}, h[8]; memcpy(h, iv, 32); h[0] ^= 0x01010020;
  uint64_t n = m.size(), t = 0; if (m.empty()) m.push_back(0); while (m.size() % 64) m.push_back(0);
  for (size_t i = 0; i < m.size(); i += 64) { bool last = i + 64 == m.size(); t = last ? n : t + 64; uint32_t v[8]; memcpy(v, iv, 32); v[4] ^= (uint32_t)at(t); v[5] ^= (uint32_t)(at(t) >> 32); if (last) v[6] = ~v[6];
    uint8_t x[96]; memcpy(x, v, 32); memcpy(x + 32, m.data() + i, 64); comp<32, 96>("blake256", h, x); }
  Bytes o(32); memcpy(o.data(), h, 32); return o;
}
static Bytes blake2b(Bytes m) {
  uint64_t iv[8] = {0x6a09e667f3bcc908,0xbb67ae8584caa73b,0x3c6ef372fe94f82b,0xa54ff53a5f1d36f1,0x510e527fade682d1,0x9b05688c2b3e6c1f,0x1f83d9abfb41bd6b,0x5be0cd19137e2179}, h[8]; memcpy(h, iv, 64); h[0] ^= 0x01010040;
  uint64_t n = m.size(), t = 0; if (m.empty()) m.push_back(0); while (m.size() % 128) m.push_back(0);
  for (size_t i = 0; i < m.size(); i += 128) { bool last = i + 128 == m.size(); t = last ? n : t + 128; uint64_t v[8]; memcpy(v, iv, 64); v[4] ^= at(t); if (last) v[6] = ~v[6];
    uint8_t x[192]; memcpy(x, v, 64); memcpy(x + 64, m.data() + i, 128); comp<64, 192>("blake512", h, x); }
  Bytes o(64); memcpy(o.data(), h, 64); return o;
}
// Skein 1.3: UBI over an unknown tweakable cipher E(key, tweak, block)
template<size_t N> struct Ubi {
  uint64_t g[N] = {0};
  void block(const uint64_t *t, const uint8_t *m) { uint8_t x[16 + 8 * N]; memcpy(x, t, 16); memcpy(x + 16, m, 8 * N); uint8_t o[8 * N]; memcpy(o, g, 8 * N); comp<8 * N, 16 + 8 * N>(N == 4 ? "threefish256" : N == 8 ? "threefish512" : "threefish1024", o, x);
    for (size_t i = 0; i < 8 * N; i++) o[i] ^= m[i]; memcpy(g, o, 8 * N); }
  void ubi(Bytes m, uint64_t type) {
    size_t n = m.size(), B = 8 * N; if (m.empty()) m.resize(B); while (m.size() % B) m.push_back(0);
    for (size_t i = 0; i < m.size(); i += B) { uint64_t t[2]; t[0] = at(i + B < n ? i + B : n); t[1] = (type << 56) | (i == 0 ? 1ull << 62 : 0) | (i + B == m.size() ? 1ull << 63 : 0); block(t, m.data() + i); }
  }
};
template<size_t N> static Bytes skein(Bytes m) {
  Ubi<N> u; Bytes c(32); memcpy(c.data(), "SHA3\1", 5); c[8] = (uint8_t)(64 * N); c[9] = (uint8_t)((64 * N) >> 8);
  u.ubi(c, 4); u.ubi(m, 48); u.ubi(Bytes(8), 63); Bytes o(8 * N); memcpy(o.data(), u.g, 8 * N); return o;
}
}
// SP 800-185 over the unknown permutation
namespace spec {
static void cat(Bytes &a, const Bytes &b) { a.insert(a.end(), b.begin(), b.end()); }
static Bytes encNum(uint64_t v, bool left) { int n = 1; while (n < 8 && (v >> (8 * n))) n++; Bytes o; if (left) o.push_back((uint8_t)n); for (int i = n - 1; i >= 0; i--) o.push_back((uint8_t)(v >> (8 * i))); if (!left) o.push_back((uint8_t)n); return o; }
static Bytes encStr(const Bytes &s) { Bytes o = encNum((uint64_t)s.size() * 8, true); cat(o, s); return o; }
static Bytes bytePad(const Bytes &x, size_t rate) { Bytes o = encNum(rate, true); cat(o, x); while (o.size() % rate) o.push_back(0); return o; }
static Bytes customPad(const Bytes &name, const Bytes &custom, size_t rate) { Bytes x = encStr(name); cat(x, encStr(custom)); return bytePad(x, rate); }
static Bytes cshake(const Bytes &x, const Bytes &name, const Bytes &custom, size_t rate, size_t out, int rounds = 24) {
  Bytes m = customPad(name, custom, rate); cat(m, x); return sponge(m, rate, 4, out, rounds);
}
static Bytes kmac(const Bytes &key, const Bytes &name, const Bytes &custom, const Bytes &msg, size_t rate, size_t out, int rounds = 24) {
  Bytes x = bytePad(encStr(key), rate); cat(x, msg); cat(x, encNum((uint64_t)out * 8, false)); return cshake(x, name, custom, rate, out, rounds);
}
}

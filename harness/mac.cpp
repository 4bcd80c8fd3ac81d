#include "dv.h"
#include "CMUL.h"
using namespace CEX; using CEX::Numeric::CMUL; using Bytes = std::vector<uint8_t>;
// SP 800-38D 6.3: multiplication in GF(2^128), the most significant bit of byte 0 first
namespace spec {
static void gmul(uint64_t *z, const uint64_t *x, const uint64_t *y) {
  uint64_t v0 = y[0], v1 = y[1], z0 = 0, z1 = 0;
  for (int i = 0; i < 128; i++) { uint64_t m = 0 - ((x[i / 64] >> (63 - i % 64)) & 1); z0 ^= v0 & m; z1 ^= v1 & m; uint64_t c = 0 - (v1 & 1); v1 = v1 >> 1 | v0 << 63; v0 = v0 >> 1 ^ (c & 0xE100000000000000ULL); }
  z[0] = z0; z[1] = z1;
}
static uint64_t be64(const uint8_t *p) { uint64_t v = 0; for (int i = 0; i < 8; i++) v = v << 8 | p[i]; return v; }
static void put64(uint8_t *p, uint64_t v) { for (int i = 0; i < 8; i++) p[i] = (uint8_t)(v >> (56 - 8 * i)); }
}
HARNESS(gmul) {
  int form = dv_choose("form", 0, 2); std::array<uint64_t, 2> h, h0; std::array<uint8_t, 16> x; dv_symw(h.data(), 2, 8, "h"); dv_sym(x.data(), 16, "x"); h0 = h;
  uint64_t a[2] = {spec::be64(x.data()), spec::be64(x.data() + 8)}, z[2]; uint8_t want[16]; spec::gmul(z, a, h.data()); spec::put64(want, z[0]); spec::put64(want + 8, z[1]);
  if (form == 0) CMUL::PermuteR128P128C(h, x); else if (form == 1) CMUL::PermuteR128P128U(h, x); else CMUL::PermuteR128P128V(h, x);
  dv_ensure_eq(x.data(), want, 16, "product"); dv_ensure(h == h0, "hash key unchanged"); dv_cover("end");
}
#include "mock_cipher.h"
#include "CMAC.h"
#include "GMAC.h"
#include "GHASH.h"
using namespace CEX::Mac; using namespace CEX::Cipher; using Sec = SecureVector<uint8_t>;
static Bytes any(size_t n, const char *name) { Bytes b(n); if (n) dv_sym(b.data(), n, name); return b; }
// a message through Update in up to three pieces, then the tag at an offset
template<class M> static void tag(M &m, const Bytes &msg, size_t a, size_t b, const Bytes &want, int form) {
  Bytes o = any(want.size() + 5, "out"), was = o; size_t n = want.size();
  if (form == 0) { Bytes t(n); m.Compute(msg, t); memcpy(o.data() + 3, t.data(), n); }
  else {
    Bytes wide = any(msg.size() + 4, "around"); if (msg.size()) memcpy(wide.data() + 2, msg.data(), msg.size());
    m.Update(wide, 2, a); m.Update(wide, 2 + a, b - a); m.Update(wide, 2 + b, msg.size() - b);
    if (form == 1) { size_t k = m.Finalize(o, 3); dv_ensure(k == n, "tag length"); } else { Sec t(n + 2); size_t k = m.Finalize(t, 2); dv_ensure(k == n, "tag length"); memcpy(o.data() + 3, t.data() + 2, n); }
  }
  dv_ensure_eq(o.data() + 3, want.data(), n, "tag"); dv_ensure_eq(o.data(), was.data(), 3, "before"); dv_ensure_eq(o.data() + 3 + n, was.data() + 3 + n, 2, "after");
}
namespace spec {
static void dbl(uint8_t *o, const uint8_t *x) { uint64_t a = be64(x), b = be64(x + 8), c = 0 - (a >> 63); put64(o, a << 1 | b >> 63); put64(o + 8, b << 1 ^ (c & 0x87)); }
static Bytes cmac(const Bytes &m) {
  uint8_t l[16] = {0}, k1[16], k2[16], c[16] = {0}; mock::E(l, l); dbl(k1, l); dbl(k2, k1);
  size_t n = m.empty() ? 1 : (m.size() + 15) / 16;
  for (size_t i = 0; i < n; i++) {
    uint8_t x[16] = {0}; size_t have = m.size() - 16 * i < 16 ? m.size() - 16 * i : 16; if (have) memcpy(x, m.data() + 16 * i, have);
    if (i == n - 1) { if (have < 16) x[have] = 0x80; for (int j = 0; j < 16; j++) x[j] ^= have == 16 ? k1[j] : k2[j]; }
    for (int j = 0; j < 16; j++) c[j] ^= x[j]; mock::E(c, c);
  }
  return Bytes(c, c + 16);
}
static void mulH(const uint8_t *h, uint8_t *x) { uint8_t t[32]; memcpy(t, h, 16); memcpy(t + 16, x, 16); uint8_t o[16]; dv_uf("gmul", o, 16, t, 32); memcpy(x, o, 16); }
static void ghashAdd(const uint8_t *h, uint8_t *y, const Bytes &m) { for (size_t i = 0; i < m.size(); i += 16) { for (size_t j = i; j < i + 16 && j < m.size(); j++) y[j - i] ^= m[j]; mulH(h, y); } }
static void ghashLen(const uint8_t *h, uint8_t *y, uint64_t a, uint64_t c) { uint8_t l[16]; put64(l, 8 * a); put64(l + 8, 8 * c); for (int j = 0; j < 16; j++) y[j] ^= l[j]; mulH(h, y); }
static void gcmJ0(const uint8_t *h, const Bytes &iv, uint8_t *j) {
  memset(j, 0, 16); if (iv.size() == 12) { memcpy(j, iv.data(), 12); j[15] = 1; return; }
  ghashAdd(h, j, iv); ghashLen(h, j, 0, iv.size());
}
}
// the hash key is held as two words, big-endian
static void c_gmul(std::array<uint64_t, 2> &h, std::array<uint8_t, 16> &x) { uint8_t k[16]; spec::put64(k, h[0]); spec::put64(k + 8, h[1]); spec::mulH(k, x.data()); }
static void gmuls() { REPLACE("CEX::Numeric::CMUL::PermuteR128P128C", c_gmul); REPLACE("CEX::Numeric::CMUL::PermuteR128P128U", c_gmul); REPLACE("CEX::Numeric::CMUL::PermuteR128P128V", c_gmul); }
HARNESS(cmac) {
  size_t part = dv_choose("part", 0, 3); mock::counters(); CMAC m(new mock::BlockFn);
  for (size_t n = part; n <= 52; n += 4) {
    SymmetricKey kp(any(n % 3 ? 16 : 32, "key")); m.Initialize(kp);
    Bytes msg = any(n, "msg"); tag(m, msg, n * (n % 5) / 7, n * (3 + n % 5) / 7, spec::cmac(msg), n % 3);
    if (n % 5 == 0) { m.Initialize(kp); m.Update(any(21, "unfinished"), 0, 16 + n % 6); }
  }
  for (size_t a = 0; a <= 34; a++) { SymmetricKey kp(any(16, "key")); m.Initialize(kp); Bytes msg = any(a + 16 * part + part, "msg"); tag(m, msg, a, a + (msg.size() - a) / 2, spec::cmac(msg), 1); }
  dv_ensure(m.TagSize() == 16, "tag size"); dv_cover("end");
}
HARNESS(gmac) {
  size_t part = dv_choose("part", 0, 3); gmuls(); GMAC m(new mock::BlockFn);
  for (size_t n = part; n <= 70; n += 2) {
    size_t ivs[] = {12, 16, 13, 31, 32, 12, 33, 64, 15, 47}; Bytes iv = any(ivs[(n / 2 + part) % 10], "iv"), msg = any(n, "msg"); SymmetricKey kp(any(16, "key"), iv); m.Initialize(kp);
    uint8_t h[16] = {0}, j[16], y[16] = {0}; mock::E(h, h); spec::gcmJ0(h, iv, j); spec::ghashAdd(h, y, msg); spec::ghashLen(h, y, n, 0); mock::E(j, j); for (int i = 0; i < 16; i++) y[i] ^= j[i];
    tag(m, msg, n * (n % 5) / 7, n * (3 + n % 5) / 7, Bytes(y, y + 16), n % 3);
    dv_ensure(!m.IsInitialized(), "a tag ends the use of the nonce"); bool refused = false; try { m.Update(msg, 0, n); } catch (CEX::Exception::CryptoMacException &) { refused = true; } dv_ensure(refused, "refused without another nonce");
    if (n % 6 == 0) { m.Initialize(kp); m.Update(any(21, "unfinished"), 0, 16 + n % 5); }
  }
  dv_cover("end");
}
// any length: the count of bytes becomes any multiple of the block
HARNESS(gmac_long) {
  size_t tail = dv_choose("tail", 0, 4); tail = tail == 4 ? 31 : tail * 8; gmuls(); GMAC m(new mock::BlockFn); Bytes iv = any(12, "iv"), msg = any(592, "msg"), more = any(tail, "more"), o(16); SymmetricKey kp(any(16, "key"), iv); m.Initialize(kp); m.Update(msg, 0, 592);
  uint64_t n = 592, v; dv_sym(&v, 8, "blocks"); dv_assume(v >= 37 && v < 1ull << 56); if (dv_poke(592, 16 * v, 8)) { n = 16 * v; dv_cover("any length"); }
  if (tail) m.Update(more, 0, tail); m.Finalize(o, 0); msg.insert(msg.end(), more.begin(), more.end());
  uint8_t h[16] = {0}, j[16], y[16] = {0}; mock::E(h, h); spec::gcmJ0(h, iv, j); spec::ghashAdd(h, y, msg); spec::ghashLen(h, y, n + tail, 0); mock::E(j, j); for (int i = 0; i < 16; i++) y[i] ^= j[i];
  dv_ensure_eq(o.data(), y, 16, "tag"); dv_cover("end");
}

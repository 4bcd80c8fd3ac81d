#include "dv.h"
#include "Poly1305.h"
#include "Donna128.h"
#include "SymmetricKey.h"
using namespace CEX; using CEX::Mac::Poly1305; using CEX::Numeric::Donna128; using Bytes = std::vector<uint8_t>; typedef unsigned __int128 u128;
static Bytes any(size_t n, const char *name) { Bytes b(n); if (n) dv_sym(b.data(), n, name); return b; }
static uint64_t le64(const uint8_t *p) { uint64_t v; memcpy(&v, p, 8); return v; }
// ---- the 64 by 64 bit product, in four products of halves
static u128 product(uint64_t a, uint64_t b) {
  uint64_t ah = a >> 32, al = (uint32_t)a, bh = b >> 32, bl = (uint32_t)b; return ((u128)(ah * bh) << 64) + ((u128)(ah * bl) << 32) + ((u128)(al * bh) << 32) + (al * bl);
}
HARNESS(product) {
  uint64_t a, b, lo, hi; dv_symw(&a, 1, 8, "a"); dv_symw(&b, 1, 8, "b");
  Donna128::Mul64x64To128(a, b, &lo, &hi); u128 p = product(a, b); dv_ensure(lo == (uint64_t)p, "low word of the product"); dv_ensure(hi == (uint64_t)(p >> 64), "high word of the product"); dv_cover("end");
}
// ---- two-word sums
static u128 mul(uint64_t a, uint64_t b) { return (u128)a * b; }
static u128 num(const Donna128 &x) { return (u128)x.High() << 64 | x.Low(); }
static Donna128 &c_add(Donna128 *t, const Donna128 &x) { u128 s = num(*t) + num(x); *t = Donna128((uint64_t)s, (uint64_t)(s >> 64)); return *t; }
static Donna128 &c_add64(Donna128 *t, uint64_t x) { u128 s = num(*t) + x; *t = Donna128((uint64_t)s, (uint64_t)(s >> 64)); return *t; }
#define SUMS REPLACE("CEX::Numeric::Donna128::operator+=", c_add); REPLACE("CEX::Numeric::Donna128::operator+=", c_add64)
HARNESS(sums) {
  uint64_t w[4]; dv_symw(w, 4, 8, "words"); u128 x = (u128)w[1] << 64 | w[0], y = (u128)w[3] << 64 | w[2]; Donna128 a(w[0], w[1]), b(w[2], w[3]), c = a; dv_ensure(c.Low() == w[0] && c.High() == w[1], "words");
  c += b; dv_ensure(num(c) == x + y, "sum in place"); dv_ensure(num(a + b) == x + y, "sum"); c = a; c += w[2]; dv_ensure(num(c) == x + w[2], "sum with a word, in place"); dv_ensure(num(a + w[2]) == x + w[2], "sum with a word");
  dv_ensure(Donna128::CarryShift(a, 44) == (uint64_t)(x >> 44) && Donna128::CarryShift(a, 42) == (uint64_t)(x >> 42) && Donna128::CarryShift(w[0], 44) == w[0] >> 44, "shifts"); dv_ensure((a & w[2]) == (w[0] & w[2]), "mask"); dv_ensure(num(a) == x, "operand unchanged"); dv_cover("end");
}
// ---- the definition: h = (h + block) r mod 2^130-5, tag = (h mod 2^130-5 + s) mod 2^128. The limbs of 44, 44 and 42 bits are the residue's, kept partially reduced.
static const uint64_t M44 = 0xfffffffffffull, M42 = 0x3ffffffffffull;
struct Limbs { uint64_t h[3]; };
// the value modulo 2^130-5, plus s, by limbs
static Bytes finish(Limbs x, const uint64_t s[2]) {
  uint64_t *h = x.h, c; c = h[1] >> 44; h[1] &= M44; h[2] += c; c = h[2] >> 42; h[2] &= M42;
  h[0] += 5 * c; c = h[0] >> 44; h[0] &= M44; h[1] += c; c = h[1] >> 44; h[1] &= M44; h[2] += c; c = h[2] >> 42; h[2] &= M42; h[0] += 5 * c; c = h[0] >> 44; h[0] &= M44; h[1] += c;
  uint64_t g0 = h[0] + 5, g1 = h[1] + (g0 >> 44), g2 = h[2] + (g1 >> 44) - (1ull << 42); g0 &= M44; g1 &= M44;
  uint64_t c2 = 0 - (g2 >> 63); h[0] = (h[0] & c2) | (g0 & ~c2); h[1] = (h[1] & c2) | (g1 & ~c2); h[2] = (h[2] & c2) | (g2 & ~c2);
  h[0] += s[0] & M44; h[1] += ((s[0] >> 44 | s[1] << 20) & M44) + (h[0] >> 44); h[2] += ((s[1] >> 24) & M42) + (h[1] >> 44); h[0] &= M44; h[1] &= M44; h[2] &= M42;
  uint64_t w[2] = {h[0] | h[1] << 44, h[1] >> 20 | h[2] << 24}; Bytes o(16); memcpy(o.data(), w, 16); return o;
}
// the same on the number h[0] + h[1] 2^44 + h[2] 2^88, in words
static Bytes finishNumber(const Limbs &x, const uint64_t s[2]) {
  u128 lo = (u128)x.h[1] << 44, t = (u128)x.h[2] << 88; uint64_t hi = (uint64_t)((u128)x.h[2] >> 40); lo += x.h[0]; lo += t; hi += lo < t;
  for (int i = 0; i < 2; i++) { bool ge = hi > 3 || (hi == 3 && lo >= ~(u128)0 - 4); u128 n = lo + 5; uint64_t nh = hi - 4 + (n < lo); if (ge) { lo = n; hi = nh; } }
  lo += (u128)s[1] << 64 | s[0]; Bytes o(16); uint64_t w[2] = {(uint64_t)lo, (uint64_t)(lo >> 64)}; memcpy(o.data(), w, 16); return o;
}
struct Spec {
  uint64_t r[3], s[2]; Limbs x{{0, 0, 0}};
  Spec(const Bytes &k) {
    uint64_t a = le64(&k[0]) & 0x0ffffffc0fffffffull, b = le64(&k[8]) & 0x0ffffffc0ffffffcull; r[0] = a & M44; r[1] = (a >> 44 | b << 20) & M44; r[2] = b >> 24; s[0] = le64(&k[16]); s[1] = le64(&k[24]);
  }
  void block(const uint8_t *m, uint64_t top) {
    uint64_t a = le64(m), b = le64(m + 8), *h = x.h; h[0] += a & M44; h[1] += (a >> 44 | b << 20) & M44; h[2] += (b >> 24) | top << 40;
    uint64_t t1 = 20 * r[1], t2 = 20 * r[2]; // 2^132 = 20 (mod 2^130-5)
    u128 d[3] = {mul(h[0], r[0]) + mul(h[1], t2) + mul(h[2], t1), mul(h[0], r[1]) + mul(h[1], r[0]) + mul(h[2], t2), mul(h[0], r[2]) + mul(h[1], r[1]) + mul(h[2], r[0])};
    d[1] += (uint64_t)(d[0] >> 44); d[2] += (uint64_t)(d[1] >> 44); h[0] = ((uint64_t)d[0] & M44) + 5 * (uint64_t)(d[2] >> 42); h[1] = ((uint64_t)d[1] & M44) + (h[0] >> 44); h[0] &= M44; h[2] = (uint64_t)d[2] & M42;
  }
  void message(const Bytes &m) { size_t i = 0; for (; i + 16 <= m.size(); i += 16) block(&m[i], 1); if (i < m.size()) { uint8_t t[16] = {0}; memcpy(t, &m[i], m.size() - i); t[m.size() - i] = 1; block(t, 0); } }
  Bytes tag() const { return finish(x, s); }
};
HARNESS(finish) {
  Limbs x; dv_symw(x.h, 3, 8, "limbs"); uint64_t s[2]; dv_symw(s, 2, 8, "s"); dv_assume(x.h[0] <= M44); dv_assume(x.h[1] < (1ull << 44) + (1ull << 26)); dv_assume(x.h[2] <= M42);
  Bytes a = finish(x, s), b = finishNumber(x, s); dv_ensure_eq(a.data(), b.data(), 16, "tag"); dv_cover("end");
}
// the message in parts, by every form of call
static void give(Poly1305 &p, const Bytes &m, size_t cut, int form) {
  size_t n = m.size(), a = n * cut / 4, b = a + (n - a) / 3;
  if (form == 2) { for (size_t i = 0; i < n; i++) p.Update(m, i, 1); return; }
  if (a) p.Update(m, 0, a); p.Update(m, a, b - a); p.Update(m, b, n - b);
}
static Bytes tagOf(Poly1305 &p, const Bytes &m, size_t cut, int form) {
  Bytes o(16);
  if (form == 0) { p.Compute(m, o); return o; }
  give(p, m, cut, form); if (form == 3) { SecureVector<uint8_t> t(19); dv_ensure(p.Finalize(t, 2) == 16, "size of the tag"); dv_ensure(t[0] == 0 && t[1] == 0 && t[18] == 0, "nothing beside the tag"); for (int i = 0; i < 16; i++) o[i] = t[2 + i]; return o; }
  Bytes t(20); dv_ensure(p.Finalize(t, 3) == 16, "size of the tag"); dv_ensure(t[0] == 0 && t[2] == 0 && t[19] == 0, "nothing beside the tag"); memcpy(o.data(), &t[3], 16); return o;
}
static const size_t lens[] = {0, 1, 15, 16, 17, 31, 32, 33, 48, 61, 64, 80};
HARNESS(poly) {
  int form = dv_choose("form", 0, 3), z = dv_choose("length", 0, 11), cut = (form + z) % 4; SUMS; Bytes k = any(32, "key"), m = any(lens[z], "message"); Poly1305 p; Cipher::SymmetricKey kp(k); p.Initialize(kp); Spec s(k); s.message(m); Bytes t = tagOf(p, m, cut, form), w = s.tag(); dv_ensure_eq(t.data(), w.data(), 16, "tag");
  Bytes k2 = any(32, "key 2"), m2 = any(lens[(z + 5) % 12], "message 2"); Cipher::SymmetricKey kp2(k2); p.Initialize(kp2); Spec s2(k2); s2.message(m2); t = tagOf(p, m2, 3 - cut, form); w = s2.tag(); dv_ensure_eq(t.data(), w.data(), 16, "tag of a second key"); dv_cover("end");
}
// r = 1 and 2, where sums come close to 2^130-5
HARNESS(edges) {
  int e = dv_choose("r", 0, 1), z = dv_choose("length", 0, 2); static const size_t n[] = {16, 21, 32}; Bytes k = any(32, "key"), m = any(n[z], "message"); for (int i = 0; i < 16; i++) k[i] = 0; SUMS; k[0] = e ? 2 : 1;
  Poly1305 p; Cipher::SymmetricKey kp(k); p.Initialize(kp); Spec s(k); s.message(m); Bytes t = tagOf(p, m, 0, 0), w = s.tag(); dv_ensure_eq(t.data(), w.data(), 16, "tag"); dv_cover("end");
}

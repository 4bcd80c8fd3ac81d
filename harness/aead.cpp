#include "dv.h"
#include <functional>
#include "mock_cipher.h"
#include "CMUL.h"
#include "GCM.h"
#include "GHASH.h"
#include "HBA.h"
#include "uf_dgst.h"
using namespace mock; using namespace CEX::Cipher::Block::Mode; using CEX::Exception::CryptoAuthenticationFailure; using CEX::Exception::CryptoCipherModeException;
static Bytes any(size_t n, const char *name) { Bytes b(n); if (n) dv_sym(b.data(), n, name); return b; }
using spec::cat;
namespace spec {
static void put64(uint8_t *p, uint64_t v) { for (int i = 0; i < 8; i++) p[i] = (uint8_t)(v >> (56 - 8 * i)); }
static void mulH(const uint8_t *h, uint8_t *x) { uint8_t t[32]; memcpy(t, h, 16); memcpy(t + 16, x, 16); uint8_t o[16]; dv_uf("gmul", o, 16, t, 32); memcpy(x, o, 16); }
static void ghashAdd(const uint8_t *h, uint8_t *y, const Bytes &m) { for (size_t i = 0; i < m.size(); i += 16) { for (size_t j = i; j < i + 16 && j < m.size(); j++) y[j - i] ^= m[j]; mulH(h, y); } }
static void ghashLen(const uint8_t *h, uint8_t *y, uint64_t a, uint64_t c) { uint8_t l[16]; put64(l, 8 * a); put64(l + 8, 8 * c); for (int j = 0; j < 16; j++) y[j] ^= l[j]; mulH(h, y); }
static void ctr(uint8_t *c, Bytes &x) { uint8_t t[16]; for (size_t i = 0; i < x.size(); i += 16) { E(c, t); putBe128(c, be128(c) + 1); for (size_t j = i; j < i + 16 && j < x.size(); j++) x[j] ^= t[j - i]; } }
// SP 800-38D; the counter is the whole block, as the library's CTR (it differs only after 2^32 blocks, beyond the standard's limit)
static Bytes gcm(const Bytes &iv, const Bytes &aad, const Bytes &pt) {
  uint8_t h[16] = {0}, j0[16] = {0}, c[16], y[16] = {0}, k[16]; E(h, h);
  if (iv.size() == 12) { memcpy(j0, iv.data(), 12); j0[15] = 1; } else { ghashAdd(h, j0, iv); ghashLen(h, j0, 0, iv.size()); }
  memcpy(c, j0, 16); putBe128(c, be128(c) + 1); Bytes o(pt); ctr(c, o);
  ghashAdd(h, y, aad); ghashAdd(h, y, o); ghashLen(h, y, aad.size(), o.size()); E(j0, k); for (int i = 0; i < 16; i++) o.push_back(y[i] ^ k[i]);
  return o;
}
}
static void c_gmul(std::array<uint64_t, 2> &h, std::array<uint8_t, 16> &x) { uint8_t k[16]; spec::put64(k, h[0]); spec::put64(k + 8, h[1]); spec::mulH(k, x.data()); }
static void gmuls() { counters(); REPLACE("CEX::Numeric::CMUL::PermuteR128P128C", c_gmul); REPLACE("CEX::Numeric::CMUL::PermuteR128P128U", c_gmul); REPLACE("CEX::Numeric::CMUL::PermuteR128P128V", c_gmul); }
template<class G> static void aadIn(G &g, const Bytes &aad, size_t form) {
  if (aad.size()) { Bytes w = any(aad.size() + 3, "around"); memcpy(w.data() + 1, aad.data(), aad.size()); if (form & 1) { CEX::SecureVector<uint8_t> s(w.size()); memcpy(s.data(), w.data(), w.size()); g.SetAssociatedData(s, 1, aad.size()); } else g.SetAssociatedData(w, 1, aad.size()); }
}
template<class G> static void start(G &g, bool enc, const Bytes &key, const Bytes &iv, const Bytes &aad, size_t form) {
  SymmetricKey kp(key, iv); g.Initialize(enc, kp); aadIn(g, aad, form);
}
// want: ciphertext and tag; the data lies in the middle of larger arrays
template<class G> static void seal(G &g, const Bytes &pt, const Bytes &want) {
  size_t n = pt.size(), T = want.size() - n; Bytes in = any(n + 6, "in"), o = any(n + T + 7, "out"), inWas, was = o; if (n) memcpy(in.data() + 2, pt.data(), n); inWas = in;
  g.Transform(in, 2, o, 3, n);
  dv_ensure_eq(o.data() + 3, want.data(), n + T, "ciphertext and tag"); dv_ensure_eq(o.data(), was.data(), 3, "before"); dv_ensure_eq(o.data() + 3 + n + T, was.data() + 3 + n + T, 4, "after"); dv_ensure_eq(in.data(), inWas.data(), in.size(), "input unchanged");
}
template<class G> static void open(G &g, const Bytes &pt, const Bytes &sealed) {
  size_t n = pt.size(), T = sealed.size() - n; Bytes in = any(n + T + 5, "in"), o = any(n + 6, "out"), was = o, inWas; memcpy(in.data() + 2, sealed.data(), n + T); inWas = in;
  g.Transform(in, 2, o, 3, n);
  dv_ensure_eq(o.data() + 3, pt.data(), n, "plaintext"); dv_ensure_eq(o.data(), was.data(), 3, "before"); dv_ensure_eq(o.data() + 3 + n, was.data() + 3 + n, 3, "after"); dv_ensure_eq(in.data(), inWas.data(), in.size(), "input unchanged");
}
static size_t pick(size_t i, std::initializer_list<size_t> l) { return l.begin()[i % l.size()]; }
// GCM, one message after another on one object, in both directions, also over an unfinished one and with only another nonce
HARNESS(gcm) {
  size_t part = dv_choose("part", 0, 7); gmuls(); BlockFn *b = new BlockFn; GCM g(b); Bytes key = any(16, "key");
  for (size_t i = 0; i < 20; i++) {
    size_t n = 8 * i % 75 + part; Bytes iv = any(pick(i, {12, 12, 16, 13, 12, 8, 31, 32, 33, 12, 60}), "iv"), aad = any(pick(i + part, {0, 1, 16, 0, 15, 20, 32, 40, 0}), "aad"), pt = any(n, "pt"), want = spec::gcm(iv, aad, pt);
    if (i % 4 == 1) start(g, i & 8, key, any(pick(i, {16, 12, 20}), "unused iv"), any(pick(i, {0, 9, 16}), "unused aad"), i);
    bool rekey = i % 3 != 2; if (rekey) key = any(pick(i, {16, 24, 32}), "key");
    start(g, i % 2, rekey ? key : Bytes(), iv, aad, i);
    dv_ensure(b->keySeen == key, "the cipher has the key");
    if (i % 2) seal(g, pt, want); else open(g, pt, want);
    dv_ensure_eq(g.Tag().data(), want.data() + n, 16, "the tag is available");
    dv_ensure(!g.IsInitialized(), "the nonce is used up");
  }
  dv_cover("end");
}
// associated data that does not lie within the array is refused
template<class G> static void aadBounds(G &g) {
  size_t n = dv_choose("size", 0, 3) * 5; Bytes a = any(n, "aad"); CEX::SecureVector<uint8_t> s(n); int refused = 0;
  size_t off[] = {0, n, n + 1, n / 2, n + 9, 1}, len[] = {n + 1, 1, 0, n, n + 9, n};
  for (int i = 0; i < 6; i++) { if (off[i] + len[i] <= n) { refused += 2; continue; } try { g.SetAssociatedData(a, off[i], len[i]); } catch (CryptoCipherModeException &) { refused++; } try { g.SetAssociatedData(s, off[i], len[i]); } catch (CryptoCipherModeException &) { refused++; } }
  dv_ensure(refused == 12, "refused");
}
HARNESS(aad_bounds) {
  gmuls(); ufd::hashes();
  if (dv_choose("mode", 0, 1)) { GCM g(new BlockFn); start(g, true, any(16, "key"), any(12, "iv"), Bytes(), 0); aadBounds(g); } else { HBA g(new BlockFn, StreamAuthenticators::HMACSHA2256); SymmetricKey kp(any(16, "key"), any(16, "iv")); g.Initialize(true, kp); aadBounds(g); }
  dv_cover("end");
}
// a tag that differs in any way is refused and no plaintext is written
HARNESS(gcm_forged) {
  size_t n = pick(dv_choose("length", 0, 3), {0, 5, 16, 37}); gmuls(); GCM g(new BlockFn);
  Bytes iv = any(12, "iv"), aad = any(n, "aad"), pt = any(n, "pt"), sealed = spec::gcm(iv, aad, pt), bad = sealed; Bytes t = any(16, "difference"); uint8_t diff = 0;
  for (int i = 0; i < 16; i++) { diff |= t[i]; bad[n + i] ^= t[i]; } dv_assume(diff != 0);
  start(g, false, any(16, "key"), iv, aad, 0); Bytes o = any(n + 2, "out"), was = o; bool refused = false;
  try { g.Transform(bad, 0, o, 1, n); } catch (CryptoAuthenticationFailure &) { refused = true; }
  dv_ensure(refused, "a wrong tag is refused"); dv_ensure_eq(o.data(), was.data(), o.size(), "no plaintext is released"); dv_cover("end");
}

// HBA: the keys come from cSHAKE or HKDF, the tag covers associated data, nonce, ciphertext and count, and each message has its own MAC key
namespace spec {
static Bytes hmac2(bool wide, Bytes k, const Bytes &m) { size_t B = wide ? 128 : 64; auto h = wide ? sha512 : sha256; if (k.size() > B) k = h(k); k.resize(B); Bytes i(k), q(k); for (auto &x : i) x ^= 0x36; for (auto &x : q) x ^= 0x5c; cat(i, m); cat(q, h(i)); return h(q); }
static Bytes le(uint64_t v, int n) { Bytes o(n); for (int i = 0; i < n; i++) o[i] = (uint8_t)(v >> (8 * i)); return o; }
static Bytes hkdf2(bool wide, const Bytes &key, const Bytes &salt, const Bytes &info, size_t n) { Bytes prk = hmac2(wide, salt, key), t, o; for (int i = 1; o.size() < n; i++) { Bytes x = t; cat(x, info); x.push_back((uint8_t)i); t = hmac2(wide, prk, x); cat(o, t); } o.resize(n); return o; }
struct Hba {
  int kind; Bytes custom, label, cipherKey, macKey, nonce, pending; uint64_t counter; bool wide; size_t kbits; // kind 0, 1: KMAC256, KMAC512; 2, 3: HMAC SHA2256, SHA2512
  Bytes name() const { Bytes n = le(counter, 8); cat(n, le(kbits, 2)); cat(n, label); return n; }
  size_t rate() const { return kind == 1 ? 72 : 136; }
  size_t tag() const { return kind & 1 ? 64 : 32; }
  void init(const Bytes &key, const Bytes &iv, const Bytes &info) {
    counter = 1; kbits = 8 * key.size(); custom = info; nonce = iv; pending.clear(); wide = key.size() == 64;
    if (kind < 2) {
      Bytes m = customPad(name(), custom, rate()); cat(m, key); Sponge s(rate()); s.absorbFinal(m, 4); cipherKey = s.squeeze(key.size()); s.p(); macKey = s.squeeze(kind == 1 ? 64 : 32);
    } else {
      size_t k = wide ? 64 : 32; Bytes o = hkdf2(wide, key, name(), custom, 2 * k); cipherKey.assign(o.begin(), o.begin() + k); macKey.assign(o.begin() + k, o.end());
    }
  }
  void aad(const Bytes &a) { if (a.size()) { cat(pending, a); cat(pending, le(a.size(), 4)); } }
  Bytes crypt(const Bytes &x) { Bytes o = x; for (size_t i = 0; i < o.size(); i += 16) { uint8_t t[16]; E(nonce.data(), t); putLe128(nonce.data(), le128(nonce.data()) + 1); for (size_t j = i; j < i + 16 && j < o.size(); j++) o[j] ^= t[j - i]; } return o; }
  Bytes seal(const Bytes &pt) {
    cat(pending, nonce); Bytes o = crypt(pt); cat(pending, o); counter += pt.size(); cat(pending, le(counter + 16 + 8, 8));
    cat(o, kind < 2 ? kmac(macKey, Bytes{'K', 'M', 'A', 'C'}, Bytes(), pending, rate(), tag()) : hmac2(kind == 3, macKey, pending)); pending.clear();
    macKey = kind < 2 ? cshake(macKey, name(), custom, rate(), tag()) : hkdf2(wide, macKey, name(), custom, wide ? 64 : 32); return o;
  }
};
}
static const StreamAuthenticators hbaKinds[] = {StreamAuthenticators::KMAC256, StreamAuthenticators::KMAC512, StreamAuthenticators::HMACSHA2256, StreamAuthenticators::HMACSHA2512};
static const char *hbaLabels[] = {"HBA-AES-KMAC256", "HBA-AES-KMAC512", "HBA-AES-HMACSHA2256", "HBA-AES-HMACSHA2512"};
static void hbaInit(HBA &g, spec::Hba &s, bool enc, const Bytes &key, const Bytes &iv, const Bytes &info) { SymmetricKey kp(key, iv, info); g.Initialize(enc, kp); s.init(key, iv, info); }
struct HbaMade { BlockFn *b; HBA *g; spec::Hba s; };
static HbaMade hbaMake(int kind) { counters(); ufd::hashes(); BlockFn *b = new BlockFn; b->sizes.push_back(SymmetricKeySize(64, 16, 0)); HbaMade m{b, new HBA(b, hbaKinds[kind])}; m.s.kind = kind; const char *l = hbaLabels[kind]; m.s.label.assign(l, l + strlen(l)); return m; }
HARNESS(hba) {
  HbaMade m = hbaMake(dv_choose("authenticator", 0, 3)); size_t part = dv_choose("part", 0, 3);
  for (size_t i = 0; i < 5; i++) {
    size_t k = pick(i + part, {16, 32, 64, 24, 32}); bool enc = (i + part) & 1;
    hbaInit(*m.g, m.s, enc, any(k, "key"), any(16, "iv"), any(pick(i, {0, 5, 16, 32, 0}), "info")); dv_ensure(m.b->keySeen == m.s.cipherKey, "the cipher key is derived from the key");
    for (size_t j = 0; j < 3; j++) {
      size_t n = 13 * (i + part + 3 * j) % 83; Bytes pt = any(n, "pt");
      for (size_t a = 0; a < (i + j) % 3; a++) { Bytes aad = any(pick(i + j + a + part, {20, 1, 0, 16, 3, 70}), "aad"); aadIn(*m.g, aad, a + j); m.s.aad(aad); }
      Bytes want = m.s.seal(pt);
      if (enc) seal(*m.g, pt, want); else open(*m.g, pt, want);
      dv_ensure_eq(m.g->Tag().data(), want.data() + n, m.s.tag(), "the tag is available");
    }
    if (i % 2) { Bytes aad = any(9, "unused aad"); aadIn(*m.g, aad, 0); }
  }
  dv_cover("end");
}
HARNESS(hba_forged) {
  HbaMade m = hbaMake(dv_choose("authenticator", 0, 3)); size_t n = pick(dv_choose("length", 0, 3), {0, 5, 16, 37}), T = m.s.tag();
  hbaInit(*m.g, m.s, false, any(32, "key"), any(16, "iv"), any(0, "info")); Bytes aad = any(n, "aad"), pt = any(n, "pt"); aadIn(*m.g, aad, 0); m.s.aad(aad);
  Bytes sealed = m.s.seal(pt), bad = sealed, t = any(T, "difference"); uint8_t diff = 0;
  for (size_t i = 0; i < T; i++) { diff |= t[i]; bad[n + i] ^= t[i]; } dv_assume(diff != 0);
  Bytes o = any(n + 2, "out"), was = o; bool refused = false;
  try { m.g->Transform(bad, 0, o, 1, n); } catch (CryptoAuthenticationFailure &) { refused = true; }
  dv_ensure(refused, "a wrong tag is refused"); dv_ensure_eq(o.data(), was.data(), o.size(), "no plaintext is released"); dv_cover("end");
}
// with room for the text but not for the tag, sealing is refused, and opening an input that ends before its tag does: nothing is touched out of bounds
template<class M> static void shortData(M &m, bool enc, size_t T) {
  size_t n = 37, missing[] = {1, T / 2, T}; int refused = 0;
  for (size_t k : missing) { Bytes x = any(enc ? n : 2 + n + T - k, "in"), o = any(enc ? 3 + n + T - k : 3 + n, "out"); try { m.Transform(x, enc ? 0 : 2, o, 3, n); } catch (CryptoCipherModeException &) { refused++; } }
  dv_ensure(refused == 3, "refused"); dv_cover("end");
}
HARNESS(short_data) {
  bool hba = dv_choose("mode", 0, 1), enc = dv_choose("encrypting", 0, 1);
  if (!hba) { gmuls(); GCM g(new BlockFn); start(g, enc, any(16, "key"), any(12, "iv"), Bytes(), 0); shortData(g, enc, 16); }
  else { HbaMade m = hbaMake(dv_choose("authenticator", 0, 3)); hbaInit(*m.g, m.s, enc, any(32, "key"), any(16, "iv"), Bytes()); shortData(*m.g, enc, m.s.tag()); }
}
// any number of bytes sealed or opened before
HARNESS(hba_far) {
  HbaMade m = hbaMake(dv_choose("authenticator", 0, 3)); bool enc = dv_choose("encrypting", 0, 1);
  hbaInit(*m.g, m.s, enc, any(32, "key"), any(16, "iv"), any(0, "info"));
  auto one = [&](size_t n) { Bytes pt = any(n, "pt"), want = m.s.seal(pt); if (enc) seal(*m.g, pt, want); else open(*m.g, pt, want); };
  one(1013); uint64_t v; dv_sym(&v, 8, "count"); dv_assume(v < 1ull << 63); m.s.counter = 0; if (dv_poke(1014, v, 8)) { m.s.counter = v; dv_cover("any count"); } else m.s.counter = 1014;
  one(21); one(3); dv_cover("end");
}
// the lengths GHASH closes with, every 61-bit number of bytes
HARNESS(ghash_lengths) {
  gmuls(); CEX::Digest::GHASH g; std::vector<uint64_t> k(2); dv_symw(k.data(), 2, 8, "h"); g.Initialize(k); uint64_t a, t; dv_sym(&a, 8, "aad length"); dv_sym(&t, 8, "text length"); dv_assume(a < 1ull << 61); dv_assume(t < 1ull << 61);
  Bytes x = any(32, "x"), o(16); uint8_t h[16], y[16] = {0}; spec::put64(h, k[0]); spec::put64(h + 8, k[1]); g.Update(x, 0, o, 32); g.Finalize(o, a, t); spec::ghashAdd(h, y, x); spec::ghashLen(h, y, a, t); dv_ensure_eq(o.data(), y, 16, "hash"); dv_cover("end");
}

#include "dv.h"
#include <functional>
#include "mock_cipher.h"
#include "ChaCha.h"
#include "Threefish.h"
#include "ChaChaP20.h"
#include "CSX512.h"
#include "TSX256.h"
#include "TSX512.h"
#include "TSX1024.h"
#include "RCS.h"
#include "RWS.h"
#include "SymmetricSecureKey.h"
#include "AsymmetricSecureKey.h"
#include "SystemTools.h"
#include "key_container.h"
#include "spec_aes.h"
#include "uf_dgst.h"
using namespace mock; using namespace CEX::Cipher::Stream; using CEX::Exception::CryptoAuthenticationFailure; using CEX::Exception::CryptoSymmetricException; using CEX::ParallelOptions;
using spec::cat;
static Bytes any(size_t n, const char *name) { Bytes b(n); if (n) dv_sym(b.data(), n, name); return b; }
static Bytes str(const char *s) { return Bytes(s, s + strlen(s)); }
static Bytes le(uint64_t v, int n) { Bytes o(n); for (int i = 0; i < n; i++) o[i] = (uint8_t)(v >> (8 * i)); return o; }
static size_t pick(size_t i, std::initializer_list<size_t> l) { return l.begin()[i % l.size()]; }
// ---- the generators under their contracts (P02 proves them): a block is an unknown function of key material and counter
static void block(const char *name, const Bytes &mat, const uint8_t *ctr, size_t cn, uint8_t *out, size_t on) { Bytes x(mat); x.insert(x.end(), ctr, ctr + cn); dv_uf(name, out, on, x.data(), x.size()); }
template<class W> struct Words { static constexpr const char *name = sizeof(W) == 4 ? "chacha" : "csx"; static constexpr size_t B = 16 * sizeof(W); };
template<class W, size_t L> static void c_chacha(Bytes &out, size_t off, std::array<W, 2 * L> &c, std::array<W, 14> &s) {
  dv_ensure(off <= out.size() && out.size() - off >= Words<W>::B * L, "the keystream lies within its array");
  Bytes mat(14 * sizeof(W)); memcpy(mat.data(), s.data(), mat.size());
  for (size_t l = 0; l < L; l++) { W x[2] = {c[l], c[L + l]}; block(Words<W>::name, mat, (uint8_t *)x, sizeof x, out.data() + off + Words<W>::B * l, Words<W>::B); }
}
template<class W, size_t L, size_t R> static void c_chachaR(Bytes &out, size_t off, std::array<W, 2 * L> &c, std::array<W, 14> &s, size_t rounds) { dv_ensure(rounds == R, "the number of rounds"); c_chacha<W, L>(out, off, c, s); }
template<size_t N, size_t L> static void c_tf(const std::array<uint64_t, N> &k, const std::array<uint64_t, 2 * L> &c, const std::array<uint64_t, 2> &t, std::array<uint64_t, N * L> &s) {
  Bytes mat(8 * N + 16); memcpy(mat.data(), k.data(), 8 * N); memcpy(mat.data() + 8 * N, t.data(), 16);
  for (size_t l = 0; l < L; l++) { uint64_t x[2] = {c[l], c[L + l]}; block("threefish", mat, (uint8_t *)x, 16, (uint8_t *)(s.data() + N * l), 8 * N); }
}
template<size_t N, size_t L, size_t R> static void c_tfR(const std::array<uint64_t, N> &k, const std::array<uint64_t, 2 * L> &c, const std::array<uint64_t, 2> &t, std::array<uint64_t, N * L> &s, size_t rounds) { dv_ensure(rounds == R, "the number of rounds"); c_tf<N, L>(k, c, t, s); }
template<class W> struct Wide; template<> struct Wide<uint32_t> { using T = uint64_t; }; template<> struct Wide<uint64_t> { using T = unsigned __int128; };
template<class W> static void addW(const std::array<W, 2> &a, std::array<W, 2> &b, uint64_t n) { using T = typename Wide<W>::T; T v = ((T)a[1] << (8 * sizeof(W)) | a[0]) + n; b[0] = (W)v; b[1] = (W)(v >> (8 * sizeof(W))); }
template<class W> static void c_incW(std::array<W, 2> &a) { addW(a, a, 1); }
template<class W, class N> static void c_addW(const std::array<W, 2> &a, std::array<W, 2> &b, N n) { addW(a, b, n); }
#define A4(n) "std::array<unsigned int, " n "ull>"
#define A8(n) "std::array<unsigned long long, " n "ull>"
static void generators() {
  ufd::hashes(); counters();
  REPLACE("CEX::Cipher::Stream::ChaCha::PermuteR20P512U<" VB ", " A4("2") ", " A4("14") ">", (c_chacha<uint32_t, 1>)); REPLACE("CEX::Cipher::Stream::ChaCha::PermuteP512C<" VB ", " A4("2") ", " A4("14") ">", (c_chachaR<uint32_t, 1, 20>));
  REPLACE("CEX::Cipher::Stream::ChaCha::PermuteP8x512H<" VB ", " A4("16") ", " A4("14") ">", (c_chachaR<uint32_t, 8, 20>));
  REPLACE("CEX::Cipher::Stream::ChaCha::PermuteP1024C<" VB ", " A8("2") ", " A8("14") ">", (c_chachaR<uint64_t, 1, 40>)); REPLACE("CEX::Cipher::Stream::ChaCha::PermuteP4x1024H<" VB ", " A8("8") ", " A8("14") ">", (c_chachaR<uint64_t, 4, 40>));
  REPLACE("CEX::Cipher::Stream::Threefish::PemuteR72P256U<" A8("2") ", " A8("4") ">", (c_tf<4, 1>)); REPLACE("CEX::Cipher::Stream::Threefish::PemuteP256C<" A8("2") ", " A8("4") ">", (c_tfR<4, 1, 72>));
  REPLACE("CEX::Cipher::Stream::Threefish::PemuteR96P512U<" A8("2") ", " A8("8") ">", (c_tf<8, 1>)); REPLACE("CEX::Cipher::Stream::Threefish::PemuteP512C<" A8("2") ", " A8("8") ">", (c_tfR<8, 1, 96>));
  REPLACE("CEX::Cipher::Stream::Threefish::PemuteR120P1024U<" A8("2") ", " A8("16") ">", (c_tf<16, 1>)); REPLACE("CEX::Cipher::Stream::Threefish::PemuteP1024C<" A8("2") ", " A8("16") ">", (c_tfR<16, 1, 120>));
  REPLACE("CEX::Cipher::Stream::Threefish::PemuteP4x256H<" A8("2") ", " A8("4") ", " A8("8") ", " A8("16") ">", (c_tfR<4, 4, 72>));
  REPLACE("CEX::Cipher::Stream::Threefish::PemuteP4x512H<" A8("2") ", " A8("8") ", " A8("32") ">", (c_tfR<8, 4, 96>));
  REPLACE("CEX::Cipher::Stream::Threefish::PemuteP4x1024H<" A8("2") ", " A8("8") ", " A8("16") ", " A8("64") ">", (c_tfR<16, 4, 120>));
  REPLACE("CEX::Tools::IntegerTools::LeIncrementW<" A4("2") ">", c_incW<uint32_t>); REPLACE("CEX::Tools::IntegerTools::LeIncrementW<" A8("2") ">", c_incW<uint64_t>);
  REPLACE("CEX::Tools::IntegerTools::LeIncreaseW<" A4("2") ", " A4("2") ">", (c_addW<uint32_t, uint64_t>)); REPLACE("CEX::Tools::IntegerTools::LeIncreaseW<" A8("2") ", " A8("2") ">", (c_addW<uint64_t, uint64_t>));
}
namespace spec {
// KMAC as the library's ciphers use it: keyed once; a further message goes on from the state the last tag left
struct Kmac {
  Sponge s{136}; size_t tag; Bytes msg;
  void init(const Bytes &key, size_t rate, size_t t) { s = Sponge(rate); tag = t; msg.clear(); s.absorb(customPad(Bytes{'K', 'M', 'A', 'C'}, Bytes(), rate)); s.absorb(bytePad(encStr(key), rate)); }
  void in(const Bytes &b) { cat(msg, b); }
  Bytes out() { cat(msg, encNum(8 * tag, false)); s.absorbFinal(msg, 4); msg.clear(); return s.squeeze(tag); }
};
// A stream cipher: output block i is an unknown function of the key material and the counter, which has cw bytes of the counter array
struct Stream {
  const char *name; size_t B, keyLen, ivLen, infoLen; const char *fn; bool auth, lenCoded; Bytes label; uint64_t start;
  Bytes mat, ctr, key; uint64_t count; Kmac mac; size_t rate, tag;
  virtual void load(const Bytes &k, const Bytes &iv, const Bytes &info) = 0;
  virtual void derive(Bytes &ck, Bytes &mk, const Bytes &k, const Bytes &info) = 0;
  virtual void blk(uint8_t *o) { block(fn, mat, ctr.data(), ctr.size(), o, B); }
  virtual Bytes last() { return le(count, 8); }
  void init(const Bytes &k, const Bytes &iv, const Bytes &info) {
    count = start; if (!auth) { load(k, iv, info); return; }
    Bytes ck, mk; derive(ck, mk, k, info); load(ck, iv, info); mac.init(mk, rate, tag);
  }
  void inc() { if (ctr.size() == 8) { uint64_t v; memcpy(&v, ctr.data(), 8); v++; memcpy(ctr.data(), &v, 8); } else putLe128(ctr.data(), le128(ctr.data()) + 1); }
  Bytes crypt(const Bytes &x) { Bytes o(x), t(B); for (size_t i = 0; i < x.size(); i += B) { blk(t.data()); inc(); for (size_t j = i; j < i + B && j < x.size(); j++) o[j] ^= t[j - i]; } return o; }
  void aad(const Bytes &a) { mac.in(a); if (lenCoded) mac.in(le(a.size(), 4)); }
  Bytes seal(const Bytes &pt) { if (!auth) return crypt(pt); mac.in(ctr); Bytes o = crypt(pt); mac.in(o); count += pt.size(); mac.in(last()); cat(o, mac.out()); return o; }
  size_t tagSize() const { return auth ? tag : 0; }
  virtual ~Stream() {}
};
struct SChaCha : Stream { // and CSX
  bool big; Bytes def;
  SChaCha(bool b, bool a) : big(b) { name = b ? "CSX512" : "ChaChaP20"; B = b ? 128 : 64; keyLen = b ? 64 : 32; ivLen = b ? 16 : 8; infoLen = b ? 48 : 16; fn = b ? "csx" : "chacha"; auth = a; lenCoded = b; label = str(b ? "CSX512-KMAC512" : "ChaChaP20-KMAC256"); start = 0; rate = b ? 72 : 136; tag = b ? 64 : 32; def = str(b ? "CSX512 KMAC authentication ver. 1c CEX++ library" : "expand 32-byte k"); }
  void load(const Bytes &k, const Bytes &iv, const Bytes &info) override { const Bytes &code = info.size() ? info : def; mat.clear(); if (big) { mat = k; cat(mat, code); ctr = iv; } else { mat = code; cat(mat, k); cat(mat, iv); ctr = Bytes(8); } }
  void derive(Bytes &ck, Bytes &mk, const Bytes &k, const Bytes &) override { Sponge s(rate); Bytes m = customPad(label, Bytes(), rate); cat(m, k); s.absorbFinal(m, 4); ck = s.squeeze(keyLen); s.p(); mk = s.squeeze(tag); }
};
struct STsx : Stream {
  Bytes def;
  STsx(int kind, bool a) { name = kind == 0 ? "TSX256" : kind == 1 ? "TSX512" : "TSX1024"; B = keyLen = 32 << kind; ivLen = 16; infoLen = 16; fn = "threefish"; auth = a; lenCoded = true; label = str(kind == 0 ? "TSX256-KMAC256" : kind == 1 ? "TSX512-KMAC512" : "TSX1024-KMAC512"); start = 1; rate = kind ? 72 : 136; tag = 32 << kind; def = str(kind == 0 ? "ThreefishP256R72" : kind == 1 ? "ThreefishP512R96" : "Threefish1024120"); def.resize(16); }
  void load(const Bytes &k, const Bytes &iv, const Bytes &info) override { mat = k; cat(mat, info.size() ? info : def); ctr = iv; }
  void derive(Bytes &ck, Bytes &mk, const Bytes &k, const Bytes &) override { Sponge s(rate); Bytes c = last(); Bytes m = customPad(Bytes(), c, rate); cat(m, k); s.absorbFinal(m, 4); ck = s.squeeze(keyLen); s.p(); mk = s.squeeze(rate == 72 ? 64 : 32); }
  Bytes last() override { Bytes c = le(count, 8); cat(c, label); return c; }
};
// Rijndael with a block of 256 or 512 bits, round keys from cSHAKE; the first 16 bytes of the nonce are a little-endian counter
struct SRijndael : Stream {
  bool big; AesTab t; size_t rounds = 0; Bytes custom, fresh;
  SRijndael(bool b, bool a, size_t k) : big(b) { name = b ? "RWS" : "RCS"; B = ivLen = b ? 64 : 32; keyLen = k; infoLen = 16; auth = a; lenCoded = true; start = b ? 0 : 1; rate = k == 16 ? 168 : k == 32 ? 136 : 72; tag = k; rounds = b ? (k == 16 ? 20 : k == 32 ? 40 : 80) : k == 32 ? 22 : 30; label = str(name); if (a && k > 16) cat(label, str(k == 32 ? "K256" : "K512")); }
  void derive(Bytes &ck, Bytes &mk, const Bytes &k, const Bytes &info) override {
    Bytes n = le(start, 8); cat(n, le(8 * keyLen, 2)); cat(n, label); size_t r = keyLen == 16 && !big ? 136 : rate; Sponge s(r); Bytes m = customPad(n, info, r); cat(m, k); s.absorbFinal(m, 4); ck = s.squeeze(B * (rounds + 1)); s.p(); mk = s.squeeze(tag);
  }
  void load(const Bytes &k, const Bytes &iv, const Bytes &info) override { if (auth) mat = k; else { Bytes mk; derive(mat, mk, k, info); } ctr = iv; }
  Bytes last() override { return le(count + B + 8, 8); }
  static uint8_t times2(uint8_t x) { return (uint8_t)(x << 1 ^ (x >> 7) * 0x1b); }
  bool whole = false; // the block is the unknown function that stands for the rounds (harness one_block proves the rounds)
  void blk(uint8_t *o) override {
    if (whole) { block("rijndael", mat, ctr.data(), B, o, B); return; }
    size_t C = B / 4, sh256[] = {0, 1, 3, 4}, sh512[] = {1, 2, 4, 8}, *sh = big ? sh512 : sh256; uint8_t s[64], n[64]; for (size_t i = 0; i < B; i++) s[i] = ctr[i] ^ mat[i];
    for (size_t r = 1; r <= rounds; r++) {
      for (size_t c = 0; c < C; c++) for (size_t w = 0; w < 4; w++) n[w + 4 * c] = t.s[s[w + 4 * ((c + sh[w]) % C)]];
      if (r != rounds) for (size_t c = 0; c < C; c++) { uint8_t *q = n + 4 * c, a = q[0], b = q[1], d = q[2], e = q[3]; if (big) { q[0] = times2(a ^ b) ^ b ^ d ^ e; q[1] = times2(b ^ d) ^ a ^ d ^ e; q[2] = times2(d ^ e) ^ a ^ b ^ e; q[3] = times2(e ^ a) ^ a ^ b ^ d; } else { q[0] = t.m[2][a] ^ t.m[3][b] ^ d ^ e; q[1] = a ^ t.m[2][b] ^ t.m[3][d] ^ e; q[2] = a ^ b ^ t.m[2][d] ^ t.m[3][e]; q[3] = t.m[3][a] ^ b ^ d ^ t.m[2][e]; } }
      for (size_t i = 0; i < B; i++) s[i] = n[i] ^ mat[B * r + i];
    }
    memcpy(o, s, B);
  }
};
}
static spec::SRijndael *ghost;
template<size_t B> static void c_rijndael(void *, const Bytes &in, size_t io, Bytes &out, size_t oo) { dv_ensure(io + B <= in.size() && oo + B <= out.size(), "the block lies within its arrays"); block("rijndael", ghost->mat, in.data() + io, B, out.data() + oo, B); }
static void roundsContract(spec::Stream *s) { if (s->B != s->ivLen) return; ghost = static_cast<spec::SRijndael *>(s); ghost->whole = true; REPLACE("CEX::Cipher::Stream::RCS::Transform256", c_rijndael<32>); REPLACE("CEX::Cipher::Stream::RWS::Transform512", c_rijndael<64>); }
static IStreamCipher *make(int kind, bool auth, spec::Stream *&s) {
  switch (kind) {
    case 0: s = new spec::SChaCha(false, auth); return new ChaChaP20(auth);
    case 1: s = new spec::SChaCha(true, auth); return new CSX512(auth);
    case 2: s = new spec::STsx(0, auth); return new TSX256(auth);
    case 3: s = new spec::STsx(1, auth); return new TSX512(auth);
    case 4: s = new spec::STsx(2, auth); return new TSX1024(auth);
    case 5: s = new spec::SRijndael(false, auth, 32); return new RCS(auth);
    case 6: s = new spec::SRijndael(false, auth, 64); return new RCS(auth);
    case 7: s = new spec::SRijndael(true, auth, 16); return new RWS(auth);
    case 8: s = new spec::SRijndael(true, auth, 32); return new RWS(auth);
    default: s = new spec::SRijndael(true, auth, 64); return new RWS(auth);
  }
}
static void init(IStreamCipher *c, spec::Stream *s, bool enc, bool info) { Bytes k = any(s->keyLen, "key"), iv = any(s->ivLen, "iv"), i = any(info ? s->infoLen : 0, "info"); SymmetricKey kp(k, iv, i); c->Initialize(enc, kp); s->init(k, iv, i); dv_ensure(c->IsInitialized() && c->IsEncryption() == enc, "state after Initialize"); }
// one call on data in the middle of larger arrays. enc: the cipher encrypts
static void run(IStreamCipher *c, spec::Stream *s, bool enc, size_t n, size_t ioff, size_t ooff) {
  Bytes pt = any(n, "data"), sealed = s->seal(pt); size_t T = s->tagSize(), ni = enc ? n : n + T, no = enc ? n + T : n; const Bytes &x = enc ? pt : sealed, &want = enc ? sealed : pt;
  Bytes in = any(ioff + ni + 5, "in"), o = any(ooff + no + 7, "out"); if (ni) memcpy(in.data() + ioff, x.data(), ni); Bytes inWas = in, was = o;
  c->Transform(in, ioff, o, ooff, n);
  dv_ensure_eq(o.data() + ooff, want.data(), no, "output"); dv_ensure_eq(o.data(), was.data(), ooff, "before"); dv_ensure_eq(o.data() + ooff + no, was.data() + ooff + no, 7, "after"); dv_ensure_eq(in.data(), inWas.data(), in.size(), "input unchanged");
  if (T) dv_ensure_eq(c->Tag().data(), sealed.data() + n, T, "the tag is available");
}
// messages one after another: every length around the block and the wide block, with and without re-keying
HARNESS(sequential) {
  int kind = dv_choose("cipher", 0, 9); bool auth = dv_choose("authenticated", 0, 1); size_t part = dv_choose("part", 0, 3); generators(); spec::Stream *s; IStreamCipher *c = make(kind, auth, s); if (auth || kind >= 7) roundsContract(s);
  c->ParallelProfile().IsParallel() = false; size_t B = s->B;
  for (size_t i = 0; i < 4; i++) {
    bool enc = (i + part) & 1; init(c, s, enc, (i ^ part) & 2);
    for (size_t j = 0; j < 3; j++) {
      size_t n = pick(3 * (i + part) + j, {0, 1, B, B - 1, 3 * B + 7, 4 * B, 8 * B, B + 1, 9 * B + 5, 2 * B, 12 * B + 1, 3});
      if (auth) for (size_t a = 0; a < (i + j) % 3; a++) { Bytes x = any(pick(i + j + a + part, {20, 1, 136, 16, 3, 70}), "aad"), w = any(x.size() + 3, "around"); memcpy(w.data() + 1, x.data(), x.size()); c->SetAssociatedData(w, 1, x.size()); s->aad(x); }
      run(c, s, enc, n, 2 * j, 3 * (2 - j));
    }
    if (auth && i % 2) { Bytes x = any(9, "unused aad"); c->SetAssociatedData(x, 0, 9); }
  }
  dv_cover("end");
}
// the same result when the work is shared between threads
HARNESS(parallel) {
  int kind = dv_choose("cipher", 0, 9); bool auth = dv_choose("authenticated", 0, 1); size_t degree = 2 * dv_choose("degree / 2", 1, 2), extra = dv_choose("extra", 0, 3); generators(); spec::Stream *s; IStreamCipher *c = make(kind, auth, s); if (auth || kind >= 7) roundsContract(s);
  c->ParallelProfile().IsParallel() = true; c->ParallelProfile().SetMaxDegree(degree); c->ParallelProfile().SetBlockSize(c->ParallelProfile().ParallelMinimumSize());
  size_t n = c->ParallelProfile().ParallelMinimumSize(), B = s->B; dv_ensure(n <= 16 * degree * B, "small enough to be worth sharing");
  init(c, s, extra & 1, false); run(c, s, extra & 1, n + pick(extra, {0, 5, B + 1, 3 * degree * B + B - 1}), extra, 3 * (extra & 1) + 1); run(c, s, extra & 1, 2 * B + 3, 0, 0);
  dv_cover("end");
}
// a tag that differs in any way is refused and no plaintext is written
HARNESS(forged) {
  int kind = dv_choose("cipher", 0, 9); size_t n = pick(dv_choose("length", 0, 2), {0, 5, 300}); generators(); spec::Stream *s; IStreamCipher *c = make(kind, true, s); roundsContract(s);
  c->ParallelProfile().IsParallel() = false; init(c, s, false, false); size_t T = s->tag; Bytes sealed = s->seal(any(n, "data")), bad = sealed, t = any(T, "difference"); uint8_t diff = 0;
  for (size_t i = 0; i < T; i++) { diff |= t[i]; bad[n + i] ^= t[i]; } dv_assume(diff != 0);
  Bytes o = any(n + 2, "out"), was = o; bool refused = false;
  try { c->Transform(bad, 0, o, 1, n); } catch (CryptoAuthenticationFailure &) { refused = true; }
  dv_ensure(refused, "a wrong tag is refused"); dv_ensure_eq(o.data(), was.data(), o.size(), "no plaintext is released"); dv_cover("end");
}
// keys and nonces of any other size are refused, and so is info where the cipher fixes its size
HARNESS(sizes) {
  int kind = dv_choose("cipher", 0, 8); bool auth = dv_choose("authenticated", 0, 1); generators(); spec::Stream *s; IStreamCipher *c = make(kind, auth, s);
  size_t k = s->keyLen, v = s->ivLen, i = s->infoLen, n = kind == 1 || kind >= 5 ? 8 : 11, bad[][3] = {{k - 1, v, 0}, {k + 1, v, 0}, {0, v, 0}, {k / 2 + 3, v, i}, {k, v - 1, 0}, {k, v + 1, 0}, {k, 0, 0}, {k, 2 * v, i}, {k, v, i - 1}, {k, v, i + 1}, {k, v, 1}}; size_t refused = 0;
  for (size_t j = 0; j < n; j++) { SymmetricKey kp(any(bad[j][0], "key"), any(bad[j][1], "iv"), any(bad[j][2], "info")); try { c->Initialize(true, kp); } catch (CryptoSymmetricException &) { refused++; } dv_ensure(!c->IsInitialized(), "not initialized"); }
  dv_ensure(refused == n, "refused"); dv_cover("end");
}
// with room for the text but not for the tag, sealing is refused, and opening an input that ends before its tag does: nothing is written out of bounds
HARNESS(bounds) {
  int kind = dv_choose("cipher", 0, 9); bool enc = dv_choose("encrypting", 0, 1); generators(); spec::Stream *s; IStreamCipher *c = make(kind, true, s); roundsContract(s);
  c->ParallelProfile().IsParallel() = false; init(c, s, enc, false); size_t T = s->tag, missing[] = {1, T / 2, T}, n = 2 * s->B + 3; int refused = 0;
  for (size_t m : missing) {
    Bytes x = any(enc ? n : 2 + n + T - m, "in"), o = any(enc ? 3 + n + T - m : 3 + n, "out");
    try { c->Transform(x, enc ? 0 : 2, o, 3, n); } catch (CryptoSymmetricException &) { refused++; }
  }
  dv_ensure(refused == 3, "refused"); dv_cover("end");
}
HARNESS(one_block) {
  int kind = dv_choose("cipher", 5, 9); generators(); spec::Stream *s; IStreamCipher *c = make(kind, false, s); c->ParallelProfile().IsParallel() = false;
  init(c, s, true, true); run(c, s, true, kind < 7 ? 17 * s->B + 3 : s->B, 3, 1); dv_cover("end");
}
// a long stream: after 37 blocks the position (of ChaCha, whose counter starts at zero: the others count in the nonce, which is any) and the number of bytes authenticated so far become any number
HARNESS(far) {
  int kind = dv_choose("cipher", 0, 9); bool auth = dv_choose("authenticated", 0, 1), enc = dv_choose("encrypting", 0, 1); generators(); spec::Stream *s; IStreamCipher *c = make(kind, auth, s); if (auth || kind >= 7) roundsContract(s);
  c->ParallelProfile().IsParallel() = false; size_t B = s->B; init(c, s, enc, false); run(c, s, enc, 37 * B - 2, 0, 0);
  if (s->ctr.size() == 8) { uint64_t v; dv_sym(&v, 8, "position"); s->ctr[0] = 0; if (dv_poke(37, v, 8)) { memcpy(s->ctr.data(), &v, 8); dv_cover("any position"); } else s->ctr[0] = 37; }
  if (auth) { uint64_t v; dv_sym(&v, 8, "count"); dv_assume(v < 1ull << 63); uint64_t was = s->count; s->count = 0; if (dv_poke(was, v, 8)) { s->count = v; dv_cover("any count"); } else s->count = was; }
  run(c, s, enc, 9 * B + 5, 1, 2); run(c, s, enc, 3, 1, 2); dv_cover("end");
}
// a cipher restored from its saved state goes on as the original: in mid-stream, and authenticated from its initialization on
static IStreamCipher *restore(int kind, IStreamCipher *c) {
  if (kind == 0) { CEX::SecureVector<uint8_t> t = static_cast<ChaChaP20 *>(c)->Serialize(); return new ChaChaP20(t); }
  if (kind == 1) { CEX::SecureVector<uint8_t> t = static_cast<CSX512 *>(c)->Serialize(); return new CSX512(t); }
  if (kind <= 6) { CEX::SecureVector<uint8_t> t = static_cast<RCS *>(c)->Serialize(); return new RCS(t); }
  CEX::SecureVector<uint8_t> t = static_cast<RWS *>(c)->Serialize(); return new RWS(t);
}
HARNESS(restored) {
  int kind = dv_choose("cipher", 0, 6); if (kind > 1) kind += 3; bool auth = dv_choose("authenticated", 0, 1), enc = dv_choose("encrypting", 0, 1), info = dv_choose("info", 0, 1); generators(); spec::Stream *s; IStreamCipher *c = make(kind, auth, s); roundsContract(s);
  c->ParallelProfile().IsParallel() = false; init(c, s, enc, info); if (!auth) run(c, s, enc, 2 * s->B + 5, 0, 0);
  IStreamCipher *d = restore(kind, c); delete c; d->ParallelProfile().IsParallel() = false;
  dv_ensure(d->IsInitialized() && d->IsEncryption() == enc && d->IsAuthenticator() == auth && d->Name() == restore(kind, d)->Name(), "the restored cipher names itself as the original");
  if (auth) { Bytes x = any(7, "aad"); d->SetAssociatedData(x, 0, 7); s->aad(x); }
  run(d, s, enc, 3 * s->B + 1, 2, 3); run(d, s, enc, 4, 0, 1); bool e2 = !enc; init(d, s, e2, !info); run(d, s, e2, s->B + 2, 0, 0); dv_cover("end");
}
// a key held encrypted in memory under what the machine tells about itself: the machine's answers are the same for the life of the process
static std::string answer(const char *n) { uint8_t b[4]; dv_uf(n, b, 4, (const uint8_t *)n, strlen(n)); return std::string((char *)b, 4); }
static std::string c_computer() { return answer("computer name"); }
static std::string c_os() { return answer("operating system"); }
static std::string c_userid() { return answer("user id"); }
static std::string c_username() { return answer("user name"); }
static uint32_t c_process() { std::string s = answer("process"); uint32_t v; memcpy(&v, s.data(), 4); return v; }
static void machine() {
  generators();
  REPLACE("CEX::Tools::SystemTools::ComputerName[abi:cxx11]", c_computer); REPLACE("CEX::Tools::SystemTools::OsName[abi:cxx11]", c_os); REPLACE("CEX::Tools::SystemTools::UserId[abi:cxx11]", c_userid); REPLACE("CEX::Tools::SystemTools::UserName[abi:cxx11]", c_username); REPLACE("CEX::Tools::SystemTools::ProcessId", c_process);
}
HARNESS(secure_key) {
  using CEX::Cipher::SymmetricSecureKey; using CEX::Enumeration::SecurityPolicy; machine();
  int p = dv_choose("policy", 0, 6), parts = dv_choose("parts", 1, 3), sec = dv_choose("secure", 0, 1), z = dv_choose("sizes", 0, 6); const size_t *n = keys::sizes[z];
  if ((parts == 1 && !n[0]) || (parts == 2 && n[0] + n[1] == 0)) { dv_cover("end"); return; }
  const SecurityPolicy ps[] = {SecurityPolicy::None, SecurityPolicy::SPL256, SecurityPolicy::SPL256AE, SecurityPolicy::SPL512, SecurityPolicy::SPL512AE, SecurityPolicy::SPL1024, SecurityPolicy::SPL1024AE};
  Bytes key = any(n[0], "key"), iv = any(parts > 1 ? n[1] : 0, "iv"), info = any(parts > 2 ? n[2] : 0, "info"), salt = any(p ? 9 : 0, "salt");
  keys::container(p ? keys::makeWith<SymmetricSecureKey>(parts, sec, key, iv, info, ps[p], salt) : keys::make<SymmetricSecureKey>(parts, sec, key, iv, info), key, iv, info);
}
HARNESS(secure_polynomial) {
  using namespace CEX::Asymmetric; using namespace CEX::Enumeration; machine();
  int p = dv_choose("policy", 1, 6), sec = dv_choose("secure", 0, 1); size_t n = pick(dv_choose("size", 0, 3), {1, 32, 100, 300}); Bytes poly = any(n, "polynomial"), salt = any(dv_choose("salt", 0, 1) ? 9 : 0, "salt");
  const SecurityPolicy ps[] = {SecurityPolicy::None, SecurityPolicy::SPL256, SecurityPolicy::SPL256AE, SecurityPolicy::SPL512, SecurityPolicy::SPL512AE, SecurityPolicy::SPL1024, SecurityPolicy::SPL1024AE};
  const AsymmetricPrimitives prim = AsymmetricPrimitives::Kyber; const AsymmetricKeyTypes cls = AsymmetricKeyTypes::CipherPrivateKey; const AsymmetricParameters par = AsymmetricParameters::KYBERS3P2400;
  auto *k = sec ? new AsymmetricSecureKey(keys::lock(poly), keys::lock(salt), prim, cls, par, ps[p]) : new AsymmetricSecureKey(poly, salt, prim, cls, par, ps[p]);
  for (int t = 0; t < 2; t++) { keys::same(k->Polynomial(), poly, "polynomial"); CEX::SecureVector<uint8_t> o(n + 3 * t); k->SecurePolynomial(o); dv_ensure_eq(o.data(), poly.data(), n, "secure polynomial"); }
  CEX::SecureVector<uint8_t> s = AsymmetricSecureKey::Serialize(*k); dv_ensure(s.size() == n + 3, "the size of the stream"); dv_ensure(k->PrimitiveType() == prim && k->KeyClass() == cls && k->Parameters() == par, "types");
  AsymmetricKey *d = AsymmetricSecureKey::DeSerialize(s); keys::same(d->Polynomial(), poly, "restored polynomial"); dv_ensure(d->PrimitiveType() == prim && d->KeyClass() == cls && d->Parameters() == par, "restored types"); delete k; keys::same(d->Polynomial(), poly, "restored polynomial"); dv_cover("end");
}

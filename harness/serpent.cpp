#include "dv.h"
#include "spec_serpent.h"
#include "SHX.h"
#include "SymmetricKey.h"
#include "Serpent.h"
#include "UInt256.h"
using namespace CEX;
using namespace CEX::Cipher;
using namespace CEX::Cipher::Block;
using Bytes = std::vector<uint8_t>;
using CEX::Numeric::UInt256;
// Contract of box i on words and on vectors of eight words.
template<int I, bool INV> static void box1(uint32_t &a, uint32_t &b, uint32_t &c, uint32_t &d) {
  uint32_t x[4] = {a, b, c, d}; spec::serpWord(I, INV, x); a = x[0]; b = x[1]; c = x[2]; d = x[3];
}
template<int I, bool INV> static void box8(UInt256 &a, UInt256 &b, UInt256 &c, UInt256 &d) {
  uint32_t *p[4] = {(uint32_t *)&a, (uint32_t *)&b, (uint32_t *)&c, (uint32_t *)&d};
  for (int l = 0; l < 8; l++) { uint32_t x[4]; for (int j = 0; j < 4; j++) x[j] = p[j][l]; spec::serpWord(I, INV, x); for (int j = 0; j < 4; j++) p[j][l] = x[j]; }
}
#define B1(i) REPLACE("CEX::Cipher::Block::SerpentBase::Sb" #i "<unsigned int>", (box1<i, false>)); REPLACE("CEX::Cipher::Block::SerpentBase::Ib" #i "<unsigned int>", (box1<i, true>)); \
  REPLACE("CEX::Cipher::Block::SerpentBase::Sb" #i "<CEX::Numeric::UInt256>", (box8<i, false>)); REPLACE("CEX::Cipher::Block::SerpentBase::Ib" #i "<CEX::Numeric::UInt256>", (box8<i, true>));
static void opaqueBoxes() { spec::serpOpaque = true; B1(0) B1(1) B1(2) B1(3) B1(4) B1(5) B1(6) B1(7) }
template<class T> static void callBox(int i, bool inv, T &a, T &b, T &c, T &d) {
  using namespace CEX::Cipher::Block::SerpentBase;
#define CB(k) if (i == k) { if (inv) Ib##k(a, b, c, d); else Sb##k(a, b, c, d); }
  CB(0) CB(1) CB(2) CB(3) CB(4) CB(5) CB(6) CB(7)
}
HARNESS(serpent_box) {
  int i = dv_choose("box", 0, 7); bool inv = dv_choose("inv", 0, 1), wide = dv_choose("wide", 0, 1);
  uint8_t tab[16]; if (inv) spec::serpInv(spec::serpS[i], tab); else memcpy(tab, spec::serpS[i], 16);
  uint32_t w[4][8]; dv_symw(w, 32, 4, "w");
  if (!wide) {
    uint32_t a = w[0][0], b = w[1][0], c = w[2][0], d = w[3][0], x[4] = {a, b, c, d};
    callBox(i, inv, a, b, c, d); spec::serpBox(tab, x);
    dv_ensure(a == x[0], "a"); dv_ensure(b == x[1], "b"); dv_ensure(c == x[2], "c"); dv_ensure(d == x[3], "d");
  } else {
    UInt256 a, b, c, d; memcpy(&a, w[0], 32); memcpy(&b, w[1], 32); memcpy(&c, w[2], 32); memcpy(&d, w[3], 32);
    callBox(i, inv, a, b, c, d);
    for (int l = 0; l < 8; l++) {
      uint32_t x[4] = {w[0][l], w[1][l], w[2][l], w[3][l]}; spec::serpBox(tab, x);
      dv_ensure(((uint32_t *)&a)[l] == x[0], "a"); dv_ensure(((uint32_t *)&b)[l] == x[1], "b"); dv_ensure(((uint32_t *)&c)[l] == x[2], "c"); dv_ensure(((uint32_t *)&d)[l] == x[3], "d");
    }
  }
  dv_cover("end");
}
static void run(bool enc, size_t nblk, size_t form, size_t kl) {
  opaqueBoxes();
  Bytes key(kl); dv_sym(key.data(), kl, "key");
  size_t off = form ? 5 : 0, n = 16 * nblk;
  Bytes in(n + 2 * off), out(n + 2 * off), was;
  dv_sym(in.data(), in.size(), "in"); dv_sym(out.data(), out.size(), "out"); was = out; Bytes in0 = in;
  SHX c(Enumeration::BlockCipherExtensions::None);
  SymmetricKey kp(key);
  c.Initialize(enc, kp);
  dv_ensure(c.IsInitialized() && c.IsEncryption() == enc && c.BlockSize() == 16, "state after Initialize");
  if (nblk == 1) switch (form) {
    case 0: c.Transform(in, out); break;
    case 1: c.Transform(in, off, out, off); break;
    case 2: if (enc) c.EncryptBlock(in, off, out, off); else c.DecryptBlock(in, off, out, off); break;
    case 3: in0 = in = Bytes(in.begin() + off, in.begin() + off + 16); in.resize(16); off = 0; was = out; if (enc) c.EncryptBlock(in, out); else c.DecryptBlock(in, out); break;
  }
  else if (nblk == 2) c.Transform256(in, off, out, off);
  else if (nblk == 4) c.Transform512(in, off, out, off);
  else if (nblk == 8) c.Transform1024(in, off, out, off);
  else c.Transform2048(in, off, out, off);
  uint32_t rk[164]; int nr = spec::serpKeys(key.data(), kl, rk);
  dv_ensure(c.Rounds() == (size_t)nr, "rounds");
  for (size_t b = 0; b < nblk; b++) {
    uint8_t want[16];
    if (enc) spec::serpEnc(rk, nr, in.data() + off + 16 * b, want); else spec::serpDec(rk, nr, in.data() + off + 16 * b, want);
    dv_ensure_eq(out.data() + off + 16 * b, want, 16, "block");
  }
  dv_ensure_eq(out.data(), was.data(), off, "before");
  dv_ensure_eq(out.data() + off + n, was.data() + off + n, out.size() - off - n, "after");
  dv_ensure_eq(in.data(), in0.data(), in.size(), "input");
  dv_cover("end");
}
static size_t klen(uint64_t i) { return i == 3 ? 64 : 16 + 8 * i; }
HARNESS(serpent_enc) { size_t k = klen(dv_choose("keylen", 0, 3)); run(true, 1, dv_choose("form", 0, 3), k); }
HARNESS(serpent_dec) { size_t k = klen(dv_choose("keylen", 0, 3)); run(false, 1, dv_choose("form", 0, 3), k); }
HARNESS(serpent_wide) { bool e = dv_choose("enc", 0, 1); size_t b = (size_t)2 << dv_choose("width", 0, 3); run(e, b, dv_choose("form", 0, 1), klen(2 + dv_choose("ext", 0, 1))); }
#include "mock_kdf.h"
// With key extension: Serpent of 40 or 48 rounds whose round keys an arbitrary derivation function gives.
HARNESS(serpent_extended) {
  opaqueBoxes();
  bool enc = dv_choose("enc", 0, 1); size_t kl = (size_t)32 << dv_choose("keylen", 0, 1), form = dv_choose("form", 0, 2);
  using Enumeration::Kdfs; const Kdfs kinds[] = {Kdfs::HKDF256, Kdfs::HKDF512, Kdfs::SHAKE256, Kdfs::SHAKE512}; const char *names[] = {"SHXH256", "SHXH512", "SHXS256", "SHXS512"};
  size_t kind = dv_choose("kind", 0, 3), off = 3, nb = form == 2 ? 8 : 1, n = 16 * nb;
  mock::KdfFn kdf(kinds[kind]);
  { SHX c(&kdf);
    dv_ensure(c.Name() == names[kind], "the cipher's name");
    for (int again = 0; again < 2; again++) {
      Bytes key(kl), iv, info(again ? 0 : 5); dv_sym(key.data(), kl, "key"); if (info.size()) dv_sym(info.data(), info.size(), "info");
      Bytes in(n + 2 * off), out(n + 2 * off), was; dv_sym(in.data(), in.size(), "in"); dv_sym(out.data(), out.size(), "out"); was = out; Bytes in0 = in;
      SymmetricKey kp(key, iv, info); c.Initialize(enc, kp);
      dv_ensure(c.IsInitialized() && c.IsEncryption() == enc, "state after Initialize");
      if (form == 0) c.Transform(in, off, out, off); else if (form == 1) { if (enc) c.EncryptBlock(in, off, out, off); else c.DecryptBlock(in, off, out, off); } else c.Transform1024(in, off, out, off);
      int nr = kl == 32 ? 40 : 48; Bytes cust; std::string nm = names[kind]; cust.assign(nm.begin(), nm.end()); cust.push_back((uint8_t)(8 * kl)); cust.push_back((uint8_t)(8 * kl >> 8)); cust.insert(cust.end(), info.begin(), info.end());
      Bytes k = mock::K(key, iv, cust, 16 * (nr + 1)); uint32_t rk[4 * 49]; for (int i = 0; i < 4 * (nr + 1); i++) rk[i] = spec::le(k.data() + 4 * i);
      uint8_t want[16]; dv_ensure(c.Rounds() == (size_t)nr, "rounds");
      for (size_t b = 0; b < nb; b++) { if (enc) spec::serpEnc(rk, nr, in0.data() + off + 16 * b, want); else spec::serpDec(rk, nr, in0.data() + off + 16 * b, want); memcpy(was.data() + off + 16 * b, want, 16); }
      dv_ensure_eq(out.data(), was.data(), out.size(), "blocks, and nothing else written"); dv_ensure_eq(in.data(), in0.data(), in.size(), "input");
    }
  }
  dv_ensure(kdf.kind == kinds[kind], "the caller's derivation function outlives the cipher"); dv_cover("end");
}

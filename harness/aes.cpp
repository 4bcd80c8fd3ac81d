#include "dv.h"
#include "spec_aes.h"
#include "RHX.h"
#include "SymmetricKey.h"
using namespace CEX;
using namespace CEX::Cipher;
using namespace CEX::Cipher::Block;
using Bytes = std::vector<uint8_t>;

// One contract for every way into the cipher: out = FIPS-197(key, in), the rest of the output untouched.
static void one(bool enc) {
  size_t kl = 16 + 8 * dv_choose("keylen", 0, 2);
  size_t form = dv_choose("form", 0, 3);   // Transform(2), Transform(4), Encrypt/DecryptBlock(2), (4)
  Bytes key(kl); dv_sym(key.data(), kl, "key");
  size_t off = (form & 1) ? 3 : 0;
  Bytes in(16 + 2 * off), out(16 + 2 * off), was;
  dv_sym(in.data(), in.size(), "in"); dv_sym(out.data(), out.size(), "out"); was = out; Bytes in0 = in;
  RHX c(Enumeration::BlockCipherExtensions::None);
  SymmetricKey kp(key);
  c.Initialize(enc, kp);
  dv_ensure(c.IsInitialized() && c.IsEncryption() == enc && c.BlockSize() == 16, "state after Initialize");
  switch (form) {
    case 0: c.Transform(in, out); break;
    case 1: c.Transform(in, off, out, off); break;
    case 2: if (enc) c.EncryptBlock(in, out); else c.DecryptBlock(in, out); break;
    case 3: if (enc) c.EncryptBlock(in, off, out, off); else c.DecryptBlock(in, off, out, off); break;
  }
  spec::AesTab t; uint8_t rk[15][16], want[16];
  int nr = spec::aesExpand(t, key.data(), kl / 4, rk);
  dv_ensure(c.Rounds() == (size_t)nr, "rounds");
  if (enc) spec::aesEnc(t, rk, nr, in.data() + off, want); else spec::aesDec(t, rk, nr, in.data() + off, want);
  dv_ensure_eq(out.data() + off, want, 16, "block");
  dv_ensure_eq(out.data(), was.data(), off, "before");
  dv_ensure_eq(out.data() + off + 16, was.data() + off + 16, off, "after");
  dv_ensure_eq(in.data(), in0.data(), in.size(), "input");
  dv_cover("end");
}
HARNESS(aes_enc) { one(true); }
HARNESS(aes_dec) { one(false); }

HARNESS(aes_wide) {
  bool enc = dv_choose("enc", 0, 1); size_t nb = (size_t)2 << dv_choose("width", 0, 3), kl = 16 + 8 * dv_choose("keylen", 0, 2);
  size_t off = 7, n = 16 * nb;
  Bytes key(kl); dv_sym(key.data(), kl, "key");
  Bytes in(n + 2 * off), out(n + 2 * off), was;
  dv_sym(in.data(), in.size(), "in"); dv_sym(out.data(), out.size(), "out"); was = out; Bytes in0 = in;
  RHX c(Enumeration::BlockCipherExtensions::None);
  SymmetricKey kp(key);
  c.Initialize(enc, kp);
  if (nb == 2) c.Transform256(in, off, out, off);
  else if (nb == 4) c.Transform512(in, off, out, off);
  else if (nb == 8) c.Transform1024(in, off, out, off);
  else c.Transform2048(in, off, out, off);
  spec::AesTab t; uint8_t rk[15][16];
  int nr = spec::aesExpand(t, key.data(), kl / 4, rk);
  for (size_t b = 0; b < nb; b++) {
    uint8_t want[16];
    if (enc) spec::aesEnc(t, rk, nr, in.data() + off + 16 * b, want); else spec::aesDec(t, rk, nr, in.data() + off + 16 * b, want);
    dv_ensure_eq(out.data() + off + 16 * b, want, 16, "block");
  }
  dv_ensure_eq(out.data(), was.data(), off, "before");
  dv_ensure_eq(out.data() + off + n, was.data() + off + n, off, "after");
  dv_ensure_eq(in.data(), in0.data(), in.size(), "input");
  dv_cover("end");
}
#include "mock_kdf.h"
// With key extension: Rijndael of 22 or 30 rounds whose round keys an arbitrary derivation function gives, from the key, the
// cipher's name, the key size in bits and the caller's info.
HARNESS(aes_extended) {
  bool enc = dv_choose("enc", 0, 1); size_t kl = (size_t)32 << dv_choose("keylen", 0, 1), form = dv_choose("form", 0, 2);
  using Enumeration::Kdfs; const Kdfs kinds[] = {Kdfs::HKDF256, Kdfs::HKDF512, Kdfs::SHAKE256, Kdfs::SHAKE512}; const char *names[] = {"RHXH256", "RHXH512", "RHXS256", "RHXS512"};
  size_t kind = dv_choose("kind", 0, 3), off = 3, nb = form == 2 ? 4 : 1, n = 16 * nb;
  mock::KdfFn kdf(kinds[kind]);
  { RHX c(&kdf);
    dv_ensure(c.Name() == names[kind], "the cipher's name");
    for (int again = 0; again < 2; again++) {
      Bytes key(kl), iv, info(again ? 0 : 5); dv_sym(key.data(), kl, "key"); if (info.size()) dv_sym(info.data(), info.size(), "info");
      Bytes in(n + 2 * off), out(n + 2 * off), was; dv_sym(in.data(), in.size(), "in"); dv_sym(out.data(), out.size(), "out"); was = out; Bytes in0 = in;
      SymmetricKey kp(key, iv, info); c.Initialize(enc, kp);
      dv_ensure(c.IsInitialized() && c.IsEncryption() == enc, "state after Initialize");
      if (form == 0) c.Transform(in, off, out, off); else if (form == 1) { if (enc) c.EncryptBlock(in, off, out, off); else c.DecryptBlock(in, off, out, off); } else c.Transform512(in, off, out, off);
      int nr = kl == 32 ? 22 : 30; Bytes cust; std::string nm = names[kind]; cust.assign(nm.begin(), nm.end()); cust.push_back((uint8_t)(8 * kl)); cust.push_back((uint8_t)(8 * kl >> 8)); cust.insert(cust.end(), info.begin(), info.end());
      Bytes k = mock::K(key, iv, cust, 16 * (nr + 1)); uint8_t rk[39][16]; for (int r = 0; r <= nr; r++) for (int i = 0; i < 16; i++) rk[r][i] = k[16 * r + (i ^ 3)];
      static spec::AesTab t; uint8_t want[16]; dv_ensure(c.Rounds() == (size_t)nr, "rounds");
      for (size_t b = 0; b < nb; b++) { if (enc) spec::aesEnc(t, rk, nr, in0.data() + off + 16 * b, want); else spec::aesDec(t, rk, nr, in0.data() + off + 16 * b, want); memcpy(was.data() + off + 16 * b, want, 16); }
      dv_ensure_eq(out.data(), was.data(), out.size(), "blocks, and nothing else written"); dv_ensure_eq(in.data(), in0.data(), in.size(), "input");
    }
  }
  dv_ensure(kdf.kind == kinds[kind], "the caller's derivation function outlives the cipher"); dv_cover("end");
}

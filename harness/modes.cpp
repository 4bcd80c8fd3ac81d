#include "dv.h"
#include <functional>
#include "mock_cipher.h"
#include "ECB.h"
#include "CBC.h"
#include "CTR.h"
#include "ICM.h"
#include "CFB.h"
#include "OFB.h"
using namespace mock; using namespace CEX::Cipher::Block::Mode;
// SP 800-38A over the unknown block cipher. iv is the chaining value and is left at its value after the data.
enum M { mECB, mCBC, mCTR, mICM, mCFB, mOFB };
static void spec(int m, bool enc, uint8_t *iv, const uint8_t *in, uint8_t *out, size_t n, size_t reg) {
  uint8_t t[16];
  switch (m) {
    case mECB: for (size_t i = 0; i + 16 <= n; i += 16) { if (enc) E(in + i, out + i); else D(in + i, out + i); } break;
    case mCBC: for (size_t i = 0; i + 16 <= n; i += 16) {
      if (enc) { for (int j = 0; j < 16; j++) t[j] = iv[j] ^ in[i + j]; E(t, out + i); memcpy(iv, out + i, 16); }
      else { D(in + i, t); for (int j = 0; j < 16; j++) out[i + j] = t[j] ^ iv[j]; memcpy(iv, in + i, 16); } } break;
    case mCTR: case mICM: for (size_t i = 0; i < n; i += 16) {
      E(iv, t); if (m == mCTR) putBe128(iv, be128(iv) + 1); else putLe128(iv, le128(iv) + 1);
      for (size_t j = 0; j < 16 && i + j < n; j++) out[i + j] = in[i + j] ^ t[j]; } break;
    case mCFB: for (size_t i = 0; i + reg <= n; i += reg) {
      E(iv, t); for (size_t j = 0; j < reg; j++) out[i + j] = in[i + j] ^ t[j];
      memmove(iv, iv + reg, 16 - reg); memcpy(iv + 16 - reg, (enc ? out : in) + i, reg); } break;
    case mOFB: for (size_t i = 0; i + reg <= n; i += reg) {
      E(iv, t); for (size_t j = 0; j < reg; j++) out[i + j] = in[i + j] ^ t[j];
      memmove(iv, iv + reg, 16 - reg); memcpy(iv + 16 - reg, t, reg); } break;
  }
}
template<class X> static X *make(IBlockCipher *c, size_t) { return new X(c); }
template<> CFB *make<CFB>(IBlockCipher *c, size_t reg) { return new CFB(c, reg); }
// par: 0 no parallel processing, otherwise the number of tasks. api: 0 Transform with offsets, 1 block calls.
template<class X> static void mode(int m, bool enc, size_t n, size_t reg, size_t par, int api, size_t off) {
  counters();
  BlockFn c; X *x = make<X>(&c, reg);
  Bytes key(32), iv(16); dv_sym(key.data(), 32, "key"); dv_sym(iv.data(), 16, "iv");
  if (par) { x->ParallelProfile().IsParallel() = true; x->ParallelProfile().SetMaxDegree(par); x->ParallelProfile().SetBlockSize(par * 128); dv_ensure(x->ParallelProfile().ParallelBlockSize() == par * 128, "parallel block size"); }
  else x->ParallelProfile().IsParallel() = false;
  if (m == mECB) { SymmetricKey kp(key); x->Initialize(enc, kp); } else { SymmetricKey kp(key, iv); x->Initialize(enc, kp); }
  dv_ensure(x->IsInitialized() && x->IsEncryption() == enc && c.init, "state after Initialize");
  dv_ensure(c.keySeen == key, "the cipher is keyed with the given key");
  Bytes in(n + 2 * off), out(n + 2 * off), want; dv_sym(in.data(), in.size(), "in"); dv_sym(out.data(), out.size(), "out");
  want = out; Bytes in0 = in; uint8_t ch[16]; memcpy(ch, iv.data(), 16);
  if (api == 1) { if (enc) x->EncryptBlock(in, off, out, off); else x->DecryptBlock(in, off, out, off); }
  else if (api == 2) { if (enc) x->EncryptBlock(in, out); else x->DecryptBlock(in, out); }
  else x->Transform(in, off, out, off, n);
  spec(m, enc, ch, in0.data() + off, want.data() + off, n, reg);
  dv_ensure_eq(out.data(), want.data(), want.size(), "output");
  dv_ensure_eq(in.data(), in0.data(), in.size(), "input unchanged");
  // the chaining value: what the next call makes of it
  Bytes in2(16), out2(16), want2(16); dv_sym(in2.data(), 16, "in2");
  x->Transform(in2, 0, out2, 0, reg);
  spec(m, enc, ch, in2.data(), want2.data(), reg, reg);
  dv_ensure_eq(out2.data(), want2.data(), 16, "output of the next call");
  delete x;
  dv_cover("end");
}
static void any(int m, bool enc, size_t n, size_t reg, size_t par, int api, size_t off) {
  switch (m) {
    case mECB: mode<ECB>(m, enc, n, reg, par, api, off); break;
    case mCBC: mode<CBC>(m, enc, n, reg, par, api, off); break;
    case mCTR: mode<CTR>(m, enc, n, reg, par, api, off); break;
    case mICM: mode<ICM>(m, enc, n, reg, par, api, off); break;
    case mCFB: mode<CFB>(m, enc, n, reg, par, api, off); break;
    case mOFB: mode<OFB>(m, enc, n, reg, par, api, off); break;
  }
}
// one block, every interface
HARNESS(mode_block) {
  int m = dv_choose("mode", 0, 5); bool enc = dv_choose("enc", 0, 1); int api = dv_choose("api", 0, 2);
  size_t reg = m == mCFB ? dv_choose("register", 1, 16) : 16;
  any(m, enc, reg, reg, 0, api, api == 2 ? 0 : 3);
}
// whole-block modes, 0 to 18 blocks
HARNESS(mode_blocks) {
  int m = dv_choose("mode", 0, 1); bool enc = dv_choose("enc", 0, 1); any(m, enc, 16 * dv_choose("blocks", 0, 18), 16, 0, 0, 5);
}
HARNESS(mode_feedback) {
  int m = mCFB + dv_choose("ofb", 0, 1); bool enc = dv_choose("enc", 0, 1); size_t reg = m == mCFB ? (size_t)1 << dv_choose("register", 0, 4) : 16;
  any(m, enc, reg * dv_choose("segments", 0, 6), reg, 0, 0, 5);
}
// counter modes, every length to 276 bytes
HARNESS(mode_counter) { int m = mCTR + dv_choose("le", 0, 1); any(m, dv_choose("enc", 0, 1), dv_choose("length", 0, 276), 16, 0, 0, 5); }
// parallel processing gives what sequential processing gives, and its tasks share no memory
HARNESS(mode_parallel) {
  int m = dv_choose("mode", 0, 5); bool enc = dv_choose("enc", 0, 1); size_t tasks = 2 * dv_choose("tasks", 1, 2), groups = dv_choose("groups", 1, 2), tail = 16 * dv_choose("tail", 0, 2);
  if (tail == 32) tail = m == mCTR || m == mICM ? 133 : 144;
  any(m, enc, tasks * 128 * groups + tail, 16, tasks, 0, 5);
}

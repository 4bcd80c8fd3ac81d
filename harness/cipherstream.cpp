// The stream processors over arbitrary engines: what reaches the engine, and what reaches the output.
#include "dv.h"
#include <functional>
#include "mock_cipher.h"
#include "ICipherMode.h"
#include "IPadding.h"
#include "CipherStream.h"
#include "MemoryStream.h"
#include "CipherModeFromName.h"
#include "PaddingFromName.h"
#include "CryptoProcessingException.h"
#include "mock_digest.h"
#include "DigestStream.h"
#include "MacStream.h"
#include "IMac.h"
using namespace mock; using namespace CEX::Cipher::Block::Mode; using CEX::Cipher::Block::Padding::IPadding; using CEX::Enumeration::PaddingModes; using CEX::Enumeration::CipherModes;
using CEX::Processing::CipherStream; using CEX::IO::MemoryStream;
namespace {
// An arbitrary cipher mode: block i of a message becomes an unknown function of the key, i and the block (of the key and i only, in a
// counter mode), whichever calls the message is divided into (P12 proves the division away).
void blockFn(bool enc, bool ctr, uint8_t key, uint64_t i, const uint8_t *in, uint8_t *out) {
  uint8_t t[25]; t[0] = key; memcpy(t + 1, &i, 8); memcpy(t + 9, in, 16);
  if (!ctr) { dv_uf(enc ? "enc" : "dec", out, 16, t, 25); return; }
  uint8_t k[16]; dv_uf("key", k, 16, t, 9); for (int j = 0; j < 16; j++) out[j] = in[j] ^ k[j];
}
class ModeFn final : public ICipherMode {
public:
  CipherModes mode; bool enc = false, init = false, closed = false; uint64_t at = 0; uint8_t key = 0; CEX::ParallelOptions par;
  std::vector<SymmetricKeySize> sizes{SymmetricKeySize(16, 16, 0), SymmetricKeySize(32, 16, 0)};
  ModeFn(CipherModes m) : mode(m), par(16, false, 64, true, 4) {}
  bool ctr() { return mode == CipherModes::CTR || mode == CipherModes::ICM; }
  const size_t BlockSize() override { return 16; }
  const CEX::Enumeration::BlockCiphers CipherType() override { return CEX::Enumeration::BlockCiphers::AES; }
  IBlockCipher *Engine() override { return nullptr; }
  const CipherModes Enumeral() override { return mode; }
  const bool IsEncryption() override { return enc; }
  const bool IsInitialized() override { return init; }
  const bool IsParallel() override { return par.IsParallel(); }
  const std::vector<SymmetricKeySize> &LegalKeySizes() override { return sizes; }
  const std::string Name() override { return "mock"; }
  const size_t ParallelBlockSize() override { return par.ParallelBlockSize(); }
  CEX::ParallelOptions &ParallelProfile() override { return par; }
  void ParallelMaxDegree(size_t) override {}
  void Initialize(bool e, ISymmetricKey &p) override { enc = e; init = true; closed = false; at = 0; key = p.Key()[0]; }
  void Transform(const Bytes &in, size_t io, Bytes &out, size_t oo, size_t n) override {
    dv_ensure(init, "the mode is initialized before use");
    dv_ensure(!closed, "only the last call takes a partial block");
    dv_ensure(ctr() || n % 16 == 0, "a block mode takes whole blocks");
    dv_ensure(io <= in.size() && n <= in.size() - io && oo <= out.size() && n <= out.size() - oo, "transform within its arrays");
    for (size_t i = 0; i < n; i += 16) {
      size_t m = n - i < 16 ? n - i : 16; uint8_t b[16] = {0}, o[16];
      memcpy(b, in.data() + io + i, m); blockFn(enc, ctr(), key, at++, b, o); memcpy(out.data() + oo + i, o, m);
      if (m < 16) closed = true;
    }
  }
  void EncryptBlock(const Bytes &in, Bytes &out) override { EncryptBlock(in, 0, out, 0); }
  void EncryptBlock(const Bytes &in, size_t io, Bytes &out, size_t oo) override { dv_ensure(enc, "encrypting with an encryption key"); Transform(in, io, out, oo, 16); }
  void DecryptBlock(const Bytes &in, Bytes &out) override { DecryptBlock(in, 0, out, 0); }
  void DecryptBlock(const Bytes &in, size_t io, Bytes &out, size_t oo) override { dv_ensure(!enc, "decrypting with a decryption key"); Transform(in, io, out, oo, 16); }
};
// An arbitrary padding: its bytes are unknown, and the end it finds is any place in the block (P19 says which).
uint8_t padByte(uint8_t type, size_t n, size_t i) { uint8_t t[3] = {type, (uint8_t)n, (uint8_t)i}, o; dv_uf("pad", &o, 1, t, 3); return o; }
class PadFn final : public IPadding {
public:
  PaddingModes type; size_t left = 0; const uint8_t *want = nullptr; int finds = 0;
  PadFn(PaddingModes t, size_t l) : type(t), left(l) {}
  const PaddingModes Enumeral() override { return type; }
  const std::string Name() override { return "mock"; }
  void AddPadding(Bytes &b, size_t off, size_t len) override {
    dv_ensure(len <= b.size() && off < len && len - off <= 16, "padding of one block");
    for (size_t i = off; i < len; i++) b[i] = padByte((uint8_t)type, len - off, i - off);
  }
  size_t GetBlockLength(const Bytes &b) override { return GetBlockLength(b, 0, b.size()); }
  size_t GetBlockLength(const Bytes &b, size_t off, size_t len) override {
    dv_ensure(len <= b.size() && off < len && len - off == 16, "the padding of one block is looked for");
    if (want) dv_ensure_eq(b.data() + off, want, 16, "the padding is looked for in the last block"); finds++;
    return off + left;
  }
};
const CipherModes modes[] = {CipherModes::CTR, CipherModes::ICM, CipherModes::CBC, CipherModes::CFB, CipherModes::OFB, CipherModes::ECB};
// The whole transformation: pad, transform block by block; or transform, and drop the padding.
Bytes spec(const Bytes &in, bool enc, bool ctr, uint8_t key, uint8_t pad, size_t left) {
  Bytes m = in, o;
  if (!ctr && enc) { size_t n = 16 - in.size() % 16; for (size_t i = 0; i < n; i++) m.push_back(padByte(pad, n, i)); }
  o.resize((m.size() + 15) / 16 * 16); m.resize(o.size());
  for (size_t i = 0; i < o.size(); i += 16) blockFn(enc, ctr, key, i / 16, m.data() + i, o.data() + i);
  o.resize(ctr ? in.size() : enc ? o.size() : o.size() - 16 + left);
  return o;
}
template<class F> bool refuses(F f) { try { f(); } catch (CEX::Exception::CryptoException &) { return true; } return false; }
size_t pick(size_t i, std::initializer_list<size_t> l) { return l.begin()[i]; }
Bytes any(size_t n, const char *name) { Bytes b(n); if (n) dv_sym(b.data(), n, name); return b; }
// One message through a stream. form: 0 arrays from the start, 1 arrays at offsets with room to spare, 2 streams, 3 streams
// that hold something before, and more than the result behind.
void message(CipherStream &s, bool enc, bool ctr, uint8_t pad, size_t left, PadFn *p, size_t len, int form) {
  Bytes key = any(32, "key"), iv(16), in = any(len, "in"), want = spec(in, enc, ctr, key[0], pad, left), last(16);
  if (!ctr && !enc) blockFn(false, false, key[0], len / 16 - 1, in.data() + len - 16, last.data());
  if (p) { p->want = last.data(); p->left = left; }
  SymmetricKey kp(key, iv); s.Initialize(enc, kp);
  size_t io = form & 1 ? 7 : 0, oo = form & 1 ? 5 : 0;
  Bytes a = any(io, "before"); a.insert(a.end(), in.begin(), in.end());
  if (form < 2) {
    Bytes o = any(oo + len + (form ? 40 : 0), "out"), was = o, a0 = a;
    s.Write(a, io, o, oo);
    if (!ctr) dv_ensure(o.size() == oo + want.size(), "size of the output");
    else dv_ensure(o.size() == was.size(), "size of the output");
    dv_ensure_eq(o.data(), was.data(), oo, "nothing written before the offset");
    dv_ensure_eq(o.data() + oo, want.data(), want.size(), "output");
    if (ctr) dv_ensure_eq(o.data() + oo + len, was.data() + oo + len, was.size() - oo - len, "nothing written behind the output");
    dv_ensure_eq(a.data(), a0.data(), a.size(), "input unchanged");
  } else {
    MemoryStream is(a), os; Bytes head = any(form == 3 ? 90 : 0, "head");
    if (form == 3) { is.Seek(io, CEX::IO::SeekOrigin::Begin); os.Write(head, 0, head.size()); os.Seek(oo, CEX::IO::SeekOrigin::Begin); }
    s.Write(&is, &os);
    dv_ensure(os.Length() == oo + want.size() && os.Position() == oo + want.size(), "size of the output");
    dv_ensure_eq(os.ToArray().data(), head.data(), oo, "nothing written before the position");
    dv_ensure_eq(os.ToArray().data() + oo, want.data(), want.size(), "output");
    dv_ensure_eq(is.ToArray().data(), a.data(), a.size(), "input unchanged"); dv_ensure(is.Position() == io + len, "input read");
  }
  if (p) { p->want = nullptr; }
}
void c_parts(ModeFn &m, size_t par) { m.par.IsParallel() = par != 0; if (par) { m.par.SetMaxDegree(par); m.par.SetBlockSize(m.par.ParallelMinimumSize()); } }
const size_t lens[] = {1, 15, 16, 17, 31, 32, 33, 48, 50};
}
// Encryption and decryption of messages one after another.
HARNESS(write) {
  counters();
  int k = dv_choose("mode", 0, 5), form = dv_choose("form", 0, 3); bool enc = dv_choose("enc", 0, 1), ctr = k < 2;
  ModeFn m(modes[k]); PadFn p(PaddingModes::ESP, 0); c_parts(m, 0);
  { CipherStream s(&m, ctr ? nullptr : &p);
    for (size_t len : lens) { if (!ctr && !enc && len % 16) continue; message(s, enc, ctr, (uint8_t)p.type, len * 5 % 17, &p, len, form); }
    if (!ctr && enc) message(s, enc, ctr, (uint8_t)p.type, 0, &p, 16, form ^ 1);
    for (size_t left = 0; !ctr && !enc && left <= 16; left++) message(s, enc, ctr, (uint8_t)p.type, left, &p, 32, form);
  }
  dv_ensure(m.init && p.type == PaddingModes::ESP && m.BlockSize() == 16, "the caller's instances outlive the stream");
  dv_cover("end");
}
// The same with parallel parts.
HARNESS(parallel) {
  counters();
  int k = pick(dv_choose("mode", 0, 2), {0, 2, 5}), form = dv_choose("form", 0, 3); bool enc = dv_choose("enc", 0, 1), ctr = k < 2;
  ModeFn m(modes[k]); PadFn p(PaddingModes::ESP, 0); c_parts(m, 2); size_t P = m.par.ParallelBlockSize();
  CipherStream s(&m, ctr ? nullptr : &p);
  for (size_t len : {P - 16, P, P + 16, P + 17, 2 * P - 5, 2 * P, 2 * P + 16, 3 * P + 32, 3 * P + 47}) { if (!ctr && !enc && len % 16) continue; message(s, enc, ctr, (uint8_t)p.type, len / 16 * 7 % 17, &p, len, form); }
  dv_cover("end");
}
// Streams made from names: the mode and the padding named are the ones used.
static ModeFn *gMode; static PadFn *gPad;
static ICipherMode *c_mode(CEX::Enumeration::BlockCiphers c, CipherModes m) { dv_ensure(c == CEX::Enumeration::BlockCiphers::AES, "the cipher named"); gMode = new ModeFn(m); c_parts(*gMode, 0); return gMode; }
static IPadding *c_pad(PaddingModes p) { gPad = new PadFn(p, 0); return gPad; }
HARNESS(named) {
  counters();
  REPLACE("CEX::Helper::CipherModeFromName::GetInstance", c_mode); REPLACE("CEX::Helper::PaddingFromName::GetInstance", c_pad);
  int k = dv_choose("mode", 0, 5), form = dv_choose("form", 0, 3); bool ctr = k < 2;
  PaddingModes pads[] = {PaddingModes::ESP, PaddingModes::PKCS7, PaddingModes::X923, PaddingModes::ZeroOne};
  for (PaddingModes pt : pads) {
    gPad = nullptr; CipherStream s(CEX::Enumeration::BlockCiphers::AES, modes[k], pt);
    dv_ensure(gMode->mode == modes[k] && (ctr || gPad->type == pt), "the mode and the padding named");
    for (size_t len : {5, 16, 33}) message(s, true, ctr, (uint8_t)pt, 0, gPad, len, form);
    for (size_t len : {16, 48}) message(s, false, ctr, (uint8_t)pt, 7, gPad, len, form);
  }
  // no padding given for a block mode: X9.23
  ModeFn m(modes[k]); c_parts(m, 0); CipherStream s(&m);
  message(s, true, ctr, (uint8_t)PaddingModes::X923, 0, gPad, 16, form); message(s, true, ctr, (uint8_t)PaddingModes::X923, 0, gPad, 30, form);
  dv_cover("end");
}
// What is no ciphertext of a block mode is refused, and nothing is written.
HARNESS(refused) {
  counters();
  int k = dv_choose("mode", 2, 5);
  ModeFn m(modes[k]); PadFn p(PaddingModes::ESP, 0); c_parts(m, 0); CipherStream s(&m, &p);
  Bytes key(32), iv(16); SymmetricKey kp(key, iv); s.Initialize(false, kp);
  for (size_t n : {1, 15, 17, 31, 40}) {
    Bytes in = any(n, "in"), out = any(n + 16, "out"), was = out; MemoryStream is(in), os;
    dv_ensure(refuses([&] { s.Write(in, 0, out, 0); }) && refuses([&] { s.Write(&is, &os); }), "refused");
    dv_ensure(out.size() == was.size() && os.Length() == 0, "no output"); dv_ensure_eq(out.data(), was.data(), out.size(), "nothing written");
  }
  Bytes bad(15); SymmetricKey kb(bad, iv);
  dv_ensure(refuses([&] { s.Initialize(true, kb); }), "a key of another size is refused");
  try { CipherStream z((ICipherMode *)nullptr); dv_ensure(false, "a stream without a mode is refused"); } catch (CEX::Exception::CryptoException &) {}
  dv_cover("end");
}
// An arbitrary MAC: the tag is an unknown function of the key and the whole message.
class MacFn final : public CEX::Mac::IMac {
public:
  size_t block; bool init = false; Bytes key, msg;
  MacFn(size_t b) : block(b) {}
  Bytes tag(const Bytes &k, const Bytes &m) { Bytes t = k, o(32); t.insert(t.end(), m.begin(), m.end()); std::string n = "mac" + std::to_string(m.size()); dv_uf(n.c_str(), o.data(), 32, t.data(), t.size()); return o; }
  const CEX::Enumeration::Macs Enumeral() override { return CEX::Enumeration::Macs::HMACSHA2256; }
  const size_t BlockSize() override { return block; }
  const bool IsInitialized() override { return init; }
  const std::vector<SymmetricKeySize> LegalKeySizes() override { return {SymmetricKeySize(32, 0, 0), SymmetricKeySize(64, 0, 0)}; }
  const size_t MinimumKeySize() override { return 16; }
  const size_t MinimumSaltSize() override { return 0; }
  const std::string Name() override { return "mock"; }
  const size_t TagSize() override { return 32; }
  void Compute(const Bytes &in, Bytes &out) override { Update(in, 0, in.size()); Finalize(out, 0); }
  void fin(uint8_t *o) { dv_ensure(init, "the MAC is keyed"); Bytes t = tag(key, msg); memcpy(o, t.data(), 32); msg.clear(); }
  size_t Finalize(Bytes &o, size_t f) override { dv_ensure(f <= o.size() && o.size() - f >= 32, "room for the tag"); fin(o.data() + f); return 32; }
  size_t Finalize(CEX::SecureVector<uint8_t> &o, size_t f) override { dv_ensure(f <= o.size() && o.size() - f >= 32, "room for the tag"); fin(o.data() + f); return 32; }
  void Initialize(ISymmetricKey &p) override { key = p.Key(); init = true; msg.clear(); }
  void Reset() override { msg.clear(); init = false; }
  void Update(const Bytes &in, size_t o, size_t n) override { dv_ensure(o <= in.size() && n <= in.size() - o, "MAC input within its array"); msg.insert(msg.end(), in.begin() + o, in.begin() + o + n); }
};
// A digest of messages one after another, from arrays and streams: the digest of the named bytes.
HARNESS(digests) {
  int form = dv_choose("form", 0, 1); size_t par = dv_choose("parallel", 0, 1);
  DigestFn *d = new DigestFn(64, 32); d->par.IsParallel() = false;
  d->wide = par ? 256 : 0;
  CEX::Processing::DigestStream s(d);
  d->Update((uint8_t)1);
  for (size_t len : {1, 63, 64, 65, 128, 200, 255, 256, 257, 320, 512, 700}) {
    size_t off = len % 3; Bytes a = any(off + len + (form ? 0 : 9), "in"), m(a.begin() + off, a.begin() + off + len), r;
    if (form) { MemoryStream is(a); is.Seek(off, CEX::IO::SeekOrigin::Begin); r = s.Compute(&is); dv_ensure(is.Position() == off + len, "input read"); }
    else r = s.Compute(a, off, len);
    dv_ensure(r == H(m, 32), "the digest of the message");
  }
  dv_cover("end");
}
HARNESS(macs) {
  int form = dv_choose("form", 0, 1);
  MacFn m(dv_choose("block", 0, 1) ? 16 : 136);
  { CEX::Processing::MacStream s(&m);
    for (size_t len : {1, 15, 16, 17, 135, 136, 137, 272, 300}) {
      size_t off = len % 3; Bytes k = any(32 + 32 * (len & 1), "key"), a = any(off + len + (form ? 0 : 9), "in"), t(a.begin() + off, a.begin() + off + len), r;
      SymmetricKey kp(k); s.Initialize(kp);
      if (form) { MemoryStream is(a); is.Seek(off, CEX::IO::SeekOrigin::Begin); r = s.Compute(&is); dv_ensure(is.Position() == off + len, "input read"); }
      else r = s.Compute(a, off, len);
      dv_ensure(r == m.tag(k, t), "the tag of the message");
    }
    Bytes k = any(20, "key"); SymmetricKey kp(k); dv_ensure(refuses([&] { s.Initialize(kp); }), "a key of another size is refused");
  }
  dv_ensure(m.init && m.block != 0, "the caller's instance outlives the stream");
  dv_cover("end");
}

// An arbitrary 128-bit block cipher behind the library's block cipher interface: encryption and decryption of a block are
// unknown functions of the block, and the wide transforms act block by block (the contract P01 and P02 prove).
#pragma once
#include "IBlockCipher.h"
#include "ParallelTools.h"
#include "SymmetricKey.h"
#include "SecureVector.h"
namespace mock {
using namespace CEX; using namespace CEX::Cipher; using namespace CEX::Cipher::Block;
using Bytes = std::vector<uint8_t>;
static void E(const uint8_t *in, uint8_t *out) { uint8_t t[16]; dv_uf("E", t, 16, in, 16); memcpy(out, t, 16); }
static void D(const uint8_t *in, uint8_t *out) { uint8_t t[16]; dv_uf("D", t, 16, in, 16); memcpy(out, t, 16); }
class BlockFn final : public IBlockCipher {
public:
  bool enc = false, init = false; size_t inits = 0; Bytes keySeen;
  std::vector<SymmetricKeySize> sizes{SymmetricKeySize(16, 16, 0), SymmetricKeySize(24, 16, 0), SymmetricKeySize(32, 16, 0)};
  void go(bool e, const Bytes &in, size_t io, Bytes &out, size_t oo, size_t n) {
    dv_ensure(init, "the block cipher is initialized before use");
    dv_ensure(io + 16 * n <= in.size() && oo + 16 * n <= out.size(), "block transform stays within its arrays");
    uint8_t t[16 * 16];
    for (size_t i = 0; i < n; i++) { if (e) E(in.data() + io + 16 * i, t + 16 * i); else D(in.data() + io + 16 * i, t + 16 * i); }
    memcpy(out.data() + oo, t, 16 * n);
  }
  const size_t BlockSize() override { return 16; }
  const BlockCiphers Enumeral() override { return BlockCiphers::AES; }
  const bool IsEncryption() override { return enc; }
  const bool IsInitialized() override { return init; }
  const std::vector<SymmetricKeySize> &LegalKeySizes() override { return sizes; }
  const std::string Name() override { return "mock"; }
  const size_t Rounds() override { return 10; }
  const size_t StateCacheSize() override { return 4096; }
  void DecryptBlock(const Bytes &in, Bytes &out) override { dv_ensure(!enc, "decrypting with a decryption key schedule"); go(false, in, 0, out, 0, 1); }
  void DecryptBlock(const Bytes &in, size_t io, Bytes &out, size_t oo) override { dv_ensure(!enc, "decrypting with a decryption key schedule"); go(false, in, io, out, oo, 1); }
  void EncryptBlock(const Bytes &in, Bytes &out) override { dv_ensure(enc, "encrypting with an encryption key schedule"); go(true, in, 0, out, 0, 1); }
  void EncryptBlock(const Bytes &in, size_t io, Bytes &out, size_t oo) override { dv_ensure(enc, "encrypting with an encryption key schedule"); go(true, in, io, out, oo, 1); }
  void Initialize(bool e, ISymmetricKey &p) override { enc = e; init = true; inits++; keySeen = p.Key(); }
  void Transform(const Bytes &in, Bytes &out) override { go(enc, in, 0, out, 0, 1); }
  void Transform(const Bytes &in, size_t io, Bytes &out, size_t oo) override { go(enc, in, io, out, oo, 1); }
  void Transform256(const Bytes &in, size_t io, Bytes &out, size_t oo) override { go(enc, in, io, out, oo, 2); }
  void Transform512(const Bytes &in, size_t io, Bytes &out, size_t oo) override { go(enc, in, io, out, oo, 4); }
  void Transform1024(const Bytes &in, size_t io, Bytes &out, size_t oo) override { go(enc, in, io, out, oo, 8); }
  void Transform2048(const Bytes &in, size_t io, Bytes &out, size_t oo) override { go(enc, in, io, out, oo, 16); }
};
// Counters as 128-bit integers.
static unsigned __int128 be128(const uint8_t *p) { unsigned __int128 v = 0; for (int i = 0; i < 16; i++) v |= (unsigned __int128)p[i] << (8 * (15 - i)); return v; }
static void putBe128(uint8_t *p, unsigned __int128 v) { for (int i = 0; i < 16; i++) p[i] = (uint8_t)(v >> (8 * (15 - i))); }
static unsigned __int128 le128(const uint8_t *p) { unsigned __int128 v = 0; for (int i = 0; i < 16; i++) v |= (unsigned __int128)p[i] << (8 * i); return v; }
static void putLe128(uint8_t *p, unsigned __int128 v) { for (int i = 0; i < 16; i++) p[i] = (uint8_t)(v >> (8 * i)); }
// The contracts of the counter functions (proved in inttools.cpp) and of the parallel loop.
static void c_beInc(Bytes &v) { dv_ensure(v.size() == 16, "counter of 16 bytes"); putBe128(v.data(), be128(v.data()) + 1); }
static void c_leInc(Bytes &v) { dv_ensure(v.size() == 16, "counter of 16 bytes"); putLe128(v.data(), le128(v.data()) + 1); }
template<class N> static void c_beAdd(const Bytes &a, Bytes &b, N n) { dv_ensure(a.size() == 16 && b.size() >= 16, "counters of 16 bytes"); putBe128(b.data(), be128(a.data()) + n); }
template<class N> static void c_leAdd(const Bytes &a, Bytes &b, N n) { dv_ensure(a.size() == 16 && b.size() >= 16, "counters of 16 bytes"); putLe128(b.data(), le128(a.data()) + n); }
// Every schedule of the tasks gives this result when no two of them touch the same memory; that is an obligation.
static void c_parallelFor(size_t from, size_t to, const std::function<void(size_t)> &f) {
  for (size_t i = from; i < to; i++) { dv_task((int64_t)(i - from)); f(i); dv_task(-1); }
  dv_task(-2);
}
#define VB "std::vector<unsigned char, std::allocator<unsigned char>>"
template<class N> static void c_leAdd5(const Bytes &a, Bytes &b, size_t off, size_t len, const N n) { dv_ensure(off == 0 && len == 16 && a.size() >= 16 && b.size() >= a.size(), "a counter of 16 bytes"); if (&a != &b) memcpy(b.data(), a.data(), a.size()); putLe128(b.data(), le128(a.data()) + n); }
static void c_leInc2(Bytes &v, size_t len) { dv_ensure(len == 16 && v.size() >= 16, "a counter of 16 bytes"); putLe128(v.data(), le128(v.data()) + 1); }
static void counters() {
  REPLACE("CEX::Tools::IntegerTools::LeIncrement<" VB ">", c_leInc2);
  REPLACE("CEX::Tools::IntegerTools::LeIncrease8<" VB ", " VB ", unsigned int>", c_leAdd5<uint32_t>);
  REPLACE("CEX::Tools::IntegerTools::LeIncrease8<" VB ", " VB ", unsigned long long>", c_leAdd5<uint64_t>);
  REPLACE("CEX::Tools::IntegerTools::BeIncrement8<" VB ">", c_beInc);
  REPLACE("CEX::Tools::IntegerTools::LeIncrement<" VB ">", c_leInc);
  REPLACE("CEX::Tools::IntegerTools::BeIncrease8<" VB ", " VB ", unsigned int>", c_beAdd<uint32_t>);
  REPLACE("CEX::Tools::IntegerTools::BeIncrease8<" VB ", " VB ", unsigned long long>", c_beAdd<uint64_t>);
  REPLACE("CEX::Tools::IntegerTools::LeIncrease8<" VB ", " VB ", unsigned int>", c_leAdd<uint32_t>);
  REPLACE("CEX::Tools::IntegerTools::LeIncrease8<" VB ", " VB ", unsigned long long>", c_leAdd<uint64_t>);
  REPLACE("CEX::Tools::ParallelTools::ParallelFor", c_parallelFor);
}
}

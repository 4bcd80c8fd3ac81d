// An arbitrary hash function behind the library's digest interface: the digest is an unknown function of the whole message.
#pragma once
#include "dv.h"
#include "IDigest.h"
#include "ParallelOptions.h"
namespace mock {
using Bytes = std::vector<uint8_t>;
static Bytes H(const Bytes &m, size_t size) { Bytes o(size); std::string n = "H" + std::to_string(8 * size) + ":" + std::to_string(m.size()); dv_uf(n.c_str(), o.data(), size, m.data(), m.size()); return o; }
class DigestFn final : public CEX::Digest::IDigest {
public:
  size_t block, size, wide = 0; Bytes msg; CEX::ParallelOptions par;
  DigestFn(size_t b, size_t s) : block(b), size(s), par(b, false, 2048, true, 8) {}
  size_t BlockSize() override { return block; }
  size_t DigestSize() override { return size; }
  const CEX::Enumeration::Digests Enumeral() override { return size == 32 ? CEX::Enumeration::Digests::SHA2256 : CEX::Enumeration::Digests::SHA2512; }
  const bool IsParallel() override { return wide != 0; }
  const std::string Name() override { return "mock"; }
  const size_t ParallelBlockSize() override { return wide; }
  CEX::ParallelOptions &ParallelProfile() override { return par; }
  void ParallelMaxDegree(size_t) override {}
  void Compute(const Bytes &in, Bytes &out) override { Update(in, 0, in.size()); Finalize(out, 0); }
  void Finalize(Bytes &out, size_t o) override { dv_ensure(o <= out.size() && out.size() - o >= size, "digest output within its array"); Bytes h = H(msg, size); memcpy(out.data() + o, h.data(), size); msg.clear(); }
  void Reset() override { msg.clear(); }
  void Update(uint8_t x) override { msg.push_back(x); }
  void Update(uint32_t x) override { add(&x, 4); }
  void Update(uint64_t x) override { add(&x, 8); }
  void Update(const Bytes &in, size_t o, size_t n) override { dv_ensure(o <= in.size() && n <= in.size() - o, "digest input within its array"); if (n) add(in.data() + o, n); }
  void add(const void *p, size_t n) { const uint8_t *q = (const uint8_t *)p; msg.insert(msg.end(), q, q + n); }
};
static void cat(Bytes &a, const Bytes &b) { a.insert(a.end(), b.begin(), b.end()); }
static Bytes hmac(Bytes key, const Bytes &m, size_t block, size_t size) {
  if (key.size() > block) key = H(key, size);
  key.resize(block); Bytes i(key), o(key); for (auto &x : i) x ^= 0x36; for (auto &x : o) x ^= 0x5c;
  cat(i, m); cat(o, H(i, size)); return H(o, size);
}
}

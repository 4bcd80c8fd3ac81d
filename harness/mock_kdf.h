// An arbitrary key derivation function behind the library's interface: the output is an unknown function of key, salt and info.
#pragma once
#include "dv.h"
#include "IKdf.h"
#include "SymmetricKey.h"
#include "SecureVector.h"
namespace mock {
using Bytes = std::vector<uint8_t>;
static Bytes K(const Bytes &key, const Bytes &salt, const Bytes &info, size_t n) {
  Bytes t = key; t.insert(t.end(), salt.begin(), salt.end()); t.insert(t.end(), info.begin(), info.end()); Bytes o(n);
  std::string name = "K" + std::to_string(key.size()) + "." + std::to_string(salt.size()) + "." + std::to_string(info.size()) + ":" + std::to_string(n);
  dv_uf(name.c_str(), o.data(), n, t.data(), t.size()); return o;
}
class KdfFn final : public CEX::Kdf::IKdf {
public:
  CEX::Enumeration::Kdfs kind; bool init = false; Bytes key, salt, info;
  KdfFn(CEX::Enumeration::Kdfs k) : kind(k) {}
  const CEX::Enumeration::Kdfs Enumeral() override { return kind; }
  const bool IsInitialized() override { return init; }
  const size_t MinimumKeySize() override { return 16; }
  const size_t MinimumSaltSize() override { return 0; }
  const std::vector<CEX::Cipher::SymmetricKeySize> LegalKeySizes() override { return {}; }
  const std::string Name() override { return "mock"; }
  template<class V> void gen(V &o, size_t at, size_t n) { dv_ensure(init, "the derivation is keyed"); dv_ensure(at <= o.size() && n <= o.size() - at, "derived output within its array"); Bytes k = K(key, salt, info, n); memcpy(o.data() + at, k.data(), n); }
  void Generate(Bytes &o) override { gen(o, 0, o.size()); }
  void Generate(CEX::SecureVector<uint8_t> &o) override { gen(o, 0, o.size()); }
  void Generate(Bytes &o, size_t at, size_t n) override { gen(o, at, n); }
  void Generate(CEX::SecureVector<uint8_t> &o, size_t at, size_t n) override { gen(o, at, n); }
  void Initialize(CEX::Cipher::ISymmetricKey &p) override { key = p.Key(); salt = p.IV(); info = p.Info(); init = true; }
  void Reset() override { init = false; key.clear(); salt.clear(); info.clear(); }
};
}

// What a key container promises: it gives back what it was given, and so do its copies
#pragma once
#include "SymmetricKey.h"
#include "SecurityPolicy.h"
namespace keys {
using CEX::Cipher::SymmetricKey; using CEX::Cipher::ISymmetricKey; using Bytes = std::vector<uint8_t>; using SBytes = CEX::SecureVector<uint8_t>;
static SBytes lock(const Bytes &b) { SBytes s(b.size()); for (size_t i = 0; i < b.size(); i++) s[i] = b[i]; return s; }
template<class A, class B> static void same(const A &a, const B &b, const char *n) { dv_ensure(a.size() == b.size(), n); if (b.size()) dv_ensure_eq(a.data(), b.data(), b.size(), n); }
static void holds(ISymmetricKey &k, const Bytes &key, const Bytes &iv, const Bytes &info) {
  for (int t = 0; t < 2; t++) {
    same(k.Key(), key, "key"); same(k.IV(), iv, "nonce"); same(k.Info(), info, "info");
    same(k.SecureInfo(), info, "secure info"); same(k.SecureIV(), iv, "secure nonce"); same(k.SecureKey(), key, "secure key");
    dv_ensure(k.KeySizes().KeySize() == key.size() && k.KeySizes().IVSize() == iv.size() && k.KeySizes().InfoSize() == info.size(), "sizes");
  }
}
template<class K> static K *make(int parts, bool sec, const Bytes &k, const Bytes &v, const Bytes &i) {
  if (parts == 1) return sec ? new K(lock(k)) : new K(k);
  if (parts == 2) return sec ? new K(lock(k), lock(v)) : new K(k, v);
  return sec ? new K(lock(k), lock(v), lock(i)) : new K(k, v, i);
}
template<class K> static K *makeWith(int parts, bool sec, const Bytes &k, const Bytes &v, const Bytes &i, CEX::Enumeration::SecurityPolicy p, const Bytes &salt) {
  if (parts == 1) return sec ? new K(lock(k), p, lock(salt)) : new K(k, p, salt);
  if (parts == 2) return sec ? new K(lock(k), lock(v), p, lock(salt)) : new K(k, v, p, salt);
  return sec ? new K(lock(k), lock(v), lock(i), p, lock(salt)) : new K(k, v, i, p, salt);
}
static const size_t sizes[][3] = {{32, 16, 20}, {1, 0, 0}, {0, 16, 0}, {0, 0, 5}, {64, 8, 0}, {16, 0, 300}, {255, 1, 1}};
template<class K> static void container(K *k, const Bytes &key, const Bytes &iv, const Bytes &info) {
  holds(*k, key, iv, info);
  K *c = k->Clone(); holds(*c, key, iv, info);
  SBytes s = K::Serialize(*k); dv_ensure(s.size() == 6 + key.size() + iv.size() + info.size(), "the size of the stream");
  SymmetricKey *d = K::DeSerialize(s); holds(*d, key, iv, info);
  holds(*k, key, iv, info); k->Reset(); dv_ensure(k->KeySizes().KeySize() == 0 && k->KeySizes().IVSize() == 0 && k->KeySizes().InfoSize() == 0, "nothing is left"); holds(*c, key, iv, info);
  delete k; holds(*d, key, iv, info); holds(*c, key, iv, info); dv_cover("end");
}
}

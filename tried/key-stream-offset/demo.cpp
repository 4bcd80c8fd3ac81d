#include "SymmetricKey.h"
#include <cstdio>
using Bytes = std::vector<uint8_t>; using CEX::Cipher::SymmetricKey;
// A key restored from its serialized form has the parts it was made from.
int main() {
  for (size_t k : {16, 32, 64, 128, 250, 256}) for (size_t v : {8, 16, 32, 64, 128}) {
    Bytes key(k), iv(v), info(40); for (size_t i = 0; i < k; i++) key[i] = (uint8_t)(i * 3 + 1); for (size_t i = 0; i < v; i++) iv[i] = (uint8_t)(i * 5 + 2); for (size_t i = 0; i < 40; i++) info[i] = (uint8_t)(i * 7 + 3);
    SymmetricKey a(key, iv, info); CEX::SecureVector<uint8_t> s = SymmetricKey::Serialize(a); SymmetricKey *b = SymmetricKey::DeSerialize(s);
    if (b->Key() != key || b->IV() != iv || b->Info() != info) { printf("a key of %zu and nonce of %zu bytes is not restored\n", k, v); return 1; } delete b;
  }
  return 0;
}

#include "CFB.h"
#include "RHX.h"
#include "SymmetricKey.h"
#include <cstdio>
using namespace CEX::Cipher; using namespace CEX::Cipher::Block; using namespace CEX::Cipher::Block::Mode;
// CFB decryption inverts CFB encryption at every register size.
int main() {
  for (size_t r = 1; r <= 16; r++) {
    std::vector<uint8_t> key(16, 0x22), iv(16), m(r * 5), c(r * 5), d(r * 5); for (size_t i = 0; i < 16; i++) iv[i] = (uint8_t)i; for (size_t i = 0; i < m.size(); i++) m[i] = (uint8_t)(i * 5 + 3);
    CEX::Cipher::SymmetricKey kp(key, iv); RHX *x = new RHX(CEX::Enumeration::BlockCipherExtensions::None); CFB cfb(x, r);
    cfb.ParallelProfile().IsParallel() = false;
    cfb.Initialize(true, kp); for (size_t i = 0; i < 5; i++) cfb.Transform(m, i * r, c, i * r, r);
    cfb.Initialize(false, kp); for (size_t i = 0; i < 5; i++) cfb.Transform(c, i * r, d, i * r, r);
    if (d != m) { printf("register of %zu bytes: decryption does not invert encryption\n", r); return 1; }
    delete x;
  }
  return 0;
}

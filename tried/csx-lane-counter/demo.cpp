#include "CSX512.h"
#include "SymmetricKey.h"
#include <cstdio>
using Bytes = std::vector<uint8_t>;
// CSX512 gives one keystream, however the message is divided, at counters around 2^64.
static Bytes enc(size_t step, int low) {
  CEX::Cipher::Stream::CSX512 c(false); Bytes key(64, 9), iv(16, 0), m(128 * 16, 3), o(m.size()); for (int i = 0; i < 8; i++) iv[i] = 0xff; iv[0] = (uint8_t)low; iv[9] = 5;
  CEX::Cipher::SymmetricKey kp(key, iv); c.ParallelProfile().IsParallel() = false; c.Initialize(true, kp); for (size_t i = 0; i < m.size(); i += step) c.Transform(m, i, o, i, step); return o;
}
int main() {
  for (int low = 0xf0; low < 0x100; low++) if (enc(128, low) != enc(128 * 16, low)) { printf("the keystream depends on the division at counter ..%02x\n", low); return 1; }
  return 0;
}

#include "IntegerTools.h"
#include <cstdio>
using CEX::Tools::IntegerTools;
// A 128-bit big-endian counter of all ones wraps to zero, and any carry reaches the byte it belongs to.
int main() {
  for (int k = 0; k <= 16; k++) { // the last k bytes are 0xff
    std::vector<uint8_t> c(16, 0x41), w; for (int i = 16 - k; i < 16; i++) c[i] = 0xff; w = c;
    for (int i = 15; i >= 0; i--) if (++w[i] != 0) break;
    IntegerTools::BeIncrement8(c);
    if (c != w) { printf("carry out of %d bytes is lost\n", k); return 1; }
  }
  return 0;
}

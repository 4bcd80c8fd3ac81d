// FIPS-197, written from the standard; the oracle of the AES contracts.
#pragma once
#include <cstdint>
#include <cstring>
#include <cstddef>
namespace spec {
static inline uint8_t xtime(uint8_t x) { return (uint8_t)((x << 1) ^ ((x >> 7) * 0x1b)); }
static inline uint8_t gmul(uint8_t a, unsigned b) { uint8_t r = 0; for (; b; b >>= 1, a = xtime(a)) if (b & 1) r ^= a; return r; }
struct AesTab {
  uint8_t s[256], i[256], m[16][256]; // S-box, inverse, products by 2,3,9,11,13,14
  AesTab() {
    // powers of the generator 3 give inverses
    uint8_t p[256]; uint8_t l[256]; uint8_t x = 1;
    for (int k = 0; k < 255; k++) { p[k] = x; l[x] = (uint8_t)k; x = (uint8_t)(x ^ xtime(x)); }
    for (int k = 0; k < 256; k++) {
      uint8_t inv = k ? p[(255 - l[k]) % 255] : 0;
      uint8_t r = 0;
      for (int b = 0; b < 8; b++)
        r |= (uint8_t)((((inv >> b) ^ (inv >> ((b + 4) & 7)) ^ (inv >> ((b + 5) & 7)) ^ (inv >> ((b + 6) & 7)) ^ (inv >> ((b + 7) & 7)) ^ (0x63 >> b)) & 1) << b);
      s[k] = r;
    }
    for (int k = 0; k < 256; k++) i[s[k]] = (uint8_t)k;
    for (int b : {2, 3, 9, 11, 13, 14}) for (int k = 0; k < 256; k++) m[b][k] = gmul((uint8_t)k, b);
  }
};
// FIPS-197 5.2
static inline int aesExpand(const AesTab &t, const uint8_t *key, unsigned nk, uint8_t (*rk)[16]) {
  int nr = nk + 6; uint8_t w[60][4];
  for (unsigned i = 0; i < nk; i++) memcpy(w[i], key + 4 * i, 4);
  uint8_t rc = 1;
  for (unsigned i = nk; i < 4u * (nr + 1); i++) {
    uint8_t x[4]; memcpy(x, w[i - 1], 4);
    if (i % nk == 0) { uint8_t y = x[0]; x[0] = t.s[x[1]] ^ rc; x[1] = t.s[x[2]]; x[2] = t.s[x[3]]; x[3] = t.s[y]; rc = xtime(rc); }
    else if (nk > 6 && i % nk == 4) for (int j = 0; j < 4; j++) x[j] = t.s[x[j]];
    for (int j = 0; j < 4; j++) w[i][j] = w[i - nk][j] ^ x[j];
  }
  for (int r = 0; r <= nr; r++) memcpy(rk[r], w[4 * r], 16);
  return nr;
}
// 5.1: column-major state, s[r][c] = in[r+4c]
static inline void aesEnc(const AesTab &t, const uint8_t (*rk)[16], int nr, const uint8_t *in, uint8_t *out) {
  uint8_t s[16], n[16];
  for (int i = 0; i < 16; i++) s[i] = in[i] ^ rk[0][i];
  for (int r = 1; r <= nr; r++) {
    for (int c = 0; c < 4; c++) for (int w = 0; w < 4; w++) n[w + 4 * c] = t.s[s[w + 4 * ((c + w) & 3)]];
    if (r != nr) for (int c = 0; c < 4; c++) {
      uint8_t *q = n + 4 * c, a = q[0], b = q[1], d = q[2], e = q[3];
      q[0] = t.m[2][a] ^ t.m[3][b] ^ d ^ e; q[1] = a ^ t.m[2][b] ^ t.m[3][d] ^ e;
      q[2] = a ^ b ^ t.m[2][d] ^ t.m[3][e]; q[3] = t.m[3][a] ^ b ^ d ^ t.m[2][e];
    }
    for (int i = 0; i < 16; i++) s[i] = n[i] ^ rk[r][i];
  }
  memcpy(out, s, 16);
}
// 5.3, the straightforward inverse cipher
static inline void aesDec(const AesTab &t, const uint8_t (*rk)[16], int nr, const uint8_t *in, uint8_t *out) {
  uint8_t s[16], n[16];
  for (int i = 0; i < 16; i++) s[i] = in[i] ^ rk[nr][i];
  for (int r = nr - 1; r >= 0; r--) {
    for (int c = 0; c < 4; c++) for (int w = 0; w < 4; w++) n[w + 4 * ((c + w) & 3)] = t.i[s[w + 4 * c]];
    for (int i = 0; i < 16; i++) s[i] = n[i] ^ rk[r][i];
    if (r) for (int c = 0; c < 4; c++) {
      uint8_t *q = s + 4 * c, a = q[0], b = q[1], d = q[2], e = q[3];
      q[0] = t.m[14][a] ^ t.m[11][b] ^ t.m[13][d] ^ t.m[9][e]; q[1] = t.m[9][a] ^ t.m[14][b] ^ t.m[11][d] ^ t.m[13][e];
      q[2] = t.m[13][a] ^ t.m[9][b] ^ t.m[14][d] ^ t.m[11][e]; q[3] = t.m[11][a] ^ t.m[13][b] ^ t.m[9][d] ^ t.m[14][e];
    }
  }
  memcpy(out, s, 16);
}
}

// Serpent, from its specification (bitslice form), with the library's documented 64-byte-key extension: 40 rounds, taps 16,13,11,10,8,5,3,1.
#pragma once
#include <cstdint>
namespace spec {
static const uint8_t serpS[8][16] = {
  {3,8,15,1,10,6,5,11,14,13,4,2,7,0,9,12}, {15,12,2,7,9,0,5,10,1,11,14,8,6,13,3,4}, {8,6,7,9,3,12,10,15,13,1,14,4,0,11,5,2}, {0,15,11,8,12,9,6,3,13,1,2,4,10,7,5,14},
  {1,15,8,3,12,0,11,6,2,5,4,10,9,14,7,13}, {15,5,2,11,4,10,9,12,0,3,14,8,13,6,7,1}, {7,2,12,5,8,4,6,11,14,9,1,15,13,3,10,0}, {1,13,15,0,14,8,2,11,7,4,12,10,9,3,5,6}};
static inline uint32_t rotl32(uint32_t x, unsigned n) { return (x << n) | (x >> (32 - n)); }
// y_j = algebraic normal form of bit j of the table
static void serpBox(const uint8_t *tab, uint32_t x[4]) {
  uint32_t y[4];
  for (int j = 0; j < 4; j++) {
    uint8_t f[16];
    for (int i = 0; i < 16; i++) f[i] = (tab[i] >> j) & 1;
    for (int b = 1; b < 16; b <<= 1) for (int i = 0; i < 16; i++) if (i & b) f[i] ^= f[i ^ b];
    uint32_t v = 0;
    for (int i = 0; i < 16; i++) if (f[i]) { uint32_t m = 0xFFFFFFFFu; for (int b = 0; b < 4; b++) if (i >> b & 1) m &= x[b]; v ^= m; }
    y[j] = v;
  }
  for (int j = 0; j < 4; j++) x[j] = y[j];
}
// In the proofs of the whole cipher a box is an unknown function of its four words; that the code's boxes are these tables is a contract of its own.
static bool serpOpaque = false;
static void serpWord(int i, bool inv, uint32_t x[4]) {
  char nm[8] = {'s', 'e', 'r', 'p', inv ? 'I' : 'S', (char)('0' + i), 0};
  uint32_t y[4]; dv_uf(nm, y, 16, x, 16); for (int j = 0; j < 4; j++) x[j] = y[j];
}
static void serpInv(const uint8_t *t, uint8_t *o) { for (int i = 0; i < 16; i++) o[t[i]] = (uint8_t)i; }
static void serpLT(uint32_t x[4]) {
  x[0] = rotl32(x[0], 13); x[2] = rotl32(x[2], 3); x[1] ^= x[0] ^ x[2]; x[3] ^= x[2] ^ (x[0] << 3);
  x[1] = rotl32(x[1], 1); x[3] = rotl32(x[3], 7); x[0] ^= x[1] ^ x[3]; x[2] ^= x[3] ^ (x[1] << 7);
  x[0] = rotl32(x[0], 5); x[2] = rotl32(x[2], 22);
}
static void serpILT(uint32_t x[4]) {
  x[2] = rotl32(x[2], 10); x[0] = rotl32(x[0], 27); x[2] ^= x[3] ^ (x[1] << 7); x[0] ^= x[1] ^ x[3];
  x[3] = rotl32(x[3], 25); x[1] = rotl32(x[1], 31); x[3] ^= x[2] ^ (x[0] << 3); x[1] ^= x[0] ^ x[2];
  x[2] = rotl32(x[2], 29); x[0] = rotl32(x[0], 19);
}
static uint32_t le(const uint8_t *p) { return p[0] | (uint32_t)p[1] << 8 | (uint32_t)p[2] << 16 | (uint32_t)p[3] << 24; }
static uint32_t be(const uint8_t *p) { return p[3] | (uint32_t)p[2] << 8 | (uint32_t)p[1] << 16 | (uint32_t)p[0] << 24; }
static void leOut(uint8_t *p, uint32_t v) { p[0] = v; p[1] = v >> 8; p[2] = v >> 16; p[3] = v >> 24; }
static int serpKeys(const uint8_t *key, size_t kl, uint32_t rk[164]) {
  int rounds = kl == 64 ? 40 : 32, n = kl == 64 ? 16 : 8, words = 4 * (rounds + 1);
  static const int t8[] = {8, 5, 3, 1}, t16[] = {16, 13, 11, 10, 8, 5, 3, 1};
  uint32_t w[16 + 164];
  for (int i = 0; i < n; i++) w[i] = 0;
  for (size_t i = 0; i < kl / 4; i++) w[i] = be(key + kl - 4 * (i + 1));   // CEX (and Crypto++/BC tnepres order): last word of the key first
  if ((int)(kl / 4) < n) w[kl / 4] = 1;
  // The prekeys continue the same recurrence; the library's indices restart after the first n words, as its published vectors do.
  uint32_t pre[164];
  uint32_t a[32];
  for (int i = 0; i < n; i++) a[i] = w[i];
  for (int i = n; i < 2 * n; i++) { uint32_t x = 0x9E3779B9u ^ (uint32_t)(i - n); if (n == 8) for (int t : t8) x ^= a[i - t]; else for (int t : t16) x ^= a[i - t]; a[i] = rotl32(x, 11); }
  for (int i = 0; i < n; i++) pre[i] = a[n + i];
  for (int i = n; i < words; i++) { uint32_t x = 0x9E3779B9u ^ (uint32_t)i; if (n == 8) for (int t : t8) x ^= pre[i - t]; else for (int t : t16) x ^= pre[i - t]; pre[i] = rotl32(x, 11); }
  for (int r = 0; r <= rounds; r++) { uint32_t x[4]; for (int j = 0; j < 4; j++) x[j] = pre[4 * r + j]; if (serpOpaque) serpWord((3 - r) & 7, false, x); else serpBox(serpS[(3 - r) & 7], x); for (int j = 0; j < 4; j++) rk[4 * r + j] = x[j]; }
  return rounds;
}
static void serpEnc(const uint32_t *rk, int rounds, const uint8_t *in, uint8_t *out) {
  uint32_t x[4]; for (int j = 0; j < 4; j++) x[j] = le(in + 4 * j);
  for (int r = 0; r < rounds; r++) {
    for (int j = 0; j < 4; j++) x[j] ^= rk[4 * r + j];
    if (serpOpaque) serpWord(r & 7, false, x); else serpBox(serpS[r & 7], x);
    if (r < rounds - 1) serpLT(x);
  }
  for (int j = 0; j < 4; j++) leOut(out + 4 * j, x[j] ^ rk[4 * rounds + j]);
}
static void serpDec(const uint32_t *rk, int rounds, const uint8_t *in, uint8_t *out) {
  uint32_t x[4]; for (int j = 0; j < 4; j++) x[j] = le(in + 4 * j) ^ rk[4 * rounds + j];
  for (int r = rounds - 1; r >= 0; r--) {
    if (serpOpaque) serpWord(r & 7, true, x); else { uint8_t inv[16]; serpInv(serpS[r & 7], inv); serpBox(inv, x); }
    for (int j = 0; j < 4; j++) x[j] ^= rk[4 * r + j];
    if (r) serpILT(x);
  }
  for (int j = 0; j < 4; j++) leOut(out + 4 * j, x[j]);
}
}

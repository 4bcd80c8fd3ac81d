// Permutations and compression functions, from their published definitions. Generated tables: fractional parts of roots of primes.
#pragma once
#include <cstdint>
#include <cstddef>
namespace spec {
static const uint64_t shaK[80] = {0x428a2f98d728ae22ull,0x7137449123ef65cdull,0xb5c0fbcfec4d3b2full,0xe9b5dba58189dbbcull,0x3956c25bf348b538ull,0x59f111f1b605d019ull,0x923f82a4af194f9bull,0xab1c5ed5da6d8118ull,0xd807aa98a3030242ull,0x12835b0145706fbeull,0x243185be4ee4b28cull,0x550c7dc3d5ffb4e2ull,0x72be5d74f27b896full,0x80deb1fe3b1696b1ull,0x9bdc06a725c71235ull,0xc19bf174cf692694ull,0xe49b69c19ef14ad2ull,0xefbe4786384f25e3ull,0x0fc19dc68b8cd5b5ull,0x240ca1cc77ac9c65ull,0x2de92c6f592b0275ull,0x4a7484aa6ea6e483ull,0x5cb0a9dcbd41fbd4ull,0x76f988da831153b5ull,0x983e5152ee66dfabull,0xa831c66d2db43210ull,0xb00327c898fb213full,0xbf597fc7beef0ee4ull,0xc6e00bf33da88fc2ull,0xd5a79147930aa725ull,0x06ca6351e003826full,0x142929670a0e6e70ull,0x27b70a8546d22ffcull,0x2e1b21385c26c926ull,0x4d2c6dfc5ac42aedull,0x53380d139d95b3dfull,0x650a73548baf63deull,0x766a0abb3c77b2a8ull,0x81c2c92e47edaee6ull,0x92722c851482353bull,0xa2bfe8a14cf10364ull,0xa81a664bbc423001ull,0xc24b8b70d0f89791ull,0xc76c51a30654be30ull,0xd192e819d6ef5218ull,0xd69906245565a910ull,0xf40e35855771202aull,0x106aa07032bbd1b8ull,0x19a4c116b8d2d0c8ull,0x1e376c085141ab53ull,0x2748774cdf8eeb99ull,0x34b0bcb5e19b48a8ull,0x391c0cb3c5c95a63ull,0x4ed8aa4ae3418acbull,0x5b9cca4f7763e373ull,0x682e6ff3d6b2b8a3ull,0x748f82ee5defb2fcull,0x78a5636f43172f60ull,0x84c87814a1f0ab72ull,0x8cc702081a6439ecull,0x90befffa23631e28ull,0xa4506cebde82bde9ull,0xbef9a3f7b2c67915ull,0xc67178f2e372532bull,0xca273eceea26619cull,0xd186b8c721c0c207ull,0xeada7dd6cde0eb1eull,0xf57d4f7fee6ed178ull,0x06f067aa72176fbaull,0x0a637dc5a2c898a6ull,0x113f9804bef90daeull,0x1b710b35131c471bull,0x28db77f523047d84ull,0x32caab7b40c72493ull,0x3c9ebe0a15c9bebcull,0x431d67c49c100d4cull,0x4cc5d4becb3e42b6ull,0x597f299cfc657e2aull,0x5fcb6fab3ad6faecull,0x6c44198c4a475817ull};
static const uint64_t sqrtP[16] = {0x6a09e667f3bcc908ull,0xbb67ae8584caa73bull,0x3c6ef372fe94f82bull,0xa54ff53a5f1d36f1ull,0x510e527fade682d1ull,0x9b05688c2b3e6c1full,0x1f83d9abfb41bd6bull,0x5be0cd19137e2179ull,0xcbbb9d5dc1059ed8ull,0x629a292a367cd507ull,0x9159015a3070dd17ull,0x152fecd8f70e5939ull,0x67332667ffc00b31ull,0x8eb44a8768581511ull,0xdb0c2e0d64f98fa7ull,0x47b5481dbefa4fa4ull};

template<class W> static inline W rl(W x, unsigned n) { return n ? (W)((x << n) | (x >> (8 * sizeof(W) - n))) : x; }
template<class W> static inline W rr(W x, unsigned n) { return rl<W>(x, 8 * sizeof(W) - n); }
template<class W> static W leW(const uint8_t *p) { W r = 0; for (size_t i = 0; i < sizeof(W); i++) r |= (W)p[i] << (8 * i); return r; }
template<class W> static W beW(const uint8_t *p) { W r = 0; for (size_t i = 0; i < sizeof(W); i++) r |= (W)p[i] << (8 * (sizeof(W) - 1 - i)); return r; }
template<class W> static void leO(uint8_t *p, W v) { for (size_t i = 0; i < sizeof(W); i++) p[i] = (uint8_t)(v >> (8 * i)); }
template<class W> static void beO(uint8_t *p, W v) { for (size_t i = 0; i < sizeof(W); i++) p[i] = (uint8_t)(v >> (8 * (sizeof(W) - 1 - i))); }

// FIPS 202 Keccak-f[1600]; round constants by the LFSR, continued past 24 rounds for the library's 48-round form
static uint64_t keccakRC(int r) {
  uint64_t c = 0;
  for (int j = 0; j <= 6; j++) {
    int t = (j + 7 * r) % 255; unsigned R = 1;
    for (int i = 0; i < t; i++) { R <<= 1; if (R & 0x100) R ^= 0x171; }
    if (R & 1) c |= 1ull << ((1 << j) - 1);
  }
  return c;
}
static void keccakF(uint64_t *s, int rounds) {
  for (int r = 0; r < rounds; r++) {
    uint64_t C[5], D[5], B[25];
    for (int x = 0; x < 5; x++) C[x] = s[x] ^ s[x + 5] ^ s[x + 10] ^ s[x + 15] ^ s[x + 20];
    for (int x = 0; x < 5; x++) D[x] = C[(x + 4) % 5] ^ rl<uint64_t>(C[(x + 1) % 5], 1);
    for (int i = 0; i < 25; i++) s[i] ^= D[i % 5];
    // rho and pi
    int x = 1, y = 0; B[0] = s[0];
    for (int t = 0; t < 24; t++) { unsigned n = ((t + 1) * (t + 2) / 2) % 64; int X = y, Y = (2 * x + 3 * y) % 5; B[X + 5 * Y] = rl<uint64_t>(s[x + 5 * y], n); x = X; y = Y; }
    for (int y2 = 0; y2 < 5; y2++) for (int x2 = 0; x2 < 5; x2++) s[x2 + 5 * y2] = B[x2 + 5 * y2] ^ (~B[(x2 + 1) % 5 + 5 * y2] & B[(x2 + 2) % 5 + 5 * y2]);
    s[0] ^= keccakRC(r);
  }
}

// FIPS 180-4 compression
static void sha256c(uint32_t *h, const uint8_t *m) {
  uint32_t w[64], a[8];
  for (int i = 0; i < 16; i++) w[i] = beW<uint32_t>(m + 4 * i);
  for (int i = 16; i < 64; i++) w[i] = (rr<uint32_t>(w[i - 2], 17) ^ rr<uint32_t>(w[i - 2], 19) ^ (w[i - 2] >> 10)) + w[i - 7] + (rr<uint32_t>(w[i - 15], 7) ^ rr<uint32_t>(w[i - 15], 18) ^ (w[i - 15] >> 3)) + w[i - 16];
  for (int i = 0; i < 8; i++) a[i] = h[i];
  for (int i = 0; i < 64; i++) {
    uint32_t t1 = a[7] + (rr<uint32_t>(a[4], 6) ^ rr<uint32_t>(a[4], 11) ^ rr<uint32_t>(a[4], 25)) + ((a[4] & a[5]) ^ (~a[4] & a[6])) + (uint32_t)(shaK[i] >> 32) + w[i];
    uint32_t t2 = (rr<uint32_t>(a[0], 2) ^ rr<uint32_t>(a[0], 13) ^ rr<uint32_t>(a[0], 22)) + ((a[0] & a[1]) ^ (a[0] & a[2]) ^ (a[1] & a[2]));
    for (int j = 7; j > 0; j--) a[j] = a[j - 1];
    a[4] += t1; a[0] = t1 + t2;
  }
  for (int i = 0; i < 8; i++) h[i] += a[i];
}
static void sha512c(uint64_t *h, const uint8_t *m) {
  uint64_t w[80], a[8];
  for (int i = 0; i < 16; i++) w[i] = beW<uint64_t>(m + 8 * i);
  for (int i = 16; i < 80; i++) w[i] = (rr<uint64_t>(w[i - 2], 19) ^ rr<uint64_t>(w[i - 2], 61) ^ (w[i - 2] >> 6)) + w[i - 7] + (rr<uint64_t>(w[i - 15], 1) ^ rr<uint64_t>(w[i - 15], 8) ^ (w[i - 15] >> 7)) + w[i - 16];
  for (int i = 0; i < 8; i++) a[i] = h[i];
  for (int i = 0; i < 80; i++) {
    uint64_t t1 = a[7] + (rr<uint64_t>(a[4], 14) ^ rr<uint64_t>(a[4], 18) ^ rr<uint64_t>(a[4], 41)) + ((a[4] & a[5]) ^ (~a[4] & a[6])) + shaK[i] + w[i];
    uint64_t t2 = (rr<uint64_t>(a[0], 28) ^ rr<uint64_t>(a[0], 34) ^ rr<uint64_t>(a[0], 39)) + ((a[0] & a[1]) ^ (a[0] & a[2]) ^ (a[1] & a[2]));
    for (int j = 7; j > 0; j--) a[j] = a[j - 1];
    a[4] += t1; a[0] = t1 + t2;
  }
  for (int i = 0; i < 8; i++) h[i] += a[i];
}

// RFC 7693 mixing: state h, and the second half of the work vector v[8..15] as the caller prepared it
static const uint8_t blakeSigma[10][16] = {
  {0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15},{14,10,4,8,9,15,13,6,1,12,0,2,11,7,5,3},{11,8,12,0,5,2,15,13,10,14,3,6,7,1,9,4},{7,9,3,1,13,12,11,14,2,6,5,10,4,0,15,8},{9,0,5,7,2,4,10,15,14,1,11,12,6,8,3,13},
  {2,12,6,10,0,11,8,3,4,13,7,5,15,14,1,9},{12,5,1,15,14,13,4,10,0,7,6,3,9,2,8,11},{13,11,7,14,12,1,3,9,5,0,15,4,8,6,2,10},{6,15,14,9,11,3,0,8,12,2,13,7,1,4,10,5},{10,2,8,4,7,6,1,5,15,11,9,14,3,12,13,0}};
template<class W> static void blake2c(W *h, const W *v2, const W *m, int rounds, int r1, int r2, int r3, int r4) {
  W v[16];
  for (int i = 0; i < 8; i++) { v[i] = h[i]; v[8 + i] = v2[i]; }
  static const uint8_t ix[8][4] = {{0,4,8,12},{1,5,9,13},{2,6,10,14},{3,7,11,15},{0,5,10,15},{1,6,11,12},{2,7,8,13},{3,4,9,14}};
  for (int r = 0; r < rounds; r++) for (int g = 0; g < 8; g++) {
    W &a = v[ix[g][0]], &b = v[ix[g][1]], &c = v[ix[g][2]], &d = v[ix[g][3]];
    a = a + b + m[blakeSigma[r % 10][2 * g]]; d = rr<W>(d ^ a, r1); c = c + d; b = rr<W>(b ^ c, r2);
    a = a + b + m[blakeSigma[r % 10][2 * g + 1]]; d = rr<W>(d ^ a, r3); c = c + d; b = rr<W>(b ^ c, r4);
  }
  for (int i = 0; i < 8; i++) h[i] ^= v[i] ^ v[8 + i];
}

// ChaCha-style block: columns then diagonals; rot[8][4] gives the constants of the eight quarter rounds (RFC 8439 has one row)
static const uint8_t chachaRot[8][4] = {{16,12,8,7},{16,12,8,7},{16,12,8,7},{16,12,8,7},{16,12,8,7},{16,12,8,7},{16,12,8,7},{16,12,8,7}};
static const uint8_t csx512Rot[8][4] = {{38,19,10,55},{33,4,51,13},{16,34,56,51},{4,53,42,41},{34,41,59,17},{23,31,37,20},{31,44,47,46},{12,47,44,30}};
template<class W> static void chachaBlock(const W *in, uint8_t *out, int rounds, const uint8_t rot[8][4]) {
  W v[16]; for (int i = 0; i < 16; i++) v[i] = in[i];
  static const uint8_t ix[8][4] = {{0,4,8,12},{1,5,9,13},{2,6,10,14},{3,7,11,15},{0,5,10,15},{1,6,11,12},{2,7,8,13},{3,4,9,14}};
  for (int r = 0; r < rounds; r += 2) for (int g = 0; g < 8; g++) {
    W &a = v[ix[g][0]], &b = v[ix[g][1]], &c = v[ix[g][2]], &d = v[ix[g][3]]; const uint8_t *k = rot[g];
    a += b; d = rl<W>(d ^ a, k[0]); c += d; b = rl<W>(b ^ c, k[1]); a += b; d = rl<W>(d ^ a, k[2]); c += d; b = rl<W>(b ^ c, k[3]);
  }
  for (int i = 0; i < 16; i++) leO<W>(out + sizeof(W) * i, v[i] + in[i]);
}

// Threefish 1.3
static const uint8_t tfR256[8][2] = {{14,16},{52,57},{23,40},{5,37},{25,33},{46,12},{58,22},{32,32}};
static const uint8_t tfR512[8][4] = {{46,36,19,37},{33,27,14,42},{17,49,36,39},{44,9,54,56},{39,30,34,24},{13,50,10,17},{25,29,39,43},{8,35,56,22}};
static const uint8_t tfR1024[8][8] = {{24,13,8,47,8,17,22,37},{38,19,10,55,49,18,23,52},{33,4,51,13,34,41,59,17},{5,20,48,41,47,28,16,25},{41,9,37,31,12,47,44,30},{16,34,56,51,4,53,42,41},{31,44,47,46,19,42,44,25},{9,48,35,52,23,31,37,20}};
static const uint8_t tfP4[4] = {0,3,2,1}, tfP8[8] = {2,1,4,7,6,5,0,3}, tfP16[16] = {0,9,2,13,6,11,4,15,10,7,12,3,14,5,8,1};
static void threefish(int n, const uint64_t *key, const uint64_t *tweak, const uint64_t *in, uint64_t *out, int rounds) {
  uint64_t k[17], t[3] = {tweak[0], tweak[1], tweak[0] ^ tweak[1]}, v[16], f[16];
  k[n] = 0x1BD11BDAA9FC1A22ull; for (int i = 0; i < n; i++) { k[i] = key[i]; k[n] ^= key[i]; v[i] = in[i]; }
  const uint8_t *R = n == 4 ? tfR256[0] : n == 8 ? tfR512[0] : tfR1024[0], *P = n == 4 ? tfP4 : n == 8 ? tfP8 : tfP16;
  for (int d = 0; d <= rounds; d++) {
    if (d % 4 == 0) {
      // The TSX ciphers run more rounds than Skein's Threefish and keep Skein's last subkey words (number 18 or 20) for
      // the final injection; their known answers fix this. At 72 and 80 rounds it is the standard schedule.
      int s = d / 4, q = d == rounds ? (n == 16 ? 20 : 18) : s;
      for (int i = 0; i < n; i++) v[i] += k[(q + i) % (n + 1)];
      v[n - 3] += t[q % 3]; v[n - 2] += t[(q + 1) % 3]; v[n - 1] += (uint64_t)s;
      if (d == rounds) break;
    }
    for (int j = 0; j < n / 2; j++) { v[2 * j] += v[2 * j + 1]; v[2 * j + 1] = rl<uint64_t>(v[2 * j + 1], R[(d % 8) * (n / 2) + j]) ^ v[2 * j]; }
    for (int i = 0; i < n; i++) f[i] = v[P[i]];
    for (int i = 0; i < n; i++) v[i] = f[i];
  }
  for (int i = 0; i < n; i++) out[i] = v[i];
}
}

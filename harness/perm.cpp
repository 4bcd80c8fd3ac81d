#include "dv.h"
#include "spec_perm.h"
#include "Keccak.h"
#include "SHA2.h"
#include "Blake.h"
#include "Skein.h"
#include "ChaCha.h"
#include "Threefish.h"
using namespace CEX;
using CEX::Numeric::UInt256; using CEX::Numeric::ULong256;
using Bytes = std::vector<uint8_t>;
template<class W, size_t N> static void symA(std::array<W, N> &a, const char *n) { dv_symw(a.data(), N, sizeof(W), n); }
#define EQ(a, b, n, name) dv_ensure_eq(a, b, n, name)

// ---- Keccak
using CEX::Digest::Keccak;
HARNESS(keccak) {
  size_t v = dv_choose("form", 0, 4);
  std::array<uint64_t, 25> s; symA(s, "s"); uint64_t w[25]; memcpy(w, s.data(), 200);
  int rounds = 24;
  switch (v) {
    case 0: Keccak::Permute(s); break;
    case 1: Keccak::Permute(s, Keccak::PermutationRounds::RX12); rounds = 12; break;
    case 2: Keccak::Permute(s, Keccak::PermutationRounds::RX48); rounds = 48; break;
    case 3: Keccak::PermuteR24P1600U(s); break;
    case 4: Keccak::PermuteR48P1600U(s); rounds = 48; break;
  }
  spec::keccakF(w, rounds); EQ(s.data(), w, 200, "state"); dv_cover("end");
}
HARNESS(keccak_x4) {
  size_t v = dv_choose("form", 0, 2); int rounds = v == 0 ? 24 : v == 1 ? 12 : 48;
  std::array<ULong256, 25> s; uint64_t w[25][4]; dv_symw(w, 100, 8, "s"); memcpy((void *)s.data(), w, 800);
  if (v == 2) Keccak::PermuteR48P4x1600H(s); else Keccak::PermuteR24P4x1600H(s, rounds);
  uint64_t got[25][4]; memcpy(got, (void *)s.data(), 800);
  for (int l = 0; l < 4; l++) { uint64_t x[25]; for (int i = 0; i < 25; i++) x[i] = w[i][l]; spec::keccakF(x, rounds); for (int i = 0; i < 25; i++) dv_ensure(got[i][l] == x[i], "lane"); }
  dv_cover("end");
}
// ---- SHA-2
using CEX::Digest::SHA2;
HARNESS(sha256_c) {
  size_t v = dv_choose("form", 0, 2), off = dv_choose("off", 0, 1) * 5;
  Bytes m(64 + 2 * off); dv_sym(m.data(), m.size(), "m"); std::array<uint32_t, 8> s; symA(s, "h"); uint32_t w[8]; memcpy(w, s.data(), 32);
  if (v == 0) SHA2::PermuteR64P512C(m, off, s); else if (v == 1) SHA2::PermuteR64P512U(m, off, s); else SHA2::PermuteR64P512V(m, off, s);
  spec::sha256c(w, m.data() + off); EQ(s.data(), w, 32, "state"); dv_cover("end");
}
// Block n goes with the n-th operand of Load, which is memory lane 7 - n (3 - n for the 64-bit words).
HARNESS(sha256_x8) {
  size_t off = 3; Bytes m(512 + off); dv_sym(m.data(), m.size(), "m"); std::array<UInt256, 8> s; uint32_t w[8][8]; dv_symw(w, 64, 4, "h"); memcpy((void *)s.data(), w, 256);
  SHA2::PermuteR64P8x512H(m, off, s);
  uint32_t got[8][8]; memcpy(got, (void *)s.data(), 256);
  for (int l = 0; l < 8; l++) { uint32_t x[8]; for (int i = 0; i < 8; i++) x[i] = w[i][l]; spec::sha256c(x, m.data() + off + 64 * (7 - l)); for (int i = 0; i < 8; i++) dv_ensure(got[i][l] == x[i], "lane"); }
  dv_cover("end");
}
HARNESS(sha512_c) {
  size_t v = dv_choose("form", 0, 1), off = dv_choose("off", 0, 1) * 5;
  Bytes m(128 + 2 * off); dv_sym(m.data(), m.size(), "m"); std::array<uint64_t, 8> s; symA(s, "h"); uint64_t w[8]; memcpy(w, s.data(), 64);
  if (v == 0) SHA2::PermuteR80P1024C(m, off, s); else SHA2::PermuteR80P1024U(m, off, s);
  spec::sha512c(w, m.data() + off); EQ(s.data(), w, 64, "state"); dv_cover("end");
}
HARNESS(sha512_x4) {
  size_t off = 3; Bytes m(512 + off); dv_sym(m.data(), m.size(), "m"); std::array<ULong256, 8> s; uint64_t w[8][4]; dv_symw(w, 32, 8, "h"); memcpy((void *)s.data(), w, 256);
  SHA2::PermuteR80P4x1024H(m, off, s);
  uint64_t got[8][4]; memcpy(got, (void *)s.data(), 256);
  for (int l = 0; l < 4; l++) { uint64_t x[8]; for (int i = 0; i < 8; i++) x[i] = w[i][l]; spec::sha512c(x, m.data() + off + 128 * (3 - l)); for (int i = 0; i < 8; i++) dv_ensure(got[i][l] == x[i], "lane"); }
  dv_cover("end");
}
// ---- BLAKE2
using CEX::Digest::Blake;
HARNESS(blake256_c) { dv_opt("arx", 1);
  size_t v = dv_choose("form", 0, 2), off = dv_choose("off", 0, 1) * 5;
  Bytes m(64 + 2 * off); dv_sym(m.data(), m.size(), "m"); std::array<uint32_t, 8> s, iv; symA(s, "h"); symA(iv, "iv"); uint32_t w[8], mw[16]; memcpy(w, s.data(), 32);
  for (int i = 0; i < 16; i++) mw[i] = spec::leW<uint32_t>(m.data() + off + 4 * i);
  if (v == 0) Blake::PermuteR10P512C(m, off, s, iv); else if (v == 1) Blake::PermuteR10P512U(m, off, s, iv); else Blake::PermuteR10P512V(m, off, s, iv);
  spec::blake2c<uint32_t>(w, iv.data(), mw, 10, 16, 12, 8, 7); EQ(s.data(), w, 32, "state"); dv_cover("end");
}
HARNESS(blake512_c) { dv_opt("arx", 1);
  size_t v = dv_choose("form", 0, 2), off = dv_choose("off", 0, 1) * 5;
  Bytes m(128 + 2 * off); dv_sym(m.data(), m.size(), "m"); std::array<uint64_t, 8> s, iv; symA(s, "h"); symA(iv, "iv"); uint64_t w[8], mw[16]; memcpy(w, s.data(), 64);
  for (int i = 0; i < 16; i++) mw[i] = spec::leW<uint64_t>(m.data() + off + 8 * i);
  if (v == 0) Blake::PermuteR12P1024C(m, off, s, iv); else if (v == 1) Blake::PermuteR12P1024U(m, off, s, iv); else Blake::PermuteR12P1024V(m, off, s, iv);
  spec::blake2c<uint64_t>(w, iv.data(), mw, 12, 32, 24, 16, 63); EQ(s.data(), w, 64, "state"); dv_cover("end");
}
HARNESS(blake256_x8) { dv_opt("arx", 1);   // message words interleaved by lane
  size_t off = 3; Bytes m(512 + off); dv_sym(m.data(), m.size(), "m"); std::array<UInt256, 8> s, iv; uint32_t w[8][8], i0[8][8]; dv_symw(w, 64, 4, "h"); dv_symw(i0, 64, 4, "iv"); memcpy((void *)s.data(), w, 256); memcpy((void *)iv.data(), i0, 256);
  Blake::PermuteR10P8x512H(m, off, s, iv);
  uint32_t got[8][8]; memcpy(got, (void *)s.data(), 256);
  for (int l = 0; l < 8; l++) { uint32_t x[8], y[8], mw[16]; for (int i = 0; i < 8; i++) { x[i] = w[i][l]; y[i] = i0[i][l]; } for (int i = 0; i < 16; i++) mw[i] = spec::leW<uint32_t>(m.data() + off + 32 * i + 4 * l);
    spec::blake2c<uint32_t>(x, y, mw, 10, 16, 12, 8, 7); for (int i = 0; i < 8; i++) dv_ensure(got[i][l] == x[i], "lane"); }
  dv_cover("end");
}
HARNESS(blake512_x4) { dv_opt("arx", 1);
  size_t off = 3; Bytes m(512 + off); dv_sym(m.data(), m.size(), "m"); std::array<ULong256, 8> s, iv; uint64_t w[8][4], i0[8][4]; dv_symw(w, 32, 8, "h"); dv_symw(i0, 32, 8, "iv"); memcpy((void *)s.data(), w, 256); memcpy((void *)iv.data(), i0, 256);
  Blake::PermuteR12P4x1024H(m, off, s, iv);
  uint64_t got[8][4]; memcpy(got, (void *)s.data(), 256);
  for (int l = 0; l < 4; l++) { uint64_t x[8], y[8], mw[16]; for (int i = 0; i < 8; i++) { x[i] = w[i][l]; y[i] = i0[i][l]; } for (int i = 0; i < 16; i++) mw[i] = spec::leW<uint64_t>(m.data() + off + 32 * i + 8 * l);
    spec::blake2c<uint64_t>(x, y, mw, 12, 32, 24, 16, 63); for (int i = 0; i < 8; i++) dv_ensure(got[i][l] == x[i], "lane"); }
  dv_cover("end");
}
// ---- ChaCha
using CEX::Cipher::Stream::ChaCha;
template<class W, size_t L> static void chachaIn(W *in, const std::array<W, 14> &s, const W *ctr, size_t l) {
  for (int i = 0; i < 12; i++) in[i] = s[i]; in[12] = ctr[l]; in[13] = ctr[L + l]; in[14] = s[12]; in[15] = s[13];
}
HARNESS(chacha_c) {
  size_t v = dv_choose("form", 0, 2), off = 3, rounds = v == 2 ? 80 : 20; // 2: another even count
  std::array<uint32_t, 14> s; symA(s, "s"); std::array<uint32_t, 2> c; symA(c, "c"); auto s0 = s; auto c0 = c;
  Bytes out(64 + 2 * off), was; dv_sym(out.data(), out.size(), "out"); was = out;
  if (v == 1) ChaCha::PermuteR20P512U(out, off, c, s); else ChaCha::PermuteP512C(out, off, c, s, rounds);
  uint32_t in[16]; uint8_t w[64]; chachaIn<uint32_t, 1>(in, s0, c0.data(), 0); spec::chachaBlock<uint32_t>(in, w, rounds, spec::chachaRot);
  EQ(out.data() + off, w, 64, "block"); EQ(out.data(), was.data(), off, "before"); EQ(out.data() + off + 64, was.data() + off + 64, off, "after");
  EQ(s.data(), s0.data(), 56, "state kept"); EQ(c.data(), c0.data(), 8, "counter kept"); dv_cover("end");
}
HARNESS(chacha_x4x8) {
  bool eight = dv_choose("eight", 0, 1); size_t off = 3, n = eight ? 8 : 4;
  std::array<uint32_t, 14> s; symA(s, "s"); std::array<uint32_t, 16> c16; std::array<uint32_t, 8> c8; symA(c16, "c"); memcpy(c8.data(), c16.data(), 32); auto s0 = s;
  Bytes out(64 * n + 2 * off), was; dv_sym(out.data(), out.size(), "out"); was = out;
  if (eight) ChaCha::PermuteP8x512H(out, off, c16, s, 20);
#if defined(CEX_HAS_AVX) && !defined(CEX_HAS_AVX2)
  else ChaCha::PermuteP4x512H(out, off, c8, s, 20);
#else
  else return;
#endif
  for (size_t l = 0; l < n; l++) { uint32_t in[16]; uint8_t w[64]; if (eight) chachaIn<uint32_t, 8>(in, s0, c16.data(), l); else chachaIn<uint32_t, 4>(in, s0, c8.data(), l);
    spec::chachaBlock<uint32_t>(in, w, 20, spec::chachaRot); EQ(out.data() + off + 64 * l, w, 64, "block"); }
  EQ(out.data(), was.data(), off, "before"); EQ(out.data() + off + 64 * n, was.data() + off + 64 * n, off, "after"); dv_cover("end");
}
HARNESS(csx512_c) {
  size_t off = 3; std::array<uint64_t, 14> s; symA(s, "s"); std::array<uint64_t, 2> c; symA(c, "c"); auto s0 = s; auto c0 = c;
  Bytes out(128 + 2 * off), was; dv_sym(out.data(), out.size(), "out"); was = out;
  ChaCha::PermuteP1024C(out, off, c, s, 40);
  uint64_t in[16]; uint8_t w[128]; chachaIn<uint64_t, 1>(in, s0, c0.data(), 0); spec::chachaBlock<uint64_t>(in, w, 40, spec::csx512Rot);
  EQ(out.data() + off, w, 128, "block"); EQ(out.data(), was.data(), off, "before"); EQ(out.data() + off + 128, was.data() + off + 128, off, "after");
  EQ(s.data(), s0.data(), 112, "state kept"); EQ(c.data(), c0.data(), 16, "counter kept"); dv_cover("end");
}
HARNESS(csx512_x4) {
  size_t off = 3; std::array<uint64_t, 14> s; symA(s, "s"); std::array<uint64_t, 8> c; symA(c, "c"); auto s0 = s; auto c0 = c;
  Bytes out(512 + 2 * off), was; dv_sym(out.data(), out.size(), "out"); was = out;
  ChaCha::PermuteP4x1024H(out, off, c, s, 40);
  for (size_t l = 0; l < 4; l++) { uint64_t in[16]; uint8_t w[128]; chachaIn<uint64_t, 4>(in, s0, c0.data(), l); spec::chachaBlock<uint64_t>(in, w, 40, spec::csx512Rot); EQ(out.data() + off + 128 * l, w, 128, "block"); }
  EQ(out.data(), was.data(), off, "before"); EQ(out.data() + off + 512, was.data() + off + 512, off, "after"); dv_cover("end");
}
// ---- Threefish as a counter generator (TSX)
using CEX::Cipher::Stream::Threefish;
template<size_t N, class F> static void tf1(int rounds, F f) {
  std::array<uint64_t, N> k, s; symA(k, "k"); symA(s, "was"); std::array<uint64_t, 2> c, t; symA(c, "c"); symA(t, "t"); auto k0 = k; auto c0 = c; auto t0 = t;
  f(k, c, t, s);
  uint64_t in[16], out[16]; in[0] = c0[0]; in[1] = c0[1]; for (size_t i = 2; i < N; i++) in[i] = ~0ull;
  spec::threefish(N, k0.data(), t0.data(), in, out, rounds); EQ(s.data(), out, 8 * N, "state");
  EQ(k.data(), k0.data(), 8 * N, "key kept"); EQ(c.data(), c0.data(), 16, "counter kept"); EQ(t.data(), t0.data(), 16, "tweak kept"); dv_cover("end");
}
HARNESS(threefish_c) {
  switch (dv_choose("form", 0, 5)) {
    case 0: tf1<4>(72, [](auto &k, auto &c, auto &t, auto &s) { Threefish::PemuteP256C(k, c, t, s, 72); }); break;
    case 1: tf1<4>(72, [](auto &k, auto &c, auto &t, auto &s) { Threefish::PemuteR72P256U(k, c, t, s); }); break;
    case 2: tf1<8>(96, [](auto &k, auto &c, auto &t, auto &s) { Threefish::PemuteP512C(k, c, t, s, 96); }); break;
    case 3: tf1<8>(96, [](auto &k, auto &c, auto &t, auto &s) { Threefish::PemuteR96P512U(k, c, t, s); }); break;
    case 4: tf1<16>(120, [](auto &k, auto &c, auto &t, auto &s) { Threefish::PemuteP1024C(k, c, t, s, 120); }); break;
    case 5: tf1<16>(120, [](auto &k, auto &c, auto &t, auto &s) { Threefish::PemuteR120P1024U(k, c, t, s); }); break;
  }
}
template<size_t N, class F> static void tf4(int rounds, F f) {
  std::array<uint64_t, N> k; std::array<uint64_t, 4 * N> s; symA(k, "k"); symA(s, "was"); std::array<uint64_t, 8> c; std::array<uint64_t, 2> t; symA(c, "c"); symA(t, "t");
  f(k, c, t, s);
  for (int l = 0; l < 4; l++) { uint64_t in[16], out[16]; in[0] = c[l]; in[1] = c[4 + l]; for (size_t i = 2; i < N; i++) in[i] = ~0ull; spec::threefish(N, k.data(), t.data(), in, out, rounds);
    for (size_t i = 0; i < N; i++) dv_ensure(s[l * N + i] == out[i], "lane"); }
  dv_cover("end");
}
HARNESS(threefish_x4) {
  switch (dv_choose("form", 0, 2)) {
    case 0: tf4<4>(72, [](auto &k, auto &c, auto &t, auto &s) { Threefish::PemuteP4x256H(k, c, t, s, 72); }); break;
    case 1: tf4<8>(96, [](auto &k, auto &c, auto &t, auto &s) { Threefish::PemuteP4x512H(k, c, t, s, 96); }); break;
    case 2: tf4<16>(120, [](auto &k, auto &c, auto &t, auto &s) { Threefish::PemuteP4x1024H(k, c, t, s, 120); }); break;
  }
}
// ---- Threefish as Skein's block cipher: the state is the key and receives the result
using CEX::Digest::Skein;
template<size_t N, class F> static void sk(int rounds, F f) {
  std::array<uint64_t, N> in, s; symA(in, "in"); symA(s, "key"); std::array<uint64_t, 2> t; symA(t, "t"); auto in0 = in, s0 = s; auto t0 = t;
  f(in, t, s); uint64_t out[16]; spec::threefish(N, s0.data(), t0.data(), in0.data(), out, rounds); EQ(s.data(), out, 8 * N, "state");
  EQ(in.data(), in0.data(), 8 * N, "message kept"); EQ(t.data(), t0.data(), 16, "tweak kept"); dv_cover("end");
}
HARNESS(skein_c) {
  switch (dv_choose("form", 0, 8)) {
    case 0: sk<4>(72, [](auto &i, auto &t, auto &s) { Skein::PemuteP256C(i, t, s, 72); }); break;
    case 1: sk<4>(72, [](auto &i, auto &t, auto &s) { Skein::PemuteR72P256U(i, t, s); }); break;
    case 2: sk<8>(72, [](auto &i, auto &t, auto &s) { Skein::PemuteP512C(i, t, s, 72); }); break;
    case 3: sk<8>(72, [](auto &i, auto &t, auto &s) { Skein::PemuteR72P512U(i, t, s); }); break;
    case 4: sk<8>(72, [](auto &i, auto &t, auto &s) { Skein::PemuteR72P512V(i, t, s); }); break;
    case 5: sk<8>(96, [](auto &i, auto &t, auto &s) { Skein::PemuteR96P512U(i, t, s); }); break;
    case 6: sk<16>(80, [](auto &i, auto &t, auto &s) { Skein::PemuteP1024C(i, t, s, 80); }); break;
    case 7: sk<16>(80, [](auto &i, auto &t, auto &s) { Skein::PemuteR80P1024U(i, t, s); }); break;
    case 8: sk<16>(120, [](auto &i, auto &t, auto &s) { Skein::PemuteR120P1024U(i, t, s); }); break;
  }
}

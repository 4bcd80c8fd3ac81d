// The library's compression functions under their contracts: unknown functions of everything they read.
#pragma once
#include "spec_dgst.h"
#include "SHA2.h"
#include "Keccak.h"
#include "Blake.h"
#include "Skein.h"
namespace ufd {
using CEX::Digest::Keccak; using Bytes = std::vector<uint8_t>;
template<class V> static void inb(const V &m, size_t off, size_t n) { dv_ensure(off + n <= m.size(), "message block within its array"); }
static void c_sha256(const Bytes &m, size_t off, std::array<uint32_t, 8> &h) { inb(m, off, 64); spec::comp<32, 64>("sha256", h.data(), m.data() + off); }
static void c_sha512(const Bytes &m, size_t off, std::array<uint64_t, 8> &h) { inb(m, off, 128); spec::comp<64, 128>("sha512", h.data(), m.data() + off); }
static void c_keccak24(std::array<uint64_t, 25> &s) { spec::perm("keccak24", s.data()); }
static void c_keccak48(std::array<uint64_t, 25> &s) { spec::perm("keccak48", s.data()); }
static void c_keccak(std::array<uint64_t, 25> &s, Keccak::PermutationRounds r) { spec::perm(spec::keccakName(r == Keccak::PermutationRounds::RX24 ? 24 : r == Keccak::PermutationRounds::RX12 ? 12 : 48), s.data()); }
static void c_blake256(const Bytes &m, size_t off, std::array<uint32_t, 8> &h, const std::array<uint32_t, 8> &iv) { inb(m, off, 64); uint8_t x[96]; memcpy(x, iv.data(), 32); memcpy(x + 32, m.data() + off, 64); spec::comp<32, 96>("blake256", h.data(), x); }
static void c_blake512(const Bytes &m, size_t off, std::array<uint64_t, 8> &h, const std::array<uint64_t, 8> &iv) { inb(m, off, 128); uint8_t x[192]; memcpy(x, iv.data(), 64); memcpy(x + 64, m.data() + off, 128); spec::comp<64, 192>("blake512", h.data(), x); }
template<size_t N> static void c_skein(const std::array<uint64_t, N> &in, const std::array<uint64_t, 2> &t, std::array<uint64_t, N> &s) { uint8_t x[16 + 8 * N]; memcpy(x, t.data(), 16); memcpy(x + 16, in.data(), 8 * N); spec::comp<8 * N, 16 + 8 * N>(N == 4 ? "threefish256" : N == 8 ? "threefish512" : "threefish1024", s.data(), x); }
static void hashes() {
#define VU "std::vector<unsigned char, std::allocator<unsigned char>>"
#define AR(t, n) "std::array<unsigned " t ", " n "ull>"
#define I8 AR("int", "8")
#define L8 AR("long long", "8")
#define L25 "<" AR("long long", "25") ">"
#define SK(n) "<" AR("long long", "2") ", " AR("long long", n) ">"
  for (const char *f : {"CEX::Digest::SHA2::PermuteR64P512C<" VU ", " I8 ">", "CEX::Digest::SHA2::PermuteR64P512U<" VU ", " I8 ">", "CEX::Digest::SHA2::PermuteR64P512V<" VU ", " I8 ">"}) dv_replace(f, (const void *)c_sha256);
  for (const char *f : {"CEX::Digest::SHA2::PermuteR80P1024C<" VU ", " L8 ">", "CEX::Digest::SHA2::PermuteR80P1024U<" VU ", " L8 ">"}) dv_replace(f, (const void *)c_sha512);
  REPLACE("CEX::Digest::Keccak::PermuteR24P1600U" L25, c_keccak24);
  REPLACE("CEX::Digest::Keccak::PermuteR48P1600U" L25, c_keccak48);
  REPLACE("CEX::Digest::Keccak::Permute" L25, c_keccak);
  for (const char *f : {"CEX::Digest::Blake::PermuteR10P512C<" VU ", " I8 ">", "CEX::Digest::Blake::PermuteR10P512U<" VU ", " I8 ">", "CEX::Digest::Blake::PermuteR10P512V<" VU ", " I8 ">"}) dv_replace(f, (const void *)c_blake256);
  for (const char *f : {"CEX::Digest::Blake::PermuteR12P1024C<" VU ", " L8 ">", "CEX::Digest::Blake::PermuteR12P1024U<" VU ", " L8 ">", "CEX::Digest::Blake::PermuteR12P1024V<" VU ", " L8 ">"}) dv_replace(f, (const void *)c_blake512);
  REPLACE("CEX::Digest::Skein::PemuteR72P256U" SK("4"), c_skein<4>);
  for (const char *f : {"CEX::Digest::Skein::PemuteR72P512U" SK("8"), "CEX::Digest::Skein::PemuteR72P512V" SK("8")}) dv_replace(f, (const void *)c_skein<8>);
  REPLACE("CEX::Digest::Skein::PemuteR80P1024U" SK("16"), c_skein<16>);
}
}

#include "uf_dgst.h"
#include "SHA2256.h"
#include "SHA2512.h"
#include "SHA3256.h"
#include "SHA3512.h"
#include "Blake256.h"
#include "Blake512.h"
#include "Skein256.h"
#include "Skein512.h"
#include "Skein1024.h"
using namespace CEX; using namespace CEX::Digest; using Bytes = std::vector<uint8_t>;
static void check(IDigest &d, Bytes (*f)(Bytes), const Bytes &m, size_t a) { // a bytes, then the rest
  Bytes o(d.DigestSize() + 5, 0), was; dv_sym(o.data(), o.size(), "out"); was = o;
  d.Update(m, 0, a); d.Update(m, a, m.size() - a); d.Finalize(o, 3);
  Bytes w = f(m); dv_ensure(w.size() == d.DigestSize(), "digest size");
  dv_ensure_eq(o.data() + 3, w.data(), w.size(), "digest"); dv_ensure_eq(o.data(), was.data(), 3, "before"); dv_ensure_eq(o.data() + 3 + w.size(), was.data() + 3 + w.size(), 2, "after");
}
static IDigest *make(int i, Bytes (**f)(Bytes)) {
  switch (i) {
    case 0: *f = spec::sha256; return new SHA2256(false);
    case 1: *f = spec::sha512; return new SHA2512(false);
    case 2: *f = spec::sha3_256; return new SHA3256(false);
    case 3: *f = spec::sha3_512; return new SHA3512(false);
    case 4: *f = spec::blake2s; return new Blake256(false);
    case 5: *f = spec::blake2b; return new Blake512(false);
    case 6: *f = spec::skein<4>; return new Skein256(false);
    case 7: *f = spec::skein<8>; return new Skein512(false);
    default: *f = spec::skein<16>; return new Skein1024(false);
  }
}
static const size_t rates[] = {64, 128, 136, 72, 64, 128, 32, 64, 128};
// a first chunk of every length up to a block, then a second one; the digest object is used again for each message
HARNESS(digest_split) {
  int i = dv_choose("digest", 0, 8); Bytes (*f)(Bytes); ufd::hashes(); IDigest *d = make(i, &f); size_t R = rates[i];
  dv_ensure(d->BlockSize() == R, "block size");
  int k = dv_choose("second", 0, 6); size_t step = dv_choose("part", 0, 3);
  for (size_t a = step; a <= R + 1; a += 4) {
    size_t b[] = {0, 1, a < R ? R - a : 0, a <= R ? R - a + 1 : 1, a < R ? 2 * R - a - 1 : R, R, 2 * R + 9};
    Bytes m(a + b[k]); dv_sym(m.data(), m.size(), "m"); check(*d, f, m, a);
  }
  delete d; dv_cover("end");
}
// Compute at every length up to two blocks and a bit
HARNESS(digest_whole) {
  int i = dv_choose("digest", 0, 8); Bytes (*f)(Bytes); ufd::hashes(); IDigest *d = make(i, &f); size_t R = rates[i];
  for (size_t n = dv_choose("part", 0, 3); n <= 2 * R + 18; n += 4) {
    Bytes m(n), o(d->DigestSize()); dv_sym(m.data(), n, "m"); d->Compute(m, o); Bytes w = f(m); dv_ensure_eq(o.data(), w.data(), w.size(), "digest");
  }
  delete d; dv_cover("end");
}
// numbers are absorbed as their little-endian bytes; Reset forgets what came before; reads at an offset
HARNESS(digest_forms) {
  int i = dv_choose("digest", 0, 8); Bytes (*f)(Bytes); ufd::hashes(); IDigest *d = make(i, &f); size_t R = rates[i];
  Bytes m(R + 13 + 13), o(d->DigestSize()); dv_sym(m.data(), m.size(), "m");
  d->Update(m, 2, 9); d->Reset();
  uint8_t b = m[0]; uint32_t w; uint64_t q; memcpy(&w, &m[1], 4); memcpy(&q, &m[5], 8);
  d->Update(b); d->Update(w); d->Update(q); d->Update(m, 13, R - 1); d->Update(b); d->Update(w); d->Update(q);
  Bytes x(m.begin(), m.begin() + 13 + R - 1); x.insert(x.end(), m.begin(), m.begin() + 13);
  d->Finalize(o, 0); Bytes want = f(x); dv_ensure_eq(o.data(), want.data(), want.size(), "digest");
  delete d; dv_cover("end");
}
// any length: after 37 blocks the count of bytes becomes any multiple of the block (below 2^60), as if any number of further blocks had led to the chaining value; then the rest of the message and the end
HARNESS(digest_long) {
  static const int which[] = {0, 1, 4, 5, 6, 7, 8}; int i = which[dv_choose("digest", 0, 6)]; Bytes (*f)(Bytes); ufd::hashes(); IDigest *d = make(i, &f); size_t R = rates[i], n = 37 * R, tail[] = {0, 1, R - 1, R, R + 1, 2 * R + 9};
  size_t t = tail[dv_choose("tail", 0, 5)]; Bytes m(n + 1 + t), o(d->DigestSize()); dv_sym(m.data(), m.size(), "m");
  d->Update(m, 0, n + 1); // the first byte of the next block: the blocks before it are done
  uint64_t blocks; dv_sym(&blocks, 8, "blocks"); dv_assume(blocks >= 37 && blocks < (1ull << 60) / R);
  if (dv_poke(n, blocks * R, 8)) { spec::longFrom = n; spec::longBy = blocks * R - n; dv_cover("any length"); }
  d->Update(m, n + 1, t); d->Finalize(o, 0); Bytes w = f(m); dv_ensure_eq(o.data(), w.data(), w.size(), "digest"); delete d; dv_cover("end");
}

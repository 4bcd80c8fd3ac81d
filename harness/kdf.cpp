#include "mock_digest.h"
#include "HMAC.h"
#include "HKDF.h"
#include "KDF2.h"
#include "PBKDF2.h"
#include "SCBKDF.h"
#include "uf_dgst.h"
#include "SymmetricKey.h"
#include "SecureVector.h"
#include "SHA2Digests.h"
using namespace CEX; using namespace CEX::Kdf; using namespace CEX::Mac; using namespace CEX::Cipher; using Bytes = std::vector<uint8_t>; using Sec = SecureVector<uint8_t>;
using namespace mock;
static Bytes any(size_t n, const char *name) { Bytes b(n); if (n) dv_sym(b.data(), n, name); return b; }
static const size_t blocks[] = {64, 128}, sizes[] = {32, 64};
// HMAC: every key length to two blocks and a bit; the object is used for one key after another, and for one message after another
HARNESS(hmac) {
  int d = dv_choose("digest", 0, 1); size_t B = blocks[d], S = sizes[d], p = dv_choose("part", 0, 3);
  HMAC *m = new HMAC(new DigestFn(B, S)); size_t lens[] = {0, 1, S, B - 1, B, B + 1, 2 * B + 7};
  for (size_t k = 4 + p; k <= 2 * B + 5; k += 4) {
    Bytes key = any(k, "key"); SymmetricKey kp(key); m->Initialize(kp);
    for (int r = 0; r < 3; r++) {
      Bytes msg = any(lens[(k / 4 + 3 * r) % 7], "msg"), o = any(S + 5, "out"), was = o, want = hmac(key, msg, B, S); size_t a = msg.size() / 3;
      if (r == 0) { Bytes t(S); m->Compute(msg, t); memcpy(o.data() + 3, t.data(), S); } else { m->Update(msg, 0, a); m->Update(msg, a, msg.size() - a); size_t n; if (r == 1) n = m->Finalize(o, 3); else { Sec t(S + 2); n = m->Finalize(t, 2); memcpy(o.data() + 3, t.data() + 2, S); } dv_ensure(n == S, "tag length"); }
      dv_ensure_eq(o.data() + 3, want.data(), S, "tag"); dv_ensure_eq(o.data(), was.data(), 3, "before"); dv_ensure_eq(o.data() + 3 + S, was.data() + 3 + S, 2, "after");
    }
    if (k % 3 == 0) m->Update(key, 0, 5); // an unfinished message does not reach the next key
  }
  dv_ensure(m->TagSize() == S && m->BlockSize() == B, "sizes"); dv_cover("end");
}
// the SHA-2 forms use SHA-256 and SHA-512
HARNESS(hmac_sha2) {
  int d = dv_choose("digest", 0, 1); ufd::hashes(); HMAC m(d ? Enumeration::SHA2Digests::SHA2512 : Enumeration::SHA2Digests::SHA2256); size_t B = blocks[d], S = sizes[d];
  for (size_t k : {(size_t)16, B, B + 3}) {
    Bytes key = any(k, "key"), msg = any(70, "msg"), o(S), kk(key); SymmetricKey kp(key); m.Initialize(kp); m.Compute(msg, o);
    auto h = d ? spec::sha512 : spec::sha256; if (k > B) kk = h(kk); kk.resize(B); Bytes i(kk), q(kk); for (auto &x : i) x ^= 0x36; for (auto &x : q) x ^= 0x5c; cat(i, msg); cat(q, h(i)); Bytes want = h(q);
    dv_ensure_eq(o.data(), want.data(), S, "tag");
  }
  dv_ensure(m.Enumeral() == (d ? Enumeration::Macs::HMACSHA2512 : Enumeration::Macs::HMACSHA2256), "name"); dv_cover("end");
}
static Bytes hkdfExpand(const Bytes &prk, const Bytes &info, size_t from, size_t blocksN, size_t B, size_t S) { // T(1) || T(2) ...
  Bytes t, o; for (size_t i = 1; i <= blocksN; i++) { Bytes x = t; cat(x, info); x.push_back((uint8_t)i); t = hmac(prk, x, B, S); if (i > from) cat(o, t); } return o;
}
template<class K> static void init(K &k, const Bytes &key, const Bytes &salt, const Bytes &info) {
  if (!info.empty()) { SymmetricKey kp(key, salt, info); k.Initialize(kp); } else if (!salt.empty()) { SymmetricKey kp(key, salt); k.Initialize(kp); } else { SymmetricKey kp(key); k.Initialize(kp); }
}
// n bytes of output through one of the four calls; nothing else is written
template<class K> static void take(K &k, const Bytes &want, int api, const char *what) {
  size_t n = want.size();
  if (api == 0) { Bytes o(n); k.Generate(o); dv_ensure_eq(o.data(), want.data(), n, what); }
  else if (api == 1) { Sec o(n); k.Generate(o); dv_ensure_eq(o.data(), want.data(), n, what); }
  else {
    Bytes o = any(n + 5, "out"), was = o;
    if (api == 2) k.Generate(o, 3, n); else { Sec s(n + 5); memcpy(s.data(), o.data(), n + 5); k.Generate(s, 3, n); memcpy(o.data(), s.data(), n + 5); }
    dv_ensure_eq(o.data() + 3, want.data(), n, what); dv_ensure_eq(o.data(), was.data(), 3, "before"); dv_ensure_eq(o.data() + 3 + n, was.data() + 3 + n, 2, "after");
  }
}
static size_t pick(size_t i, std::initializer_list<size_t> l) { return l.begin()[i % l.size()]; }
HARNESS(hkdf) {
  int d = dv_choose("digest", 0, 1); size_t B = blocks[d], S = sizes[d]; int api = dv_choose("api", 0, 3); HKDF k(new DigestFn(B, S));
  for (size_t i = 0; i < 40; i++) {
    Bytes key = any(pick(i, {16, 17, S, B, B + 1, 2 * B + 3}), "key"), salt = any(pick(i / 2, {0, 4, 9, B, B + 8, 0, S}), "salt"), info = any(pick(i / 3, {0, 1, 11, 0, B + 2}), "info");
    size_t n1 = pick(i, {1, S - 1, S, S + 1, 2 * S, 3 * S + 5, 8}), n2 = pick(i / 2, {S, 3, 2 * S + 1});
    init(k, key, salt, info);
    Bytes prk = salt.empty() ? key : hmac(salt, key, B, S); size_t b1 = (n1 + S - 1) / S, b2 = (n2 + S - 1) / S;
    Bytes w = hkdfExpand(prk, info, 0, b1, B, S), v = hkdfExpand(prk, info, b1, b1 + b2, B, S); w.resize(n1); v.resize(n2);
    take(k, w, api, "output"); take(k, v, (api + 1) % 4, "output of the next call");
  }
  dv_cover("end");
}
// extraction, and the 255-block limit
HARNESS(hkdf_extract) {
  int d = dv_choose("digest", 0, 1); size_t B = blocks[d], S = sizes[d]; HKDF k(new DigestFn(B, S));
  for (size_t sl : {(size_t)0, (size_t)8, B + 1}) { Bytes key = any(22, "key"), salt = any(sl, "salt"), o(S), want = hmac(sl ? salt : Bytes(S), key, B, S); k.Extract(key, salt, o); dv_ensure_eq(o.data(), want.data(), S, "extracted");
    Sec sk(22), ss(sl), so(S); memcpy(sk.data(), key.data(), 22); if (sl) memcpy(ss.data(), salt.data(), sl); k.Extract(sk, ss, so); dv_ensure_eq(so.data(), want.data(), S, "extracted"); }
  Bytes key = any(S, "key"), info = any(5, "info"), w = hkdfExpand(key, info, 0, 255, B, S), o(255 * S); init(k, key, Bytes(), info); k.Generate(o); dv_ensure_eq(o.data(), w.data(), o.size(), "255 blocks");
  bool refused = false; try { Bytes x(1); k.Generate(x); } catch (CEX::Exception::CryptoKdfException &) { refused = true; } dv_ensure(refused, "a 256th block is refused");
  init(k, key, Bytes(), info); refused = false; try { Bytes x(255 * S + 1); k.Generate(x); } catch (CEX::Exception::CryptoKdfException &) { refused = true; } dv_ensure(refused, "more than 255 blocks are refused");
  dv_cover("end");
}
static Bytes be32(uint32_t v) { return Bytes{(uint8_t)(v >> 24), (uint8_t)(v >> 16), (uint8_t)(v >> 8), (uint8_t)v}; }
HARNESS(kdf2) {
  int d = dv_choose("digest", 0, 1); size_t B = blocks[d], S = sizes[d]; int api = dv_choose("api", 0, 3); KDF2 k(new DigestFn(B, S));
  for (size_t i = 0; i < 40; i++) {
    Bytes key = any(pick(i, {16, S, B, B + 1, 2 * B + 3}), "key"), salt = any(pick(i / 2, {0, 4, B, 0, 13}), "salt"), info = any(pick(i / 3, {0, 7, 0, B + 2}), "info");
    size_t n[2] = {pick(i, {1, S - 1, S, S + 1, 2 * S, 3 * S + 5, 8}), pick(i / 2, {S, 3, 2 * S + 1})}; uint32_t c = 1;
    init(k, key, salt, info);
    // the key is padded to a block when there is no salt; what exceeds the block is salt
    Bytes z = key, s = salt; if (salt.empty()) { if (z.size() > B) s.assign(z.begin() + B, z.end()); z.resize(B); } cat(s, info);
    for (int r = 0; r < 2; r++) {
      Bytes w; while (w.size() < n[r]) { Bytes x = z; cat(x, be32(c++)); cat(x, s); cat(w, H(x, S)); } w.resize(n[r]);
      take(k, w, (api + r) % 4, "output");
    }
  }
  dv_cover("end");
}
HARNESS(pbkdf2) {
  int d = dv_choose("digest", 0, 1); size_t B = blocks[d], S = sizes[d]; int api = dv_choose("api", 0, 3); uint32_t it = dv_choose("iterations", 1, 3); if (it == 3) it = 5; PBKDF2 k(new DigestFn(B, S), it);
  for (size_t i = 0; i < 30; i++) {
    Bytes key = any(pick(i, {4, 16, S, B, B + 1, 2 * B + 3}), "key"), salt = any(pick(i / 2, {4, 0, B, 13}), "salt"), info = any(pick(i / 3, {0, 7, 0, B + 2}), "info");
    size_t n[2] = {pick(i, {1, S - 1, S, S + 1, 2 * S, 3 * S + 5, 8}), pick(i / 2, {S, 3, 2 * S + 1})}; uint32_t c = 1;
    init(k, key, salt, info); Bytes s = salt; cat(s, info);
    for (int r = 0; r < 2; r++) {
      Bytes w; while (w.size() < n[r]) { Bytes x = s; cat(x, be32(c++)); Bytes u = hmac(key, x, B, S), t = u; for (uint32_t j = 1; j < it; j++) { u = hmac(key, u, B, S); for (size_t q = 0; q < S; q++) t[q] ^= u[q]; } cat(w, t); } w.resize(n[r]);
      take(k, w, (api + r) % 4, "output");
    }
  }
  dv_cover("end");
}
// SCBKDF: the cache grows by a rate block each round while it is below the memory cost (the sizes here stay below one megabyte)
HARNESS(scbkdf) {
  ufd::hashes(); int i = dv_choose("mode", 0, 2); size_t R = i == 0 ? 168 : i == 1 ? 136 : 72, cpu = dv_choose("cpu", 1, 4), mem = dv_choose("memory", 0, 1);
  SCBKDF k(i == 0 ? Enumeration::ShakeModes::SHAKE128 : i == 1 ? Enumeration::ShakeModes::SHAKE256 : Enumeration::ShakeModes::SHAKE512, cpu, mem);
  for (size_t q = 0; q < 14; q++) {
    Bytes key = any(pick(q, {16, 32, 64, R - 1, R, R + 9}), "key"), salt = any(pick(q / 2, {0, 4, R, 13}), "salt"), info = any(pick(q / 3, {0, 7, 0, R - 5}), "info"); if (salt.empty()) info.clear();
    size_t n[2] = {pick(q, {1, R - 1, R, R + 1, 2 * R, 2 * R + 5, 8}), pick(q / 2, {R, 3, 2 * R + 1})};
    init(k, key, salt, info);
    spec::Sponge w(R); if (!salt.empty()) w.absorb(spec::customPad(info, salt, R)); w.absorbFinal(key, 0x24); Bytes cache(w.s, w.s + R);
    for (int r = 0; r < 2; r++) {
      for (size_t c = 0; c < cpu; c++) { w.absorb(cache); w.s[0] ^= 0x24; w.s[R - 1] ^= 0x80; if (mem) cache.insert(cache.end(), w.s, w.s + R); }
      w.p(); Bytes want = w.squeeze(n[r]); take(k, want, (q + r) % 4, "output");
    }
  }
  dv_cover("end");
}
// PBKDF2 after 299 blocks, then at any block: the (big-endian) number of the next block becomes any number the limit allows
HARNESS(pbkdf2_far) {
  int d = dv_choose("digest", 0, 1); size_t B = blocks[d], S = sizes[d]; PBKDF2 k(new DigestFn(B, S), 1);
  Bytes key = any(B, "key"), salt = any(16, "salt"), o(299 * S), q(2 * S), w; SymmetricKey kp(key, salt); k.Initialize(kp);
  auto block = [&](uint32_t c) { Bytes x = salt; cat(x, be32(c)); return hmac(key, x, B, S); };
  k.Generate(o); for (uint32_t c = 1; c < 300; c++) cat(w, block(c)); dv_ensure_eq(o.data(), w.data(), o.size(), "output");
  uint32_t c = 300, n; dv_sym(&n, 4, "blocks"); dv_assume(n >= 300 && n < PBKDF2::MAXGEN_REQUESTS - 4);
  if (dv_poke(__builtin_bswap32(300), __builtin_bswap32(n), 4)) { c = n; dv_cover("any block number"); }
  k.Generate(q); w = block(c); cat(w, block(c + 1)); dv_ensure_eq(q.data(), w.data(), q.size(), "output at any block number"); dv_cover("end");
}
// KDF2 up to its limit of requests, which is refused beyond
HARNESS(kdf2_limit) {
  int d = dv_choose("digest", 0, 1); size_t B = blocks[d], S = sizes[d]; KDF2 k(new DigestFn(B, S)); Bytes key = any(B, "key"), salt = any(16, "salt"), o(254 * S), w; SymmetricKey kp(key, salt);
  k.Initialize(kp); k.Generate(o); for (uint32_t c = 1; c < 255; c++) { Bytes x = key; cat(x, be32(c)); cat(x, salt); cat(w, H(x, S)); } dv_ensure_eq(o.data(), w.data(), o.size(), "output");
  k.Initialize(kp); bool refused = false; try { Bytes x(300 * S); k.Generate(x); } catch (CEX::Exception::CryptoKdfException &) { refused = true; } dv_ensure(refused, "more than the limit is refused"); dv_cover("end");
}

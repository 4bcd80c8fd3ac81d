#include "uf_dgst.h"
#include "SHAKE.h"
#include "KMAC.h"
#include "SymmetricKey.h"
#include "SecureVector.h"
using namespace CEX; using namespace CEX::Kdf; using namespace CEX::Mac; using namespace CEX::Cipher; using Bytes = std::vector<uint8_t>; using Sec = SecureVector<uint8_t>;
static const size_t shakeRates[] = {168, 136, 72}; static const Enumeration::ShakeModes shakeModes[] = {Enumeration::ShakeModes::SHAKE128, Enumeration::ShakeModes::SHAKE256, Enumeration::ShakeModes::SHAKE512};
static const size_t kmacRates[] = {168, 136, 72}, kmacTags[] = {16, 32, 64}; static const Enumeration::KmacModes kmacModes[] = {Enumeration::KmacModes::KMAC128, Enumeration::KmacModes::KMAC256, Enumeration::KmacModes::KMAC512};
static Bytes any(size_t n, const char *name) { Bytes b(n); dv_sym(b.data(), n, name); return b; }
static Sec sec(const Bytes &b) { Sec s(b.size()); if (!b.empty()) memcpy(s.data(), b.data(), b.size()); return s; }
// the output, in its place in a larger array
template<class V, class F> static void placed(F f, const Bytes &want, const char *what) {
  V o(want.size() + 5); Bytes was = any(o.size(), "out"); memcpy(o.data(), was.data(), was.size()); f(o);
  dv_ensure_eq(o.data() + 3, want.data(), want.size(), what); dv_ensure_eq(o.data(), was.data(), 3, "before"); dv_ensure_eq(o.data() + 3 + want.size(), was.data() + 3 + want.size(), 2, "after");
}
// SHAKE: every key length, outputs in one piece and in two
HARNESS(shake_key) {
  ufd::hashes(); int i = dv_choose("mode", 0, 2); size_t R = shakeRates[i], part = dv_choose("part", 0, 3); SHAKE s(shakeModes[i]);
  size_t outs[] = {1, 8, R - 1, R, R + 1, 2 * R, 2 * R + 13};
  for (size_t n = 4 + part; n <= 2 * R + 2; n += 4) {
    Bytes k = any(n, "key"); size_t o1 = outs[n % 7], o2 = outs[(n + 3) % 7]; spec::Sponge w(R); w.absorbFinal(k, 0x1F);
    if (n & 1) s.Initialize(sec(k)); else { SymmetricKey kp(k); s.Initialize(kp); }
    Bytes want = w.squeeze(o1);
    placed<Bytes>([&](Bytes &o) { s.Generate(o, 3, o1); }, want, "output");
    w.p(); want = w.squeeze(o2);   // another request starts with another block
    if (n & 2) placed<Sec>([&](Sec &o) { s.Generate(o, 3, o2); }, want, "second output"); else { Bytes o(o2); s.Generate(o); dv_ensure_eq(o.data(), want.data(), o2, "second output"); }
  }
  dv_cover("end");
}
// cSHAKE: function name and customization of every length around the rate
HARNESS(shake_custom) {
  ufd::hashes(); int i = dv_choose("mode", 0, 2); size_t R = shakeRates[i], ni = dv_choose("name", 0, 7), names[] = {0, 1, 9, 31, R - 6, R - 3, R, R + 35}, nn = names[ni]; SHAKE s(shakeModes[i]);
  Bytes key = any(21, "key"), name = any(nn, "name");
  for (size_t c = 4; c <= R + 34; c += (c < 34 || c > R - 45) ? 1 : 7) {
    Bytes cu = any(c, "custom"), want = spec::cshake(key, name, cu, R, 24), o(24);
    if (nn == 0 && (c & 1)) s.Initialize(key, cu); else if (c & 2) s.Initialize(sec(key), sec(cu), sec(name)); else { SymmetricKey kp(key, cu, name); s.Initialize(kp); }
    s.Generate(o); dv_ensure_eq(o.data(), want.data(), o.size(), "output");
  }
  if (nn) { Bytes want = spec::cshake(key, name, Bytes(), R, 24), o(24); s.Initialize(key, Bytes(), name); s.Generate(o); dv_ensure_eq(o.data(), want.data(), o.size(), "output"); }
  { spec::Sponge w(R); w.absorbFinal(key, 0x1F); Bytes want = w.squeeze(24), o(24); s.Initialize(key); s.Generate(o); dv_ensure_eq(o.data(), want.data(), o.size(), "output without customization"); }
  dv_cover("end");
}
static void kmacInit(KMAC &m, const Bytes &key, const Bytes &cu, const Bytes &name) {
  if (!name.empty()) { SymmetricKey kp(key, cu, name); m.Initialize(kp); } else if (!cu.empty()) { SymmetricKey kp(key, cu); m.Initialize(kp); } else { SymmetricKey kp(key); m.Initialize(kp); }
}
static Bytes kname(const Bytes &name) { return name.empty() ? Bytes{'K', 'M', 'A', 'C'} : name; }
// KMAC: every key and customization length around the rate
HARNESS(kmac_key) {
  ufd::hashes(); int i = dv_choose("mode", 0, 2); size_t R = kmacRates[i], T = kmacTags[i], p = dv_choose("part", 0, 3); KMAC m(kmacModes[i]);
  Bytes msg = any(11, "msg");
  for (size_t n = 16 + p; n <= 2 * R + 8; n += 4) {
    Bytes key = any(n, "key"), cu = any(n % 5 ? n % 5 + 4 : 0, "custom"), o(T), want = spec::kmac(key, kname(Bytes()), cu, msg, R, T);
    kmacInit(m, key, cu, Bytes()); m.Compute(msg, o); dv_ensure_eq(o.data(), want.data(), T, "tag");
  }
  for (size_t c = 4 + p; c <= R + 10; c += 4) {
    Bytes key = any(16, "key"), cu = any(c, "custom"), name = any(c % 3 ? c : 0, "name"), o(T), want = spec::kmac(key, kname(name), cu, msg, R, T);
    kmacInit(m, key, cu, name); m.Update(msg, 0, msg.size()); m.Finalize(o, 0); dv_ensure_eq(o.data(), want.data(), T, "tag");
  }
  dv_cover("end");
}
// KMAC: every message length to two blocks, in two pieces, and several output lengths
HARNESS(kmac_message) {
  ufd::hashes(); int i = dv_choose("mode", 0, 2); size_t R = kmacRates[i], T = kmacTags[i], p = dv_choose("part", 0, 7); KMAC m(kmacModes[i]);
  Bytes key = any(16, "key"), cu = any(7, "custom"); size_t outs[] = {T, T + 1, R, R + 1, 2 * R + 3, 65 * 8}, cuts[] = {0, 1, R / 2, R - 1, R, R + 1};
  for (size_t n = p; n <= 2 * R + 2; n += 8) {
    Bytes msg = any(n, "msg"); size_t L = outs[(n / 8 + p) % 6], a = cuts[(n / 8 + n) % 6]; if (L < T) L = T; if (a > n) a = n;
    Bytes want = spec::kmac(key, kname(Bytes()), cu, msg, R, L);
    kmacInit(m, key, cu, Bytes()); m.Update(msg, 0, a); m.Update(msg, a, n - a);
    Bytes o(L + 3); Bytes was = any(3, "was"); memcpy(o.data(), was.data(), 3);
    size_t r; if (n & 1) { Sec so(L + 3); r = m.Finalize(so, 3); memcpy(o.data() + 3, so.data() + 3, L); } else r = m.Finalize(o, 3);
    dv_ensure(r == L, "length returned"); dv_ensure_eq(o.data() + 3, want.data(), L, "tag"); dv_ensure_eq(o.data(), was.data(), 3, "before");
  }
  dv_cover("end");
}
// the compact forms agree with them
HARNESS(xof_compact) {
  using CEX::Digest::Keccak;
  ufd::hashes(); int f = dv_choose("form", 0, 3); int i = dv_choose("rate", 0, 2); size_t R = kmacRates[i], p = dv_choose("part", 0, 3);
  for (size_t n = p; n <= 2 * R + 2; n += 4) {
    Bytes x = any(n, "x"); size_t outs[] = {1, 32, R - 1, R, R + 1, 2 * R + 3}; size_t L = outs[(n / 4) % 6];
    Bytes o(L), want;
    if (f == 0) { Keccak::XOFP1600(x, 0, n, o, 0, L, R); spec::Sponge w(R); w.absorbFinal(x, 0x1F); want = w.squeeze(L); }
    else if (f == 1) { if (n < 4) continue; Bytes nm = any(n / 2, "name"), k = any(9, "key"); Keccak::CXOFP1600(k, x, nm, o, 0, L, R); want = spec::cshake(k, nm, x, R, L); }
    else if (f == 2) { Bytes k = any(17 + n / 3, "key"), cu = any(n / 2, "custom"); Keccak::MACP1600(k, cu, x, 0, n, o, R); want = spec::kmac(k, kname(Bytes()), cu, x, R, L); }
    else { o.resize(100 - R / 2); Keccak::Compute(x, 0, n, o, 0, R); want = spec::sponge(x, R, 6, 100 - R / 2); }
    dv_ensure_eq(o.data(), want.data(), want.size(), "output");
  }
  dv_cover("end");
}
// absorbing in pieces
HARNESS(xof_pieces) {
  using CEX::Digest::Keccak;
  ufd::hashes(); int i = dv_choose("rate", 0, 2); size_t R = kmacRates[i], p = dv_choose("part", 0, 7);
  for (size_t a = p; a <= R + 2; a += 8) for (size_t b : {(size_t)0, (size_t)1, (size_t)5, (size_t)13, R - a % R, R - a % R + 9, 2 * R + 3}) {
    Bytes x = any(a + b, "x"), o(40), want; std::array<uint64_t, 25> st = {0};
    size_t pos = Keccak::Incremental(x, 0, a, 0, R, Keccak::KECCAK_SHAKE_DOMAIN, st); dv_ensure(pos == a % R, "position");
    Keccak::Incremental(x, a, b, pos, R, Keccak::KECCAK_SHAKE_DOMAIN, st, true); Keccak::SqueezePartial(st, o, 0, 40, R);
    spec::Sponge w(R); w.absorbFinal(x, 0x1F); want = w.squeeze(40); dv_ensure_eq(o.data(), want.data(), 40, "output");
  }
  dv_cover("end");
}
// the encodings of every 64-bit number, in their place in a larger array
HARNESS(xof_encodings) {
  using CEX::Digest::Keccak;
  bool left = dv_choose("left", 0, 1); int n = dv_choose("bytes", 1, 8); uint64_t v; dv_sym(&v, 8, "v");
  dv_assume((v >> (8 * n - 8)) >> 8 == 0); dv_assume(n == 1 || v >> (8 * n - 8));
  Bytes o = any(14, "out"), was = o, want; if (left) want.push_back(n); for (int i = n - 1; i >= 0; i--) want.push_back((uint8_t)(v >> (8 * i))); if (!left) want.push_back(n);
  uint64_t r = left ? Keccak::LeftEncode(o, 2, v) : Keccak::RightEncode(o, 2, v);
  dv_ensure(r == want.size(), "length of the encoding"); dv_ensure_eq(o.data() + 2, want.data(), want.size(), "encoding"); dv_ensure_eq(o.data(), was.data(), 2, "before"); dv_ensure_eq(o.data() + 11, was.data() + 11, 3, "after"); dv_cover("end");
}

#include "dv.h"
#include "IntegerTools.h"
#include "SecureVector.h"
using CEX::Tools::IntegerTools; using Bytes = std::vector<uint8_t>;
// ---- integers to and from bytes, at every place in an array
static uint64_t le(const uint8_t *p, int n) { uint64_t v = 0; for (int i = 0; i < n; i++) v |= (uint64_t)p[i] << (8 * i); return v; }
static uint64_t be(const uint8_t *p, int n) { uint64_t v = 0; for (int i = 0; i < n; i++) v |= (uint64_t)p[i] << (8 * (n - 1 - i)); return v; }
static void putLe(uint8_t *p, uint64_t v, int n) { for (int i = 0; i < n; i++) p[i] = (uint8_t)(v >> (8 * i)); }
static void putBe(uint8_t *p, uint64_t v, int n) { for (int i = 0; i < n; i++) p[i] = (uint8_t)(v >> (8 * (n - 1 - i))); }
template<class F, class G> static void store(F code, G want, const char *name) { // code(value, array, offset) stores what want stores there, and nothing else
  size_t off = dv_range("off", 0, 8); uint64_t v; dv_symw(&v, 1, 8, "v");
  Bytes a(16); dv_sym(a.data(), 16, "a"); Bytes b = a; code(v, a, off); want(b.data() + off, v); dv_ensure_eq(a.data(), b.data(), 16, name);
}
HARNESS(convert) {
  Bytes a(17); dv_sym(a.data(), 17, "a"); const Bytes &c = a;
  for (size_t off = 0; off <= 9; off++) {
    const uint8_t *p = a.data() + off;
    dv_ensure(IntegerTools::LeBytesTo16(c, off) == le(p, 2) && IntegerTools::LeBytesTo16Raw(p) == le(p, 2), "little-endian to 16 bits");
    dv_ensure(IntegerTools::LeBytesTo32(c, off) == le(p, 4) && IntegerTools::LeBytesTo32Raw(p) == le(p, 4), "little-endian to 32 bits");
    dv_ensure(IntegerTools::LeBytesTo64(c, off) == le(p, 8) && IntegerTools::LeBytesTo64Raw(p) == le(p, 8), "little-endian to 64 bits");
    dv_ensure(IntegerTools::BeBytesTo16(c, off) == be(p, 2) && IntegerTools::BeBytesTo16Raw(p) == be(p, 2), "big-endian to 16 bits");
    dv_ensure(IntegerTools::BeBytesTo32(c, off) == be(p, 4) && IntegerTools::BeBytesTo32Raw(p) == be(p, 4), "big-endian to 32 bits");
    dv_ensure(IntegerTools::BeBytesTo64(c, off) == be(p, 8) && IntegerTools::BeBytesTo64Raw(p) == be(p, 8), "big-endian to 64 bits");
    for (size_t n = 1; n <= 4; n++) dv_ensure(IntegerTools::LeBytesTo32(c, off, n) == le(p, (int)n), "some bytes to 32 bits");
    for (size_t n = 1; n <= 8; n++) dv_ensure(IntegerTools::LeBytesTo64(c, off, n) == le(p, (int)n), "some bytes to 64 bits");
    uint64_t v; dv_symw(&v, 1, 8, "v"); Bytes x = a, w = a;
#define ST(call, put, n) { Bytes x = a, w = a; call; put(w.data() + off, v, n); dv_ensure_eq(x.data(), w.data(), 17, #call); }
    ST(IntegerTools::Le16ToBytes((uint16_t)v, x, off), putLe, 2) ST(IntegerTools::Le32ToBytes((uint32_t)v, x, off), putLe, 4) ST(IntegerTools::Le64ToBytes(v, x, off), putLe, 8)
    ST(IntegerTools::Be16ToBytes((uint16_t)v, x, off), putBe, 2) ST(IntegerTools::Be32ToBytes((uint32_t)v, x, off), putBe, 4) ST(IntegerTools::Be64ToBytes(v, x, off), putBe, 8)
    ST(IntegerTools::Le16ToBytesRaw((uint16_t)v, x.data() + off), putLe, 2) ST(IntegerTools::Le32ToBytesRaw((uint32_t)v, x.data() + off), putLe, 4) ST(IntegerTools::Le64ToBytesRaw(v, x.data() + off), putLe, 8)
    ST(IntegerTools::Be16ToBytesRaw((uint16_t)v, x.data() + off), putBe, 2) ST(IntegerTools::Be32ToBytesRaw((uint32_t)v, x.data() + off), putBe, 4) ST(IntegerTools::Be64ToBytesRaw(v, x.data() + off), putBe, 8)
  }
  uint64_t v; dv_symw(&v, 1, 8, "v");
#define AR(call, put, n) { Bytes x = call; uint8_t w[n]; put(w, v, n); dv_ensure(x.size() == n, "size"); dv_ensure_eq(x.data(), w, n, #call); }
  AR(IntegerTools::Le16ToBytes<Bytes>((uint16_t)v), putLe, 2) AR(IntegerTools::Le32ToBytes<Bytes>((uint32_t)v), putLe, 4) AR(IntegerTools::Le64ToBytes<Bytes>(v), putLe, 8)
  AR(IntegerTools::Be16ToBytes<Bytes>((uint16_t)v), putBe, 2) AR(IntegerTools::Be32ToBytes<Bytes>((uint32_t)v), putBe, 4) AR(IntegerTools::Be64ToBytes<Bytes>(v), putBe, 8)
  dv_cover("end");
}
// ---- runs of words
template<class W, size_t N> using Ar = std::array<W, N>;
template<class W, int NB> static void words(void (*out)(Ar<W, 18> &, size_t, Bytes &, size_t), void (*put)(uint8_t *, uint64_t, int), const char *name) {
  for (size_t io = 0; io <= 2; io++) for (size_t oo = 0; oo <= 3; oo += 3) {
    Ar<W, 18> h; dv_symw(h.data(), 18, sizeof(W), "h"); Ar<W, 18> h0 = h; Bytes o(NB + 5); dv_sym(o.data(), o.size(), "o"); Bytes w = o;
    out(h, io, o, oo); for (size_t i = 0; i < NB / sizeof(W); i++) put(w.data() + oo + i * sizeof(W), h0[io + i], sizeof(W));
    dv_ensure_eq(o.data(), w.data(), o.size(), name); dv_ensure_eq(h.data(), h0.data(), sizeof h, "input");
  }
}
template<class W, int NB> static void bytes(void (*in)(const Bytes &, size_t, Ar<W, 18> &, size_t), const char *name) {
  for (size_t io = 0; io <= 3; io += 3) for (size_t oo = 0; oo <= 2; oo++) {
    Bytes b(NB + 3); dv_sym(b.data(), b.size(), "b"); Ar<W, 18> h; dv_symw(h.data(), 18, sizeof(W), "h"); Ar<W, 18> w = h;
    in(b, io, h, oo); for (size_t i = 0; i < NB / sizeof(W); i++) w[oo + i] = (W)le(b.data() + io + i * sizeof(W), sizeof(W));
    dv_ensure_eq(h.data(), w.data(), sizeof h, name);
  }
}
HARNESS(blocks) {
  using A4 = Ar<uint32_t, 18>; using A8 = Ar<uint64_t, 18>;
  words<uint32_t, 32>([](A4 &i, size_t io, Bytes &o, size_t oo) { IntegerTools::BeUL256ToBlock(i, io, o, oo); }, putBe, "BeUL256ToBlock");
  words<uint64_t, 64>([](A8 &i, size_t io, Bytes &o, size_t oo) { IntegerTools::BeULL512ToBlock(i, io, o, oo); }, putBe, "BeULL512ToBlock");
  words<uint32_t, 32>([](A4 &i, size_t io, Bytes &o, size_t oo) { IntegerTools::LeUL256ToBlock(i, io, o, oo); }, putLe, "LeUL256ToBlock");
  words<uint64_t, 32>([](A8 &i, size_t io, Bytes &o, size_t oo) { IntegerTools::LeULL256ToBlock(i, io, o, oo); }, putLe, "LeULL256ToBlock");
  words<uint64_t, 64>([](A8 &i, size_t io, Bytes &o, size_t oo) { IntegerTools::LeULL512ToBlock(i, io, o, oo); }, putLe, "LeULL512ToBlock");
  words<uint64_t, 128>([](A8 &i, size_t io, Bytes &o, size_t oo) { IntegerTools::LeULL1024ToBlock(i, io, o, oo); }, putLe, "LeULL1024ToBlock");
  words<uint32_t, 24>([](A4 &i, size_t io, Bytes &o, size_t oo) { IntegerTools::BeToBlock(i, io, o, oo, 24); }, putBe, "BeToBlock");
  words<uint64_t, 24>([](A8 &i, size_t io, Bytes &o, size_t oo) { IntegerTools::LeToBlock(i, io, o, oo, 24); }, putLe, "LeToBlock");
  bytes<uint32_t, 64>([](const Bytes &i, size_t io, A4 &o, size_t oo) { IntegerTools::LeBytesToUL512(i, io, o, oo); }, "LeBytesToUL512");
  bytes<uint64_t, 32>([](const Bytes &i, size_t io, A8 &o, size_t oo) { IntegerTools::LeBytesToULL256(i, io, o, oo); }, "LeBytesToULL256");
  bytes<uint64_t, 64>([](const Bytes &i, size_t io, A8 &o, size_t oo) { IntegerTools::LeBytesToULL512(i, io, o, oo); }, "LeBytesToULL512");
  bytes<uint64_t, 128>([](const Bytes &i, size_t io, A8 &o, size_t oo) { IntegerTools::LeBytesToULL1024(i, io, o, oo); }, "LeBytesToULL1024");
  bytes<uint64_t, 40>([](const Bytes &i, size_t io, A8 &o, size_t oo) { IntegerTools::BlockToLe(i, io, o, oo, 40); }, "BlockToLe");
  dv_cover("end");
}
// ---- counters of n bytes are integers modulo 2^(8n): add with carry, byte by byte
static void addBe(uint8_t *p, size_t n, uint64_t v) { unsigned c = 0; for (size_t i = 0; i < n; i++) { unsigned s = p[n - 1 - i] + (i < 8 ? (unsigned)(uint8_t)(v >> (8 * i)) : 0u) + c; p[n - 1 - i] = (uint8_t)s; c = s >> 8; } }
static void addLe(uint8_t *p, size_t n, uint64_t v) { unsigned c = 0; for (size_t i = 0; i < n; i++) { unsigned s = p[i] + (i < 8 ? (unsigned)(uint8_t)(v >> (8 * i)) : 0u) + c; p[i] = (uint8_t)s; c = s >> 8; } }
template<class T> static void inc(size_t n) {
  T v; dv_symw(&v, 1, sizeof v, "v"); Bytes a(n), big(n + 5); dv_sym(a.data(), n, "a"); dv_sym(big.data(), n + 5, "big");
  Bytes wb = a, wl = a; addBe(wb.data(), n, v); addLe(wl.data(), n, v);
  { Bytes x = a; IntegerTools::BeIncrease8(x, v); dv_ensure_eq(x.data(), wb.data(), n, "big-endian increase"); }
  { Bytes x = big; IntegerTools::BeIncrease8(a, x, v); dv_ensure_eq(x.data(), wb.data(), n, "big-endian increase to an array"); dv_ensure_eq(&x[n], &big[n], 5, "the rest"); }
  { Bytes x = big; IntegerTools::BeIncrease8(a, x, (size_t)3, v); dv_ensure_eq(&x[3], wb.data(), n, "big-endian increase at an offset"); dv_ensure_eq(x.data(), big.data(), 3, "before"); dv_ensure_eq(&x[n + 3], &big[n + 3], 2, "after"); }
  { Bytes x = big; IntegerTools::BeIncrease8(a, x, 3, n, v); dv_ensure_eq(&x[3], wb.data(), n, "big-endian increase of a part"); }
  { Bytes x = a; IntegerTools::LeIncrease8(x, v); dv_ensure_eq(x.data(), wl.data(), n, "little-endian increase"); }
  { Bytes x = big; IntegerTools::LeIncrease8(a, x, v); dv_ensure_eq(x.data(), wl.data(), n, "little-endian increase to an array"); dv_ensure_eq(&x[n], &big[n], 5, "the rest"); }
  { Bytes x = big; IntegerTools::LeIncrease8(a, x, (size_t)3, v); dv_ensure_eq(&x[3], wl.data(), n, "little-endian increase at an offset"); dv_ensure_eq(x.data(), big.data(), 3, "before"); dv_ensure_eq(&x[n + 3], &big[n + 3], 2, "after"); }
  { Bytes x = big; IntegerTools::LeIncrease8(a, x, 3, n, v); dv_ensure_eq(&x[3], wl.data(), n, "little-endian increase of a part"); }
}
HARNESS(counters) {
  size_t n = dv_choose("size", 1, 24); int k = dv_choose("value", 0, 4);
  Bytes a(n), w; dv_sym(a.data(), n, "a");
  switch (k) {
    case 0: { Bytes x = a; w = a; addBe(w.data(), n, 1); IntegerTools::BeIncrement8(x); dv_ensure_eq(x.data(), w.data(), n, "big-endian increment");
      Bytes y(n + 4), z; dv_sym(y.data(), n + 4, "y"); z = y; addBe(&z[3], n, 1); IntegerTools::BeIncrement8(y, 3, n); dv_ensure_eq(y.data(), z.data(), n + 4, "big-endian increment of a part"); break; }
    case 1: { Bytes x = a; w = a; addLe(w.data(), n, 1); IntegerTools::LeIncrement(x); dv_ensure_eq(x.data(), w.data(), n, "little-endian increment");
      Bytes y(n + 4), z; dv_sym(y.data(), n + 4, "y"); z = y; addLe(&z[0], n, 1); IntegerTools::LeIncrement(y, n); dv_ensure_eq(y.data(), z.data(), n + 4, "little-endian increment of a part"); break; }
    case 2: inc<uint32_t>(n); break;
    case 3: inc<uint64_t>(n); break;
    default: inc<uint16_t>(n); break;
  }
  dv_cover("end");
}
// the first 16 bytes of a longer nonce are its counter; both kinds of vector
template<class V> static void nonce(size_t n) {
  V a(n); dv_sym(a.data(), n, "a"); Bytes was(a.data(), a.data() + n), w = was; uint32_t v; dv_symw(&v, 1, 4, "v"); uint64_t u; dv_symw(&u, 1, 8, "u");
  { V x(n); dv_sym(x.data(), n, "x"); w = was; addLe(w.data(), 16, v); IntegerTools::LeIncrease8(a, x, 0, 16, v); dv_ensure_eq(x.data(), w.data(), n, "increase of a nonce"); dv_ensure_eq(a.data(), was.data(), n, "the input"); }
  { V x(a); w = was; addLe(w.data(), 16, u); IntegerTools::LeIncrease8(a, x, 0, 16, u); dv_ensure_eq(x.data(), w.data(), n, "increase of a nonce"); }
  w = was; addLe(w.data(), 16, 1); IntegerTools::LeIncrement(a, 16); dv_ensure_eq(a.data(), w.data(), n, "increment of a nonce");
}
HARNESS(nonces) { size_t n = 16 << dv_choose("size", 0, 2); nonce<Bytes>(n); nonce<CEX::SecureVector<uint8_t>>(n); dv_cover("end"); }
template<class W> static void wide() { // two words as one number
  std::array<W, 2> a, b; dv_symw(a.data(), 2, sizeof(W), "a"); dv_symw(b.data(), 2, sizeof(W), "b"); W n; dv_symw(&n, 1, sizeof(W), "n");
  W lo = a[0] + n, hi = a[1] + (lo < n ? 1 : 0);
  { std::array<W, 2> x = a; IntegerTools::LeIncrementW(x); W l = a[0] + 1; dv_ensure(x[0] == l && x[1] == (W)(a[1] + (l == 0)), "increment of a double word"); }
  { std::array<W, 2> x = a; IntegerTools::LeIncreaseW(x, (size_t)n); dv_ensure(x[0] == lo && x[1] == hi, "increase of a double word"); }
  { std::array<W, 2> x = b; IntegerTools::LeIncreaseW(a, x, (size_t)n); dv_ensure(x[0] == lo && x[1] == hi, "increase of a double word to another"); }
  { std::array<W, 2> x = a; IntegerTools::LeIncreaseW(x, x, (size_t)n); dv_ensure(x[0] == lo && x[1] == hi, "increase of a double word in place"); }
}
HARNESS(words) { wide<uint32_t>(); wide<uint64_t>(); dv_cover("end"); }
// ---- rotations, masks, comparisons
template<class T> static void masks() {
  T x, y; dv_symw(&x, 1, sizeof(T), "x"); dv_symw(&y, 1, sizeof(T), "y"); const T all = (T)~(T)0;
  dv_ensure(IntegerTools::ExpandMask<T>(x) == (x ? all : (T)0), "ExpandMask"); dv_ensure(IntegerTools::IsZero<T>(x) == (x ? (T)0 : all), "IsZero");
  dv_ensure(IntegerTools::IsEqual<T>(x, y) == (x == y ? all : (T)0), "IsEqual"); dv_ensure(IntegerTools::IsLess<T>(x, y) == (x < y ? all : (T)0), "IsLess"); dv_ensure(IntegerTools::IsLte<T>(x, y) == (x <= y ? all : (T)0), "IsLte");
  dv_ensure(IntegerTools::ExpandTopBit<T>(x) == ((x >> (8 * sizeof(T) - 1)) ? all : (T)0), "ExpandTopBit");
  dv_ensure(IntegerTools::Select<T>(all, x, y) == x && IntegerTools::Select<T>(0, x, y) == y, "Select"); dv_ensure(IntegerTools::ValueOrZero<T, T>(x, y) == (x ? y : (T)0), "ValueOrZero");
  dv_ensure(IntegerTools::Min<T>(x, y) == (x < y ? x : y) && IntegerTools::Max<T>(x, y) == (x < y ? y : x), "Min and Max"); dv_ensure(IntegerTools::Abs<T>(x, y) == (T)(x < y ? y - x : x - y), "Abs");
  T a[3], b[3], o[4]; dv_symw(a, 3, sizeof(T), "a"); dv_symw(b, 3, sizeof(T), "b"); dv_symw(o, 4, sizeof(T), "o"); T o3 = o[3];
  IntegerTools::ConditionalCopy<T>(x, o, a, b, 3); for (int i = 0; i < 3; i++) dv_ensure(o[i] == (x ? a[i] : b[i]), "ConditionalCopy"); dv_ensure(o[3] == o3, "after");
  std::vector<T> v(4), w(4); dv_symw(v.data(), 4, sizeof(T), "v"); w = v; IntegerTools::ConditionalZeroMem<T>(x, v, 3); for (int i = 0; i < 4; i++) dv_ensure(v[i] == (x && i < 3 ? (T)0 : w[i]), "ConditionalZeroMem");
}
HARNESS(masks) {
  switch (dv_choose("type", 0, 3)) { case 0: masks<uint8_t>(); break; case 1: masks<uint16_t>(); break; case 2: masks<uint32_t>(); break; default: masks<uint64_t>(); }
  dv_cover("end");
}
HARNESS(rotate) {
  uint32_t x; uint64_t y; dv_symw(&x, 1, 4, "x"); dv_symw(&y, 1, 8, "y"); uint32_t k = dv_range("k", 0, 31), m = dv_range("m", 0, 63);
  dv_ensure(IntegerTools::RotL32(x, k) == (k ? x << k | x >> (32 - k) : x), "RotL32"); dv_ensure(IntegerTools::RotR32(x, k) == (k ? x >> k | x << (32 - k) : x), "RotR32");
  dv_ensure(IntegerTools::RotL64(y, m) == (m ? y << m | y >> (64 - m) : y), "RotL64"); dv_ensure(IntegerTools::RotR64(y, m) == (m ? y >> m | y << (64 - m) : y), "RotR64");
  if (k) { dv_ensure(IntegerTools::RotFL32(x, k) == (x << k | x >> (32 - k)), "RotFL32"); dv_ensure(IntegerTools::RotFR32(x, k) == (x >> k | x << (32 - k)), "RotFR32"); }
  if (m) { dv_ensure(IntegerTools::RotFL64(y, m) == (y << m | y >> (64 - m)), "RotFL64"); dv_ensure(IntegerTools::RotFR64(y, m) == (y >> m | y << (64 - m)), "RotFR64"); }
  size_t n = dv_range("n", 0, 70); uint64_t w = 0; for (unsigned i = 0; i < 64; i++) if (i < n) w |= y & (1ULL << i);
  dv_ensure(IntegerTools::Crop(y, n) == w, "Crop"); unsigned p = 0, c = 0; for (int i = 0; i < 64; i++) { p ^= (y >> i) & 1; }
  dv_ensure(IntegerTools::Parity(y) == p, "Parity");
  dv_ensure(IntegerTools::GetByte(y, 0) == (uint8_t)(y >> 56) && IntegerTools::GetByte(y, 7) == (uint8_t)y && IntegerTools::GetByte(x, 1) == (uint8_t)(x >> 16), "GetByte");
  dv_cover("end");
}
// equality of two runs of bytes, wherever they lie
HARNESS(compare) {
  size_t n = dv_choose("n", 0, 40); Bytes a(n + 3), b(n + 2), a0, b0; dv_sym(a.data(), n + 3, "a"); dv_sym(b.data(), n + 2, "b"); a0 = a; b0 = b;
  unsigned d = 0, e = 0; for (size_t i = 0; i < n; i++) { d |= a[2 + i] ^ b[1 + i]; e |= a[i] ^ b[i]; }
  bool same = d == 0, same0 = e == 0;
  dv_ensure(IntegerTools::Compare(a, 2, b, 1, n) == same, "Compare"); dv_ensure((IntegerTools::Verify(a, 2, b, 1, n) == 0) == same, "Verify at offsets");
  dv_ensure((IntegerTools::Verify(a, b, n) == 0) == same0, "Verify"); dv_ensure((IntegerTools::VerifyRaw(a.data() + 2, b.data() + 1, n) == 0) == same, "VerifyRaw");
  uint8_t c = (uint8_t)dv_range("c", 0, 1);
  Bytes o = b; IntegerTools::CMov(a, 2, o, 1, n, c); for (size_t i = 0; i < n + 2; i++) dv_ensure(o[i] == (c && i >= 1 && i < n + 1 ? a0[i + 1] : b0[i]), "CMov");
  o = b; IntegerTools::CMovRaw(a.data() + 2, o.data() + 1, n, c); for (size_t i = 0; i < n + 2; i++) dv_ensure(o[i] == (c && i >= 1 && i < n + 1 ? a0[i + 1] : b0[i]), "CMovRaw");
  dv_ensure(a == a0 && b == b0, "the compared arrays are as they were");
  dv_cover("end");
}
HARNESS(shift) {
  size_t n = dv_choose("n", 1, 20); Bytes a(n), o(n); dv_sym(a.data(), n, "a"); dv_sym(o.data(), n, "o"); Bytes a0 = a;
  uint32_t c = IntegerTools::ShiftLeft(a, o); dv_ensure(c == (uint32_t)(a0[0] >> 7), "the bit shifted out");
  for (size_t i = 0; i < n; i++) dv_ensure(o[i] == (uint8_t)(a0[i] << 1 | (i + 1 < n ? a0[i + 1] >> 7 : 0)), "shifted left");
  dv_cover("end");
}

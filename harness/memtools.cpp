#include "dv.h"
#include "MemoryTools.h"
using CEX::Tools::MemoryTools; using Bytes = std::vector<uint8_t>; template<class W> using Vec = std::vector<W>;
// Every operation on a run of n bytes, from array element io to array element oo: exactly those bytes change, as the operation says.
template<class A, class B> struct Run {
  Vec<A> a, a0; Vec<B> b, b0; Bytes w; size_t io, oo, n;
  Run(size_t n, size_t io, size_t oo) : a((n + sizeof(A) - 1) / sizeof(A) + io + 2), b((n + sizeof(B) - 1) / sizeof(B) + oo + 2), io(io), oo(oo), n(n) {
    dv_symw(a.data(), a.size(), sizeof(A), "a"); dv_symw(b.data(), b.size(), sizeof(B), "b"); a0 = a; b0 = b; w.resize(b.size() * sizeof(B)); memcpy(w.data(), b.data(), w.size());
  }
  void reset() { b = b0; memcpy(w.data(), b0.data(), w.size()); }
  const uint8_t *in(size_t i) { return (const uint8_t *)a0.data() + io * sizeof(A) + i; }
  uint8_t &out(size_t i) { return w[oo * sizeof(B) + i]; }
  void check(const char *name) { dv_ensure_eq(b.data(), w.data(), w.size(), name); dv_ensure_eq(a.data(), a0.data(), a.size() * sizeof(A), "the input is as it was"); reset(); }
};
template<class A, class B> static void all(size_t n, size_t io, size_t oo, uint8_t v) {
  Run<A, B> r(n, io, oo);
  if (n) { MemoryTools::XOR(r.a, io, r.b, oo, n); for (size_t i = 0; i < n; i++) r.out(i) ^= *r.in(i); r.check("XOR"); }
  MemoryTools::Move(r.a, io, r.b, oo, n); for (size_t i = 0; i < n; i++) r.out(i) = *r.in(i); r.check("Move");
  MemoryTools::Copy(r.a, io, r.b, oo, n); for (size_t i = 0; i < n; i++) r.out(i) = *r.in(i); r.check("Copy");
  MemoryTools::Clear(r.b, oo, n); for (size_t i = 0; i < n; i++) r.out(i) = 0; r.check("Clear");
  MemoryTools::SetValue(r.b, oo, n, v); for (size_t i = 0; i < n; i++) r.out(i) = v; r.check("SetValue");
}
template<class A> static void logic(size_t n, size_t io, size_t oo) {
  if (n % sizeof(A)) return;
  Run<A, A> r(n, io, oo);
  MemoryTools::AND(r.a, io, r.b, oo, n); for (size_t i = 0; i < n; i++) r.out(i) &= *r.in(i); r.check("AND");
  MemoryTools::OR(r.a, io, r.b, oo, n); for (size_t i = 0; i < n; i++) r.out(i) |= *r.in(i); r.check("OR");
}
HARNESS(runs) {
  size_t n = dv_choose("bytes", 0, 132); int k = dv_choose("types", 0, 5); uint8_t v; dv_sym(&v, 1, "v");
  for (size_t io = 0; io <= 1; io++) for (size_t oo = 0; oo <= 1; oo++) switch (k) {
    case 0: all<uint8_t, uint8_t>(n, 3 * io, 5 * oo, v); logic<uint8_t>(n, io, oo); break;
    case 1: all<uint32_t, uint32_t>(n, io, oo, v); logic<uint32_t>(n, io, oo); break;
    case 2: all<uint64_t, uint64_t>(n, io, oo, v); logic<uint64_t>(n, io, oo); break;
    case 3: all<uint32_t, uint8_t>(n, io, oo, v); break;
    case 4: all<uint8_t, uint32_t>(n, io, oo, v); break;
    default: { // raw pointers, values, objects, fixed-size transfers
      Run<uint8_t, uint8_t> r(n, io, oo);
      if (n) {
        MemoryTools::CopyRaw(&r.a[io], &r.b[oo], n); for (size_t i = 0; i < n; i++) r.out(i) = *r.in(i); r.check("CopyRaw");
        MemoryTools::XorRaw(&r.a[io], &r.b[oo], n); for (size_t i = 0; i < n; i++) r.out(i) ^= *r.in(i); r.check("XorRaw");
        MemoryTools::ClearRaw(&r.b[oo], n); for (size_t i = 0; i < n; i++) r.out(i) = 0; r.check("ClearRaw");
      }
      MemoryTools::CopyFromObject(r.a.data() + io, r.b, oo, n); for (size_t i = 0; i < n; i++) r.out(i) = *r.in(i); r.check("CopyFromObject");
      MemoryTools::CopyToObject(r.a, io, r.b.data() + oo, n); for (size_t i = 0; i < n; i++) r.out(i) = *r.in(i); r.check("CopyToObject");
      if (n <= 8) {
        uint64_t x = 0; memcpy(&x, r.in(0), n); uint64_t y = 0; MemoryTools::CopyToValue(r.a, io, y, n); dv_ensure(x == y, "CopyToValue");
        MemoryTools::CopyFromValue(x, r.b, oo, n); for (size_t i = 0; i < n; i++) r.out(i) = *r.in(i); r.check("CopyFromValue");
      }
      MemoryTools::XorPad(r.b, v); for (auto &x : r.w) x ^= v; r.check("XorPad");
      unsigned d = 0; for (size_t i = 0; i < n; i++) d |= r.a[io + i] ^ r.b[oo + i]; dv_ensure(MemoryTools::Compare(r.a, io, r.b, oo, n) == (d == 0), "Compare");
#define FIX(call, len, op) if (n == len) { MemoryTools::call(r.a, io, r.b, oo); for (size_t i = 0; i < n; i++) r.out(i) op *r.in(i); r.check(#call); }
      FIX(XOR128, 16, ^=) FIX(XOR256, 32, ^=) FIX(XOR512, 64, ^=) FIX(XOR1024, 128, ^=) FIX(COPY128, 16, =) FIX(COPY256, 32, =) FIX(COPY512, 64, =)
    }
  }
  dv_cover("end");
}

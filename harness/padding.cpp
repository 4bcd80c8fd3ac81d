// Block padding: what AddPadding writes, and where GetBlockLength finds the message's end.
#include "dv.h"
#include "PKCS7.h"
#include "X923.h"
#include "ESP.h"
#include "ZeroOne.h"
#include "PaddingFromName.h"
#include "CryptoException.h"
#include "CryptoPaddingException.h"
using namespace CEX; using namespace CEX::Cipher::Block::Padding; using CEX::Enumeration::PaddingModes;
using Bytes = std::vector<uint8_t>;
namespace {
IPadding *make(uint64_t s) {
  switch (s) { case 0: return new PKCS7(); case 1: return new X923(); case 2: return new ESP(); default: return new ZeroOne(); }
}
const PaddingModes names[4] = {PaddingModes::PKCS7, PaddingModes::X923, PaddingModes::ESP, PaddingModes::ZeroOne};
// Byte i of a padding of n bytes.
uint8_t padByte(uint64_t s, size_t n, size_t i) {
  switch (s) {
  case 0: return (uint8_t)n;                              // RFC 5652
  case 1: return i + 1 == n ? (uint8_t)n : 0;             // ANSI X9.23
  case 2: return (uint8_t)(i + 1);                        // RFC 4303
  default: return i == 0 ? 0x80 : 0;                      // ISO 7816-4
  }
}
// The place where the padding starts in b[off, end): the longest valid one for X9.23 and friends is unique, since the last
// byte names its length; for 7816-4 it is the last 0x80 with only zeros behind. end when there is none.
size_t found(uint64_t s, const uint8_t *b, size_t off, size_t end) {
  size_t at = end;
  for (size_t n = 1; n <= end - off && (s == 3 || n < 256); n++) {
    bool is = true;
    for (size_t i = 0; i < n; i++) is = is & (b[end - n + i] == padByte(s, n, i));
    at = is ? end - n : at;
  }
  return at;
}
template<class F> bool throwsPad(F f) { try { f(); return false; } catch (Exception::CryptoPaddingException &) { return true; } }
// The contract of the masks (proved in inttools.cpp).
template<class T> T c_mask(T x) { return x != 0 ? (T)~(T)0 : (T)0; }
void masks() {
  REPLACE("CEX::Tools::IntegerTools::ExpandMask<unsigned char>", c_mask<uint8_t>);
  REPLACE("CEX::Tools::IntegerTools::ExpandMask<unsigned long long>", c_mask<unsigned long long>);
  REPLACE("CEX::Tools::IntegerTools::ExpandMask<unsigned long>", c_mask<unsigned long>);
}
const size_t sizes[] = {1, 2, 15, 16, 17, 32, 33, 255, 256, 300};
}
// Padding a block of a longer array, at every place.
HARNESS(add) {
  masks();
  uint64_t s = dv_choose("scheme", 0, 3), len = sizes[dv_choose("block", 0, 9)];
  const size_t lead = dv_choose("lead", 0, 1) ? 21 : 0, tail = 3, end = lead + len;
  for (size_t off = lead; off < end; off++) {
    if (len > 40 && off % 23 && end - off > 3 && end - off != 255 && end - off != 256) continue;
    IPadding *p = make(s);
    Bytes b(end + tail), e(end + tail);
    dv_sym(b.data(), b.size(), "block"); e = b;
    if (s != 3 && end - off > 255) {
      dv_ensure(throwsPad([&] { p->AddPadding(b, off, end); }), "a padding longer than its code can name is refused");
    } else {
      p->AddPadding(b, off, end);
      for (size_t i = off; i < end; i++) e[i] = padByte(s, end - off, i - off);
      dv_ensure(p->GetBlockLength(b, lead, end) == off, "removing the padding gives the message back");
      if (s != 3) dv_ensure(p->GetBlockLength(b, off, end) == off, "a block of padding only");
    }
    dv_ensure(b.size() == e.size(), "the array keeps its size");
    dv_ensure_eq(b.data(), e.data(), e.size(), "the padding, and nothing else written");
    delete p;
  }
  dv_cover("padded");
}
// Finding the end of an arbitrary block: the start of its valid padding, or all of it. The last byte names the length: every
// possible length in turn, and all impossible ones at once.
HARNESS(find) {
  masks();
  uint64_t s = dv_choose("scheme", 0, 3), len = sizes[dv_choose("block", 0, 6)];
  const size_t lead = dv_choose("lead", 0, 1) ? 21 : 0, tail = 3;
  IPadding *p = make(s);
  Bytes b(lead + len + tail); dv_sym(b.data(), b.size(), "block"); Bytes o = b;
  auto check = [&] {
    b = o;
    dv_ensure(p->GetBlockLength(b, lead, lead + len) == found(s, o.data(), lead, lead + len), "the end of the message");
    if (lead == 0) {
      Bytes w(o.begin(), o.begin() + len);
      dv_ensure(p->GetBlockLength(w) == found(s, o.data(), 0, len), "the end of the message in a whole array");
    }
    dv_ensure_eq(b.data(), o.data(), o.size(), "the block is left as it is");
  };
  if (s != 3) {
    uint8_t last = o[lead + len - 1];
    for (size_t v = 0; v <= len; v++) { o[lead + len - 1] = (uint8_t)v; check(); }
    dv_assume(last > len);
    o[lead + len - 1] = last;
  }
  check();
  dv_cover("found");
  delete p;
}
// Ranges without a block, and ranges beyond the array.
HARNESS(ranges) {
  masks();
  uint64_t s = dv_choose("scheme", 0, 3);
  IPadding *p = make(s);
  Bytes b(16), e; dv_sym(b.data(), 16, "block"); Bytes o = b;
  uint64_t off = dv_range("offset", 0, ~0ULL), len = dv_range("length", 0, ~0ULL);
  dv_assume(len > 16 || off >= len);
  dv_ensure(throwsPad([&] { p->AddPadding(b, off, len); }), "padding refused");
  dv_ensure(throwsPad([&] { p->GetBlockLength(b, off, len); }), "finding refused");
  dv_ensure(throwsPad([&] { p->GetBlockLength(e); }), "an empty array has no block");
  dv_ensure_eq(b.data(), o.data(), 16, "nothing written");
  dv_cover("refused");
  dv_ensure(p->Enumeral() == names[s], "the scheme's name");
  IPadding *q = Helper::PaddingFromName::GetInstance(names[s]);
  dv_ensure(q->Enumeral() == names[s], "the scheme made from the name");
  delete p; delete q;
}

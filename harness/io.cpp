// Byte streams in memory against an array and a position.
#include "dv.h"
#include <functional>
#include "mock_cipher.h"
#include "MemoryStream.h"
#include "SecureStream.h"
#include "StreamReader.h"
#include "StreamWriter.h"
#include "SystemTools.h"
#include "SHA2512.h"
#include "BlockCipherFromName.h"
using namespace mock; using namespace CEX::IO;
namespace {
Bytes any(size_t n, const char *name) { Bytes b(n); if (n) dv_sym(b.data(), n, name); return b; }
// What the stream holds.
struct Model {
  Bytes b; size_t at = 0;
  void write(const Bytes &x) { if (b.size() < at + x.size()) b.resize(at + x.size()); if (x.size()) memcpy(b.data() + at, x.data(), x.size()); at += x.size(); }
  Bytes read(size_t n) { size_t r = at < b.size() ? b.size() - at : 0; if (n > r) n = r; Bytes o(b.begin() + (n ? at : 0), b.begin() + (n ? at : 0) + n); at += n; return o; }
};
struct Pair { IByteStream &s; Model m; std::function<Bytes()> all;
  void same() {
    dv_ensure(s.Length() == m.b.size(), "length"); dv_ensure(s.Position() == m.at, "position");
    Bytes a = all(); dv_ensure(a.size() == m.b.size(), "size of the content"); dv_ensure_eq(a.data(), m.b.data(), a.size(), "content");
  }
  void write(size_t n) { Bytes x = any(n + 6, "write"), y(x.begin() + 2, x.begin() + 2 + n), x0 = x; s.Write(x, 2, n); m.write(y); dv_ensure_eq(x.data(), x0.data(), x.size(), "input unchanged"); same(); }
  // Writing past the end: what fills the gap is the stream's affair.
  void past(size_t n, size_t gap) {
    size_t len = m.b.size(); s.Seek(len + gap, SeekOrigin::Begin); m.at = len + gap; Bytes x = any(n, "write"); s.Write(x, 0, n); m.write(x);
    dv_ensure(s.Length() == m.b.size(), "length"); Bytes a = all(); if (a.size() == m.b.size()) memcpy(m.b.data() + len, a.data() + len, gap); same();
  }
  void put() { Bytes x = any(1, "byte"); s.WriteByte(x[0]); m.write(x); same(); }
  void get() { Bytes w = m.read(1); dv_ensure(s.ReadByte() == w[0], "byte read"); same(); }
  void read(size_t n, size_t off) {
    Bytes o = any(off + n + 3, "out"), was = o, w = m.read(n);
    dv_ensure(s.Read(o, off, n) == w.size(), "number of bytes read");
    memcpy(was.data() + off, w.data(), w.size()); dv_ensure_eq(o.data(), was.data(), o.size(), "bytes read, and nothing else written"); same();
  }
  void seek(size_t n, SeekOrigin o) { s.Seek(n, o); m.at = o == SeekOrigin::Begin ? n : o == SeekOrigin::End ? m.b.size() - n : m.at + n; same(); }
  void length(size_t n) { s.SetLength(n); size_t keep = n < m.b.size() ? n : m.b.size(); m.b.resize(n); if (m.at > n) m.at = n; dv_ensure(s.Length() == n, "length set"); Bytes a = all(); dv_ensure_eq(a.data(), m.b.data(), keep, "content kept"); m.b = a; same(); }
  void copy() { MemoryStream d; s.CopyTo(&d); dv_ensure(d.ToArray() == m.b, "copy"); same(); }
};
void play(Pair &p, int h) {
  using O = SeekOrigin;
  switch (h) {
  case 0: p.write(20); p.write(0); p.write(1); p.seek(0, O::Begin); p.read(5, 0); p.read(5, 9); p.get(); p.read(0, 3); p.read(30, 2); p.read(4, 0); p.put(); p.seek(3, O::End); p.get(); p.put(); p.put(); p.put(); p.copy(); break;
  case 1: p.put(); p.seek(0, O::Begin); p.write(7); p.seek(3, O::Begin); p.write(2); p.seek(1, O::Current); p.read(1, 100); p.write(40); p.seek(10, O::Begin); p.read(12, 40); p.read(12, 5); p.read(12, 21); p.copy(); break;
  case 2: p.write(33); p.length(20); p.write(3); p.seek(2, O::Begin); p.length(10); p.read(4, 0); p.length(10); p.seek(10, O::Begin); p.read(1, 0); p.write(17); p.length(0); p.read(3, 1); p.write(5); p.seek(5, O::End); p.read(5, 0); break;
  case 3: p.write(16); p.seek(20, O::Begin); p.read(3, 0); p.seek(16, O::Begin); p.write(16); p.s.Reset(); p.m = Model(); p.same(); p.write(9); p.seek(0, O::Begin); p.read(9, 0); p.s.Close(); p.m = Model(); p.same(); p.put(); break;
  case 4: p.past(3, 4); p.write(20); p.past(10, 60); p.seek(15, O::Begin); p.read(30, 1); p.past(2, 1); p.past(100, 5000); p.past(1, 3); p.seek(1, O::End); p.read(1, 0); p.put(); break;
  }
}
std::string c_name() { return "name"; }
uint32_t c_id() { return 77; }
IBlockCipher *c_cipher(CEX::Enumeration::BlockCiphers) { return new BlockFn; }
void c_hash(void *, const Bytes &in, Bytes &out) { std::string n = "hash" + std::to_string(in.size()); dv_ensure(out.size() == 64, "room for the digest"); dv_uf(n.c_str(), out.data(), 64, in.data(), in.size()); }
}
// Plain and encrypted streams, made empty or from arrays, through four histories.
HARNESS(memory) {
  int make = dv_choose("make", 0, 4), h = dv_choose("history", 0, 4);
  Bytes a = any(37, "initial"), part(a.begin() + 5, a.begin() + 25); MemoryStream other(a);
  MemoryStream *s = make == 0 ? new MemoryStream : make == 1 ? new MemoryStream(a) : make == 2 ? new MemoryStream(a, 5, 20) : make == 3 ? new MemoryStream(other) : new MemoryStream((size_t)4096);
  Pair p{*s, Model{make == 0 || make == 4 ? Bytes() : make == 2 ? part : a}, [s] { return s->ToArray(); }};
  p.same(); play(p, h); dv_ensure(other.ToArray() == a, "the copied stream is left alone");
  delete s; dv_cover("end");
}
HARNESS(secure) {
  counters();
  REPLACE("CEX::Tools::SystemTools::ComputerName[abi:cxx11]", c_name); REPLACE("CEX::Tools::SystemTools::OsName[abi:cxx11]", c_name); REPLACE("CEX::Tools::SystemTools::UserId[abi:cxx11]", c_name); REPLACE("CEX::Tools::SystemTools::UserName[abi:cxx11]", c_name);
  REPLACE("CEX::Tools::SystemTools::ProcessId", c_id); REPLACE("CEX::Helper::BlockCipherFromName::GetInstance", c_cipher); REPLACE("CEX::Digest::SHA2512::Compute", c_hash);
  int make = dv_choose("make", 0, 3), h = dv_choose("history", 0, 4);
  Bytes a = any(37, "initial"), part(a.begin() + 5, a.begin() + 25), a0 = a;
  SecureStream *s = make == 0 ? new SecureStream : make == 1 ? new SecureStream(a, 0x8000000000000001ULL) : make == 2 ? new SecureStream(a, 5, 20, 3) : new SecureStream((size_t)40, 9);
  Pair p{*s, Model{make == 1 ? a : make == 2 ? part : Bytes()}, [s] { return s->ToArray(); }};
  p.same(); play(p, h); dv_ensure(a == a0, "the array is left alone");
  delete s; dv_cover("end");
}
// Values written one after another and read back, little endian.
template<class T> static void value(StreamWriter &w, Bytes &want) { T x; dv_sym(&x, sizeof x, "value"); w.Write(x); for (size_t i = 0; i < sizeof x; i++) want.push_back((uint8_t)(x >> (8 * i))); dv_ensure(w.Position() == want.size(), "position"); }
template<class T> static void values(StreamWriter &w, Bytes &want, size_t n) { std::vector<T> x(n); dv_symw(x.data(), n, sizeof(T), "values"); w.Write(x); for (T v : x) for (size_t i = 0; i < sizeof(T); i++) want.push_back((uint8_t)(v >> (8 * i))); dv_ensure(w.Position() == want.size(), "position"); }
template<class T> static void back(StreamReader &r, const Bytes &b, size_t &at) { uint64_t v = 0; for (size_t i = 0; i < sizeof(T); i++) v |= (uint64_t)b[at + i] << (8 * i); dv_ensure(r.ReadInt<T>() == (T)v, "value read"); at += sizeof(T); dv_ensure(r.Position() == at, "position"); }
HARNESS(values) {
  int size = dv_choose("size", 0, 2);
  StreamWriter w((size_t)(size == 0 ? 0 : size == 1 ? 13 : 100)); Bytes want;
  value<uint32_t>(w, want); value<uint8_t>(w, want); value<uint64_t>(w, want); value<uint16_t>(w, want); values<uint8_t>(w, want, 5); values<uint64_t>(w, want, 3); values<uint32_t>(w, want, 3); values<uint16_t>(w, want, 1);
  dv_ensure(w.Length() >= want.size(), "length"); dv_ensure_eq(w.Generate().data(), want.data(), want.size(), "bytes written");
  MemoryStream *m = w.GetStream(); dv_ensure(m->ToArray() == want, "the stream of what was written");
  StreamReader r(*m); size_t at = 0; dv_ensure(r.Length() == want.size() && r.Position() == 0, "a reader at the start");
  back<uint32_t>(r, want, at); back<uint8_t>(r, want, at); back<uint64_t>(r, want, at); back<uint16_t>(r, want, at);
  dv_ensure(r.ReadByte() == want[at++], "byte read"); Bytes b = r.ReadBytes(4); dv_ensure_eq(b.data(), want.data() + at, 4, "bytes read"); at += 4;
  back<uint64_t>(r, want, at); back<uint16_t>(r, want, at); back<uint8_t>(r, want, at); b = r.ReadBytes(want.size() - at); dv_ensure_eq(b.data(), want.data() + at, b.size(), "bytes read");
  delete m; dv_cover("end");
}

// Native runtime of the contract language: runs a harness on given values (a counterexample) or on random ones.
// usage: replay.exe FILE            values from FILE ("name hex" per line; "?name dec" for a choice)
//        replay.exe FILE SEED N     as above, but names absent from FILE are random; N runs
#include <windows.h>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <vector>
#include <exception>
#include <new>
#include <fstream>
#include <random>
extern "C" void ENTRY();

// ---- allocation with an inaccessible page behind each block
static volatile LONG guardOn = 0;
struct Hdr { uint64_t magic, size; };
static const uint64_t MAGIC = 0xD5C0DE5AFE0A110CULL;
struct Live { uint8_t *p; size_t n; }; static Live live[1 << 14]; static size_t liveEnd = 0;
static void *gAlloc(size_t n) {
  size_t pages = (n + sizeof(Hdr) + 16 + 4095) / 4096;
  uint8_t *b = (uint8_t *)VirtualAlloc(nullptr, (pages + 2) * 4096, MEM_RESERVE, PAGE_NOACCESS);
  if (!b) return nullptr;
  if (!VirtualAlloc(b, (pages + 1) * 4096, MEM_COMMIT, PAGE_READWRITE)) return nullptr;
  // [page 0: header][data .. guard]
  Hdr *h = (Hdr *)b; h->magic = MAGIC; h->size = n;
  uint8_t *e = b + (pages + 1) * 4096;
  size_t off = (n + 15) & ~size_t(15);
  uint8_t *p = e - (off ? off : 16);
  memset(b + 4096, 0xA5, pages * 4096);
  for (uint8_t *q = p + n; q < e; q++) *q = 0xC9;
  size_t k = 0; while (k < liveEnd && live[k].p) k++; if (k < sizeof live / sizeof *live) { live[k] = {p, n}; if (k == liveEnd) liveEnd++; }
  return p;
}
static bool gOwn(void *p) {
  MEMORY_BASIC_INFORMATION mi;
  if (!VirtualQuery(p, &mi, sizeof mi) || mi.State != MEM_COMMIT) return false;
  Hdr *h = (Hdr *)mi.AllocationBase;
  if (!VirtualQuery(h, &mi, sizeof mi) || mi.State != MEM_COMMIT || !(mi.Protect & PAGE_READWRITE)) return false;
  if (h->magic != MAGIC) return false;
  return true;
}
static void bad(const char *what);
static void gFree(void *p) {
  MEMORY_BASIC_INFORMATION mi; VirtualQuery(p, &mi, sizeof mi);
  Hdr *h = (Hdr *)mi.AllocationBase;
  size_t n = h->size;
  for (uint8_t *q = (uint8_t *)p + n; (uintptr_t)q & 15; q++) if (*q != 0xC9) bad("a write behind a heap block");
  for (size_t k = 0; k < liveEnd; k++) if (live[k].p == p) { live[k].p = nullptr; break; }
  VirtualFree(h, 0, MEM_RELEASE);
}
extern "C" { void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void __real_free(void *);
void *__wrap_malloc(size_t n) { return guardOn ? gAlloc(n) : __real_malloc(n); }
void *__wrap_calloc(size_t a, size_t b) { if (!guardOn) return __real_calloc(a, b); void *p = gAlloc(a * b); if (p) memset(p, 0, a * b); return p; }
void __wrap_free(void *p) { if (!p) return; if (gOwn(p)) gFree(p); else __real_free(p); } }
void *operator new(size_t n) { void *p = guardOn ? gAlloc(n) : __real_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { return operator new(n); }
void operator delete(void *p) noexcept { __wrap_free(p); }
void operator delete[](void *p) noexcept { __wrap_free(p); }
void operator delete(void *p, size_t) noexcept { __wrap_free(p); }
void operator delete[](void *p, size_t) noexcept { __wrap_free(p); }

struct Off { LONG was; Off() : was(guardOn) { guardOn = 0; } ~Off() { guardOn = was; } };
static std::map<std::string, std::string> vals; static std::map<std::string, uint64_t> choices;
static bool rnd = false; static std::mt19937_64 rng; static unsigned mode; static int fails = 0; static bool announced = false;
static std::map<std::string, std::string> used;
struct Stop {};
static void dump() {
  for (auto &k : choices) printf("?%s %llu\n", k.first.c_str(), (unsigned long long)k.second);
  for (auto &k : used) printf("=%s %s\n", k.first.c_str(), k.second.c_str());
}
static void bad(const char *what) {
  Off o; printf("FAIL %s\n", what); if (rnd && !announced) { announced = true; dump(); } fflush(stdout); fails++;
}
static uint64_t rv() {
  uint64_t z = rng(); unsigned m = mode == 7 ? rng() % 7 : mode;
  switch (m) {
    case 1: return 0; case 2: return ~0ULL; case 3: return rng() % 3 == 0 ? 0 : rng() % 2 ? ~0ULL : z;
    case 4: { uint64_t b = 0; for (int k = 0; k < 8; k++) { uint64_t q = rng() % 6; b |= (q == 0 ? 0xffULL : q == 1 ? 0 : q == 2 ? 0x80 : q == 3 ? 1 : rng() & 0xff) << (8 * k); } return b; }
    case 5: return 1ULL << (rng() % 64); case 6: return ~0ULL - rng() % 4;
  }
  return z;
}
static uint64_t value(const std::string &n, unsigned bytes, bool *have = nullptr) {
  auto it = vals.find(n); uint64_t v = 0;
  if (have) *have = it != vals.end();
  if (it != vals.end()) v = strtoull(it->second.c_str(), 0, 16);
  else if (rnd) v = rv();
  if (bytes < 8) v &= (1ULL << (8 * bytes)) - 1;
  char b[32]; snprintf(b, 32, "%llX", (unsigned long long)v); used[n] = b;
  return v;
}
static uint64_t mix(uint64_t h, uint64_t w) { h ^= w; h *= 0x9E3779B97F4A7C15ULL; h ^= h >> 32; h *= 0xD6E8FEB86659FD93ULL; h ^= h >> 29; return h; }
static uint64_t ufh(const std::string &nm, const uint8_t *in, size_t n) {
  uint64_t h = 1469598103934665603ULL; for (unsigned char c : nm) { h ^= c; h *= 1099511628211ULL; }
  h += n * 8;
  for (size_t i = 0; i < n; i += 8) { uint64_t w = 0; memcpy(&w, in + i, n - i < 8 ? n - i : 8); h = mix(h, w); }
  return h;
}
extern "C" {
void dv_sym(void *p, size_t n, const char *name) {
  Off o;
  for (size_t i = 0; i < n;) { size_t k = n - i >= 8 ? 8 : n - i >= 4 ? 4 : n - i >= 2 ? 2 : 1; uint64_t v = value(std::string(name) + "." + std::to_string(i), k); memcpy((uint8_t *)p + i, &v, k); i += k; }
}
void dv_symw(void *p, size_t c, size_t w, const char *name) {
  Off o;
  for (size_t i = 0; i < c; i++) { uint64_t v = value(std::string(name) + "." + std::to_string(i * w), w); memcpy((uint8_t *)p + i * w, &v, w); }
}
uint64_t dv_range(const char *name, uint64_t lo, uint64_t hi) {
  Off o; bool have; uint64_t v = value(name, 8, &have);
  if (v < lo || v > hi) { uint64_t span = hi - lo + 1; v = rnd && span ? lo + (mode == 1 ? 0 : mode == 2 ? span - 1 : rng() % span) : lo; }
  char b[32]; snprintf(b, 32, "%llX", (unsigned long long)v); used[name] = b;
  return v;
}
uint64_t dv_choose(const char *name, uint64_t lo, uint64_t hi) {
  Off o; auto it = choices.find(name); uint64_t v = it == choices.end() ? (rnd ? lo + rng() % (hi - lo + 1) : lo) : it->second;
  if (it == choices.end()) choices[name] = v;
  return v;
}
void dv_assume(bool c) { if (!c) throw Stop(); }
void dv_ensure(bool c, const char *n) { if (!c) bad(n); }
void dv_ensure_eq(const void *a, const void *b, size_t n, const char *name) {
  for (size_t i = 0; i < n; i++) if (((const uint8_t *)a)[i] != ((const uint8_t *)b)[i]) { Off o; char t[256]; snprintf(t, 256, "%s differs at byte %llu: %02x, expected %02x", name, (unsigned long long)i, ((const uint8_t *)a)[i], ((const uint8_t *)b)[i]); bad(t); return; }
}
void dv_cover(const char *) {}
void dv_uf(const char *name, void *out, size_t on, const void *in, size_t n) {
  Off o;
  for (size_t i = 0; i < on;) { size_t k = on - i >= 8 ? 8 : on - i >= 4 ? 4 : on - i >= 2 ? 2 : 1; uint64_t v = mix(ufh(std::string(name) + "@" + std::to_string(i), (const uint8_t *)in, n), 1); memcpy((uint8_t *)out + i, &v, k); i += k; }
}
void dv_replace(const char *, const void *) {}
void dv_opt(const char *, uint64_t) {}
void dv_task(int64_t) {}
void dv_forget(void *, size_t) {}
uint64_t dv_poke(uint64_t old, uint64_t now, size_t w) {
  uint8_t *at[2] = {nullptr, nullptr}; size_t found = 0;
  for (size_t k = 0; k < liveEnd; k++) if (live[k].p) for (size_t i = 0; i + w <= live[k].n; i += 4) if (!memcmp(live[k].p + i, &old, w)) { if (found < 2) at[found] = live[k].p + i; found++; }
  if (found > 2) return 0;
  for (size_t k = 0; k < found; k++) memcpy(at[k], &now, w);
  return found > 0;
}
void *dv_symbuf(const char *name, uint64_t size) {
  uint8_t *p = (uint8_t *)gAlloc(size);
  Off o; for (uint64_t i = 0; i < size; i++) p[i] = (uint8_t)mix(ufh(name, (const uint8_t *)&i, 8), 1);
  return p;
}
int dv_is_symbolic() { return 0; }
void dv_print(const char *n, uint64_t v) { Off o; printf("%s: %llx\n", n, (unsigned long long)v); }
void dv_print_mem(const char *n, const void *p, uint64_t k) { Off o; printf("%s:", n); for (uint64_t i = 0; i < k; i++) printf(" %02x", ((const uint8_t *)p)[i]); printf("\n"); }
}
static LONG WINAPI onFault(EXCEPTION_POINTERS *e) {
  if (e->ExceptionRecord->ExceptionCode == EXCEPTION_ACCESS_VIOLATION || e->ExceptionRecord->ExceptionCode == EXCEPTION_STACK_OVERFLOW
      || e->ExceptionRecord->ExceptionCode == EXCEPTION_INT_DIVIDE_BY_ZERO || e->ExceptionRecord->ExceptionCode == EXCEPTION_ILLEGAL_INSTRUCTION) {
    guardOn = 0; char t[100]; snprintf(t, 100, "fault %lx", (unsigned long)e->ExceptionRecord->ExceptionCode); bad(t); fflush(stdout); ExitProcess(1);
  }
  return EXCEPTION_CONTINUE_SEARCH;
}
static void one() {
  try { guardOn = 1; ENTRY(); guardOn = 0; }
  catch (Stop &) { guardOn = 0; if (!rnd) printf("STOP a precondition of the harness does not hold\n"); }
  catch (std::exception &e) { guardOn = 0; char t[300]; snprintf(t, 300, "an exception left the harness: %s", e.what()); bad(t); }
  catch (...) { guardOn = 0; bad("an exception left the harness"); }
}
int main(int argc, char **argv) {
  AddVectoredExceptionHandler(1, onFault);
  std::ifstream f(argv[1]); std::string a, b;
  while (f >> a >> b) { if (a[0] == '?') choices[a.substr(1)] = strtoull(b.c_str(), 0, 10); else if (a[0] == '=') vals[a.substr(1)] = b; else { std::string r; std::getline(f, r); } }
  uint64_t runs = 1, seed = 1;
  if (argc > 3) { rnd = true; seed = strtoull(argv[2], 0, 10); runs = strtoull(argv[3], 0, 10); }
  auto ch0 = choices; ULONGLONG t0 = GetTickCount64(); ULONGLONG lim = argc > 4 ? strtoull(argv[4], 0, 10) : ~0ULL; uint64_t k = 0;
  for (; k < runs && !fails; k++) {
    if (k && GetTickCount64() - t0 > lim) break;
    choices = ch0; used.clear(); rng.seed(seed * 1000003 + k); mode = k % 8; one();
  }
  printf("%s after %llu runs\n", fails ? "FAILED" : "PASSED", (unsigned long long)k); fflush(stdout);
  ExitProcess(fails ? 1 : 0);
}

// The contract language of the harnesses. In the verifier these are intrinsics; in a replay they are the small runtime in dv_rt.cpp.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <vector>
#include <array>
#include <string>
extern "C" {
void dv_sym(void *p, size_t n, const char *name);                          // n unknown bytes
void dv_symw(void *p, size_t count, size_t width, const char *name);       // count unknown words of width bytes
uint64_t dv_range(const char *name, uint64_t lo, uint64_t hi);             // an unknown number in [lo,hi]
uint64_t dv_choose(const char *name, uint64_t lo, uint64_t hi);            // every number in [lo,hi], one run each
void dv_assume(bool c);                                                    // precondition
void dv_ensure(bool c, const char *name);                                  // postcondition
void dv_ensure_eq(const void *a, const void *b, size_t n, const char *name);
void dv_cover(const char *name);                                           // this point is reachable
void dv_uf(const char *name, void *out, size_t on, const void *in, size_t in_n); // unknown function: same input, same output
void dv_replace(const char *fn, const void *stub);                         // callers see this contract instead of the body
void dv_opt(const char *name, uint64_t v);
void dv_task(int64_t k);
uint64_t dv_poke(uint64_t old, uint64_t now, size_t width);               // the heap word holding old, or the two, now hold now; 0 if there is none or more
void dv_forget(void *p, size_t n);
void *dv_symbuf(const char *name, uint64_t size);
int dv_is_symbolic();
void dv_print(const char *name, uint64_t v);
void dv_print_mem(const char *name, const void *p, uint64_t n);
}
#define REPLACE(name, stub) dv_replace(name, (const void *)(stub))
// The contracts every harness assumes. Secure allocation: fresh zeroed memory; release ends its lifetime.
#include <cstdlib>
static void *dvc_secureAllocate(size_t n, size_t w) { return calloc(n, w); }
static void dvc_secureDeallocate(void *p, size_t n, size_t w) { free(p); }
// A processor: two cores of two threads, 32 KB of first-level data cache each, AVX2.
static size_t dvc_cores(void *) { return 2; }
static size_t dvc_threads(void *) { return 4; }
static size_t dvc_cache(void *) { return 65536; }
static inline void dvBase() {
  REPLACE("CEX::CpuDetect::PhysicalCores", dvc_cores);
  REPLACE("CEX::CpuDetect::VirtualCores", dvc_threads);
  REPLACE("CEX::CpuDetect::L1DataCacheTotal", dvc_cache);
  REPLACE("CEX::Tools::LockingAllocator::Allocate", dvc_secureAllocate);
  REPLACE("CEX::Tools::LockingAllocator::Deallocate", dvc_secureDeallocate);
}
#define HARNESS(n) static void HB_##n(); extern "C" void H_##n() { dvBase(); HB_##n(); } static void HB_##n()
#define HARNESS_RAW(n) extern "C" void H_##n()

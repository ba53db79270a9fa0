/* Preloaded into a Python or R process: fails chosen allocations made by the library, counts all of them and its live blocks. */
#define _GNU_SOURCE
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <execinfo.h>

extern void* __libc_malloc(size_t);
extern void* __libc_calloc(size_t, size_t);
extern void* __libc_realloc(void*, size_t);
extern void __libc_free(void*);

/* code of the objects whose allocations count: pairs of addresses */
static uintptr_t range[64][2];
static int nranges = 0;
static uintptr_t runtime[4096][2];        /* code of the C++ library (also in other objects): the caller that counts is its own */
static int nruntime = 0;
#define RUNTIME(x) is_runtime(x)
static int is_runtime(uintptr_t x) { int i; for (i = 0; i < nruntime; ++i) if (x >= runtime[i][0] && x < runtime[i][1]) return 1; return 0; }
static uintptr_t skip[4096][2];
static int nskips = 0;

static _Thread_local int on = 0, persistent = 0;
static _Thread_local int64_t count = 0, fail_at = 0, failed = 0, bytes = 0;

void shim_range(uintptr_t a, uintptr_t b) { if (nranges < 64) { range[nranges][0] = a; range[nranges][1] = b; ++nranges; } }
void shim_exclude(uintptr_t a, uintptr_t b) { if (nskips < 4096) { skip[nskips][0] = a; skip[nskips][1] = b; ++nskips; } }
void shim_runtime(uintptr_t a, uintptr_t b) { if (nruntime < 4096) { runtime[nruntime][0] = a; runtime[nruntime][1] = b; ++nruntime; } }
void shim_clear(void) { nranges = nskips = nruntime = 0; }
void shim_arm(int64_t k, int all) { void* f[4]; on = 0; backtrace(f, 4); count = 0; failed = 0; bytes = 0; fail_at = k; persistent = all; on = 1; }
void shim_disarm(void) { on = 0; fail_at = 0; }
int64_t shim_count(void) { return count; }
int64_t shim_failed(void) { return failed; }
int64_t shim_bytes(void) { return bytes; }
/* for R's .C */
void shim_range_R(double* a, double* b) { shim_range((uintptr_t)*a, (uintptr_t)*b); }
void shim_runtime_R(double* a, double* b) { shim_runtime((uintptr_t)*a, (uintptr_t)*b); }
void shim_exclude_R(double* a, double* b) { shim_exclude((uintptr_t)*a, (uintptr_t)*b); }
void shim_arm_R(int* k, int* all) { shim_arm(*k, *all); }
void shim_disarm_R(int* n, int* f) { shim_disarm(); *n = (int)count; *f = (int)failed; }

int shim_refuse(uintptr_t caller, size_t n)
{
  if (!on) return 0;
  int i, in = 0;
  if (RUNTIME(caller))
  {
    void* f[24];
    int depth, k;
    on = 0;
    depth = backtrace(f, 24);
    on = 1;
    for (k = 0; k < depth && !RUNTIME((uintptr_t)f[k]); ++k) ;
    for (; k < depth && RUNTIME((uintptr_t)f[k]); ++k) ;
    if (k == depth) return 0;
    caller = (uintptr_t)f[k];
  }
  for (i = 0; i < nranges && !in; ++i) in = caller >= range[i][0] && caller < range[i][1];
  for (i = 0; i < nskips && in; ++i) in = caller < skip[i][0] || caller >= skip[i][1];
  if (!in) return 0;
  ++count; bytes += n;
  if (fail_at && (count == fail_at || (persistent && count > fail_at))) { ++failed; return 1; }
  return 0;
}

#define CALLER ((uintptr_t)__builtin_return_address(0))
void* malloc(size_t n) { return shim_refuse(CALLER, n) ? NULL : __libc_malloc(n); }
void* calloc(size_t m, size_t n) { return shim_refuse(CALLER, m * n) ? NULL : __libc_calloc(m, n); }
void* realloc(void* p, size_t n) { return shim_refuse(CALLER, n) ? NULL : __libc_realloc(p, n); }
void free(void* p) { __libc_free(p); }

// Counting and failing allocator: replaces operator new/delete and, with -Wl,--wrap=malloc etc., the library's own malloc calls.
#pragma once
#include <atomic>
#include <cstdint>
#include <cstdlib>
#include <new>

namespace alloc
{
  inline int64_t live = 0;          // blocks
  inline int64_t count = 0;         // allocations since reset
  inline int64_t fail_at = 0;       // 1-based; 0 = never
  inline bool persistent = false;   // all allocations from fail_at on fail
  inline int64_t failed = 0;
  inline bool on = false;

  inline void arm(int64_t k, bool all) { count = 0; failed = 0; fail_at = k; persistent = all; on = true; }
  inline void disarm() { on = false; fail_at = 0; }
  inline bool refuse()
  {
    if (!on) return false;
    ++count;
    if (fail_at && (count == fail_at || (persistent && count > fail_at))) { ++failed; return true; }
    return false;
  }
}

extern "C"
{
void* __real_malloc(size_t);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
void __real_free(void*);
void* __wrap_malloc(size_t n) { if (alloc::refuse()) return nullptr; void* p = __real_malloc(n); if (p) ++alloc::live; return p; }
void* __wrap_calloc(size_t m, size_t n) { if (alloc::refuse()) return nullptr; void* p = __real_calloc(m, n); if (p) ++alloc::live; return p; }
void* __wrap_realloc(void* q, size_t n) { if (alloc::refuse()) return nullptr; void* p = __real_realloc(q, n); if (p && !q) ++alloc::live; return p; }
void __wrap_free(void* p) { if (p) --alloc::live; __real_free(p); }
}

static void* get(size_t n)
{
  if (alloc::refuse()) return nullptr;
  void* p = __real_malloc(n ? n : 1);
  if (p) ++alloc::live;
  return p;
}
static void put(void* p) { if (p) --alloc::live; __real_free(p); }

void* operator new(size_t n) { void* p = get(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = get(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return get(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return get(n); }
void operator delete(void* p) noexcept { put(p); }
void operator delete[](void* p) noexcept { put(p); }
void operator delete(void* p, size_t) noexcept { put(p); }
void operator delete[](void* p, size_t) noexcept { put(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { put(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { put(p); }

// operator new for the shim: see shim.c
#include <cstdint>
#include <cstdlib>
#include <new>
extern "C" void* __libc_malloc(size_t);
extern "C" int shim_refuse(uintptr_t, size_t);
#define CALLER ((uintptr_t)__builtin_return_address(0))
static inline void* get(uintptr_t c, size_t n) { return shim_refuse(c, n) ? nullptr : __libc_malloc(n ? n : 1); }
void* operator new(size_t n) { void* p = get(CALLER, n); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = get(CALLER, n); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return get(CALLER, n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return get(CALLER, n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { free(p); }

/* Preloaded into an R process: bytes of live heap blocks, but those requested by R's own allocator, whose pages come and go with its garbage collections. */
#define _GNU_SOURCE
#include <link.h>
#include <malloc.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>

extern void* __libc_malloc(size_t);
extern void* __libc_calloc(size_t, size_t);
extern void* __libc_realloc(void*, size_t);
extern void __libc_free(void*);

#define SLOTS (1u << 22)
static void* slot[SLOTS];              /* open addressing; (void*)1 marks a removed entry */
static uintptr_t lo = 0, hi = 0;       /* code of libR */
static volatile int lock = 0, ready = 0;
static int64_t live = 0, blocks = 0;
static int64_t total = 0;

static int find(struct dl_phdr_info* i, size_t n, void* d)
{
  int k;
  (void)n; (void)d;
  if (!strstr(i->dlpi_name, "/libR.so")) return 0;
  for (k = 0; k < i->dlpi_phnum; ++k)
    if (i->dlpi_phdr[k].p_type == PT_LOAD && (i->dlpi_phdr[k].p_flags & PF_X))
    {
      lo = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr;
      hi = lo + i->dlpi_phdr[k].p_memsz;
    }
  return 0;
}
__attribute__((constructor)) static void init(void) { dl_iterate_phdr(find, 0); ready = lo != 0; }

static unsigned hash(void* p) { return (unsigned)(((uintptr_t)p >> 4) * 0x9e3779b97f4a7c15ull >> 40) & (SLOTS - 1); }
static void enter(void) { while (__sync_lock_test_and_set(&lock, 1)) ; }
static void leave(void) { __sync_lock_release(&lock); }
static void add(void* p, uintptr_t caller)
{
  unsigned i, n = 0, to = SLOTS;
  if (!p || !ready || (caller >= lo && caller < hi)) return;
  enter();
  for (i = hash(p); slot[i] && n < 256; i = (i + 1) & (SLOTS - 1), ++n)
    if (slot[i] == (void*)1 && to == SLOTS) to = i;
  if (to == SLOTS && !slot[i]) to = i;
  if (to != SLOTS) { slot[to] = p; live += malloc_usable_size(p); ++blocks; ++total; }
  leave();
}
static int drop(void* p)
{
  unsigned i, n = 0;
  int found = 0;
  if (!p || !ready) return 0;
  enter();
  for (i = hash(p); slot[i] && n < 257; i = (i + 1) & (SLOTS - 1), ++n)
    if (slot[i] == p) { slot[i] = slot[(i + 1) & (SLOTS - 1)] ? (void*)1 : 0; live -= malloc_usable_size(p); --blocks; found = 1; break; }
  leave();
  return found;
}
#define CALLER ((uintptr_t)__builtin_return_address(0))
void* malloc(size_t n) { void* p = __libc_malloc(n); add(p, CALLER); return p; }
void* calloc(size_t m, size_t n) { void* p = __libc_calloc(m, n); add(p, CALLER); return p; }
void* realloc(void* p, size_t n)
{
  uintptr_t caller = CALLER;
  void* q;
  int was = drop(p);
  q = __libc_realloc(p, n);
  if (q) add(q, was ? hi : caller);
  else if (p && n && was) add(p, hi);
  return q;
}
void free(void* p) { drop(p); __libc_free(p); }

/* for R's .C */
void heap_used(double* x) { x[0] = ready ? (double)live : -1.0; x[1] = (double)total; }

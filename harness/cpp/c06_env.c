// Preloaded into the generator: makes what a process normally gets at random an enumerated choice.
//  C06_SEED   the key of std's hash tables (the 16 bytes std asks getrandom for)
//  C06_HEAP   where the allocator puts blocks: up, down, rev (bit-reversed), alt (from both ends)
// Freed blocks are reused last in first out per size class, or never (C06_REUSE=0).
#define _GNU_SOURCE
#include <errno.h>
#include <stdatomic.h>
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/random.h>
#include <sys/syscall.h>
#include <unistd.h>

static uint64_t mix(uint64_t x) { x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31); }
extern char** environ;
static const char* env(const char* n) {
  size_t l = strlen(n);
  for (char** e = environ; e && *e; ++e) if (!strncmp(*e, n, l) && (*e)[l] == '=') return *e + l + 1;
  return 0;
}
ssize_t getrandom(void* buf, size_t n, unsigned flags) {
  const char* s = env("C06_SEED");
  if (!s || n != 16) return syscall(SYS_getrandom, buf, n, flags);
  uint64_t k = strtoull(s, 0, 10), v[2] = {mix(2 * k + 1), mix(~(3 * k + 2))};
  memcpy(buf, v, 16);
  return 16;
}

#define SLAB (1u << 20)
#define CLASSES 13            // 16 .. 64K
static atomic_flag lock_ = ATOMIC_FLAG_INIT;
static int mode = -1, reuse = 1;
static struct { char* base; unsigned next, count; void* freed; } cls[CLASSES];
struct big { size_t size; size_t map; char* base; size_t magic; };
#define MAGIC 0xc0deb16b10c4ull
static unsigned order(unsigned i, unsigned n) {
  if (mode == 0) return i;
  if (mode == 1) return n - 1 - i;
  if (mode == 3) return i & 1 ? n - 1 - i / 2 : i / 2;
  unsigned r = 0;
  for (unsigned b = 1; b < n; b <<= 1) { r = r << 1 | (i & 1); i >>= 1; }
  return r;
}
static void lock(void) { while (atomic_flag_test_and_set_explicit(&lock_, memory_order_acquire)) ; }
static void unlock(void) { atomic_flag_clear_explicit(&lock_, memory_order_release); }
static char *lo, *hi, *next_lo, *next_hi;      // slabs too are handed out in the chosen direction
static unsigned char slab_cls[1 << 14];
static char* slab(unsigned c) {
  static unsigned k;
  if (!lo) {
    size_t n = (size_t)SLAB << 14;
    char* m = mmap(0, n + SLAB, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (m == MAP_FAILED) _exit(99);
    next_lo = lo = (char*)(((uintptr_t)m + SLAB - 1) & ~(uintptr_t)(SLAB - 1));
    next_hi = hi = lo + n;
  }
  if (next_lo == next_hi) _exit(98);
  ++k;
  char* r = mode == 1 || (mode == 3 && (k & 1)) ? (next_hi -= SLAB) : (next_lo += SLAB) - SLAB;
  slab_cls[(r - lo) / SLAB] = c;
  return r;
}
static int in_arena(void* p) { return (char*)p >= lo && (char*)p < hi; }
static void init(void) {
  const char* h = env("C06_HEAP");
  mode = !h ? 0 : h[0] == 'd' ? 1 : h[0] == 'r' ? 2 : h[0] == 'a' ? 3 : 0;
  const char* r = env("C06_REUSE");
  reuse = !r || r[0] != '0';
}
static void* small(unsigned c) {
  lock();
  if (mode < 0) init();
  void* p = cls[c].freed;
  if (p) {
    cls[c].freed = *(void**)p;
  } else {
    if (cls[c].next == cls[c].count) {
      cls[c].base = slab(c);
      cls[c].next = 0;
      cls[c].count = SLAB >> (c + 4);
    }
    p = cls[c].base + ((size_t)order(cls[c].next++, cls[c].count) << (c + 4));
  }
  unlock();
  return p;
}
static void* aligned(size_t n, size_t a) {
  size_t need = n > a ? n : a;
  if (need <= 65536) {
    unsigned c = 0;
    while (((size_t)16 << c) < need) ++c;
    return small(c);
  }
  if (mode < 0) { lock(); if (mode < 0) init(); unlock(); }
  size_t pad = a > 4096 ? a : 4096, map = (n + 2 * pad + 4095) & ~(size_t)4095;
  static _Atomic(uintptr_t) hint = 0x200000000000ull;
  char* b = mmap(mode == 1 ? 0 : (char*)atomic_fetch_add(&hint, map), map, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (b == MAP_FAILED) { errno = ENOMEM; return 0; }
  char* p = (char*)(((uintptr_t)b + sizeof(struct big) + pad - 1) & ~(uintptr_t)(pad - 1));
  struct big* h = (struct big*)p - 1;
  h->size = n; h->map = map; h->base = b; h->magic = MAGIC;
  return p;
}
static size_t size_of(void* p) {
  if (in_arena(p)) return (size_t)16 << slab_cls[((char*)p - lo) / SLAB];
  return ((struct big*)p - 1)->size;
}
void* malloc(size_t n) { return aligned(n ? n : 1, 16); }
void free(void* p) {
  if (!p) return;
  if (in_arena(p)) {
    if (!reuse) return;
    unsigned c = slab_cls[((char*)p - lo) / SLAB];
    lock();
    *(void**)p = cls[c].freed;
    cls[c].freed = p;
    unlock();
    return;
  }
  struct big* h = (struct big*)p - 1;
  if (h->magic == MAGIC) munmap(h->base, h->map);
}
void* calloc(size_t n, size_t m) {
  size_t s;
  if (__builtin_mul_overflow(n, m, &s)) { errno = ENOMEM; return 0; }
  void* p = malloc(s);
  if (p && in_arena(p)) memset(p, 0, s);
  return p;
}
void* realloc(void* p, size_t n) {
  if (!p) return malloc(n);
  size_t o = size_of(p);
  if (n <= o) return p;
  void* q = malloc(n);
  if (q) { memcpy(q, p, o < n ? o : n); free(p); }
  return q;
}
int posix_memalign(void** r, size_t a, size_t n) { *r = aligned(n ? n : 1, a); return *r ? 0 : ENOMEM; }
void* aligned_alloc(size_t a, size_t n) { return aligned(n ? n : 1, a); }
void* memalign(size_t a, size_t n) { return aligned(n ? n : 1, a); }
size_t malloc_usable_size(void* p) { return p ? size_of(p) : 0; }

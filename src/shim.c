// Allocation shim (linked with --wrap): counts the library's live blocks, fills new memory with a
// per-case pattern and can make the n-th allocation fail.
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>

void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
size_t __sanitizer_get_allocated_size(const volatile void *p) __attribute__((weak));
size_t malloc_usable_size(void *);
static size_t blockSize(void *p) { return __sanitizer_get_allocated_size ? __sanitizer_get_allocated_size(p) : malloc_usable_size(p); }

static uint64_t fillState = 1;
static int fillMode = 3;          // 0: zero, 1: 0xff, 2: 0x55.., 3: pseudo random
long vp_live = 0;                 // live blocks
long vp_live_bytes = 0;
long vp_allocs = 0;               // allocations since reset
long vp_fail_at = -1;             // index (from 0, counted from vp_arm) of the allocation to fail
long vp_fail_from = -1;           // every allocation from this index fails
long vp_count = 0;                // allocations since vp_arm
long vp_failed = 0;
int vp_fill_disabled = 0;

void vp_fill(void *p, size_t n) {
  unsigned char *b = p;
  size_t lim = n > 1 << 16 ? 1 << 16 : n;
  switch (fillMode) {
    case 0: memset(b, 0, lim); break;
    case 1: memset(b, 0xff, lim); break;
    case 2: memset(b, 0x55, lim); break;
    default:
      for (size_t i = 0; i < lim; i++) { fillState = fillState * 6364136223846793005ull + 1442695040888963407ull; b[i] = (unsigned char)(fillState >> 56); }
  }
}
void vp_set_fill(int mode, uint64_t seed) { fillMode = mode; fillState = seed | 1; }
void vp_arm(long at, long from) { vp_fail_at = at; vp_fail_from = from; vp_count = 0; vp_failed = 0; }
void vp_case_reset(uint64_t seed) { vp_arm(-1, -1); vp_live = 0; vp_live_bytes = 0; vp_allocs = 0; vp_set_fill(3, seed); }

static int shouldFail(void) {
  long i = vp_count++;
  if (i == vp_fail_at || (vp_fail_from >= 0 && i >= vp_fail_from)) { vp_failed++; return 1; }
  return 0;
}
void *__wrap_malloc(size_t n) {
  if (shouldFail()) return NULL;
  void *p = __real_malloc(n);
  if (p) { vp_allocs++; vp_live++; vp_live_bytes += n; if (!vp_fill_disabled) vp_fill(p, n); }
  return p;
}
void *__wrap_calloc(size_t a, size_t b) {
  if (shouldFail()) return NULL;
  void *p = __real_calloc(a, b);
  if (p) { vp_allocs++; vp_live++; vp_live_bytes += a * b; }
  return p;
}
void *__wrap_realloc(void *q, size_t n) {
  if (shouldFail()) return NULL;
  size_t old = q ? blockSize(q) : 0;
  void *p = __real_realloc(q, n);
  if (p) {
    vp_allocs++;
    if (!q) vp_live++;
    vp_live_bytes += (long)n - (long)old;
    if (n > old && !vp_fill_disabled) vp_fill((char *)p + old, n - old);
  }
  return p;
}
void __wrap_free(void *p) {
  if (p) { vp_live--; vp_live_bytes -= (long)blockSize(p); }
  __real_free(p);
}

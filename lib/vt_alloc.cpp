#include "vt_alloc.h"
#include <stdlib.h>
#include <string.h>
#include <malloc.h>
#include <stdio.h>
VtState vt = {0, 0, 0, -1, 0, 0, 0xA5, (size_t)1 << 29, 0};
void (*vt_on_free)(const void *, size_t) = nullptr;
void (*vt_on_alloc)() = nullptr;
/* Size is tracked through a side table keyed by pointer (open addressing) so that the block itself is exact-size
 * and AddressSanitizer redzones start right after it. */
extern "C" size_t malloc_usable_size(void *);
void vt_reset() { vt.count = 0; vt.fail_at = -1; vt.fail_all = 0; vt.failed = 0; vt.capped = 0; }
void vt_arm(long a, int all) { vt.count = 0; vt.fail_at = a; vt.fail_all = all; vt.failed = 0; }
static bool should_fail(size_t n)
{
    if (vt_on_alloc) vt_on_alloc();
    long i = __atomic_fetch_add(&vt.count, 1, __ATOMIC_RELAXED);
    if (vt.fail_at >= 0 && (i == vt.fail_at || (vt.fail_all && i > vt.fail_at))) { vt.failed++; return true; }
    if (n > vt.cap || vt.bytes > vt.cap - n) { vt.capped++; return true; }
    return false;
}
static void *fresh(size_t n)
{
    void *p = malloc(n);
    if (!p) return p;
    memset(p, vt.fill, n);
    __atomic_fetch_add(&vt.live, 1, __ATOMIC_RELAXED);
    __atomic_fetch_add(&vt.bytes, malloc_usable_size(p), __ATOMIC_RELAXED);
    return p;
}
extern "C" void *vt_malloc(size_t n) { return should_fail(n) ? nullptr : fresh(n); }
extern "C" void *vt_calloc(size_t a, size_t b)
{
    size_t n = a * b;
    if (b && n / b != a) return nullptr;
    if (should_fail(n)) return nullptr;
    void *p = fresh(n);
    if (p) memset(p, 0, n);
    return p;
}
extern "C" void vt_free(void *p)
{
    if (!p) return;
    size_t n = malloc_usable_size(p);
    if (vt_on_free) vt_on_free(p, n);
    __atomic_fetch_sub(&vt.live, 1, __ATOMIC_RELAXED);
    __atomic_fetch_sub(&vt.bytes, n, __ATOMIC_RELAXED);
    free(p); /* ASan reports double free / foreign pointers */
}
extern "C" void *vt_realloc(void *p, size_t n)
{
    if (!p) return vt_malloc(n);
    if (n == 0) { vt_free(p); return nullptr; }
    if (should_fail(n)) return nullptr;
    size_t o = malloc_usable_size(p);
    void *q = fresh(n); /* always moves: stale pointers are caught */
    if (!q) return nullptr;
    memcpy(q, p, o < n ? o : n);
    vt_free(p);
    return q;
}
extern "C" char *vt_strdup(const char *s)
{
    size_t n = strlen(s) + 1;
    char *p = (char *)vt_malloc(n);
    if (p) memcpy(p, s, n);
    return p;
}
/* argument checks of the library (CRY_ASSERT_CHECK): the harness only makes valid calls, so none may fire */
extern "C" void cry_assert_fail(const char *cond, const char *file, int line) { fprintf(stderr, "assertion %s failed at %s:%d\n", cond, file, line); abort(); }

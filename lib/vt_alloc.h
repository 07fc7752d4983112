/* Allocator used by the library under test (its malloc/calloc/realloc/free are redirected here). */
#pragma once
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
void *vt_malloc(size_t n);
void *vt_calloc(size_t n, size_t m);
void *vt_realloc(void *p, size_t n);
void vt_free(void *p);
char *vt_strdup(const char *s);
#ifdef __cplusplus
}
#endif
struct VtState {
    long live;          /* live blocks handed to the library */
    size_t bytes;       /* live bytes */
    long count;         /* allocations since reset (malloc/calloc/realloc growth) */
    long fail_at;       /* index (0 based) of first allocation to fail, -1 = none */
    int fail_all;       /* fail every allocation from fail_at on */
    long failed;        /* number of injected failures */
    uint8_t fill;       /* fill byte for fresh memory */
    size_t cap;         /* cap on live bytes */
    long capped;        /* requests refused because of cap */
};
extern VtState vt;
void vt_reset();                         /* no failures, counters zeroed, (live kept) */
void vt_arm(long fail_at, int fail_all); /* arm failure injection */
/* call back invoked with the content of each block just before being released (may be null) */
extern void (*vt_on_free)(const void *p, size_t n);
/* called at every allocation request before it is served (may be null): a scheduling point */
extern void (*vt_on_alloc)();

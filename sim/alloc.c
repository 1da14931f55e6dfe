/* Simulated allocator behind numpy's data-memory seam (PyDataMem_Handler).
 *
 *  - the k-th allocation can be made to fail (returns NULL -> MemoryError)
 *  - fresh (non-calloc) memory is filled with a seeded pattern
 *  - live bytes / counts are accounted
 *
 * No Python headers needed: the handler struct layout is numpy's public ABI.
 */
#include <stdint.h>
#include <stdlib.h>
#include <string.h>

typedef struct {
    void *ctx;
    void *(*malloc)(void *ctx, size_t size);
    void *(*calloc)(void *ctx, size_t nelem, size_t elsize);
    void *(*realloc)(void *ctx, void *ptr, size_t new_size);
    void (*free)(void *ctx, void *ptr, size_t size);
} allocator;

typedef struct {
    char name[127];
    uint8_t version;
    allocator a;
} handler;

typedef struct {
    uint64_t count;      /* allocations so far */
    uint64_t fail_at;    /* 1-based index of the allocation to fail, 0: none */
    uint64_t fail_len;   /* how many consecutive allocations fail */
    uint64_t failed;     /* failures delivered */
    uint64_t filled;     /* bytes filled with poison */
    uint64_t live;       /* live bytes */
    uint64_t poison;     /* fill mode: 0 none, 1 byte pattern, 2 seeded stream,
                            3 repeated 8-byte pattern */
    uint64_t pattern;
} state;

state S;

static int should_fail(void) {
    S.count++;
    if (S.fail_at && S.count >= S.fail_at && S.count < S.fail_at + S.fail_len) {
        S.failed++;
        return 1;
    }
    return 0;
}

static uint64_t mix(uint64_t *x) {
    uint64_t z = (*x += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}

static void fill(char *p, size_t n) {
    size_t i;
    if (!S.poison || !n) return;
    S.filled += n;
    if (S.poison == 1) { memset(p, (int)(S.pattern & 0xff), n); return; }
    if (S.poison == 3) {
        for (i = 0; i + 8 <= n; i += 8) memcpy(p + i, &S.pattern, 8);
        for (; i < n; i++) p[i] = (char)S.pattern;
        return;
    }
    uint64_t x = S.pattern ^ (S.count * 0x2545F4914F6CDD1Dull);
    for (i = 0; i + 8 <= n; i += 8) {
        uint64_t v = mix(&x);
        memcpy(p + i, &v, 8);
    }
    for (; i < n; i++) p[i] = (char)mix(&x);
}

/* size header so that live bytes can be accounted, 64-byte aligned payload */
#define HDR 64
static void *get(size_t n) {
    char *q = 0;
    size_t m = (n + HDR + 63) & ~(size_t)63;
    q = aligned_alloc(64, m);
    if (!q) return 0;
    ((uint64_t *)q)[0] = n;
    S.live += n;
    return q + HDR;
}

static void *h_malloc(void *c, size_t n) {
    (void)c;
    if (should_fail()) return 0;
    char *p = get(n);
    if (p) fill(p, n);
    return p;
}
static void *h_calloc(void *c, size_t a, size_t b) {
    (void)c;
    if (should_fail()) return 0;
    char *p = get(a * b);
    if (p) memset(p, 0, a * b);
    return p;
}
static void h_free(void *c, void *p, size_t n) {
    (void)c; (void)n;
    if (!p) return;
    char *q = (char *)p - HDR;
    S.live -= ((uint64_t *)q)[0];
    /* use after free becomes visible */
    if (S.poison) memset(p, 0xDB, ((uint64_t *)q)[0]);
    free(q);
}
static void *h_realloc(void *c, void *p, size_t n) {
    if (!p) return h_malloc(c, n);
    if (should_fail()) return 0;
    size_t old = ((uint64_t *)((char *)p - HDR))[0];
    char *r = get(n);
    if (!r) return 0;
    memcpy(r, p, old < n ? old : n);
    if (n > old) fill(r + old, n - old);
    char *q = (char *)p - HDR;
    S.live -= old;
    free(q);
    return r;
}

handler H = { "dst_sim", 1, { 0, h_malloc, h_calloc, h_realloc, h_free } };

handler *get_handler(void) { return &H; }
state *get_state(void) { return &S; }

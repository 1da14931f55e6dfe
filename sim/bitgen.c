/* Simulated entropy behind numpy's BitGenerator seam (bitgen_t).
 *
 * A stream is a list of segments (kind, value, count); after the last one an
 * honest generator (splitmix64) takes over: the fault stops.
 */
#include <stdint.h>

typedef struct {
    void *state;
    uint64_t (*next_uint64)(void *);
    uint32_t (*next_uint32)(void *);
    double (*next_double)(void *);
    uint64_t (*next_raw)(void *);
} bitgen;

#define MAXSEG 64
typedef struct {
    uint64_t nseg, seg, pos;     /* position */
    uint64_t draws, faulty;      /* accounting */
    uint64_t x;                  /* honest state */
    uint64_t limit, over;        /* draw budget */
    uint64_t kind[MAXSEG], value[MAXSEG], count[MAXSEG];
} stream;

static uint64_t honest(stream *s) {
    uint64_t z = (s->x += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}

static uint64_t u64(void *p) {
    stream *s = p;
    s->draws++;
    if (s->limit && s->draws > s->limit) s->over = 1;
    while (s->seg < s->nseg && s->pos >= s->count[s->seg]) { s->seg++; s->pos = 0; }
    if (s->seg >= s->nseg) return honest(s);
    uint64_t k = s->kind[s->seg], v = s->value[s->seg], i = s->pos++;
    s->faulty++;
    switch (k) {
    case 1: return v;                                  /* stuck */
    case 2: return (i & 1) ? ~v : v;                   /* alternating */
    case 3: return v + (i << 11);                      /* slow counter */
    case 4: return honest(s) | 0xFFF0000000000000ull;  /* biased high */
    case 5: return honest(s) & 0x000FFFFFFFFFFFFFull;  /* biased low */
    default: s->faulty--; return honest(s);
    }
}
static uint32_t u32(void *p) { return (uint32_t)(u64(p) >> 32); }
static double dbl(void *p) { return (double)(u64(p) >> 11) * (1.0 / 9007199254740992.0); }

void init_bitgen(bitgen *b, stream *s) {
    b->state = s; b->next_uint64 = u64; b->next_uint32 = u32;
    b->next_double = dbl; b->next_raw = u64;
}
uint64_t sizeof_stream(void) { return sizeof(stream); }

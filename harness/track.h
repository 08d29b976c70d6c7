/* Allocators used by the workloads: none, the library's own, and a user-supplied tracking allocator that records
 * every block it hands out, so that the monitor can tell whether the library returns exactly those blocks to it. */
#ifndef VERIF_TRACK_H
#define VERIF_TRACK_H
#include "h.h"
#include "vita/allocator/mallocator.h"

typedef struct track_blk { struct track_blk *next, *prev; size_t bytes; uint64_t magic; } track_blk;
typedef struct { vt_mallocator_t base; track_blk head; size_t live, live_bytes, allocs, reallocs, frees; } track_t;
#define TRACK_MAGIC 0x7261636b7472616bull

static __attribute__((unused)) track_blk *track_find(track_t *t, const void *p) {
    for (track_blk *b = t->head.next; b != &t->head; b = b->next) if ((const void*)(b + 1) == p) return b;
    return NULL;
}
static __attribute__((unused)) void *track_alloc(vt_mallocator_t *const a, const size_t n, const char *const f, const char *const fn, const size_t l) {
    (void)f; (void)fn; (void)l;
    track_t *t = (track_t*)a;
    track_blk *b = malloc(sizeof *b + n);
    if (!b) { fprintf(stderr, "track: out of memory\n"); exit(1); }
    memset(b + 1, 0, n);
    b->bytes = n; b->magic = TRACK_MAGIC;
    b->next = t->head.next; b->prev = &t->head; t->head.next->prev = b; t->head.next = b;
    t->live++; t->live_bytes += n; t->allocs++;
    return b + 1;
}
static __attribute__((unused)) void track_free(vt_mallocator_t *const a, void *p, const char *const f, const char *const fn, const size_t l) {
    (void)f; (void)fn; (void)l;
    track_t *t = (track_t*)a;
    track_blk *b = track_find(t, p);
    if (!b) FAIL("allocator asked to free a block it does not own (or already freed)");
    b->prev->next = b->next; b->next->prev = b->prev;
    t->live--; t->live_bytes -= b->bytes; t->frees++;
    free(b);
}
static __attribute__((unused)) void *track_realloc(vt_mallocator_t *const a, void *p, const size_t n, const char *const f, const char *const fn, const size_t l) {
    track_t *t = (track_t*)a;
    track_blk *b = track_find(t, p);
    if (!b) FAIL("allocator asked to resize a block it does not own");
    void *q = track_alloc(a, n, f, fn, l);
    memcpy(q, p, n < b->bytes ? n : b->bytes);
    track_free(a, p, f, fn, l);
    t->allocs--; t->frees--; t->reallocs++;
    return q;
}
static __attribute__((unused)) track_t *track_new(void) {
    track_t *t = calloc(1, sizeof *t);
    if (!t) { fprintf(stderr, "track: out of memory\n"); exit(1); }
    t->head.next = t->head.prev = &t->head;
    t->base.alloc = track_alloc; t->base.realloc = track_realloc; t->base.free = track_free;
    return t;
}

/* kind: 0 none, 1 the library's allocator, 2 tracking allocator */
typedef struct { int kind; vt_mallocator_t *a; } al_t;
static __attribute__((unused)) al_t al_make(int kind) {
    al_t r = { kind, NULL };
    if (kind == 1) r.a = vt_mallocator_create();
    if (kind == 2) r.a = &track_new()->base;
    return r;
}
static __attribute__((unused)) al_t al_random(void) { return al_make((int)rn(3)); }
/* ends the allocator; everything taken from it must have been given back */
static __attribute__((unused)) void al_end(al_t r) {
    if (r.kind == 1) {
        CHECK(r.a->stats.count_bytes_allocated == 0, "allocator reports %zu bytes still allocated after every object was destroyed", r.a->stats.count_bytes_allocated);
        CHECK(r.a->stats.count_allocs == r.a->stats.count_frees, "allocator reports %zu allocations and %zu frees after every object was destroyed",
            r.a->stats.count_allocs, r.a->stats.count_frees);
        ev("allocator closed empty");
        vt_mallocator_destroy(r.a);
    } else if (r.kind == 2) {
        track_t *t = (track_t*)r.a;
        CHECK(t->live == 0, "%zu blocks never returned to the allocator", t->live);
        ev("tracking allocator closed empty");
        free(t);
    }
}
#endif

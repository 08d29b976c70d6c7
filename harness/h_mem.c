/* Allocator accounting, allocator transparency, allocation faults, contract violations, views, object lifetimes. */
#include "h.h"
#include "track.h"
#include "vita/vita.h"
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/socket.h>
#include <fcntl.h>

void section_setup(const char *name) { vt_debug_disable_output(true); if (!strcmp(name, "sysuse")) drop_privileges(); }

#define A_ALLOC(a, n) (a)->alloc((a), (n), "file", "func", 1)
#define A_REALLOC(a, p, n) (a)->realloc((a), (p), (n), "file", "func", 1)
#define A_FREE(a, p) (a)->free((a), (p), "file", "func", 1)

/* ============================================================ allocator accounting =========================== */
#define NB 400
static void print_stats_body(void *p) { vt_mallocator_print_stats(*(struct VitaAllocatorStats*)p); }
static void check_print(const struct VitaAllocatorStats *s) {
    struct VitaAllocatorStats c = *s;
    death_t d = in_child(print_stats_body, &c, 20);
    CHECK(d.survived, "printing the statistics ended the program");
    size_t v[6] = {0}; int k = 0;
    for (char *l = strtok(d.out, "\n"); l; l = strtok(NULL, "\n")) {
        char *bar = strchr(l + 1, '|');
        if (!bar) continue;
        char *e; size_t x = strtoull(bar + 1, &e, 10);
        if (e != bar + 1 && k < 6) v[k++] = x;
    }
    CHECK(k == 6 && v[0] == s->count_allocs && v[1] == s->count_reallocs && v[2] == s->count_frees && v[3] == s->count_bytes_allocated + s->count_bytes_freed && v[4] == s->count_bytes_allocated && v[5] == s->count_bytes_freed,
        "the printed statistics differ from the real ones");
    ev("statistics printed");
}
static void run_accounting(uint64_t idx) {
    static struct { unsigned char *p; size_t n; unsigned char pat; } b[NB]; size_t nb = 0;
    vt_mallocator_t *a = vt_mallocator_create();
    size_t allocs = 0, reallocs = 0, frees = 0, live = 0, freed = 0;
    size_t steps = 1 + rn(g_thorough ? 900 : 250);
    unsigned grow = 35 + (unsigned)rn(40);
    for (size_t k = 0; k < steps; k++) {
        unsigned w = (unsigned)rn(100);
        if (!nb || (w < grow && nb < NB)) {
            size_t n = 1 + rsize(chance(5) ? 70000 : 300);
            T("alloc %zu (with %zu live)", n, nb);
            unsigned char *p = chance(50) ? A_ALLOC(a, n) : vt_mallocator_alloc(a, n, "f", "g", 2);
            CHECK(p != NULL, "allocation returned nothing");
            for (size_t i = 0; i < n; i++) if (p[i]) FAIL("fresh block of %zu bytes is not zeroed at %zu", n, i);
            b[nb].p = p; b[nb].n = n; b[nb].pat = (unsigned char)rnd();
            memset(p, b[nb].pat, n); nb++;
            allocs++; live += n; ev("alloc");
        } else if (w < grow + 15) {
            size_t i = rn(nb), n = 1 + rsize(chance(5) ? 70000 : 400);
            T("realloc block %zu of %zu: %zu -> %zu", i, nb, b[i].n, n);
            unsigned char *p = A_REALLOC(a, b[i].p, n);
            CHECK(p != NULL, "reallocation returned nothing");
            size_t keep = n < b[i].n ? n : b[i].n;
            for (size_t j = 0; j < keep; j++) if (p[j] != b[i].pat) FAIL("resizing %zu -> %zu lost the byte at %zu", b[i].n, n, j);
            if (n < b[i].n) freed += b[i].n - n;
            live = live - b[i].n + n; reallocs++;
            b[i].p = p; b[i].n = n; memset(p, b[i].pat, n); ev(n < keep + 1 ? "realloc smaller" : "realloc larger");
        } else {
            size_t i = chance(30) ? nb - 1 : chance(30) ? 0 : rn(nb);
            T("free block %zu of %zu (%zu bytes)", i, nb, b[i].n);
            for (size_t j = 0; j < b[i].n; j++) if (b[i].p[j] != b[i].pat) FAIL("block content changed behind the owner's back at byte %zu", j);
            A_FREE(a, b[i].p);
            frees++; live -= b[i].n; freed += b[i].n;
            b[i] = b[--nb]; ev("free");
        }
        if (chance(2)) { /* a block from elsewhere is released without a trace in the books */
            size_t n = 1 + rn(100); T("free of a foreign block of %zu bytes", n); unsigned char *q = VT_CALLOC(n); A_FREE(a, q); ev("foreign free");
        }
        struct VitaAllocatorStats s = a->stats;
        CHECK(s.count_allocs == allocs, "statistics: %zu allocations reported, %zu made", s.count_allocs, allocs);
        CHECK(s.count_reallocs == reallocs, "statistics: %zu reallocations reported, %zu made", s.count_reallocs, reallocs);
        CHECK(s.count_frees == frees, "statistics: %zu frees reported, %zu made", s.count_frees, frees);
        CHECK(s.count_bytes_allocated == live, "statistics: %zu bytes reported in use, %zu are", s.count_bytes_allocated, live);
        CHECK(s.count_bytes_freed == freed, "statistics: %zu bytes reported freed, %zu were", s.count_bytes_freed, freed);
        seen(hash_bytes(&s, sizeof s, nb));
    }
    for (size_t i = 0; i < nb; i++) for (size_t j = 0; j < b[i].n; j++) if (b[i].p[j] != b[i].pat) FAIL("live block overlaps another block");
    if (idx % 64 == 0) {
        check_print(&a->stats);
    }
    if (chance(50)) sample("%zu allocs %zu reallocs %zu frees, %zu blocks live at the end", allocs, reallocs, frees, nb);
    if (chance(30)) { while (nb) { nb--; A_FREE(a, b[nb].p); } ev("destroyed empty"); } else if (nb) ev("destroyed with live blocks");
    T("destroy with %zu live blocks", nb);
    vt_mallocator_destroy(a);
}

/* blocks and totals beyond 2^31 and 2^32 bytes (run alone; the memory is zeroed but otherwise untouched) */
static void run_accounting_big(uint64_t idx) {
    vt_mallocator_t *a = vt_mallocator_create();
    size_t live = 0, freed = 0, allocs = 0, reallocs = 0, frees = 0;
    struct { unsigned char *p; size_t n; } b[3] = {{0}};
    size_t G = (size_t)1 << 30;
    const size_t plan[2][8] = { { 3 * G - 7, 40, 2 * G + 100, 4 * G - 4096, 5, 0, 0, 0 }, { 40, 2 * G + 77, 3 * G + 1, 64, 4 * G - 4096, 0, 0, 0 } };
    for (int k = 0; k < 8; k++) {
        size_t n = plan[idx % 2][k]; int i = 0;
        if (n) n += rn(64);
        T("block %zu -> %zu", b[i].n, n);
        if (!n) { if (b[i].p) { A_FREE(a, b[i].p); frees++; live -= b[i].n; freed += b[i].n; b[i].p = NULL; b[i].n = 0; ev("big free"); } }
        else if (!b[i].p) { b[i].p = A_ALLOC(a, n); allocs++; live += n; b[i].n = n; ev("big alloc"); CHECK(b[i].p[0] == 0 && b[i].p[n - 1] == 0 && b[i].p[n / 2] == 0, "a fresh block is not zeroed"); b[i].p[0] = 1; b[i].p[n - 1] = 2; }
        else {
            unsigned char *q = A_REALLOC(a, b[i].p, n); reallocs++;
            CHECK(q[0] == 1, "first byte lost in resize %zu -> %zu", b[i].n, n);
            if (n >= b[i].n) CHECK(q[b[i].n - 1] == 2, "last byte lost in resize %zu -> %zu", b[i].n, n); else freed += b[i].n - n;
            live = live - b[i].n + n; b[i].p = q; b[i].n = n; q[0] = 1; q[n - 1] = 2; ev("big realloc");
        }
        struct VitaAllocatorStats s = a->stats;
        CHECK(s.count_allocs == allocs && s.count_reallocs == reallocs && s.count_frees == frees, "statistics: calls");
        CHECK(s.count_bytes_allocated == live, "statistics: %zu bytes reported in use, %zu are", s.count_bytes_allocated, live);
        CHECK(s.count_bytes_freed == freed, "statistics: %zu bytes reported freed, %zu were", s.count_bytes_freed, freed);
        seen(hash_bytes(&s, sizeof s, 3));
    }
    vt_mallocator_destroy(a);
    /* printing such numbers */
    struct VitaAllocatorStats st = { 0 };
    st.count_bytes_allocated = (rnd() >> rn(40)) / 4; st.count_bytes_freed = (rnd() >> rn(40)) / 4; st.count_allocs = rnd() >> rn(50); st.count_reallocs = rnd() >> rn(50); st.count_frees = rnd() >> rn(50);
    check_print(&st);
    sample("blocks up to %zu bytes", 4 * G);
}

/* so many blocks at once that their number crosses 2^15, 2^16 and 2^17: the first, the last and those between are
 * still resized, given back and counted, and the rest is released with the allocator */
static void run_accounting_many(uint64_t idx) {
    vt_mallocator_t *a = vt_mallocator_create();
    static const size_t tops[] = { 66000, 33000, 5000, 132000, 9000, 300 };
    size_t top = tops[idx % 6] + rn(200), n = 0, live = 0, freed = 0, allocs = 0, reallocs = 0, frees = 0;
    typedef struct { unsigned char *p; size_t n; unsigned char pat; } blk_t;
    blk_t *b = malloc(top * sizeof *b);
    #define BOOKS() do { struct VitaAllocatorStats s = a->stats; \
        CHECK(s.count_allocs == allocs && s.count_reallocs == reallocs && s.count_frees == frees, "with %zu blocks: %zu/%zu/%zu calls reported, %zu/%zu/%zu made", n, s.count_allocs, s.count_reallocs, s.count_frees, allocs, reallocs, frees); \
        CHECK(s.count_bytes_allocated == live && s.count_bytes_freed == freed, "with %zu blocks: %zu bytes reported in use, %zu are; %zu reported freed, %zu were", n, s.count_bytes_allocated, live, s.count_bytes_freed, freed); \
        seen(hash_bytes(&s, sizeof s, n)); } while (0)
    while (n < top) {
        b[n].n = 1 + rn(24); b[n].pat = (unsigned char)(1 + rn(255)); b[n].p = A_ALLOC(a, b[n].n);
        for (size_t i = 0; i < b[n].n; i++) if (b[n].p[i]) FAIL("fresh block %zu is not zeroed", n);
        memset(b[n].p, b[n].pat, b[n].n); live += b[n].n; allocs++; n++;
        if (n % 1000 == 0 || (n & (n - 1)) == 0) BOOKS();
    }
    T("%zu live blocks", n);
    BOOKS(); ev("many blocks");
    for (int k = 0; k < 120 && n > 2; k++) {
        size_t i = k % 4 == 0 ? n - 1 - rn(3) : k % 4 == 1 ? rn(5) : rn(n);
        if (i >= n) i = n - 1;
        for (size_t j = 0; j < b[i].n; j++) if (b[i].p[j] != b[i].pat) FAIL("block %zu of %zu changed behind the owner's back", i, n);
        if (chance(40)) {
            size_t m = 1 + rn(40); T("resize block %zu of %zu: %zu -> %zu", i, n, b[i].n, m);
            unsigned char *q = A_REALLOC(a, b[i].p, m);
            for (size_t j = 0; j < m && j < b[i].n; j++) if (q[j] != b[i].pat) FAIL("resizing block %zu of %zu lost a byte", i, n);
            if (m < b[i].n) freed += b[i].n - m;
            live = live - b[i].n + m; reallocs++; b[i].p = q; b[i].n = m; memset(q, b[i].pat, m); ev("realloc among many");
        } else {
            T("free block %zu of %zu", i, n);
            A_FREE(a, b[i].p); frees++; live -= b[i].n; freed += b[i].n; b[i] = b[--n]; ev("free among many");
        }
        BOOKS();
    }
    for (size_t i = 0; i < n; i++) for (size_t j = 0; j < b[i].n; j++) if (b[i].p[j] != b[i].pat) FAIL("block %zu of %zu changed behind the owner's back", i, n);
    sample("%zu blocks at once", top);
    free(b);
    vt_mallocator_destroy(a);
    #undef BOOKS
}

/* ============================================================ allocator transparency ========================= */
/* the same random program is run with each allocator; the observable transcript must not depend on it, and every
 * object must live in blocks of the allocator it was created with */
typedef struct { char *z; size_t n, cap; } log_t;
static void lg(log_t *l, const char *fmt, ...) {
    char m[6000]; va_list a; va_start(a, fmt); int k = vsnprintf(m, sizeof m, fmt, a); va_end(a);
    if (k < 0) return;
    if ((size_t)k >= sizeof m) k = sizeof m - 1;
    if (l->n + (size_t)k + 2 > l->cap) { l->cap = (l->cap + (size_t)k + 2) * 2; l->z = realloc(l->z, l->cap); }
    memcpy(l->z + l->n, m, (size_t)k); l->n += (size_t)k; l->z[l->n++] = '\n'; l->z[l->n] = 0;
}
static uint64_t prs;
static uint64_t pr(void) { prs += 0x9e3779b97f4a7c15ull; uint64_t z = prs; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
static size_t pn(size_t n) { return n ? pr() % n : 0; }
static void ptext(char *o, size_t n) { for (size_t i = 0; i < n; i++) o[i] = "ab,c;d /.\xc3"[pn(10)]; o[n] = 0; }
/* blocks of the library's own allocator are observed at its function pointers */
#define NREC 4096
static struct { const vt_mallocator_t *a; const void *p; } rec[NREC]; static size_t nrec;
static void rec_add(const vt_mallocator_t *a, const void *p) { if (nrec == NREC) FAIL("more than %d live blocks in a small program", NREC); rec[nrec].a = a; rec[nrec++].p = p; }
static void rec_del(const vt_mallocator_t *a, const void *p) {
    for (size_t i = 0; i < nrec; i++) if (rec[i].p == p) { CHECK(rec[i].a == a, "a block was given back to another allocator than it came from"); rec[i] = rec[--nrec]; return; }
    FAIL("an allocator was given a block that is not one of its own");
}
static void *rec_alloc(vt_mallocator_t *const a, const size_t n, const char *const f, const char *const fn, const size_t l) { void *p = vt_mallocator_alloc(a, n, f, fn, l); rec_add(a, p); return p; }
static void *rec_realloc(vt_mallocator_t *const a, void *p, const size_t n, const char *const f, const char *const fn, const size_t l) { rec_del(a, p); void *q = vt_mallocator_realloc(a, p, n, f, fn, l); rec_add(a, q); return q; }
static void rec_free(vt_mallocator_t *const a, void *p, const char *const f, const char *const fn, const size_t l) { rec_del(a, p); vt_mallocator_free(a, p, f, fn, l); }
static al_t al_rec(int kind) {
    al_t r = al_make(kind);
    if (kind == 1) { r.a->alloc = rec_alloc; r.a->realloc = rec_realloc; r.a->free = rec_free; }
    return r;
}
static bool in_al(const al_t *al, const void *p) {
    if (al->kind == 2) return track_find((track_t*)al->a, p) != NULL;
    if (al->kind == 1) for (size_t i = 0; i < nrec; i++) if (rec[i].p == p && rec[i].a == al->a) return true;
    return false;
}
static al_t the_als[2];
static void owned(const al_t *al, const void *p, const char *what) {
    if (al->kind) CHECK(in_al(al, p), "%s is not a block of the allocator the object was created with", what);
    else CHECK(!in_al(&the_als[0], p) && !in_al(&the_als[1], p), "%s, created without an allocator, lies in a block of one", what);
}
static void own_str(const al_t *al, const vt_str_t *s) {
    owned(al, s, "string object"); owned(al, vt_str_z(s), "string text");
    CHECK(vt_array_has_alloctr(s) == (al->a != NULL), "string does not remember its allocator");
}
static void own_vec(const al_t *al, const vt_vec_t *v) {
    owned(al, v, "vector object"); owned(al, vt_array_head(v), "vector elements");
    CHECK(vt_array_has_alloctr(v) == (al->a != NULL), "vector does not remember its allocator");
}
static void own_list(const al_t *al, const vt_plist_t *p) {
    owned(al, p, "list object"); owned(al, vt_array_head(p), "list elements");
    CHECK(vt_array_has_alloctr(p) == (al->a != NULL), "list does not remember its allocator");
}
static void free_str(void *p, size_t i) { (void)i; vt_str_destroy(p); }
static void program(al_t al, al_t al2, uint64_t seed, log_t *l, const char *file, int *events) {
    the_als[0] = al; the_als[1] = al2; nrec = 0;
    const al_t none = { 0, NULL }, *others[3] = { &none, &al, &al2 };
    prs = seed;
    char z[600], y[64];
    ptext(z, pn(60));
    vt_str_t *s = vt_str_create(z, al.a);
    vt_vec_t *v = vt_vec_create(1 + pn(6), 1 + pn(24), al.a);
    vt_plist_t *p = vt_plist_create(1 + pn(6), al.a);
    size_t es = vt_array_elsize(v);
    own_str(&al, s); own_vec(&al, v); own_list(&al, p);
    size_t steps = 5 + pn(60);
    for (size_t k = 0; k < steps; k++) {
        unsigned char el[32]; for (size_t i = 0; i < sizeof el; i++) el[i] = (unsigned char)pr();
        (*events)++;
        const al_t *ot = others[pn(3)];
        switch (pn(26)) {
            case 0: ptext(z, pn(40)); vt_str_append(s, z); break;
            case 1: ptext(z, pn(20)); vt_str_insert(s, z, pn(vt_str_len(s) + 1)); break;
            case 2: if (vt_str_len(s)) vt_str_remove(s, pn(vt_str_len(s)), 1 + pn(8)); break;
            case 3: vt_str_reserve(s, 1 + pn(30)); break;
            case 4: vt_str_shrink(s); break;
            case 5: vt_str_appendf(s, "%zu-%s", pn(1000), "x"); break;
            case 6: vt_str_insertf(s, pn(vt_str_len(s) + 1), "%*d", (int)pn(1100), 7); break;
            case 7: { vt_str_t *d = vt_str_dup(s); own_str(&al, d); CHECK(vt_str_equals(d, s), "duplicate differs"); vt_str_destroy(d); break; }
            case 8: vt_str_replace(s, "a", pn(2) ? "bb" : "c"); break;
            case 9: vt_vec_push_back(v, el); break;
            case 10: vt_vec_push_front(v, el); break;
            case 11: if (vt_vec_len(v)) vt_vec_insert(v, el, pn(vt_vec_len(v))); break;
            case 12: if (vt_vec_len(v)) vt_vec_remove(v, pn(vt_vec_len(v)), (enum VitaRemoveStrategy)pn(2)); break;
            case 13: vt_vec_reserve(v, 1 + pn(9)); vt_vec_shrink(v); break;
            case 14: { vt_vec_t *d = vt_vec_dup(v, ot->a); own_vec(ot, d); for (size_t i = 0, g = pn(12); i < g; i++) vt_vec_push_back(d, el); own_vec(ot, d); vt_vec_shrink(d); own_vec(ot, d); lg(l, "dup %zu", vt_vec_len(d)); vt_vec_destroy(d); } break;
            case 15: vt_plist_push_back(p, (void*)(uintptr_t)(1 + pn(50))); break;
            case 16: vt_plist_push_front(p, (void*)(uintptr_t)(1 + pn(50))); break;
            case 17: if (vt_plist_len(p)) vt_plist_remove(p, pn(vt_plist_len(p)), (enum VitaRemoveStrategy)pn(2)); break;
            case 18: { vt_plist_t *d = vt_plist_dup(p, ot->a); own_list(ot, d); for (size_t i = 0, g = pn(12); i < g; i++) vt_plist_push_front(d, z); own_list(ot, d); vt_plist_shrink(d); own_list(ot, d); lg(l, "dup %zu", vt_plist_len(d)); vt_plist_destroy(d); } break;
            case 19: { /* split into a list of this allocator */
                strcpy(y, pn(2) ? "," : "b");
                if (vt_str_len(s) && vt_str_can_find(s, y)) {
                    /* the pieces live where the list does, whatever the text lives in */
                    bool fresh = pn(2); size_t room = 1 + pn(3); vt_plist_t *q = !ot->a && fresh ? NULL : vt_plist_create(room, ot->a);
                    q = vt_str_split(q, s, y);
                    own_list(ot, q);
                    for (size_t i = 0; i < vt_plist_len(q); i++) { own_str(ot, vt_plist_get(q, i)); if (pn(3) == 0) { vt_str_append(vt_plist_get(q, i), "grown"); own_str(ot, vt_plist_get(q, i)); } lg(l, "piece %s", vt_str_z(vt_plist_get(q, i))); }
                    vt_plist_apply(q, free_str); vt_plist_destroy(q);
                }
                break; }
            case 20: { /* text made by the user in the allocator's memory, then owned by a string */
                char *m = al.a ? A_ALLOC(al.a, 30) : calloc(1, 30);
                strcpy(m, pn(3) ? "owned text" : "");
                vt_str_t *o = vt_str_take_ownership(m, al.a);
                vt_str_append(o, " grown beyond its first size by a good margin"); own_str(&al, o);
                lg(l, "owned %s %zu", vt_str_z(o), vt_str_len(o)); vt_str_destroy(o);
                break; }
            case 21: { /* file content */
                vt_str_t *f = pn(2) ? vt_file_read(file, al.a) : vt_file_readb(file, al.a);
                CHECK(f != NULL, "file could not be read");
                own_str(&al, f); lg(l, "file %s", vt_str_z(f)); vt_str_destroy(f);
                break; }
            case 22: { /* into an object of another allocator: join, pop, between */
                vt_str_t *o = vt_str_create("pre", ot->a);
                ptext(z, pn(60));
                switch (pn(4)) {
                    case 0: o = vt_str_join_n(o, "/", 3, z, "b", "cc"); break;
                    case 1: { vt_str_t *r = vt_str_pop_get_first(o, s, "b"); CHECK(r == o, "supplied destination not returned"); break; }
                    case 2: { vt_str_t *r = vt_str_pop_get_last(o, s, "b"); CHECK(r == o, "supplied destination not returned"); break; }
                    default: { vt_str_t *r = vt_str_split_between(o, z, "a", "b"); CHECK(!r || r == o, "supplied destination not returned"); break; }
                }
                own_str(ot, o); lg(l, "into %s", vt_str_z(o)); vt_str_destroy(o);
                break; }
            case 23: { /* paths */
                vt_str_t *o = vt_str_create("x", ot->a);
                const char *lp = "a rather long last component of the path";
                switch (pn(4)) {
                    case 0: vt_path_build_n(o, 1, lp); break;
                    case 1: vt_path_build_n(o, 3, "aa", "bb", lp); break;
                    case 2: vt_path_build_n(o, 5, "aa", "bb", lp, "c", "d"); break;
                    default: vt_path_build_n(o, 9, "aa", "bb", lp, "c", "d", lp, lp, "e", "ff"); break;
                }
                own_str(ot, o);
                lg(l, "path %s", vt_str_z(o));
                vt_str_t *b = vt_str_create("y", al.a); vt_path_basename(b, vt_str_z(o)); own_str(&al, b); lg(l, "base %s", vt_str_z(b));
                vt_str_destroy(b); vt_str_destroy(o);
                vt_str_t *t = vt_path_expand_tilda("~/some/where", ot->a); if (t) { own_str(ot, t); lg(l, "tilda %s", vt_str_z(t)); vt_str_destroy(t); }
                break; }
            case 24: { /* a directory listed into a list of another allocator */
                bool fresh = pn(2); size_t room = 1 + pn(3); vt_plist_t *q = !ot->a && fresh ? NULL : vt_plist_create(room, ot->a);
                char dir[600]; snprintf(dir, sizeof dir, "%s", file); *strrchr(dir, '/') = 0;
                bool rec = pn(2);
                vt_plist_t *r = rec ? vt_path_dir_list_recurse(q, dir, pn(2)) : vt_path_dir_list(q, dir, pn(2));
                CHECK(r != NULL, "directory could not be listed");
                own_list(ot, r);
                for (size_t i = 0; i < vt_plist_len(r); i++) { own_str(ot, vt_plist_get(r, i)); if (strstr(vt_str_z(vt_plist_get(r, i)), "in.txt")) lg(l, "entry"); }
                vt_path_dir_free(r);
                break; }
            case 25: { /* options: a value made by the parser lives where the caller said, one that was there stays what and where it was */
                vt_str_t *had = vt_str_create("there already", ot->a), *none_yet = NULL, *kept = had; char *zn = NULL;
                ptext(z, 1 + pn(300)); if (*z == '-') *z = 'a';
                vt_argopt_t ov[] = { { "--had", "-h", "", (void**)&had, VT_TYPE_STR }, { "--new", "-n", "", (void**)&none_yet, VT_TYPE_STR }, { "--text", "-t", "", (void**)&zn, VT_TYPE_CSTR } };
                const char *av[] = { "prog", "--had", z, "--new", z, "--text", z };
                CHECK(vt_argopt_parse(7, av, 3, ov, al.a) == VT_ARGOPT_PARSE_SUCCESS, "options were not parsed");
                CHECK(had == kept, "the caller's string was replaced by another one");
                CHECK(none_yet && zn, "an option's value was not stored");
                own_str(ot, had); own_str(&al, none_yet); owned(&al, zn, "text value of an option");
                lg(l, "options %s %s %s", vt_str_z(had), vt_str_z(none_yet), zn);
                vt_str_destroy(had); vt_str_destroy(none_yet); if (al.a) A_FREE(al.a, zn); else free(zn);
                break; }
        }
        own_str(&al, s); own_vec(&al, v); own_list(&al, p);
        lg(l, "s=%s len=%zu cap=%zu", vt_str_z(s), vt_str_len(s), vt_str_capacity(s));
        lg(l, "v len=%zu cap=%zu h=%llx", vt_vec_len(v), vt_vec_capacity(v), (unsigned long long)hash_bytes(vt_array_head(v), vt_vec_len(v) * es, 3));
        lg(l, "p len=%zu cap=%zu h=%llx", vt_plist_len(p), vt_plist_capacity(p), (unsigned long long)hash_bytes(vt_array_head(p), vt_plist_len(p) * sizeof(void*), 3));
    }
    /* objects may be destroyed in any order */
    switch (pn(3)) {
        case 0: vt_str_destroy(s); vt_vec_destroy(v); vt_plist_destroy(p); break;
        case 1: vt_plist_destroy(p); vt_str_destroy(s); vt_vec_destroy(v); break;
        default: vt_vec_destroy(v); vt_plist_destroy(p); vt_str_destroy(s); break;
    }
}
static void run_transparent(uint64_t idx) {
    char file[600]; snprintf(file, sizeof file, "%s/in.txt", scratch());
    FILE *f = fopen(file, "w"); if (!f) exit(3); fprintf(f, "some %zu file content\nwith lines\n", rn(1000)); fclose(f);
    char sub[700], deep[900]; snprintf(sub, sizeof sub, "%s/subdirectory", scratch()); snprintf(deep, sizeof deep, "%s/a file whose name is a good deal longer than all the others in here", sub);
    mkdir(sub, 0755); f = fopen(deep, "w"); if (!f) exit(3); fclose(f);
    uint64_t seed = rnd();
    log_t l[3] = {0};
    int events = 0;
    for (int k = 0; k < 3; k++) {
        al_t al = al_rec(k), al2 = al_rec((int)((idx + (uint64_t)k) % 2) + 1);
        T("program %llx with allocator kinds %d and %d", (unsigned long long)seed, k, al2.kind);
        program(al, al2, seed, &l[k], file, &events);
        al_end(al); al_end(al2);
    }
    evn("operations run under each allocator", (uint64_t)events / 3);
    for (int k = 1; k < 3; k++) {
        size_t i = 0; while (l[0].z[i] && l[0].z[i] == l[k].z[i]) i++;
        size_t from = i; while (from && l[0].z[from - 1] != '\n') from--;
        CHECK(l[0].z[i] == l[k].z[i], "results depend on the allocator: %.200s <> %.200s", l[0].z + from, l[k].z + from);
    }
    seen(hash_bytes(l[0].z, l[0].n, 5));
    sample("program of %d operations, transcript %zu bytes, identical under 3 allocators", events / 3, l[0].n);
    for (int k = 0; k < 3; k++) free(l[k].z);
    unlink(file); unlink(deep); rmdir(sub);
}

/* ============================================================ allocation faults ============================== */
typedef struct { uint64_t seed; int kind; int which; int64_t fail_at; const char *dir; int64_t total; } oom_t;
static void oom_workload(oom_t *o) {
    al_t al = { o->kind, NULL };
    if (o->kind == 1) al.a = vt_mallocator_create();
    prs = o->seed;
    char z[400], file[600];
    snprintf(file, sizeof file, "%s/in.txt", o->dir);
    switch (o->which) {
        case 0: { vt_str_t *s = vt_str_create("start", al.a); for (int i = 0; i < 12; i++) { ptext(z, pn(80)); vt_str_append(s, z); vt_str_insert(s, "q", 0); } vt_str_insertf(s, 1, "%1500d", 3); vt_str_appendf(s, "%90d", 3);
            vt_str_shrink(s); vt_str_reserve(s, 10); vt_str_resize(s, 3000); vt_str_destroy(vt_str_dup(s)); vt_str_replace(s, "a", "xyz"); vt_str_destroy(s); break; }
        case 1: { vt_vec_t *v = vt_vec_create(1, 8, al.a); for (int64_t i = 0; i < 40; i++) { vt_vec_push_back(v, &i); vt_vec_push_front(v, &i); vt_vec_insert(v, &i, 0); } vt_vec_remove(v, 0, VT_REMOVE_STRATEGY_FAST);
            vt_vec_shrink(v); vt_vec_reserve(v, 3); vt_vec_resize(v, 900); vt_vec_destroy(vt_vec_dup(v, al.a)); vt_vec_destroy(v); break; }
        case 2: { vt_plist_t *p = vt_plist_create(1, al.a); for (int i = 0; i < 40; i++) { vt_plist_push_back(p, z); vt_plist_push_front(p, z); vt_plist_insert(p, z, 0); }
            vt_plist_shrink(p); vt_plist_reserve(p, 3); vt_plist_resize(p, 900); vt_plist_destroy(vt_plist_dup(p, al.a)); vt_plist_destroy(p); break; }
        case 3: { vt_str_t *s = vt_str_create("aa,bb,,cc,dd,eeeeeeeeeeeeeeeeeeeeeeee", al.a); vt_plist_t *p = vt_plist_create(1, al.a); vt_str_split(p, s, ","); vt_plist_apply(p, free_str); vt_plist_destroy(p);
            p = vt_str_split(NULL, s, ","); vt_plist_apply(p, free_str); vt_plist_destroy(p);
            vt_str_t *j = vt_str_join_n(NULL, "-", 3, "aaaaaaaaaaaaaaaaaaaaaaaaaaaa", "b", "c"); vt_str_t *q = vt_str_pop_get_first(NULL, j, "-"); vt_str_destroy(q); q = vt_str_pop_get_last(NULL, j, "-"); if (q) vt_str_destroy(q);
            vt_str_destroy(j); j = vt_str_split_between(NULL, "xx[abc]yy", "[", "]"); vt_str_destroy(j); vt_str_destroy(s); break; }
        case 4: { vt_str_t *s = vt_file_read(file, al.a); vt_str_destroy(s); s = vt_file_readb(file, al.a); vt_str_destroy(s); break; }
        case 5: { vt_mallocator_t *m = vt_mallocator_create(); void *b[70]; for (int i = 0; i < 70; i++) b[i] = A_ALLOC(m, 1 + pn(50)); for (int i = 0; i < 70; i += 3) b[i] = A_REALLOC(m, b[i], 200); for (int i = 0; i < 70; i += 2) A_FREE(m, b[i]); vt_mallocator_destroy(m); break; }
        case 6: { vt_str_t *s = vt_path_build_n(NULL, 3, "aaaaaaaaaaaaaaaaaaaaaaaa", "bbbbbbbbbbbbbbbbbb", "c"); vt_str_t *b = vt_path_basename(NULL, vt_str_z(s)); if (b) vt_str_destroy(b); vt_str_destroy(s);
            s = vt_path_expand_tilda("~/x/y", al.a); vt_str_destroy(s);
            vt_plist_t *l = vt_path_dir_list(NULL, o->dir, false); if (l) vt_path_dir_free(l); break; }
        case 8: { /* option parsing: texts that must be made or grown */
            vt_str_t *s1 = NULL, *s2 = vt_str_create("x", al.a); char *z1 = NULL, *z2 = al.a ? VT_ALLOCATOR_ALLOC(al.a, 2) : VT_CALLOC(2); int32_t n = 0; ptext(z, 200); if (z[0] == '-') z[0] = 'x';
            vt_argopt_t ov[] = { { "--s1", "-a", "", (void**)&s1, VT_TYPE_STR }, { "--s2", "-b", "", (void**)&s2, VT_TYPE_STR }, { "--z1", "-c", "", (void**)&z1, VT_TYPE_CSTR }, { "--z2", "-d", "", (void**)&z2, VT_TYPE_CSTR }, { "--n", "-n", "", (void**)&n, VT_TYPE_INT32 } };
            char l1[300]; snprintf(l1, sizeof l1, "--s1=%s", z); const char *av[] = { "prog", l1, "--s2", z, "-c", "some text", "-d", z, "-n=5" };
            vt_argopt_parse(9, av, 5, ov, al.a); if (s1) vt_str_destroy(s1); vt_str_destroy(s2); if (z1) { if (al.a) VT_ALLOCATOR_FREE(al.a, z1); else VT_FREE(z1); } if (al.a) VT_ALLOCATOR_FREE(al.a, z2); else VT_FREE(z2); break; }
        case 9: { /* directories: made, listed, removed */
            char d[700], e[800]; snprintf(d, sizeof d, "%s/t", o->dir); snprintf(e, sizeof e, "%s/a/b/some rather long directory name/c", d);
            vt_path_mkdir_parents(e); vt_plist_t *l = vt_plist_create(1, al.a); if (vt_path_dir_list_recurse(l, d, false)) vt_path_dir_free(l); else vt_plist_destroy(l); vt_path_rmdir_recurse(d); break; }
        case 10: { vt_str_t *s = vt_path_get_cwd(al.a); if (s) vt_str_destroy(s); s = vt_path_get_this_exe_location(al.a); if (s) vt_str_destroy(s); s = vt_str_create_len(10 + pn(50), al.a); vt_str_destroy(s); s = vt_str_create_capacity(1 + pn(50), al.a); vt_str_append_n(s, "abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyz", 50); vt_str_insert_n(s, "abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyz", 3, 50); vt_str_destroy(s); break; }
        case 11: { vt_str_t *s = vt_str_create("one two three two one", al.a); for (int i = 0; i < 6; i++) { ptext(z, 20 + pn(100)); vt_str_replace_first(s, "two", "twotwotwo"); vt_str_replace_last(s, "one", "oneone"); vt_str_insert_before(s, "three", z); vt_str_insert_after(s, "three", z); } vt_str_append_n(s, "abc", 2); vt_str_t *q = vt_str_dup(s); vt_str_append(q, z); vt_str_destroy(q);
            vt_plist_t *p = vt_plist_create(2, al.a); vt_plist_push_back(p, "aa"); vt_plist_push_back(p, "bb"); vt_str_t *j = vt_str_join(s, "--", p); (void)j; vt_plist_destroy(p); vt_str_destroy(s); break; }
        case 7: { char a[64] = {1}, b[64] = {2}; for (int i = 0; i < 5; i++) vt_gswap(a, b, 1 + pn(60)); void *p = VT_MALLOC(10); p = VT_REALLOC(p, 100); VT_FREE(p); p = VT_CALLOC(20); VT_FREE(p); break; }
    }
    if (al.a) vt_mallocator_destroy(al.a);
}
static void oom_body(void *arg) {
    oom_t *o = arg;
    vt_debug_disable_output(false);
    g_alloc_seen = 0; g_alloc_failed = false; g_alloc_fail_at = o->fail_at;
    oom_workload(o);
    g_alloc_fail_at = -1;
}
static const char *oom_names[] = { "string", "vector", "list", "split/join", "file read", "allocator", "path", "swap and raw", "options", "directories", "locations and fixed-size strings", "replacing" };
static void run_oom(uint64_t idx) {
    oom_t o = { .seed = idx, .kind = (int)((idx / 12) % 2), .which = (int)(idx % 12), .dir = scratch() };
    char file[600]; snprintf(file, sizeof file, "%s/in.txt", scratch());
    FILE *f = fopen(file, "w"); if (!f) exit(3); fprintf(f, "content\nof the file\n"); fclose(f);
    char tdir[600]; snprintf(tdir, sizeof tdir, "%s/t", scratch()); wipe(tdir);
    g_alloc_fail_at = -1; g_alloc_seen = 0;
    oom_workload(&o);
    int64_t total = g_alloc_seen;
    CHECK(total > 0, "the workload allocated nothing");
    evn("allocation sites enumerated", (uint64_t)total);
    for (int64_t k = 0; k < total; k++) {
        if (!g_thorough && total > 60 && k > 12 && k < total - 12 && rn((size_t)total / 30)) continue;
        o.fail_at = k;
        T("%s workload (allocator %d, seed %llu), allocation %lld of %lld fails", oom_names[o.which], o.kind, (unsigned long long)idx, (long long)k, (long long)total);
        if (o.which == 9) wipe(tdir);
        death_t d = in_child(oom_body, &o, 60);
        CHECK(!d.timeout, "program hung after a failed allocation");
        CHECK(!d.survived, "program went on after a failed allocation");
        CHECK(d.exited && d.code == EXIT_FAILURE, "failed allocation did not end in an orderly failure exit (exit %d, signal %d): %.300s", d.exited ? d.code : -1, d.sig, d.err);
        CHECK(strstr(d.err, "ALLOCATION FAILURE") != NULL, "no message about the failed allocation: %.200s", d.err);
        ev("failed allocation ended in an orderly exit");
        uint64_t key[3] = { (uint64_t)o.which, (uint64_t)o.kind, (uint64_t)k }; seen(hash_bytes(key, sizeof key, 9));
    }
    sample("%s workload: %lld allocations, each made to fail", oom_names[o.which], (long long)total);
    unlink(file); wipe(tdir);
}
/* requests the system really cannot satisfy */
typedef struct { int op; size_t n, es, have; } big_t;
static void big_body(void *arg) {
    big_t *b = arg;
    vt_debug_disable_output(false);
    vt_vec_t *v; vt_plist_t *p; vt_str_t *s; vt_mallocator_t *m;
    switch (b->op) {
        case 0: v = vt_vec_create(b->n, b->es, NULL); break;
        case 1: v = vt_vec_create(b->have, b->es, NULL); vt_vec_reserve(v, b->n); break;
        case 2: v = vt_vec_create(b->have, b->es, NULL); vt_vec_resize(v, b->n); break;
        case 3: p = vt_plist_create(b->n, NULL); break;
        case 4: p = vt_plist_create(b->have, NULL); vt_plist_reserve(p, b->n); break;
        case 5: p = vt_plist_create(4, NULL); vt_plist_resize(p, b->n); break;
        case 6: s = vt_str_create_len(b->n, NULL); break;
        case 7: s = vt_str_create("abc", NULL); vt_str_reserve(s, b->n); break;
        case 8: s = vt_str_create("abc", NULL); vt_str_resize(s, b->n); break;
        case 9: m = vt_mallocator_create(); A_ALLOC(m, b->n); break;
        case 10: m = vt_mallocator_create(); A_REALLOC(m, A_ALLOC(m, 8), b->n); break;
        case 11: m = vt_mallocator_create(); v = vt_vec_create(b->have, b->es, m); vt_vec_reserve(v, b->n); break;
        case 12: m = vt_mallocator_create(); s = vt_str_create("abc", m); vt_str_reserve(s, b->n); break;
        case 13: m = vt_mallocator_create(); p = vt_plist_create(4, m); vt_plist_resize(p, b->n); break;
    }
}
static void run_huge(uint64_t idx) {
    /* 2^38 elements and up to the largest numbers, including those whose byte count wraps around to a small one */
    big_t b = { (int)(idx % 14), (size_t)1 << (38 + rn(20)), 8, 4 };
    if (chance(50)) {
        static const size_t edge[] = { SIZE_MAX / 8 + 1, SIZE_MAX / 8 + 2, SIZE_MAX / 4 + 1, SIZE_MAX / 2 + 1, SIZE_MAX / 2 + 3, SIZE_MAX - 4, SIZE_MAX - 3, SIZE_MAX - 1, SIZE_MAX };
        b.n = edge[rn(9)] + (chance(50) ? 0 : rn(3));
        if (b.n < SIZE_MAX / 8) b.n = SIZE_MAX;
    } else if (chance(60)) { /* enough for the element count alone, not together with what the container holds already */
        static const size_t es[] = { 8, 8, 4, 16, 24, 3, 1000, 65536 };
        bool list = b.op >= 3 && b.op <= 5; /* lists have pointers for elements */
        b.es = list || b.op == 13 ? 8 : es[rn(8)]; b.have = 4 + rn(60);
        b.n = SIZE_MAX / b.es - rn(b.have < 10 ? 3 : 9);
        if (b.op >= 6 && b.op != 11 && b.op != 13) { b.es = 8; b.have = 4; b.n = SIZE_MAX - rn(4); }
    }
    T("request %d of %zu elements", b.op, b.n);
    death_t d = in_child(big_body, &b, 60);
    CHECK(!d.survived && !d.timeout, "a request for %zu elements (kind %d) was reported as satisfied", b.n, b.op);
    CHECK(d.exited && d.code == EXIT_FAILURE, "an unsatisfiable request did not end in an orderly failure exit (exit %d, signal %d): %.300s", d.exited ? d.code : -1, d.sig, d.err);
    CHECK(strstr(d.err, "FAILURE") != NULL, "no message about the unsatisfiable request");
    ev("unsatisfiable request ended in an orderly exit");
    seen(b.n * 0x9e3779b97f4a7c15ull ^ (uint64_t)b.op << 56 ^ b.es << 20 ^ b.have);
}

/* ============================================================ contract violations ============================ */
/* every entry is one call that breaks the documented argument rules; `enforce` entries must stop release builds too */
typedef struct { const char *name; bool enforce; void (*f)(size_t extra, size_t len); } bad_t;
static size_t spare; /* room beyond the length in the objects of a case: what lies there is as much out of range as anything */
static vt_str_t *ms(size_t n) { static char z[200]; memset(z, 'a', n); z[n] = 0; vt_str_t *s = n ? vt_str_create(z, NULL) : vt_str_create_capacity(4, NULL); if (spare) vt_str_reserve(s, spare); return s; }
static vt_vec_t *mv(size_t n) { vt_vec_t *v = vt_vec_create(n + 1 + spare, 4, NULL); for (int32_t i = 0; i < (int32_t)n; i++) vt_vec_push_back(v, &i); return v; }
static vt_plist_t *mp(size_t n) { vt_plist_t *p = vt_plist_create(n + 1 + spare, NULL); for (size_t i = 0; i < n; i++) vt_plist_push_back(p, (void*)(uintptr_t)(8 + i)); return p; }
static int32_t cell;
static volatile uintptr_t sink;
static void fn2(void *p, size_t i) { sink = (uintptr_t)p + i; }
static void fnc(char *p, size_t i) { sink = (uintptr_t)p + i; }
#define B(NAME, ENF, CODE) static void NAME(size_t e, size_t n) { (void)e; (void)n; CODE; }
/* out-of-range positions */
B(b_vec_get, 0, sink = (uintptr_t)vt_vec_get(mv(n), n + e))
B(b_vec_geti32, 0, sink = (uintptr_t)vt_vec_geti32(mv(n), n + e))
B(b_vec_set, 0, vt_vec_set(mv(n), &cell, n + e))
B(b_vec_seti32, 0, vt_vec_seti32(mv(n), 5, n + e))
B(b_vec_insert, 0, vt_vec_insert(mv(n), &cell, n + e))
B(b_vec_inserti32, 0, vt_vec_inserti32(mv(n), 1, n + e))
B(b_vec_remove, 0, vt_vec_remove(mv(n), n + e, (enum VitaRemoveStrategy)(e & 1)))
B(b_vec_remove_rs, 0, vt_vec_remove(mv(n + 1), 0, (enum VitaRemoveStrategy)(VT_REMOVE_STRATEGY_COUNT + (e & 3))))
B(b_plist_get, 0, sink = (uintptr_t)vt_plist_get(mp(n), n + e))
B(b_plist_set, 0, vt_plist_set(mp(n), &cell, n + e))
B(b_plist_insert, 0, vt_plist_insert(mp(n), &cell, n + e))
B(b_plist_remove, 0, vt_plist_remove(mp(n), n + e, (enum VitaRemoveStrategy)(e & 1)))
B(b_plist_remove_rs, 0, vt_plist_remove(mp(n + 1), 0, (enum VitaRemoveStrategy)(VT_REMOVE_STRATEGY_COUNT + (e & 3))))
B(b_str_set_at, 0, vt_str_set_at(ms(n), "x", n + e))
B(b_str_set_c, 0, vt_str_set_c(ms(n), 'x', n + e))
B(b_str_insert, 0, vt_str_insert(ms(n), "x", n + 1 + e))
B(b_str_insertf, 0, vt_str_insertf(ms(n), n + 1 + e, "%d", 5))
B(b_str_insert_n, 0, vt_str_insert_n(ms(n), "xyz", n + 1 + e, 2))
B(b_str_remove, 0, vt_str_remove(ms(n), n + e, 1))
B(b_array_get, 0, sink = (uintptr_t)vt_array_get(mv(n), n + e))
B(b_array_set, 0, vt_array_set(mv(n), &cell, n + e))
static int32_t arr[256];
B(b_span_get, 0, sink = (uintptr_t)vt_span_get(vt_span_from(arr, n + 1, 4), n + 1 + e))
B(b_span_set, 0, vt_span_set(vt_span_from(arr, n + 1, 4), &cell, n + 1 + e))
B(b_span_geti32, 0, sink = (uintptr_t)vt_span_geti32(vt_span_from(arr, n + 1, 4), n + 1 + e))
B(b_span_sub, 0, sink = (uintptr_t)vt_span_get(vt_span_from_to(arr, 1, 2 + n, 4), n + 1 + e))
/* sizes of zero where at least one is required */
B(b_vec_create0, 0, vt_vec_create(0, 4, NULL))
B(b_vec_create_es0, 0, vt_vec_create(4, 0, NULL))
B(b_vec_reserve0, 0, vt_vec_reserve(mv(n), 0))
B(b_vec_resize0, 0, vt_vec_resize(mv(n), 0))
B(b_plist_create0, 0, vt_plist_create(0, NULL))
B(b_plist_reserve0, 0, vt_plist_reserve(mp(n), 0))
B(b_plist_resize0, 0, vt_plist_resize(mp(n), 0))
B(b_str_cap0, 0, vt_str_create_capacity(0, NULL))
B(b_str_reserve0, 0, vt_str_reserve(ms(n), 0))
B(b_str_resize0, 0, vt_str_resize(ms(n), 0))
B(b_span0, 0, vt_span_from(arr, 0, 4))
/* text that does not fit, needles longer than the text */
static char longz[300];
static const char *lz(size_t n) { memset(longz, 'a', n); longz[n] = 0; return longz; }
B(b_str_set_long, 1, vt_str_set(ms(n), lz(n + 1 + e % 100)))
B(b_str_set_n_long, 1, vt_str_set_n(ms(n), lz(250), n + 1 + e % 100))
B(b_str_set_at_long, 1, vt_str_set_at(ms(n + 1), lz(n + 2 - (e % (n + 1)) + e % 50), e % (n + 1)))
B(b_str_replace_c_long, 1, vt_str_replace_c(ms(n), "ab", "xyzw"))
B(b_str_equals_n_long1, 1, sink = vt_str_equals_n(lz(n), "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", n + 1))
B(b_str_equals_n_long2, 1, sink = vt_str_equals_n("aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", lz(n), n + 1))
/* growing or shrinking a view */
static char viewbuf[64];
static vt_str_t *vw(size_t n) { static vt_str_t v; memset(viewbuf, 'v', n % 60); viewbuf[n % 60] = 0; v = vt_str_create_static(viewbuf); return &v; }
B(b_view_reserve, 1, vt_str_reserve(vw(n), 1 + e % 50))
B(b_view_resize, 1, vt_str_resize(vw(n), 1 + e % 50))
B(b_view_shrink, 1, vt_str_shrink(vw(n)))
B(b_view_append, 1, vt_str_append(vw(n), lz(1 + e % 50)))
B(b_view_append_n, 1, vt_str_append_n(vw(n), lz(50), 1 + e % 50))
B(b_view_appendf, 1, vt_str_appendf(vw(n), "%d", 55))
B(b_view_clear, 1, vt_str_clear(vw(n)))
B(b_view_set, 1, vt_str_set(vw(n + 1), "q"))
B(b_view_set_c, 1, vt_str_set_c(vw(n % 50 + 1), 'q', 0))
B(b_view_remove, 1, vt_str_remove(vw(n % 50 + 1), 0, 1 + e % 50))
B(b_view_remove_c, 1, vt_str_remove_c(vw(n % 50 + 1), "v"))
B(b_view_replace, 1, vt_str_replace(vw(n % 50 + 1), "v", "w"))
B(b_view_replace_c, 1, vt_str_replace_c(vw(n % 50 + 1), "v", "w"))
B(b_view_strip_c, 1, vt_str_strip_c(vw(n % 50 + 1), "v"))
B(b_view_upper, 1, vt_str_to_uppercase(vw(n % 50 + 1)))
B(b_view_insert, 1, vt_str_insert(vw(n + 1), "x", 0))
B(b_view_insert_n, 1, vt_str_insert_n(vw(n + 1), "xy", 0, 2))
B(b_view_insertf, 1, vt_str_insertf(vw(n + 1), 0, "%d", 7))
/* missing objects */
#define N(NAME, CODE) B(NAME, 0, CODE)
N(n_vec_destroy, vt_vec_destroy(NULL)) N(n_vec_dup, vt_vec_dup(NULL, NULL)) N(n_vec_len, sink = vt_vec_len(NULL)) N(n_vec_cap, sink = vt_vec_capacity(NULL)) N(n_vec_space, sink = vt_vec_has_space(NULL))
N(n_vec_empty, sink = vt_vec_is_empty(NULL)) N(n_vec_shrink, vt_vec_shrink(NULL)) N(n_vec_clear, vt_vec_clear(NULL)) N(n_vec_reserve, vt_vec_reserve(NULL, 3)) N(n_vec_resize, vt_vec_resize(NULL, 3))
N(n_vec_pb, vt_vec_push_back(NULL, &cell)) N(n_vec_pf, vt_vec_push_front(NULL, &cell)) N(n_vec_pbv, vt_vec_push_back(mv(n), NULL)) N(n_vec_pfv, vt_vec_push_front(mv(n), NULL)) N(n_vec_pop, vt_vec_pop(NULL)) N(n_vec_popg, vt_vec_pop_get(NULL))
N(n_vec_set, vt_vec_set(NULL, &cell, 0)) N(n_vec_setv, vt_vec_set(mv(n + 1), NULL, 0)) N(n_vec_get, vt_vec_get(NULL, 0)) N(n_vec_ins, vt_vec_insert(NULL, &cell, 0)) N(n_vec_insv, vt_vec_insert(mv(n + 1), NULL, 0)) N(n_vec_rem, vt_vec_remove(NULL, 0, VT_REMOVE_STRATEGY_FAST))
N(n_vec_find, vt_vec_can_find(NULL, &cell)) N(n_vec_findv, vt_vec_can_find(mv(n), NULL)) N(n_vec_sf, vt_vec_slide_front(NULL)) N(n_vec_sb, vt_vec_slide_back(NULL)) N(n_vec_sr, vt_vec_slide_reset(NULL)) N(n_vec_app, vt_vec_apply(NULL, fn2)) N(n_vec_appf, vt_vec_apply(mv(n), NULL))
N(n_pl_destroy, vt_plist_destroy(NULL)) N(n_pl_dup, vt_plist_dup(NULL, NULL)) N(n_pl_reserve, vt_plist_reserve(NULL, 2)) N(n_pl_shrink, vt_plist_shrink(NULL)) N(n_pl_resize, vt_plist_resize(NULL, 2)) N(n_pl_clear, vt_plist_clear(NULL))
N(n_pl_set, vt_plist_set(NULL, &cell, 0)) N(n_pl_get, vt_plist_get(NULL, 0)) N(n_pl_pf, vt_plist_push_front(NULL, &cell)) N(n_pl_pb, vt_plist_push_back(NULL, &cell)) N(n_pl_pop, vt_plist_pop(NULL)) N(n_pl_popg, vt_plist_pop_get(NULL)) N(n_pl_ins, vt_plist_insert(NULL, &cell, 0))
N(n_pl_rem, vt_plist_remove(NULL, 0, VT_REMOVE_STRATEGY_STABLE)) N(n_pl_reme, vt_plist_remove_element(NULL, &cell, VT_REMOVE_STRATEGY_STABLE)) N(n_pl_find, vt_plist_can_find(NULL, &cell)) N(n_pl_sf, vt_plist_slide_front(NULL)) N(n_pl_sb, vt_plist_slide_back(NULL)) N(n_pl_sr, vt_plist_slide_reset(NULL))
N(n_pl_app, vt_plist_apply(NULL, fn2)) N(n_pl_appf, vt_plist_apply(mp(n), NULL))
N(n_st_static, vt_str_create_static(NULL)) N(n_st_create, vt_str_create(NULL, NULL)) N(n_st_destroy, vt_str_destroy(NULL)) N(n_st_dup, vt_str_dup(NULL)) N(n_st_own, vt_str_take_ownership(NULL, NULL)) N(n_st_z, vt_str_z(NULL)) N(n_st_len, sink = vt_str_len(NULL)) N(n_st_val, vt_str_validate_len(NULL))
N(n_st_shrink, vt_str_shrink(NULL)) N(n_st_clear, vt_str_clear(NULL)) N(n_st_reserve, vt_str_reserve(NULL, 3)) N(n_st_resize, vt_str_resize(NULL, 3)) N(n_st_set, vt_str_set(NULL, "x")) N(n_st_setz, vt_str_set(ms(n), NULL)) N(n_st_seta, vt_str_set_at(NULL, "x", 0)) N(n_st_setc, vt_str_set_c(NULL, 'x', 0)) N(n_st_setn, vt_str_set_n(NULL, "x", 1))
N(n_st_app, vt_str_append(NULL, "x")) N(n_st_appz, vt_str_append(ms(n), NULL)) N(n_st_appf, vt_str_appendf(NULL, "x")) N(n_st_appn, vt_str_append_n(NULL, "x", 1)) N(n_st_ins, vt_str_insert(NULL, "x", 0)) N(n_st_insz, vt_str_insert(ms(n + 1), NULL, 0)) N(n_st_insf, vt_str_insertf(NULL, 0, "x")) N(n_st_insn, vt_str_insert_n(NULL, "x", 0, 1))
N(n_st_insb, vt_str_insert_before(NULL, "x", "y")) N(n_st_insa, vt_str_insert_after(NULL, "x", "y")) N(n_st_rem, vt_str_remove(NULL, 0, 1)) N(n_st_remf, vt_str_remove_first(NULL, "x")) N(n_st_reml, vt_str_remove_last(NULL, "x")) N(n_st_rema, vt_str_remove_all(NULL, "x")) N(n_st_remc, vt_str_remove_c(NULL, "x"))
N(n_st_remfz, vt_str_remove_first(ms(n), NULL)) N(n_st_remlz, vt_str_remove_last(ms(n), NULL)) N(n_st_remaz, vt_str_remove_all(ms(n), NULL)) N(n_st_remcz, vt_str_remove_c(ms(n), NULL))
N(n_st_rep, vt_str_replace(NULL, "x", "y")) N(n_st_repz, vt_str_replace(ms(n), NULL, "y")) N(n_st_repy, vt_str_replace(ms(n), "x", NULL)) N(n_st_repf, vt_str_replace_first(NULL, "x", "y")) N(n_st_repl, vt_str_replace_last(NULL, "x", "y")) N(n_st_repc, vt_str_replace_c(NULL, "x", "y"))
N(n_st_strip, vt_str_strip(NULL)) N(n_st_stripp, vt_str_strip_punct(NULL)) N(n_st_stripc, vt_str_strip_c(NULL, "x")) N(n_st_stripcz, vt_str_strip_c(ms(n), NULL)) N(n_st_find, vt_str_find(NULL, "x")) N(n_st_findz, vt_str_find(ms(n), NULL)) N(n_st_cf, sink = vt_str_can_find(NULL, "x")) N(n_st_split, vt_str_split(NULL, NULL, ","))
N(n_st_splitz, vt_str_split(NULL, ms(n), NULL)) N(n_st_btw, vt_str_split_between(NULL, NULL, "a", "b")) N(n_st_btwl, vt_str_split_between(NULL, "a", NULL, "b")) N(n_st_btwr, vt_str_split_between(NULL, "a", "b", NULL)) N(n_st_join, vt_str_join(NULL, ",", NULL)) N(n_st_popf, vt_str_pop_get_first(NULL, NULL, ",")) N(n_st_popl, vt_str_pop_get_last(NULL, NULL, ","))
N(n_st_eqz, vt_str_equals_z(NULL, "x")) N(n_st_eqz2, vt_str_equals_z("x", NULL)) N(n_st_eq, vt_str_equals(NULL, ms(n))) N(n_st_sw, vt_str_starts_with(NULL, "x")) N(n_st_ew, vt_str_ends_with(NULL, "x")) N(n_st_apply, vt_str_apply(NULL, fnc)) N(n_st_num, vt_str_is_numeric(NULL)) N(n_st_up, vt_str_to_uppercase(NULL)) N(n_st_lo, vt_str_to_lowercase(NULL))
N(n_st_io, vt_str_index_of(NULL, 'x')) N(n_st_if, vt_str_index_find(NULL, "x")) N(n_st_sf, vt_str_slide_front(NULL)) N(n_st_sb, vt_str_slide_back(NULL))
N(n_sp, vt_span_from(NULL, 3, 4)) N(n_sp2, vt_span_from_to(NULL, 1, 3, 4)) N(n_sp3, vt_span_set(vt_span_from(arr, 4, 4), NULL, 0))
N(n_ma_d, vt_mallocator_destroy(NULL)) N(n_ma_a, vt_mallocator_alloc(NULL, 3, "f", "g", 1)) N(n_ma_a0, vt_mallocator_alloc(vt_mallocator_create(), 0, "f", "g", 1)) N(n_ma_r, vt_mallocator_realloc(vt_mallocator_create(), NULL, 3, "f", "g", 1)) N(n_ma_f, vt_mallocator_free(vt_mallocator_create(), NULL, "f", "g", 1))
N(n_cv1, vt_conv_str_to_i64(NULL)) N(n_cv2, vt_conv_str_to_d(NULL)) N(n_fr, vt_file_read(NULL, NULL)) N(n_frb, vt_file_readb(NULL, NULL)) N(n_pe, vt_path_exists(NULL)) N(n_pm, vt_path_mkdir(NULL)) N(n_prm, vt_path_remove(NULL))
/* the typed accessors: every one of the eleven types */
#define CT(X) X(int8_t, i8) X(uint8_t, u8) X(int16_t, i16) X(uint16_t, u16) X(int32_t, i32) X(uint32_t, u32) X(int64_t, i64) X(uint64_t, u64) X(float, f) X(double, d) X(real, r)
#define MV(TT) ({ vt_vec_t *v_ = vt_vec_create(n + 1, sizeof(TT), NULL); for (size_t i_ = 0; i_ < n; i_++) { TT x_ = (TT)i_; vt_vec_push_back(v_, &x_); } v_; })
static real sp_arr[64];
#define TB(TT, t) \
    B(t_vec_get_##t, 0, sink = (uintptr_t)(int64_t)vt_vec_get##t(MV(TT), n + e)) \
    B(t_vec_set_##t, 0, vt_vec_set##t(MV(TT), (TT)1, n + e)) \
    B(t_vec_insert_##t, 0, vt_vec_insert##t(MV(TT), (TT)1, n + e)) \
    B(t_vec_getn_##t, 0, sink = (uintptr_t)(int64_t)vt_vec_get##t(NULL, 0)) \
    B(t_vec_setn_##t, 0, vt_vec_set##t(NULL, (TT)1, 0)) \
    B(t_vec_insertn_##t, 0, vt_vec_insert##t(NULL, (TT)1, 0)) \
    B(t_vec_pbn_##t, 0, vt_vec_push_back##t(NULL, (TT)1)) \
    B(t_vec_pfn_##t, 0, vt_vec_push_front##t(NULL, (TT)1)) \
    B(t_vec_popn_##t, 0, sink = (uintptr_t)(int64_t)vt_vec_pop_get##t(NULL)) \
    B(t_vec_findn_##t, 0, sink = (uintptr_t)vt_vec_can_find##t(NULL, (TT)1)) \
    B(t_span_get_##t, 0, sink = (uintptr_t)(int64_t)vt_span_get##t(vt_span_from(sp_arr, n + 1, sizeof(TT)), n + 1 + e)) \
    B(t_span_set_##t, 0, vt_span_set##t(vt_span_from(sp_arr, n + 1, sizeof(TT)), (TT)1, n + 1 + e)) \
    B(t_span_sub_##t, 0, vt_span_set##t(vt_span_from_to(sp_arr, 1, 2 + n, sizeof(TT)), (TT)1, n + 1 + e)) \
    B(t_conv_from_##t, 0, sink = (uintptr_t)(int64_t)vt_conv_str_to_##t(NULL)) \
    B(t_conv_to_##t, 0, vt_conv_##t##_to_str(NULL, 100, (TT)1)) \
    B(t_conv_small_##t, 1, char b_[64]; vt_conv_##t##_to_str(b_, 3, (TT)100))
CT(TB)
/* files, paths, dates, options, log levels, addresses, generic array calls */
static char dtb[64]; static struct VitaDateTime dt0 = { .year = 2020, .month = 2 };
static const char *bf(void) { static char z[700]; snprintf(z, sizeof z, "%s/contract-out", scratch()); return z; }
N(m_fbuf1, vt_file_read_to_buffer(NULL, dtb, 10)) N(m_fbuf2, vt_file_read_to_buffer(bf(), NULL, 10)) N(m_fbuf3, vt_file_read_to_buffer(bf(), dtb, 0))
N(m_fw, vt_file_write(bf(), NULL)) N(m_fwl, vt_file_writeln(bf(), NULL)) N(m_fwb, vt_file_writeb(bf(), NULL)) N(m_fwbl, vt_file_writebln(bf(), NULL)) N(m_fa, vt_file_append(bf(), NULL)) N(m_fal, vt_file_appendln(bf(), NULL)) N(m_fab, vt_file_appendb(bf(), NULL)) N(m_fabl, vt_file_appendbln(bf(), NULL))
N(m_fwn, vt_file_write(NULL, "x")) N(m_fwln, vt_file_writeln(NULL, "x")) N(m_fwbn, vt_file_writeb(NULL, "x")) N(m_fwbln, vt_file_writebln(NULL, "x")) N(m_fan, vt_file_append(NULL, "x")) N(m_faln, vt_file_appendln(NULL, "x")) N(m_fabn, vt_file_appendb(NULL, "x")) N(m_fabln, vt_file_appendbln(NULL, "x"))
N(m_fwf, vt_file_writef(NULL, "x")) N(m_fwfl, vt_file_writefln(NULL, "x")) N(m_fwfc, vt_file_writefc(NULL, e & 1, n & 1, n & 2, "x"))
static const char *volatile nofmt = NULL;
N(m_fwf2, vt_file_writef(bf(), nofmt)) N(m_fwfl2, vt_file_writefln(bf(), nofmt)) N(m_fwfc2, vt_file_writefc(bf(), e & 1, n & 1, n & 2, nofmt))
N(m_pd, sink = vt_path_is_dir(NULL)) N(m_pf, sink = vt_path_is_file(NULL)) N(m_ps, sink = (uintptr_t)vt_path_get_file_size(NULL)) N(m_pl, vt_path_dir_list(NULL, NULL, e & 1)) N(m_plr, vt_path_dir_list_recurse(NULL, NULL, e & 1)) N(m_pdf, vt_path_dir_free(NULL))
N(m_pb, vt_path_basename(NULL, NULL)) N(m_pmp, vt_path_mkdir_parents(NULL)) N(m_prd, vt_path_rmdir(NULL)) N(m_prr, vt_path_rmdir_recurse(NULL)) N(m_pr1, vt_path_rename(NULL, bf())) N(m_pr2, vt_path_rename(bf(), NULL)) N(m_pt, vt_path_expand_tilda(NULL, NULL)) N(m_pp, vt_path_pop(NULL)) N(m_pv, vt_path_validate(NULL))
N(m_d1, vt_datetime_get_now_as_text(NULL, 64)) N(m_d2, vt_datetime_get_now_as_text(dtb, e % VT_DATETIME_BUFFER_SIZE)) N(m_d3, vt_datetime_get_now_as_text_pretty(NULL, 64)) N(m_d4, vt_datetime_get_now_as_text_pretty(dtb, e % VT_DATETIME_BUFFER_SIZE))
N(m_d5, vt_datetime_to_text(dt0, NULL, 64)) N(m_d6, vt_datetime_to_text(dt0, dtb, e % VT_DATETIME_BUFFER_SIZE)) N(m_d7, vt_datetime_to_text_iso(dt0, NULL, 64)) N(m_d8, vt_datetime_to_text_iso(dt0, dtb, e % VT_DATETIME_BUFFER_SIZE))
N(m_d9, vt_datetime_to_text_iso_ext(dt0, NULL, 64)) N(m_d10, vt_datetime_to_text_iso_ext(dt0, dtb, e % VT_DATETIME_BUFFER_SIZE)) N(m_d11, vt_datetime_to_text_pretty(dt0, NULL, 64)) N(m_d12, vt_datetime_to_text_pretty(dt0, dtb, e % VT_DATETIME_BUFFER_SIZE))
N(m_d13, vt_datetime_from_text(NULL)) N(m_d14, vt_datetime_from_text_iso(NULL)) N(m_d15, vt_datetime_from_text_iso_ext(NULL)) N(m_d16, sink = vt_datetime_is_valid_text(NULL)) N(m_d17, sink = vt_datetime_is_valid_text_iso(NULL)) N(m_d18, sink = vt_datetime_is_valid_text_iso_ext(NULL))
static const char *badtext[] = { "", "2020", "2020/01/01 00:00:00", "2020-01-01T00:00", "20200101T0000", "x020-01-01 00:00:00", "2020-01-01 00:00:00 ", "2020-01-01 00:00:0x", "not a date at all, and rather long in addition to that" };
B(e_d1, 1, vt_datetime_from_text(badtext[e % 9])) B(e_d2, 1, vt_datetime_from_text_iso(badtext[e % 9])) B(e_d3, 1, vt_datetime_from_text_iso_ext(badtext[e % 9]))
static vt_argopt_t ao[1]; static const char *av[] = { "prog", "--x", NULL };
B(e_a1, 1, vt_argopt_parse(2, av, 1, NULL, NULL)) B(e_a2, 1, vt_argopt_parse(2, av, 0, ao, NULL)) B(e_a3, 1, vt_argopt_parse(2, NULL, 1, ao, NULL)) B(e_a4, 1, vt_argopt_parse(0, av, 1, ao, NULL)) B(e_a5, 1, vt_argopt_print_help("h", "f", 1, NULL)) B(e_a6, 1, vt_argopt_print_help("h", "f", 0, ao))
N(m_l1, vt_log_redirect_level_output((enum VitaLogLevel)(vt_log_count + (int)(e % 100)), "x")) N(m_l2, sink = (uintptr_t)vt_log_get_level_str((enum VitaLogLevel)(vt_log_count + (int)(e % 100)))) N(m_l3, vt_log(NULL, (enum VitaLogLevel)(vt_log_count + (int)(e % 100)), false, NULL, "f", 1, "x"))
N(m_s1, vt_socket_make_address(5, NULL))
N(m_c1, sink = (uintptr_t)vt_array_head(NULL)) N(m_c2, sink = vt_array_len(NULL)) N(m_c3, sink = vt_array_capacity(NULL)) N(m_c4, sink = vt_array_has_space(NULL)) N(m_c5, sink = vt_array_elsize(NULL)) N(m_c6, sink = vt_array_has_alloctr(NULL)) N(m_c7, sink = (uintptr_t)vt_array_get(NULL, 0)) N(m_c8, vt_array_set(NULL, &cell, 0)) N(m_c9, vt_array_set(mv(n + 1), NULL, 0))
N(m_c10, vt_array_slide_front(NULL)) N(m_c11, vt_array_slide_back(NULL)) N(m_c12, vt_array_slide_reset(NULL)) N(m_c13, vt_array_free(NULL))
N(m_p1, sink = vt_plist_len(NULL)) N(m_p2, sink = vt_plist_capacity(NULL)) N(m_p3, sink = vt_plist_has_space(NULL)) N(m_p4, sink = vt_plist_is_empty(NULL))
N(m_z1, sink = vt_str_capacity(NULL)) N(m_z2, sink = vt_str_has_space(NULL)) N(m_z3, sink = vt_str_is_empty(NULL)) N(m_z4, vt_str_set_n(ms(n + 1), NULL, 1)) N(m_z5, vt_str_append_n(ms(n), NULL, 1)) N(m_z6, vt_str_insert_n(ms(n), NULL, 0, 1)) N(m_z7, vt_str_set_at(ms(n + 1), NULL, 0)) N(m_z8, vt_str_appendf(ms(n), nofmt)) N(m_z9, vt_str_insertf(ms(n), 0, nofmt))
N(m_z10, vt_str_insert_before(ms(n), NULL, "y")) N(m_z11, vt_str_insert_before(ms(n + 1), "a", NULL)) N(m_z12, vt_str_insert_after(ms(n), NULL, "y")) N(m_z13, vt_str_insert_after(ms(n + 1), "a", NULL)) N(m_z14, vt_str_replace_first(ms(n), NULL, "y")) N(m_z15, vt_str_replace_first(ms(n + 1), "a", NULL)) N(m_z16, vt_str_replace_last(ms(n), NULL, "y")) N(m_z17, vt_str_replace_last(ms(n + 1), "a", NULL))
N(m_z18, vt_str_replace_c(ms(n), NULL, "y")) N(m_z19, vt_str_replace_c(ms(n), "y", NULL)) N(m_z20, sink = vt_str_can_find(ms(n), NULL)) N(m_z21, vt_str_pop_get_first(NULL, ms(n), NULL)) N(m_z22, vt_str_pop_get_last(NULL, ms(n), NULL)) N(m_z23, vt_str_equals(ms(n), NULL)) N(m_z24, vt_str_equals_n(NULL, "x", 1)) N(m_z25, vt_str_equals_n("x", NULL, 1))
N(m_z26, vt_str_starts_with(ms(n), NULL)) N(m_z27, vt_str_ends_with(ms(n), NULL)) N(m_z28, vt_str_apply(ms(n), NULL)) N(m_z29, sink = vt_str_is_numeric_z(NULL, 3)) N(m_z30, sink = vt_str_is_numeric_z("123", 0)) N(m_z31, sink = (uintptr_t)vt_str_index_find(ms(n), NULL)) N(m_z32, vt_str_slide_reset(NULL)) N(m_z33, vt_str_join(NULL, NULL, mp(1))) N(m_z35, vt_str_insert_n(ms(n), "x", 0, 0))
/* objects that were never created (all zero) */
static vt_vec_t z_vec;
N(z_vec_destroy, vt_vec_destroy(&z_vec)) N(z_vec_dup, vt_vec_dup(&z_vec, NULL)) N(z_vec_len, sink = vt_vec_len(&z_vec)) N(z_vec_cap, sink = vt_vec_capacity(&z_vec))
N(z_vec_space, sink = vt_vec_has_space(&z_vec)) N(z_vec_empty, sink = vt_vec_is_empty(&z_vec)) N(z_vec_shrink, vt_vec_shrink(&z_vec)) N(z_vec_clear, vt_vec_clear(&z_vec))
N(z_vec_reserve, vt_vec_reserve(&z_vec, 3)) N(z_vec_resize, vt_vec_resize(&z_vec, 3)) N(z_vec_pb, vt_vec_push_back(&z_vec, &cell)) N(z_vec_pf, vt_vec_push_front(&z_vec, &cell))
N(z_vec_pop, vt_vec_pop(&z_vec)) N(z_vec_popg, vt_vec_pop_get(&z_vec)) N(z_vec_set, vt_vec_set(&z_vec, &cell, 0)) N(z_vec_get, vt_vec_get(&z_vec, 0))
N(z_vec_ins, vt_vec_insert(&z_vec, &cell, 0)) N(z_vec_rem, vt_vec_remove(&z_vec, 0, VT_REMOVE_STRATEGY_FAST)) N(z_vec_find, vt_vec_can_find(&z_vec, &cell)) N(z_vec_sf, vt_vec_slide_front(&z_vec))
N(z_vec_sb, vt_vec_slide_back(&z_vec)) N(z_vec_sr, vt_vec_slide_reset(&z_vec)) N(z_vec_app, vt_vec_apply(&z_vec, fn2)) N(z_pl_destroy, vt_plist_destroy(&z_vec))
N(z_pl_dup, vt_plist_dup(&z_vec, NULL)) N(z_pl_reserve, vt_plist_reserve(&z_vec, 2)) N(z_pl_shrink, vt_plist_shrink(&z_vec)) N(z_pl_resize, vt_plist_resize(&z_vec, 2))
N(z_pl_clear, vt_plist_clear(&z_vec)) N(z_pl_set, vt_plist_set(&z_vec, &cell, 0)) N(z_pl_get, vt_plist_get(&z_vec, 0)) N(z_pl_pf, vt_plist_push_front(&z_vec, &cell))
N(z_pl_pb, vt_plist_push_back(&z_vec, &cell)) N(z_pl_pop, vt_plist_pop(&z_vec)) N(z_pl_popg, vt_plist_pop_get(&z_vec)) N(z_pl_ins, vt_plist_insert(&z_vec, &cell, 0))
N(z_pl_rem, vt_plist_remove(&z_vec, 0, VT_REMOVE_STRATEGY_STABLE)) N(z_pl_reme, vt_plist_remove_element(&z_vec, &cell, VT_REMOVE_STRATEGY_STABLE)) N(z_pl_find, vt_plist_can_find(&z_vec, &cell)) N(z_pl_sf, vt_plist_slide_front(&z_vec))
N(z_pl_sb, vt_plist_slide_back(&z_vec)) N(z_pl_sr, vt_plist_slide_reset(&z_vec)) N(z_pl_app, vt_plist_apply(&z_vec, fn2)) N(z_st_destroy, vt_str_destroy(&z_vec))
N(z_st_dup, vt_str_dup(&z_vec)) N(z_st_z, vt_str_z(&z_vec)) N(z_st_len, sink = vt_str_len(&z_vec)) N(z_st_val, vt_str_validate_len(&z_vec))
N(z_st_shrink, vt_str_shrink(&z_vec)) N(z_st_clear, vt_str_clear(&z_vec)) N(z_st_reserve, vt_str_reserve(&z_vec, 3)) N(z_st_resize, vt_str_resize(&z_vec, 3))
N(z_st_set, vt_str_set(&z_vec, "x")) N(z_st_seta, vt_str_set_at(&z_vec, "x", 0)) N(z_st_setc, vt_str_set_c(&z_vec, 'x', 0)) N(z_st_setn, vt_str_set_n(&z_vec, "x", 1))
N(z_st_app, vt_str_append(&z_vec, "x")) N(z_st_appf, vt_str_appendf(&z_vec, "x")) N(z_st_appn, vt_str_append_n(&z_vec, "x", 1)) N(z_st_ins, vt_str_insert(&z_vec, "x", 0))
N(z_st_insf, vt_str_insertf(&z_vec, 0, "x")) N(z_st_insn, vt_str_insert_n(&z_vec, "x", 0, 1)) N(z_st_insb, vt_str_insert_before(&z_vec, "x", "y")) N(z_st_insa, vt_str_insert_after(&z_vec, "x", "y"))
N(z_st_rem, vt_str_remove(&z_vec, 0, 1)) N(z_st_remf, vt_str_remove_first(&z_vec, "x")) N(z_st_reml, vt_str_remove_last(&z_vec, "x")) N(z_st_rema, vt_str_remove_all(&z_vec, "x"))
N(z_st_remc, vt_str_remove_c(&z_vec, "x")) N(z_st_rep, vt_str_replace(&z_vec, "x", "y")) N(z_st_repf, vt_str_replace_first(&z_vec, "x", "y")) N(z_st_repl, vt_str_replace_last(&z_vec, "x", "y"))
N(z_st_repc, vt_str_replace_c(&z_vec, "x", "y")) N(z_st_strip, vt_str_strip(&z_vec)) N(z_st_stripp, vt_str_strip_punct(&z_vec)) N(z_st_stripc, vt_str_strip_c(&z_vec, "x"))
N(z_st_find, vt_str_find(&z_vec, "x")) N(z_st_cf, sink = vt_str_can_find(&z_vec, "x")) N(z_st_eq, vt_str_equals(&z_vec, ms(n))) N(z_st_sw, vt_str_starts_with(&z_vec, "x"))
N(z_st_ew, vt_str_ends_with(&z_vec, "x")) N(z_st_apply, vt_str_apply(&z_vec, fnc)) N(z_st_num, vt_str_is_numeric(&z_vec)) N(z_st_up, vt_str_to_uppercase(&z_vec))
N(z_st_lo, vt_str_to_lowercase(&z_vec)) N(z_st_io, vt_str_index_of(&z_vec, 'x')) N(z_st_if, vt_str_index_find(&z_vec, "x")) N(z_st_sf, vt_str_slide_front(&z_vec))
N(z_st_sb, vt_str_slide_back(&z_vec)) N(zz_c1, sink = (uintptr_t)vt_array_head(&z_vec)) N(zz_c2, sink = vt_array_len(&z_vec)) N(zz_c3, sink = vt_array_capacity(&z_vec))
N(zz_c4, sink = vt_array_has_space(&z_vec)) N(zz_c5, sink = vt_array_elsize(&z_vec)) N(zz_c6, sink = vt_array_has_alloctr(&z_vec)) N(zz_c7, sink = (uintptr_t)vt_array_get(&z_vec, 0))
N(zz_c8, vt_array_set(&z_vec, &cell, 0)) N(zz_c10, vt_array_slide_front(&z_vec)) N(zz_c11, vt_array_slide_back(&z_vec)) N(zz_c12, vt_array_slide_reset(&z_vec))
N(zz_p1, sink = vt_plist_len(&z_vec)) N(zz_p2, sink = vt_plist_capacity(&z_vec)) N(zz_p3, sink = vt_plist_has_space(&z_vec)) N(zz_p4, sink = vt_plist_is_empty(&z_vec))
N(zz_z1, sink = vt_str_capacity(&z_vec)) N(zz_z2, sink = vt_str_has_space(&z_vec)) N(zz_z3, sink = vt_str_is_empty(&z_vec)) N(zz_z32, vt_str_slide_reset(&z_vec))
N(z_split, vt_str_split(NULL, &z_vec, ",")) N(z_popf, vt_str_pop_get_first(NULL, &z_vec, ",")) N(z_popl, vt_str_pop_get_last(NULL, &z_vec, ",")) N(z_eq2, sink = vt_str_equals(ms(n), &z_vec))
N(c_sp_es0, vt_span_from(arr, 4, 0)) N(c_sp_rev, vt_span_from_to(arr, 3 + n, 2 + n - (e < n ? e : n), 4)) N(c_sp_to0, vt_span_from_to(arr, 0, 0, 4)) N(c_sp_es02, vt_span_from_to(arr, 1, 3, 0))
N(c_pl_setn, vt_plist_set(mp(n + 1), NULL, 0)) N(c_pl_pfn, vt_plist_push_front(mp(n), NULL)) N(c_pl_pbn, vt_plist_push_back(mp(n), NULL)) N(c_pl_insn, vt_plist_insert(mp(n), NULL, 0))
N(c_pl_remn, vt_plist_remove_element(mp(n), NULL, VT_REMOVE_STRATEGY_STABLE)) N(c_pl_findn, sink = vt_plist_can_find(mp(n), NULL)) N(c_i2, size_t x; vt_index_1d_to_2d(NULL, &x, 3, 2)) N(c_i2b, size_t x; vt_index_1d_to_2d(&x, NULL, 3, 2))
N(c_i3, size_t x; vt_index_1d_to_3d(NULL, &x, &x, 3, 2, 2)) N(c_i3b, size_t x; vt_index_1d_to_3d(&x, NULL, &x, 3, 2, 2)) N(c_i3c, size_t x; vt_index_1d_to_3d(&x, &x, NULL, 3, 2, 2))
N(c_pl_reme_rs, vt_plist_remove_element(mp(n), &cell, (enum VitaRemoveStrategy)(VT_REMOVE_STRATEGY_COUNT + (e & 3)))) N(c_pl_reme_rs2, vt_plist_remove_element(mp(n + 1), (void*)8, (enum VitaRemoveStrategy)(VT_REMOVE_STRATEGY_COUNT + (e & 3))))
static vt_mallocator_t z_al;
N(c_ma_rn, vt_mallocator_realloc(NULL, &cell, 3, "f", "g", 1)) N(c_ma_fn, vt_mallocator_free(NULL, &cell, "f", "g", 1)) N(c_ma_dz, vt_mallocator_destroy(&z_al)) N(c_ma_az, vt_mallocator_alloc(&z_al, 3, "f", "g", 1)) N(c_ma_rz, vt_mallocator_realloc(&z_al, &cell, 3, "f", "g", 1)) N(c_ma_fz, vt_mallocator_free(&z_al, &cell, "f", "g", 1))
N(c_ma_r0, vt_mallocator_t *a_ = vt_mallocator_create(); void *q_ = vt_mallocator_alloc(a_, 3 + n, "f", "g", 1); vt_mallocator_realloc(a_, q_, 0, "f", "g", 1)) N(c_rem0, vt_str_remove(ms(n + 1), e % (n + 1), 0)) N(c_joinn0, vt_str_join_n(NULL, ",", 0)) N(c_joinnz, vt_str_join_n(NULL, NULL, 1, ms(n))) N(c_eqn0, sink = vt_str_equals_n("ab", "ab", 0))
B(c_set_at_tail, 1, vt_str_set_at(ms(n + 1), lz(n + 1 - (e * 7) % (n + 1) + 1), (e * 7) % (n + 1)))
#define E(f) { #f, 0, f }
#define TE(TT, t) E(t_vec_get_##t), E(t_vec_set_##t), E(t_vec_insert_##t), E(t_vec_getn_##t), E(t_vec_setn_##t), E(t_vec_insertn_##t), E(t_vec_pbn_##t), E(t_vec_pfn_##t), E(t_vec_popn_##t), E(t_vec_findn_##t), E(t_span_get_##t), E(t_span_set_##t), E(t_span_sub_##t), E(t_conv_from_##t), E(t_conv_to_##t), EF(t_conv_small_##t),
#define EF(f) { #f, 1, f }
static const bad_t bad[] = {
    E(b_vec_get), E(b_vec_geti32), E(b_vec_set), E(b_vec_seti32), E(b_vec_insert), E(b_vec_inserti32), E(b_vec_remove), E(b_vec_remove_rs), E(b_plist_get), E(b_plist_set), E(b_plist_insert), E(b_plist_remove), E(b_plist_remove_rs),
    E(b_str_set_at), E(b_str_set_c), E(b_str_insert), E(b_str_insertf), E(b_str_insert_n), E(b_str_remove), E(b_array_get), E(b_array_set), E(b_span_get), E(b_span_set), E(b_span_geti32), E(b_span_sub),
    E(b_vec_create0), E(b_vec_create_es0), E(b_vec_reserve0), E(b_vec_resize0), E(b_plist_create0), E(b_plist_reserve0), E(b_plist_resize0), E(b_str_cap0), E(b_str_reserve0), E(b_str_resize0), E(b_span0),
    EF(b_str_set_long), EF(b_str_set_n_long), EF(b_str_set_at_long), EF(b_str_replace_c_long), EF(b_str_equals_n_long1), EF(b_str_equals_n_long2),
    EF(b_view_reserve), EF(b_view_resize), EF(b_view_shrink), EF(b_view_clear), EF(b_view_set), EF(b_view_set_c), EF(b_view_remove), EF(b_view_remove_c), EF(b_view_replace), EF(b_view_replace_c), EF(b_view_strip_c), EF(b_view_upper), EF(b_view_append), EF(b_view_append_n), EF(b_view_appendf), EF(b_view_insert), EF(b_view_insert_n), EF(b_view_insertf),
    E(n_vec_destroy), E(n_vec_dup), E(n_vec_len), E(n_vec_cap), E(n_vec_space), E(n_vec_empty), E(n_vec_shrink), E(n_vec_clear), E(n_vec_reserve), E(n_vec_resize), E(n_vec_pb), E(n_vec_pf), E(n_vec_pbv), E(n_vec_pfv), E(n_vec_pop), E(n_vec_popg),
    E(n_vec_set), E(n_vec_setv), E(n_vec_get), E(n_vec_ins), E(n_vec_insv), E(n_vec_rem), E(n_vec_find), E(n_vec_findv), E(n_vec_sf), E(n_vec_sb), E(n_vec_sr), E(n_vec_app), E(n_vec_appf),
    E(n_pl_destroy), E(n_pl_dup), E(n_pl_reserve), E(n_pl_shrink), E(n_pl_resize), E(n_pl_clear), E(n_pl_set), E(n_pl_get), E(n_pl_pf), E(n_pl_pb), E(n_pl_pop), E(n_pl_popg), E(n_pl_ins), E(n_pl_rem), E(n_pl_reme), E(n_pl_find), E(n_pl_sf), E(n_pl_sb), E(n_pl_sr), E(n_pl_app), E(n_pl_appf),
    E(n_st_static), E(n_st_create), E(n_st_destroy), E(n_st_dup), E(n_st_own), E(n_st_z), E(n_st_len), E(n_st_val), E(n_st_shrink), E(n_st_clear), E(n_st_reserve), E(n_st_resize), E(n_st_set), E(n_st_setz), E(n_st_seta), E(n_st_setc), E(n_st_setn), E(n_st_app), E(n_st_appz), E(n_st_appf), E(n_st_appn),
    E(n_st_ins), E(n_st_insz), E(n_st_insf), E(n_st_insn), E(n_st_insb), E(n_st_insa), E(n_st_rem), E(n_st_remf), E(n_st_reml), E(n_st_rema), E(n_st_remc), E(n_st_remfz), E(n_st_remlz), E(n_st_remaz), E(n_st_remcz), E(n_st_rep), E(n_st_repz), E(n_st_repy), E(n_st_repf), E(n_st_repl), E(n_st_repc),
    E(n_st_strip), E(n_st_stripp), E(n_st_stripc), E(n_st_stripcz), E(n_st_find), E(n_st_findz), E(n_st_cf), E(n_st_split), E(n_st_splitz), E(n_st_btw), E(n_st_btwl), E(n_st_btwr), E(n_st_join), E(n_st_popf), E(n_st_popl), E(n_st_eqz), E(n_st_eqz2), E(n_st_eq), E(n_st_sw), E(n_st_ew), E(n_st_apply), E(n_st_num),
    E(n_st_up), E(n_st_lo), E(n_st_io), E(n_st_if), E(n_st_sf), E(n_st_sb), E(n_sp), E(n_sp2), E(n_sp3), E(n_ma_d), E(n_ma_a), E(n_ma_a0), E(n_ma_r), E(n_ma_f), E(n_cv1), E(n_cv2), E(n_fr), E(n_frb), E(n_pe), E(n_pm), E(n_prm),
    CT(TE)
    E(m_fbuf1), E(m_fbuf2), E(m_fbuf3), E(m_fw), E(m_fwl), E(m_fwb), E(m_fwbl), E(m_fa), E(m_fal), E(m_fab), E(m_fabl), E(m_fwn), E(m_fwln), E(m_fwbn), E(m_fwbln), E(m_fan), E(m_faln), E(m_fabn), E(m_fabln), E(m_fwf), E(m_fwfl), E(m_fwfc), E(m_fwf2), E(m_fwfl2), E(m_fwfc2), E(m_pd), E(m_pf), E(m_ps), E(m_pl), E(m_plr), E(m_pdf), E(m_pb), E(m_pmp), E(m_prd), E(m_prr), E(m_pr1), E(m_pr2), E(m_pt), E(m_pp), E(m_pv), E(m_d1), E(m_d2), E(m_d3), E(m_d4), E(m_d5), E(m_d6), E(m_d7), E(m_d8), E(m_d9), E(m_d10), E(m_d11), E(m_d12), E(m_d13), E(m_d14), E(m_d15), E(m_d16), E(m_d17), E(m_d18), E(m_l1), E(m_l2), E(m_l3), E(m_s1), E(m_c1), E(m_c2), E(m_c3), E(m_c4), E(m_c5), E(m_c6), E(m_c7), E(m_c8), E(m_c9), E(m_c10), E(m_c11), E(m_c12), E(m_c13), E(m_p1), E(m_p2), E(m_p3), E(m_p4), E(m_z1), E(m_z2), E(m_z3), E(m_z4), E(m_z5), E(m_z6), E(m_z7), E(m_z8), E(m_z9), E(m_z10), E(m_z11), E(m_z12), E(m_z13), E(m_z14), E(m_z15), E(m_z16), E(m_z17), E(m_z18), E(m_z19), E(m_z20), E(m_z21), E(m_z22), E(m_z23), E(m_z24), E(m_z25), E(m_z26), E(m_z27), E(m_z28), E(m_z29), E(m_z30), E(m_z31), E(m_z32), E(m_z33), E(m_z35),
    E(z_vec_destroy), E(z_vec_dup), E(z_vec_len), E(z_vec_cap), E(z_vec_space), E(z_vec_empty), E(z_vec_shrink), E(z_vec_clear), E(z_vec_reserve), E(z_vec_resize), E(z_vec_pb), E(z_vec_pf), E(z_vec_pop), E(z_vec_popg), E(z_vec_set), E(z_vec_get), E(z_vec_ins), E(z_vec_rem), E(z_vec_find), E(z_vec_sf), E(z_vec_sb), E(z_vec_sr), E(z_vec_app), E(z_pl_destroy), E(z_pl_dup), E(z_pl_reserve), E(z_pl_shrink), E(z_pl_resize), E(z_pl_clear), E(z_pl_set), E(z_pl_get), E(z_pl_pf), E(z_pl_pb), E(z_pl_pop), E(z_pl_popg), E(z_pl_ins), E(z_pl_rem), E(z_pl_reme), E(z_pl_find), E(z_pl_sf), E(z_pl_sb), E(z_pl_sr), E(z_pl_app), E(z_st_destroy), E(z_st_dup), E(z_st_z), E(z_st_len), E(z_st_val), E(z_st_shrink), E(z_st_clear), E(z_st_reserve), E(z_st_resize), E(z_st_set), E(z_st_seta), E(z_st_setc), E(z_st_setn), E(z_st_app), E(z_st_appf), E(z_st_appn), E(z_st_ins), E(z_st_insf), E(z_st_insn), E(z_st_insb), E(z_st_insa), E(z_st_rem), E(z_st_remf), E(z_st_reml), E(z_st_rema), E(z_st_remc), E(z_st_rep), E(z_st_repf), E(z_st_repl), E(z_st_repc), E(z_st_strip), E(z_st_stripp), E(z_st_stripc), E(z_st_find), E(z_st_cf), E(z_st_eq), E(z_st_sw), E(z_st_ew), E(z_st_apply), E(z_st_num), E(z_st_up), E(z_st_lo), E(z_st_io), E(z_st_if), E(z_st_sf), E(z_st_sb), E(zz_c1), E(zz_c2), E(zz_c3), E(zz_c4), E(zz_c5), E(zz_c6), E(zz_c7), E(zz_c8), E(zz_c10), E(zz_c11), E(zz_c12), E(zz_p1), E(zz_p2), E(zz_p3), E(zz_p4), E(zz_z1), E(zz_z2), E(zz_z3), E(zz_z32), E(z_split), E(z_popf), E(z_popl), E(z_eq2), E(c_sp_es0), E(c_sp_rev), E(c_sp_to0), E(c_sp_es02), E(c_pl_setn), E(c_pl_pfn), E(c_pl_pbn), E(c_pl_insn), E(c_pl_remn), E(c_pl_findn), E(c_i2), E(c_i2b), E(c_i3), E(c_i3b), E(c_i3c), E(c_pl_reme_rs), E(c_pl_reme_rs2), E(c_ma_rn), E(c_ma_fn), E(c_ma_dz), E(c_ma_az), E(c_ma_rz), E(c_ma_fz), E(c_ma_r0), E(c_rem0), E(c_joinn0), E(c_joinnz), E(c_eqn0), EF(c_set_at_tail),
    EF(e_d1), EF(e_d2), EF(e_d3), EF(e_a1), EF(e_a2), EF(e_a3), EF(e_a4), EF(e_a5), EF(e_a6),
};
#define NBAD (sizeof bad / sizeof bad[0])
typedef struct { const bad_t *b; size_t e, n; bool redirect; char file[600]; } bc_t;
static void bad_body(void *arg) {
    bc_t *c = arg;
    vt_debug_disable_output(false);
    if (c->redirect) vt_debug_redirect_output(c->file);
    c->b->f(c->e, c->n);
}
static void run_contract(uint64_t idx) {
    bc_t c = { .b = &bad[idx % NBAD] };
#ifdef NDEBUG
    static const bad_t *enf[NBAD]; static size_t ne;
    if (!ne) for (size_t i = 0; i < NBAD; i++) if (bad[i].enforce) enf[ne++] = &bad[i];
    c.b = enf[idx % ne];
#endif
    static const size_t far[] = { 0, 1, 2, 7, 100, 100000, SIZE_MAX / 8, SIZE_MAX / 2, SIZE_MAX - 200 };
    size_t round = idx / NBAD;
    c.e = round < 2 ? round : chance(50) ? rn(120) : far[rn(sizeof far / sizeof far[0])];
    c.n = rsize(40);
    spare = round && chance(70) ? 1 + rn(150) : 0; /* set before the child is made */
    c.redirect = chance(10);
    snprintf(c.file, sizeof c.file, "%s/debug.log", scratch());
    unlink(c.file);
    T("%s(excess %zu, length %zu)", c.b->name, c.e, c.n);
    death_t d = in_child(bad_body, &c, 60);
    CHECK(!d.timeout, "%s: no answer to a call that breaks the argument rules", c.b->name);
    CHECK(!d.survived, "%s: a call that breaks the argument rules was carried out", c.b->name);
    CHECK(d.exited && d.code == EXIT_FAILURE, "%s: not an orderly stop (exit %d, signal %d): %.300s", c.b->name, d.exited ? d.code : -1, d.sig, d.err);
    char m[8192]; size_t ml = 0;
    if (c.redirect) { FILE *f = fopen(c.file, "r"); CHECK(f != NULL, "redirected diagnostics file is missing"); ml = fread(m, 1, sizeof m - 1, f); fclose(f); m[ml] = 0; unlink(c.file); }
    else memcpy(m, d.err, sizeof m);
    CHECK(strstr(m, c.b->enforce ? "FAILURE" : "ASSERTION FAILURE") != NULL, "%s: no diagnostic was printed: %.200s", c.b->name, m);
    CHECK(strstr(m, ".c:") != NULL, "%s: the diagnostic does not name the source location: %.200s", c.b->name, m);
    ev(c.b->enforce ? "refused in every build" : "refused in debug builds");
    uint64_t key[3] = { (uint64_t)(c.b - bad), c.e, c.n }; seen(hash_bytes(key, sizeof key, 13));
    sample("%s refused: %.120s", c.b->name, m);
}

/* ============================================================ views ========================================== */
static char *ro_text(const char *z, size_t *maplen) { /* text ending right before an unmapped page, all read-only */
    size_t n = strlen(z) + 1, pg = 4096, len = ((n + pg - 1) / pg + 1) * pg;
    char *m = mmap(NULL, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (m == MAP_FAILED) exit(3);
    char *t = m + len - pg - n;
    memcpy(t, z, n);
    mprotect(m, len - pg, PROT_READ); mprotect(m + len - pg, pg, PROT_NONE);
    *maplen = len;
    return t;
}
static void run_views(uint64_t idx) {
    (void)idx;
    char z[500], sub[16];
    static const char *als[] = { "ab", "abc ,", "0123456789.", " \t\nx.!", "Az\xc3\xa9" };
    rtext(z, rsize(chance(10) ? 450 : 60), als[rn(5)]);
    size_t n = strlen(z), ml;
    char *t = ro_text(z, &ml);
    int64_t b0 = live_blocks();
    vt_str_t v = vt_str_create_static(t);
    T("view of %s", show(z));
    CHECK(live_blocks() == b0, "creating a view allocated memory");
    CHECK(vt_str_z(&v) == t, "a view does not refer to the given text");
    CHECK(vt_str_len(&v) == n, "view of %zu characters reports %zu", n, vt_str_len(&v));
    CHECK(vt_str_is_empty(&v) == (n == 0), "emptiness of a view");
    CHECK(vt_str_has_space(&v) == 0, "a view of %zu characters claims spare space %zu", n, vt_str_has_space(&v));
    /* queries */
    size_t at = rn(n + 1), l = rn((n - at < 6 ? n - at : 6) + 1);
    memcpy(sub, z + at, l); sub[l] = 0;
    T("queries with %s", show(sub));
    CHECK(vt_str_starts_with(&v, sub) == !strncmp(z, sub, l), "starts_with on a view");
    CHECK(vt_str_ends_with(&v, sub) == !strcmp(z + n - l, sub), "ends_with on a view");
    CHECK(vt_str_find(&v, sub) == strstr(t, sub), "find on a view");
    if (l) { CHECK(vt_str_index_find(&v, sub) == strstr(t, sub) - t, "index_find on a view"); size_t c = 0; for (char *p = z; (p = strstr(p, sub)); p += l) c++; CHECK(vt_str_can_find(&v, sub) == c, "count on a view"); }
    if (n) { char c = z[rn(n)]; CHECK(vt_str_index_of(&v, c) == strchr(z, c) - z, "index_of on a view"); }
    bool num = true; for (size_t i = 0; i < n; i++) if (!strchr("0123456789.", z[i])) num = false;
    if (n) CHECK(vt_str_is_numeric(&v) == num, "numeric test on a view");
    size_t k = 0; char *p; while ((p = vt_str_slide_front(&v))) { CHECK(p == t + k, "sliding over a view"); k++; }
    CHECK(k == n, "sliding over a view visited %zu of %zu", k, n);
    if (l && chance(50)) {
        vt_plist_t *pl = vt_str_split(NULL, &v, sub);
        CHECK(pl != NULL, "split of a view"); vt_plist_apply(pl, free_str); vt_plist_destroy(pl); ev("view split");
    }
    if (chance(50)) {
        vt_str_t *d = vt_str_dup(&v);
        CHECK(!strcmp(vt_str_z(d), z) && vt_str_z(d) != t, "duplicate of a view");
        vt_str_append(d, "tail");
        CHECK(!strncmp(vt_str_z(d), z, n) && !strcmp(vt_str_z(d) + n, "tail"), "a duplicate of a view must be an ordinary string");
        CHECK(!strcmp(t, z), "changing the duplicate changed the viewed text");
        vt_str_destroy(d); ev("view duplicated and changed");
    }
    vt_str_t two = vt_str_create_static(t);
    CHECK(vt_str_equals(&v, &two), "two views of one text differ");
    T("destroy view");
    vt_str_destroy(&v);
    CHECK(!strcmp(t, z), "destroying a view changed the text");
    CHECK(live_blocks() == b0, "using a view leaked or freed heap blocks");
    ev("view life cycle"); seen(hash_bytes(z, n, l));
    sample("view of %s queried with %s", show(z), show(sub));
    munmap((void*)((uintptr_t)(t + n + 1) - (ml - 4096)), ml);
}
typedef struct { int op; char *t; size_t n; const char *add; vt_str_t v; } vg_t;
static void vg_body(void *arg) {
    vg_t *g = arg;
    vt_debug_disable_output(false);
    vt_str_t *v = &g->v;
    switch (g->op) {
        case 0: vt_str_append(v, g->add); break;
        case 1: vt_str_append_n(v, g->add, strlen(g->add)); break;
        case 2: vt_str_appendf(v, "%s", g->add); break;
        case 3: vt_str_insert(v, g->add, rn(g->n + 1)); break;
        case 4: vt_str_insert_n(v, g->add, rn(g->n + 1), strlen(g->add)); break;
        case 5: vt_str_insertf(v, rn(g->n + 1), "%s", g->add); break;
        case 6: vt_str_reserve(v, strlen(g->add)); break;
        case 7: vt_str_resize(v, strlen(g->add)); break;
        case 8: vt_str_shrink(v); break;
        case 9: vt_str_insert_before(v, g->n ? "a" : "", g->add); break;
        case 10: vt_str_insert_after(v, g->n ? "a" : "", g->add); break;
        /* the text of these is " !a..aQa..a! " */
        case 11: vt_str_clear(v); break;
        case 12: vt_str_set(v, "b"); break;
        case 13: vt_str_set_at(v, "b", rn(g->n)); break;
        case 14: vt_str_set_c(v, 'b', rn(g->n)); break;
        case 15: vt_str_set_n(v, "bbb", 1 + rn(3)); break;
        case 16: vt_str_remove(v, rn(g->n), 1 + rn(g->n + 3)); break;
        case 17: vt_str_remove_first(v, "a"); break;
        case 18: vt_str_remove_last(v, "a"); break;
        case 19: vt_str_remove_all(v, "a"); break;
        case 20: vt_str_remove_c(v, "Qa"); break;
        case 21: vt_str_replace(v, "a", "b"); break;
        case 22: vt_str_replace_first(v, "a", "b"); break;
        case 23: vt_str_replace_last(v, "a", "b"); break;
        case 24: vt_str_replace_c(v, "a", "b"); break;
        case 25: vt_str_replace(v, chance(50) ? "a" : "aQa", "bc"); break;
        case 26: vt_str_replace_first(v, chance(50) ? "a" : "aQa", "bc"); break;
        case 27: vt_str_replace_last(v, chance(50) ? "a" : "aQa", "bc"); break;
        case 28: vt_str_strip(v); break;
        case 29: vt_str_strip_punct(v); break;
        case 30: vt_str_strip_c(v, chance(50) ? " " : "! "); break;
        case 31: vt_str_to_uppercase(v); break;
        case 32: vt_str_to_lowercase(v); break;
        case 33: vt_str_pop_get_first(NULL, v, "Q"); break;
        case 34: vt_str_pop_get_last(NULL, v, "Q"); break;
        case 35: { vt_str_t *s = vt_str_create("one,two,three", NULL); vt_str_pop_get_first(v, s, ","); break; }
        case 36: { vt_str_t *s = vt_str_create("one,two,three", NULL); vt_str_pop_get_last(v, s, ","); break; }
        case 37: vt_str_split_between(v, "one(two)three", "(", ")"); break;
        case 38: vt_str_join_n(v, ",", 2, "one", "two"); break;
        case 39: { size_t r = vt_str_validate_len(v); if (r == g->n && vt_str_len(v) == r) { fprintf(stderr, "FAILURE tolerated\n"); exit(EXIT_FAILURE); } break; }
    }
}
static void run_view_grow(uint64_t idx) {
    char z[200], add[1200];
    rtext(z, 1 + rsize(100), "a"); rtext(add, 1 + rsize(chance(10) ? 1100 : 90), "xyz");
    size_t ml; vg_t g = { .op = (int)(idx % 40), .add = add };
    if (g.op > 10) { size_t a = 1 + rsize(60), b = 1 + rsize(60); memset(z, 'a', 150); memcpy(z, " !", 2); z[2 + a] = 'Q'; strcpy(z + 3 + a + b, "! "); }
    g.n = strlen(z);
    g.t = ro_text(z, &ml);
    g.v = vt_str_create_static(g.t);
    T("changing operation %d with %zu characters on a view of %zu", g.op, strlen(add), g.n);
    death_t d = in_child(vg_body, &g, 60);
    CHECK(!d.survived && !d.timeout, "changing operation %d was carried out on a view", g.op);
    CHECK(d.exited && d.code == EXIT_FAILURE, "changing operation %d on a view was not refused in an orderly way (exit %d, signal %d): %.200s", g.op, d.exited ? d.code : -1, d.sig, d.err);
    CHECK(strstr(d.err, "FAILURE") != NULL, "no diagnostic for a refused operation on a view");
    ev(g.op > 10 ? "edit of a view refused" : "size change on a view refused");
    uint64_t key[3] = { (uint64_t)g.op, g.n, strlen(add) }; seen(hash_bytes(key, sizeof key, 7));
    munmap((void*)((uintptr_t)(g.t + g.n + 1) - (ml - 4096)), ml);
}

/* ============================================================ object lifetimes =============================== */
/* many objects of all kinds alive at once, created from each other, destroyed in any order, some left to the allocator */
#define NO 48
typedef struct { int kind; void *o; al_t *al; } obj_t; /* 1 str 2 vec 3 list of strings 4 view */
static void run_lifetimes(uint64_t idx) {
    (void)idx;
    obj_t o[NO]; size_t no = 0;
    al_t als[3] = { al_make(0), al_make(1), al_make(2) };
    static char z[2000];
    size_t steps = 20 + rn(g_thorough ? 500 : 150);
    uint64_t h = 1;
    for (size_t k = 0; k < steps; k++) {
        size_t w = rn(20);
        if (no < NO && (w < 6 || !no)) {
            al_t *al = &als[rn(3)];
            obj_t n = { 0, NULL, al };
            switch (rn(5)) {
                case 0: case 1: rtext(z, rsize(200), "ab,c/ .x"); n.kind = 1; n.o = vt_str_create(z, al->a); break;
                case 2: n.kind = 2; n.o = vt_vec_create(1 + rn(20), 8, al->a); break;
                case 3: n.kind = 3; n.o = vt_plist_create(1 + rn(10), al->a); break;
                case 4: n.kind = 1; n.o = vt_str_create_capacity(1 + rn(100), al->a); break;
            }
            o[no++] = n; h = h * 31 + (uint64_t)n.kind; ev("object created");
            continue;
        }
        size_t i = rn(no); obj_t *x = &o[i];
        if (w < 9) { /* destroy */
            T("destroy kind %d", x->kind);
            if (x->kind == 1) vt_str_destroy(x->o);
            if (x->kind == 2) vt_vec_destroy(x->o);
            if (x->kind == 3) { vt_plist_apply(x->o, free_str); vt_plist_destroy(x->o); }
            o[i] = o[--no]; h = h * 31 + 7; ev("object destroyed"); continue;
        }
        T("use kind %d (w %zu)", x->kind, w);
        if (x->kind == 1) {
            vt_str_t *s = x->o;
            rtext(z, rsize(60), "ab,c/ .x");
            switch (rn(12)) {
                case 0: vt_str_append(s, z); break;
                case 1: vt_str_insert(s, z, rn(vt_str_len(s) + 1)); break;
                case 2: vt_str_clear(s); break;
                case 3: vt_str_shrink(s); break;
                case 4: vt_str_replace(s, "a", z); break;
                case 5: vt_str_strip(s); vt_str_strip_punct(s); vt_str_strip_c(s, "ab"); break;
                case 6: vt_str_appendf(s, "%s%d", z, 5); break;
                case 7: if (vt_str_len(s) > 400) vt_str_resize(s, 1 + rn(50)); else vt_str_reserve(s, 1 + rn(50)); break;
                case 8: if (no < NO) { obj_t n = { 1, vt_str_dup(s), x->al }; o[no++] = n; ev("duplicate"); } break;
                case 9: if (no < NO && vt_str_len(s)) { vt_plist_t *p = vt_plist_create(2, x->al->a); if (vt_str_split(p, s, rn(2) ? "," : "a")) { obj_t n = { 3, p, x->al }; o[no++] = n; ev("split into live list"); } else vt_plist_destroy(p); } break;
                case 10: { size_t j = rn(no); if (o[j].kind == 1 && j != i) { vt_str_t *r = vt_str_pop_get_first(o[j].o, s, ","); CHECK(r == o[j].o, "supplied destination not returned"); } break; }
                case 11: vt_str_remove_all(s, "b"); vt_str_to_uppercase(s); vt_str_to_lowercase(s); break;
            }
            if (vt_str_len(s) > 3000) vt_str_clear(s);
            CHECK(strlen(vt_str_z(s)) == vt_str_len(s), "string of reported length %zu holds %zu characters", vt_str_len(s), strlen(vt_str_z(s)));
            h = h * 31 + vt_str_len(s);
        } else if (x->kind == 2) {
            vt_vec_t *v = x->o; int64_t val = (int64_t)rnd();
            switch (rn(6)) {
                case 0: vt_vec_push_back(v, &val); break;
                case 1: vt_vec_push_front(v, &val); break;
                case 2: if (vt_vec_len(v)) vt_vec_remove(v, rn(vt_vec_len(v)), (enum VitaRemoveStrategy)rn(2)); break;
                case 3: vt_vec_reserve(v, 1 + rn(10)); break;
                case 4: vt_vec_shrink(v); break;
                case 5: if (no < NO) { al_t *al = &als[rn(3)]; obj_t n = { 2, vt_vec_dup(v, al->a), al }; o[no++] = n; ev("duplicate"); } break;
            }
            h = h * 31 + vt_vec_len(v);
        } else {
            vt_plist_t *p = x->o;
            if (rn(3)) { rtext(z, rsize(30), "abc"); vt_plist_push_back(p, vt_str_create(z, x->al->a)); }
            else if (vt_plist_len(p)) vt_str_destroy(vt_plist_pop_get(p));
            if (chance(30)) {
                vt_plist_t *zs = vt_plist_create(1 + vt_plist_len(p), NULL);
                for (size_t j = 0; j < vt_plist_len(p); j++) vt_plist_push_back(zs, vt_str_z(vt_plist_get(p, j)));
                vt_str_t *s = vt_str_join(NULL, ", ", zs); vt_str_destroy(s); vt_plist_destroy(zs); ev("join");
            }
            h = h * 31 + vt_plist_len(p);
        }
        seen(h);
    }
    bool leave = chance(30);
    for (size_t i = 0; i < no; i++) {
        if (leave && o[i].al->kind == 1) continue; /* the allocator frees these */
        if (o[i].kind == 1) vt_str_destroy(o[i].o);
        if (o[i].kind == 2) vt_vec_destroy(o[i].o);
        if (o[i].kind == 3) { vt_plist_apply(o[i].o, free_str); vt_plist_destroy(o[i].o); }
    }
    if (leave) { T("allocator destroyed with live objects"); vt_mallocator_destroy(als[1].a); ev("objects freed by their allocator"); } else al_end(als[1]);
    al_end(als[2]);
    sample("%zu steps, %zu objects alive at the end", steps, no);
}

/* ============================================================ everything that is not a container ============= */
/* files, directories, paths, options, log, dates, numbers, sockets: results are not judged here, only memory and descriptors */
static void run_sysuse(uint64_t idx) {
    char root[600], z[900], y[900]; static char text[5000];
    snprintf(root, sizeof root, "%s/u%llu", scratch(), (unsigned long long)idx);
    wipe(root); if (mkdir(root, 0777) || chdir(root)) exit(3);
    if (chance(70)) { mkdir("a", 0777); mkdir("a/b", 0777); mkdir("b", 0777); int fd = open("a/b/c", O_CREAT | O_WRONLY, 0600); if (fd >= 0) close(fd); fd = open("a/.hid", O_CREAT | O_WRONLY, 0600); if (fd >= 0) close(fd); }
    al_t als[3] = { al_make(0), al_make(1), al_make(2) };
    size_t steps = 6 + rn(g_thorough ? 80 : 30); uint64_t h = 3;
    static const char *names[] = { "a", "b", "f", "f/x", "a/b", "a/b/c", "a/.hid", "d/e/f/g", "", "none/x/y", "a/lnk", "./a//b", "b/a rather long name with blanks, so that small buffers do not suffice" };
    for (size_t k = 0; k < steps; k++) {
        al_t *al = &als[rn(3)]; int f0 = open_fds(); size_t op = rn(30);
        strcpy(z, names[rn(13)]); strcpy(y, names[rn(13)]); rtext(text, chance(90) ? rsize(300) : rn(4999), "ab %\n\xc3=/");
        T("%zu on <%s>", op, z);
        switch (op) {
            case 0: case 1: vt_path_mkdir_parents(z); break;
            case 2: vt_path_mkdir(z); break;
            case 3: case 4: case 5: { vt_plist_t *l = chance(50) ? NULL : vt_plist_create(1 + rn(4), al->a), *r = op == 3 ? vt_path_dir_list(l, z, chance(50)) : vt_path_dir_list_recurse(l, z[0] ? z : ".", chance(50));
                if (r) { if (vt_plist_len(r) && chance(30)) vt_plist_slide_front(r); vt_path_dir_free(r); ev("listing"); } else { if (l) vt_plist_destroy(l); ev("failed listing"); } break; }
            case 6: vt_path_rmdir(z); break;
            case 7: if (z[0]) vt_path_rmdir_recurse(z); break;
            case 8: vt_path_remove(z); break;
            case 9: vt_path_rename(z, y); break;
            case 10: sink = (uintptr_t)vt_path_exists(z) + vt_path_is_dir(z) + vt_path_is_file(z) + (uintptr_t)vt_path_get_file_size(z); break;
            case 11: vt_file_write(z, text); vt_file_writeb(y, text); break;
            case 12: vt_file_writeln(z, text); vt_file_writebln(y, text); break;
            case 13: vt_file_append(z, text); vt_file_appendln(y, text); break;
            case 14: vt_file_appendb(z, text); vt_file_appendbln(y, text); break;
            case 15: vt_file_writef(z, "%s %d", text, 5); vt_file_writefln(y, "%s %d", text, 5); vt_file_writefc(z, chance(50), chance(50), chance(50), "%s", text); break;
            case 16: case 17: { vt_str_t *s = op == 16 ? vt_file_read(z, al->a) : vt_file_readb(z, al->a); if (s) { vt_str_append(s, text); vt_str_destroy(s); ev("file read"); } else ev("failed read"); break; }
            case 18: { size_t n = 1 + rn(200); char *b = malloc(n); vt_file_read_to_buffer(z, b, n); free(b); break; }
            case 19: { vt_str_t *s = vt_path_build_n(NULL, 3, z, y, "c"), *b = vt_path_basename(chance(50) ? NULL : vt_str_create(y, al->a), vt_str_z(s)); if (b) vt_str_destroy(b); vt_str_destroy(s); break; }
            case 20: { vt_str_t *s = vt_path_expand_tilda(chance(50) ? "~/q" : z, al->a); if (s) { vt_str_append(s, text); vt_str_destroy(s); } s = vt_path_get_cwd(al->a); if (s) { vt_str_append(s, text); vt_str_destroy(s); } s = vt_path_get_this_exe_location(al->a); if (s) { vt_str_append(s, text); vt_str_destroy(s); } break; }
            case 21: { char *b = strdup(chance(50) ? z : "/x/y\\z"); vt_path_validate(b); vt_path_pop(b); vt_path_pop(b); free(b); break; }
            case 22: case 23: { vt_str_t *s1 = NULL, *s2 = vt_str_create(y, al->a); char *z1 = NULL, *z2 = al->a ? VT_ALLOCATOR_ALLOC(al->a, strlen(y) + 1) : VT_CALLOC(strlen(y) + 1); strcpy(z2, y); int32_t n = 0; double d = 0; bool bo = false;
                vt_argopt_t ov[] = { { "--s1", "-a", "", (void**)&s1, VT_TYPE_STR }, { "--s2", "-b", "", (void**)&s2, VT_TYPE_STR }, { "--z1", "-c", "", (void**)&z1, VT_TYPE_CSTR }, { "--z2", "-d", "", (void**)&z2, VT_TYPE_CSTR }, { "--n", "-n", "", (void**)&n, VT_TYPE_INT32 }, { "--d", "-e", "", (void**)&d, VT_TYPE_DOUBLE }, { "--bo", "-f", "", (void**)&bo, VT_TYPE_BOOL } };
                static const char *nm[] = { "--s1", "-a", "--s2", "-b", "--z1", "-c", "--z2", "-d", "--n", "-e", "--bo", "--unknown" }; char *mem[12]; const char *av[12]; size_t ac = 1 + rn(11);
                for (size_t i = 0; i < ac; i++) { size_t q = rn(9), cut = rn(strlen(text) + 1); char *m = malloc(strlen(text) + 40); if (q < 5) sprintf(m, "%s=%s", nm[rn(chance(90) ? 11 : 12)], text + cut); else if (q < 7) strcpy(m, nm[rn(11)]); else { strcpy(m, text + cut); if (m[0] == '=') m[0] = 'q'; } av[i] = mem[i] = m; }
                fflush(stdout); int so = dup(1), dn = open("/dev/null", O_WRONLY); dup2(dn, 1); close(dn);
                vt_argopt_parse(ac, av, 7, ov, al->a); if (chance(20)) vt_argopt_print_help(z, y, 7, ov);
                fflush(stdout); dup2(so, 1); close(so);
                for (size_t i = 0; i < ac; i++) free(mem[i]);
                if (s1) { vt_str_append(s1, text); vt_str_destroy(s1); } vt_str_append(s2, text); vt_str_destroy(s2);
                if (z1) { sink = strlen(z1); if (al->a) VT_ALLOCATOR_FREE(al->a, z1); else VT_FREE(z1); } sink = strlen(z2); if (al->a) VT_ALLOCATOR_FREE(al->a, z2); else VT_FREE(z2); ev("options parsed"); break; }
            case 24: { fflush(stderr); int so = dup(2), dn = open("/dev/null", O_WRONLY); dup2(dn, 2); close(dn);
                char *nf = strdup(z); vt_log_redirect_level_output(vt_log_info, nf); free(nf); vt_log(NULL, vt_log_info, false, NULL, "f", 1, "%s", text); vt_log(y, vt_log_warn, false, "x", "f", 1, "%s", text); vt_log_redirect_all_output(NULL); vt_log(NULL, vt_log_info, false, NULL, "f", 1, "%s", text);
                vt_debug_disable_output(false); vt_debug_redirect_output(z); vt_debug_printf("S", "%s", text); vt_debug_assert(false, "e", "S", false, "f", "g", 1, "%s", text); vt_debug_redirect_output(NULL); vt_debug_printf("S", "%s", text); vt_debug_disable_output(true);
                dup2(so, 2); close(so); ev("logged"); break; }
            case 25: { size_t n = VT_DATETIME_BUFFER_SIZE + rn(8); char *b = malloc(n); struct VitaDateTime d = vt_datetime_create((int16_t)rrange(1000, 9999), (int16_t)rrange(1, 12), (int16_t)rrange(1, 28), (int16_t)rn(24), (int16_t)rn(60), (int16_t)rn(60), -1, -1);
                vt_datetime_to_text(d, b, n); vt_datetime_from_text(b); vt_datetime_to_text_iso(d, b, n); vt_datetime_from_text_iso(b); vt_datetime_to_text_iso_ext(d, b, n); vt_datetime_from_text_iso_ext(b); vt_datetime_to_text_pretty(d, b, n); vt_datetime_get_now_as_text(b, n); vt_datetime_get_now_as_text_pretty(b, n); free(b);
                char *t = malloc(strlen(text) % 22 + 1); memcpy(t, text, strlen(text) % 22); t[strlen(text) % 22] = 0; sink = (uintptr_t)vt_datetime_is_valid_text(t) + vt_datetime_is_valid_text_iso(t) + vt_datetime_is_valid_text_iso_ext(t); free(t); break; }
            case 26: { int64_t v = (int64_t)rnd() >> rn(63); size_t n = (size_t)snprintf(NULL, 0, "%lld", (long long)v) + 1; char *b = malloc(n); vt_conv_i64_to_str(b, n, v); sink = (uintptr_t)vt_conv_str_to_i64(b) + (uintptr_t)vt_conv_str_to_u8(b); free(b); n = (size_t)snprintf(NULL, 0, "%f", (double)v) + 1; b = malloc(n); vt_conv_d_to_str(b, n, (double)v); sink = vt_conv_str_to_d(b) > 0; free(b); break; }
            case 27: { int sv[2]; if (socketpair(AF_UNIX, chance(50) ? SOCK_STREAM : SOCK_DGRAM, 0, sv)) break; size_t n = 1 + rn(300); char *b = malloc(n); vt_socket_send(sv[0], text, strlen(text)); vt_socket_receive_timed(sv[1], b, n, 0); vt_socket_send(sv[0], "more", 4); vt_socket_receive(sv[1], b, n); free(b); vt_socket_close(sv[0]); vt_socket_send(sv[1], "x", 1); vt_socket_close(sv[1]); ev("socket pair"); break; }
            case 28: { vt_socket_t s = vt_socket_startup_server(chance(50) ? VT_SOCKET_TYPE_TCP : VT_SOCKET_TYPE_UDP, 20000 + (int)rn(9000), 2), c; if (s >= 0) { struct VitaSocketAddress from = { 0 }; char *b = malloc(9); vt_socket_receive_timed_from(s, &from, b, 9, 0); free(b); vt_socket_close(s); ev("server"); } c = vt_socket_startup_client(VT_SOCKET_TYPE_TCP, vt_socket_make_address(1, "127.0.0.1")); if (c >= 0) vt_socket_close(c); else ev("refused client"); break; }
            case 29: { if (symlink(chance(50) ? ".." : "b", "a/lnk") == 0) ev("link made"); int fd = open("f", O_CREAT | O_WRONLY, 0600); if (fd >= 0) { ssize_t q = write(fd, text, strlen(text)); (void)q; close(fd); } if (chance(20)) chmod("a", chance(50) ? 0500 : 0700); break; }
        }
        int f1 = open_fds(); CHECK(f1 == f0, "the operation left %d descriptors open", f1 - f0);
        h = h * 31 + op; seen(hash_bytes(z, strlen(z), h)); ev("system calls balanced");
    }
    if (chdir(scratch())) exit(3);
    wipe(root);
    al_end(als[1]); al_end(als[2]);
    sample("%zu operations, descriptors and memory balanced", steps);
}

const section_t sections[] = {
    { "accounting", run_accounting, true }, { "accounting_big", run_accounting_big, true }, { "accounting_many", run_accounting_many, true },
    { "transparent", run_transparent, true },
    { "oom", run_oom, true },
    { "huge", run_huge, true },
    { "contract", run_contract, false },
    { "views", run_views, true },
    { "view_grow", run_view_grow, true },
    { "lifetimes", run_lifetimes, true }, { "sysuse", run_sysuse, true },
    { NULL, NULL, false },
};

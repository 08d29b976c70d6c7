/* growable arrays, pointer lists, iteration, spans: model-based monitors */
#include "track.h"
#include "vita/container/vec.h"
#include "vita/container/plist.h"
#include "vita/container/span.h"
#include "vita/container/str.h"

void section_setup(const char *name) { (void)name; vt_debug_disable_output(true); }

/* ============================================================ vec ============================================ */
typedef struct { unsigned char *d; size_t n, cap, es; } model_t;
static void m_init(model_t *m, size_t es) { m->d = NULL; m->n = m->cap = 0; m->es = es; }
static void m_ins(model_t *m, size_t at, const void *v) {
    if (m->n == m->cap) {
        m->cap = m->cap ? m->cap * 2 : 8;
        unsigned char *q = malloc(m->cap * m->es);
        if (m->n) memcpy(q, m->d, m->n * m->es);
        free(m->d); m->d = q;
    }
    memmove(m->d + (at + 1) * m->es, m->d + at * m->es, (m->n - at) * m->es);
    memcpy(m->d + at * m->es, v, m->es);
    m->n++;
}
static void m_del(model_t *m, size_t at) { memmove(m->d + at * m->es, m->d + (at + 1) * m->es, (m->n - at - 1) * m->es); m->n--; }

static void vec_same(const vt_vec_t *v, const model_t *m) {
    CHECK(vt_vec_len(v) == m->n, "length is %zu, expected %zu", vt_vec_len(v), m->n);
    CHECK(vt_vec_is_empty(v) == (m->n == 0), "is_empty() disagrees with length %zu", m->n);
    CHECK(vt_vec_capacity(v) >= m->n, "capacity %zu below length %zu", vt_vec_capacity(v), m->n);
    CHECK(vt_vec_has_space(v) == vt_vec_capacity(v) - m->n, "free space %zu, capacity %zu, length %zu", vt_vec_has_space(v), vt_vec_capacity(v), m->n);
    CHECK(vt_array_elsize(v) == m->es, "element size %zu, expected %zu", vt_array_elsize(v), m->es);
    for (size_t i = 0; i < m->n; i++)
        CHECK(!memcmp(vt_vec_get(v, i), m->d + i * m->es, m->es), "element %zu is %s, expected %s (length %zu, element size %zu)",
            i, shown(vt_vec_get(v, i), m->es), shown(m->d + i * m->es, m->es), m->n, m->es);
    if (m->n) CHECK(vt_array_head(v) == vt_vec_get(v, 0), "head is not the first element");
    seen(hash_bytes(m->d, m->n * m->es, m->n * 31 + m->es) ^ vt_vec_capacity(v) * 977);
}
static const size_t elsizes[] = { 1, 2, 3, 4, 5, 8, 12, 16, 17, 24, 32, 100, 257 };

static void vec_case_on(int kind, int kind2) {
    al_t al = al_make(kind), al2 = al_make(kind2);
    size_t es = chance(2) ? 1 + rn(2000) : elsizes[rn(sizeof elsizes / sizeof *elsizes)];
    size_t cap0 = 1 + rsize(20);
    T("create(n=%zu, elsize=%zu, allocator kind %d)", cap0, es, kind);
    vt_vec_t *v = vt_vec_create(cap0, es, al.a);
    CHECK(vt_array_has_alloctr(v) == (al.a != NULL), "has_alloctr()");
    CHECK(vt_vec_capacity(v) >= cap0, "created with room for %zu, got %zu", cap0, vt_vec_capacity(v));
    model_t m; m_init(&m, es);
    unsigned char *val = malloc(es), *val2 = malloc(es);
    size_t nops = 10 + rn(g_thorough ? 250 : 120);
    size_t maxlen = es > 300 ? 40 : 400;
    for (size_t o = 0; o < nops; o++) {
        vec_same(v, &m);
        rbytes(val, es);
        if (chance(30)) memset(val, (int)rn(3), es);   /* duplicates for searching */
        if (chance(12)) { /* an iteration abandoned here and there must not matter to the content */
            bool back = rn(2); size_t k = 1 + rsize(m.n + 1); T("%zu %s iteration steps", k, back ? "backward" : "forward"); ev("vec.steps in between");
            for (size_t i = 0; i < k; i++) { if (back) vt_vec_slide_back(v); else vt_vec_slide_front(v); }
            vec_same(v, &m);
        }
        switch (rn(17)) {
            case 0: case 1: case 2: {
                if (m.n >= maxlen) break;
                T("push_back"); ev("vec.push_back");
                vt_vec_push_back(v, val); m_ins(&m, m.n, val);
            } break;
            case 3: case 4: {
                if (m.n >= maxlen) break;
                T("push_front"); ev("vec.push_front");
                vt_vec_push_front(v, val); m_ins(&m, 0, val);
            } break;
            case 5: case 6: {
                if (!m.n || m.n >= maxlen) break;
                size_t at = rsize(m.n - 1);
                T("insert at %zu of %zu", at, m.n); ev("vec.insert");
                vt_vec_insert(v, val, at); m_ins(&m, at, val);
            } break;
            case 7: {
                if (!m.n) break;
                size_t at = rsize(m.n - 1);
                T("set at %zu of %zu", at, m.n); ev("vec.set");
                if (chance(50)) vt_vec_set(v, val, at); else vt_array_set(v, val, at);
                memcpy(m.d + at * es, val, es);
            } break;
            case 8: {
                if (!m.n) break;
                size_t at = rsize(m.n - 1);
                T("remove stable at %zu of %zu", at, m.n); ev("vec.remove stable");
                vt_vec_remove(v, at, VT_REMOVE_STRATEGY_STABLE); m_del(&m, at);
            } break;
            case 9: {
                if (!m.n) break;
                size_t at = rsize(m.n - 1);
                T("remove fast at %zu of %zu", at, m.n); ev("vec.remove fast");
                vt_vec_remove(v, at, VT_REMOVE_STRATEGY_FAST);
                /* the last element takes the place of the removed one */
                if (at != m.n - 1) memcpy(m.d + at * es, m.d + (m.n - 1) * es, es);
                m.n--;
            } break;
            case 10: {
                T("pop of %zu", m.n); ev("vec.pop");
                vt_vec_pop(v); if (m.n) m.n--;
            } break;
            case 11: {
                T("pop_get of %zu", m.n); ev("vec.pop_get");
                void *p = vt_vec_pop_get(v);
                if (!m.n) CHECK(p == NULL, "pop_get of an empty array returned an element");
                else {
                    CHECK(p != NULL && !memcmp(p, m.d + (m.n - 1) * es, es), "pop_get returned %s, expected %s", p ? shown(p, es) : "NULL", shown(m.d + (m.n - 1) * es, es));
                    m.n--;
                }
            } break;
            case 12: {
                size_t n = 1 + rsize(40), c = vt_vec_capacity(v);
                T("reserve %zu", n); ev("vec.reserve");
                vt_vec_reserve(v, n);
                CHECK(vt_vec_capacity(v) == c + n, "capacity %zu after reserving %zu more than %zu", vt_vec_capacity(v), n, c);
            } break;
            case 13: {
                T("shrink"); ev(m.n ? "vec.shrink" : "vec.shrink empty");
                vt_vec_shrink(v);
                if (m.n) CHECK(vt_vec_capacity(v) == m.n, "capacity %zu after shrinking to length %zu", vt_vec_capacity(v), m.n);
            } break;
            case 14: {
                size_t n = 1 + rsize(es > 300 ? 20 : 60), old = m.n;
                T("resize %zu -> %zu", old, n); ev("vec.resize");
                vt_vec_resize(v, n);
                CHECK(vt_vec_len(v) == n, "length %zu after resizing to %zu", vt_vec_len(v), n);
                CHECK(vt_vec_capacity(v) >= n, "capacity %zu after resizing to %zu", vt_vec_capacity(v), n);
                for (size_t i = 0; i < old && i < n; i++) /* kept prefix */
                    CHECK(!memcmp(vt_vec_get(v, i), m.d + i * es, es), "element %zu changed by resize %zu -> %zu", i, old, n);
                while (m.n > n) m.n--;
                while (m.n < n) { rbytes(val2, es); vt_vec_set(v, val2, m.n); m_ins(&m, m.n, val2); }
            } break;
            case 15: {
                size_t want = 0; while (want < m.n && memcmp(m.d + want * es, val, es)) want++;
                T("can_find"); ev(want < m.n ? "vec.found" : "vec.not found");
                int64_t r = vt_vec_can_find(v, val);
                CHECK(r == (want < m.n ? (int64_t)want : -1), "search returned %lld, expected %lld", (long long)r, (long long)(want < m.n ? (int64_t)want : -1));
                if (m.n && chance(60)) {
                    size_t k = rn(m.n); size_t f = 0;
                    memcpy(val2, m.d + k * es, es);
                    while (memcmp(m.d + f * es, val2, es)) f++;
                    r = vt_vec_can_find(v, val2);
                    CHECK(r == (int64_t)f, "search for a present value returned %lld, first is at %zu", (long long)r, f);
                    val2[chance(50) ? es - 1 : rn(es)] ^= (unsigned char)(1 + rn(255)); /* almost a present value */
                    f = 0; while (f < m.n && memcmp(m.d + f * es, val2, es)) f++;
                    r = vt_vec_can_find(v, val2); ev("vec.search for almost a value");
                    CHECK(r == (f < m.n ? (int64_t)f : -1), "search for a value that differs in one byte returned %lld, expected %lld", (long long)r, (long long)(f < m.n ? (int64_t)f : -1));
                }
            } break;
            case 16: {
                if (chance(25)) { T("clear"); ev("vec.clear"); vt_vec_clear(v); m.n = 0; break; }
                if (chance(50) && vt_vec_has_space(v)) {
                    /* announced free space is usable without moving the storage */
                    size_t k = vt_vec_has_space(v); if (k > 60) k = 60;
                    void *h0 = vt_array_head(v);
                    for (size_t i = 0; i < k; i++) { vt_vec_push_back(v, val); }
                    CHECK(vt_array_head(v) == h0, "pushing %zu elements into announced free space reallocated", k);
                    for (size_t i = 0; i < k; i++) m_ins(&m, m.n, val);
                    T("filled %zu free slots", k); ev("vec.fill free space");
                    break;
                }
                T("dup (allocator kind %d)", kind2); ev(m.n ? "vec.dup" : "vec.dup empty");
                vt_vec_t *d = vt_vec_dup(v, al2.a);
                vec_same(d, &m);
                CHECK(vt_array_head(d) != vt_array_head(v), "copy shares storage with the original");
                if (chance(50)) {        /* writes to the copy do not reach the original */
                    if (m.n) vt_vec_set(d, val, rn(m.n));
                    vt_vec_push_back(d, val); if (!m.n) vt_vec_push_back(d, val); vt_vec_remove(d, 0, VT_REMOVE_STRATEGY_STABLE);
                    vec_same(v, &m);
                    vt_vec_destroy(d);
                } else {                 /* the copy survives the original */
                    vt_vec_destroy(v);
                    v = d;
                    al_t sw = al; al = al2; al2 = sw;
                    kind2 = al2.kind;
                }
            } break;
        }
    }
    vec_same(v, &m);
    if (m.n > 3) sample("vec es=%zu final len=%zu cap=%zu after %zu ops", es, m.n, vt_vec_capacity(v), nops);
    vt_vec_destroy(v);
    free(m.d); free(val); free(val2);
    al_end(al); al_end(al2);
}
static void run_vec(uint64_t idx) { (void)idx; int a = (int)rn(3), b = (int)rn(3); vec_case_on(a, b); }

/* typed accessors: every one of the eleven element types moves its value exactly */
#define TYPES(X) X(int8_t, i8) X(uint8_t, u8) X(int16_t, i16) X(uint16_t, u16) X(int32_t, i32) X(uint32_t, u32) \
                 X(int64_t, i64) X(uint64_t, u64) X(float, f) X(double, d) X(real, r)
static long double rval_ld(void) {
    switch (rn(5)) {
        case 0: return (long double)(int64_t)rnd();
        case 1: return -(long double)rn(1000) / 8;
        case 2: return 0;
        case 3: return (long double)rnd() * (long double)rnd() * 3.5L;
        default: return (long double)(int64_t)rn(5);
    }
}
#define R_i8 ((int8_t)(chance(40) ? (int64_t)rn(4) : (int64_t)rnd()))
#define R_u8 ((uint8_t)(chance(40) ? rn(4) : rnd()))
#define R_i16 ((int16_t)(chance(40) ? (int64_t)rn(4) : (int64_t)rnd()))
#define R_u16 ((uint16_t)(chance(40) ? rn(4) : rnd()))
#define R_i32 ((int32_t)(chance(40) ? (int64_t)rn(4) : (int64_t)rnd()))
#define R_u32 ((uint32_t)(chance(40) ? rn(4) : rnd()))
#define R_i64 ((int64_t)(chance(40) ? (int64_t)rn(4) : (int64_t)rnd()))
#define R_u64 ((uint64_t)(chance(40) ? rn(4) : rnd()))
#define R_f ((float)rval_ld())
#define R_d ((double)rval_ld())
#define R_r (rval_ld())
static bool same_scalar_r(long double a, long double b) { return isnan(a) || isnan(b) ? isnan(a) && isnan(b) : a == b && signbit(a) == signbit(b); }
#define MK(TT, t) \
static void typed_vec_##t(void) { \
    al_t al = al_random(); \
    vt_vec_t *v = vt_vec_create(1 + rn(6), sizeof(TT), al.a); \
    TT m[600]; size_t n = 0; size_t nops = 30 + rn(150); \
    for (size_t o = 0; o < nops; o++) { \
        TT x = R_##t; \
        if (n && chance(30)) x = m[rn(n)]; \
        switch (rn(8)) { \
            case 0: case 1: T("push_back" #t); ev("typed push_back " #t); vt_vec_push_back##t(v, x); m[n++] = x; break; \
            case 2: T("push_front" #t); ev("typed push_front " #t); vt_vec_push_front##t(v, x); for (size_t i = n; i > 0; i--) m[i] = m[i-1]; m[0] = x; n++; break; \
            case 3: if (n) { size_t at = rsize(n - 1); T("insert" #t " at %zu", at); ev("typed insert " #t); vt_vec_insert##t(v, x, at); for (size_t i = n; i > at; i--) m[i] = m[i-1]; m[at] = x; n++; } break; \
            case 4: if (n) { size_t at = rsize(n - 1); T("set" #t " at %zu", at); ev("typed set " #t); vt_vec_set##t(v, x, at); m[at] = x; } break; \
            case 5: { T("pop_get" #t); ev("typed pop_get " #t); TT g = vt_vec_pop_get##t(v); CHECK(same_scalar_r(g, n ? m[n-1] : (TT)0), "typed pop returned another value (type " #t ", length %zu)", n); if (n) n--; } break; \
            case 6: if (sizeof(TT) <= 8) { ev("typed find " #t); int64_t w = -1; for (size_t i = 0; i < n; i++) if (!memcmp(&m[i], &x, sizeof x)) { w = (int64_t)i; break; } \
                      int64_t g = vt_vec_can_find##t(v, x); CHECK(g == w, "typed search (" #t ") returned %lld, expected %lld", (long long)g, (long long)w); } break; \
            case 7: if (n) { size_t at = rsize(n - 1); T("remove at %zu", at); vt_vec_remove(v, at, VT_REMOVE_STRATEGY_STABLE); for (size_t i = at; i + 1 < n; i++) m[i] = m[i+1]; n--; } break; \
        } \
        CHECK(vt_vec_len(v) == n, "typed array length %zu, expected %zu (type " #t ")", vt_vec_len(v), n); \
        for (size_t i = 0; i < n; i++) CHECK(same_scalar_r(vt_vec_get##t(v, i), m[i]), "typed element %zu differs (type " #t ")", i); \
    } \
    seen(hash_bytes(m, 0, n * 131 + sizeof(TT)) ^ (n && m[0] > (TT)0 && m[0] < (TT)100 ? (uint64_t)m[0] : 0)); \
    vt_vec_destroy(v); al_end(al); \
}
/* values are kept small enough for the signature cast in seen() */
#undef R_f
#undef R_d
#undef R_r
static double odd(void) { switch (rn(5)) { case 0: return 0.0; case 1: case 2: return -0.0; case 3: return NAN; default: return chance(50) ? INFINITY : -INFINITY; } }
#define R_f (chance(20) ? (float)odd() : (float)((double)rrange(-16777215, 16777215) / 16.0))
#define R_d (chance(20) ? odd() : (double)((int64_t)rnd() >> (10 + rn(40))) / 1024.0)
#define R_r (chance(20) ? (long double)odd() : (long double)((int64_t)rnd() >> rn(50)) / 1024.0L)
TYPES(MK)
static void run_vec_typed(uint64_t idx) {
    switch (idx % 11) {
        case 0: typed_vec_i8(); break; case 1: typed_vec_u8(); break; case 2: typed_vec_i16(); break; case 3: typed_vec_u16(); break;
        case 4: typed_vec_i32(); break; case 5: typed_vec_u32(); break; case 6: typed_vec_i64(); break; case 7: typed_vec_u64(); break;
        case 8: typed_vec_f(); break; case 9: typed_vec_d(); break; default: typed_vec_r(); break;
    }
    (void)rval_ld;
}

/* ============================================================ plist ========================================== */
static char pool[64];
static void plist_same(const vt_plist_t *p, void *const *m, size_t n) {
    CHECK(vt_plist_len(p) == n, "list length is %zu, expected %zu", vt_plist_len(p), n);
    CHECK(vt_plist_is_empty(p) == (n == 0), "is_empty()");
    CHECK(vt_plist_capacity(p) >= n, "list capacity %zu below length %zu", vt_plist_capacity(p), n);
    CHECK(vt_plist_has_space(p) == vt_plist_capacity(p) - n, "list free space %zu, capacity %zu, length %zu", vt_plist_has_space(p), vt_plist_capacity(p), n);
    for (size_t i = 0; i < n; i++) CHECK(vt_plist_get(p, i) == m[i], "list entry %zu is not the pointer that was stored (length %zu)", i, n);
    seen(hash_bytes(m, n * sizeof *m, n) ^ vt_plist_capacity(p) * 977);
}
static void plist_case_on(int kind, int kind2) {
    al_t al = al_make(kind), al2 = al_make(kind2);
    size_t cap0 = 1 + rsize(20);
    T("create(n=%zu, allocator kind %d)", cap0, kind);
    vt_plist_t *p = vt_plist_create(cap0, al.a);
    CHECK(vt_plist_capacity(p) >= cap0, "list created with room for %zu, got %zu", cap0, vt_plist_capacity(p));
    static void *m[4000]; size_t n = 0;
    size_t nops = 10 + rn(g_thorough ? 300 : 150), maxlen = 500;
    for (size_t o = 0; o < nops; o++) {
        plist_same(p, m, n);
        void *x = &pool[rn(sizeof pool)];
        if (chance(12)) { /* an iteration abandoned here and there must not matter to the list's content */
            bool back = rn(2); size_t k = 1 + rsize(n + 1); T("%zu %s iteration steps", k, back ? "backward" : "forward"); ev("plist.steps in between");
            for (size_t i = 0; i < k; i++) { if (back) vt_plist_slide_back(p); else vt_plist_slide_front(p); }
            plist_same(p, m, n);
        }
        switch (rn(18)) {
            case 0: case 1: case 2: if (n >= maxlen) break; T("push_back"); ev("plist.push_back"); vt_plist_push_back(p, x); m[n++] = x; break;
            case 3: case 4: if (n >= maxlen) break; T("push_front"); ev("plist.push_front"); vt_plist_push_front(p, x); memmove(m + 1, m, n * sizeof *m); m[0] = x; n++; break;
            case 5: case 6: {
                if (!n || n >= maxlen) break;
                size_t at = rsize(n - 1); T("insert at %zu of %zu", at, n); ev("plist.insert");
                vt_plist_insert(p, x, at); memmove(m + at + 1, m + at, (n - at) * sizeof *m); m[at] = x; n++;
            } break;
            case 7: { if (!n) break; size_t at = rsize(n - 1); T("set at %zu", at); ev("plist.set"); vt_plist_set(p, x, at); m[at] = x; } break;
            case 8: {
                if (!n) break;
                size_t at = rsize(n - 1); T("remove stable at %zu of %zu", at, n); ev("plist.remove stable");
                vt_plist_remove(p, at, VT_REMOVE_STRATEGY_STABLE); memmove(m + at, m + at + 1, (n - at - 1) * sizeof *m); n--;
            } break;
            case 9: case 17: {
                bool by_value = rn(2);
                enum VitaRemoveStrategy rs = rn(2) ? VT_REMOVE_STRATEGY_STABLE : VT_REMOVE_STRATEGY_FAST;
                size_t at;
                if (by_value) {
                    at = 0; while (at < n && m[at] != x) at++;
                    T("remove_element (%s)", rs == VT_REMOVE_STRATEGY_STABLE ? "stable" : "fast"); ev(at < n ? "plist.remove_element" : "plist.remove_element absent");
                    vt_plist_remove_element(p, x, rs);
                    if (at == n) break;
                } else {
                    if (!n) break;
                    at = rsize(n - 1); rs = VT_REMOVE_STRATEGY_FAST;
                    T("remove fast at %zu of %zu", at, n); ev("plist.remove fast");
                    vt_plist_remove(p, at, rs);
                }
                CHECK(vt_plist_len(p) == n - 1, "list length %zu after removing one of %zu", vt_plist_len(p), n);
                if (rs == VT_REMOVE_STRATEGY_FAST) m[at] = m[n - 1];
                else memmove(m + at, m + at + 1, (n - at - 1) * sizeof *m);
                n--;
            } break;
            case 10: T("pop"); ev("plist.pop"); vt_plist_pop(p); if (n) n--; break;
            case 11: { T("pop_get"); ev("plist.pop_get"); void *g = vt_plist_pop_get(p); CHECK(g == (n ? m[n - 1] : NULL), "list pop_get returned another pointer (length %zu)", n); if (n) n--; } break;
            case 12: { size_t k = 1 + rsize(40), c = vt_plist_capacity(p); T("reserve %zu", k); ev("plist.reserve"); vt_plist_reserve(p, k);
                       CHECK(vt_plist_capacity(p) == c + k, "list capacity %zu after reserving %zu more than %zu", vt_plist_capacity(p), k, c); } break;
            case 13: T("shrink"); ev(n ? "plist.shrink" : "plist.shrink empty"); vt_plist_shrink(p); if (n) CHECK(vt_plist_capacity(p) == n, "list capacity %zu after shrinking to %zu", vt_plist_capacity(p), n); break;
            case 14: {
                size_t k = 1 + rsize(60); T("resize %zu -> %zu", n, k); ev("plist.resize");
                vt_plist_resize(p, k);
                CHECK(vt_plist_len(p) == k, "list length %zu after resizing to %zu", vt_plist_len(p), k);
                for (size_t i = 0; i < n && i < k; i++) CHECK(vt_plist_get(p, i) == m[i], "list entry %zu changed by resize %zu -> %zu", i, n, k);
                if (n > k) n = k;
                while (n < k) { vt_plist_set(p, x, n); m[n++] = x; }
            } break;
            case 15: {
                int64_t w = -1; for (size_t i = 0; i < n; i++) if (m[i] == x) { w = (int64_t)i; break; }
                T("can_find"); ev(w < 0 ? "plist.not found" : "plist.found");
                int64_t g = vt_plist_can_find(p, x);
                CHECK(g == w, "list search returned %lld, expected %lld", (long long)g, (long long)w);
            } break;
            case 16: {
                if (chance(25)) { T("clear"); ev("plist.clear"); vt_plist_clear(p); n = 0; break; }
                if (chance(40) && vt_plist_has_space(p)) {
                    size_t k = vt_plist_has_space(p); if (k > 60) k = 60;
                    void *h0 = vt_array_head(p);
                    for (size_t i = 0; i < k; i++) vt_plist_push_back(p, x);
                    CHECK(vt_array_head(p) == h0, "pushing %zu entries into announced free list space moved the storage", k);
                    for (size_t i = 0; i < k; i++) m[n++] = x;
                    ev("plist.fill free space");
                    break;
                }
                T("dup (allocator kind %d)", kind2); ev(n ? "plist.dup" : "plist.dup empty");
                vt_plist_t *d = vt_plist_dup(p, al2.a);
                plist_same(d, m, n);
                if (chance(50)) {
                    if (n) vt_plist_set(d, x, rn(n)); vt_plist_push_back(d, x); if (!n) vt_plist_push_back(d, x); vt_plist_remove(d, 0, VT_REMOVE_STRATEGY_STABLE);
                    plist_same(p, m, n);
                    vt_plist_destroy(d);
                } else {
                    vt_plist_destroy(p); p = d;
                    al_t sw = al; al = al2; al2 = sw; kind2 = al2.kind;
                }
            } break;
        }
    }
    plist_same(p, m, n);
    if (n > 3) sample("plist final len=%zu cap=%zu after %zu ops", n, vt_plist_capacity(p), nops);
    vt_plist_destroy(p);
    al_end(al); al_end(al2);
}
static void run_plist(uint64_t idx) { (void)idx; int a = (int)rn(3), b = (int)rn(3); plist_case_on(a, b); }

/* ============================================================ iteration ====================================== */
static unsigned char *it_base; static size_t it_es, it_n, it_calls;
static void *it_ptrs[70200];
static void it_vec(void *e, size_t i) {
    CHECK(i == it_calls, "apply passed index %zu on call %zu", i, it_calls);
    CHECK(e == it_base + i * it_es, "apply passed another element for index %zu", i);
    it_calls++;
}
static void it_plist(void *e, size_t i) {
    CHECK(i == it_calls && e == it_ptrs[i], "list apply call %zu: index %zu, wrong entry", it_calls, i);
    it_calls++;
}
static void it_str(char *c, size_t i) {
    CHECK(i == it_calls, "string apply passed index %zu on call %zu", i, it_calls);
    CHECK((unsigned char*)c == it_base + i, "string apply passed another character for index %zu", i);
    it_calls++;
}
/* one full forward or backward pass through a container of n elements: each element once, in order, then NULL */
typedef void *(*slide_fn)(struct VitaBaseArrayType *const);
static char *sf(struct VitaBaseArrayType *s) { return vt_str_slide_front(s); }
static char *sb(struct VitaBaseArrayType *s) { return vt_str_slide_back(s); }
static void *s_front(struct VitaBaseArrayType *const s) { return sf(s); }
static void *s_back(struct VitaBaseArrayType *const s) { return sb(s); }
static void pass(struct VitaBaseArrayType *c, slide_fn f, bool back, bool stored, size_t n, size_t es, size_t stop_after) {
    for (size_t k = 0; k < n; k++) {
        if (k == stop_after) return;
        size_t i = back ? n - 1 - k : k;
        void *want = stored ? it_ptrs[i] : (void*)(it_base + i * es);
        void *got = f(c);
        if (got != want) {
            long long off = (!stored && got) ? ((long long)((unsigned char*)got - it_base)) / (long long)es : -1;
            FAIL("%s iteration step %zu of %zu did not return element %zu%s (got %s, offset %lld)", back ? "backward" : "forward", k, n, i, stored ? " (stored pointer)" : "", got ? "another address" : "NULL", off);
        }
        EVAL();
    }
    CHECK(f(c) == NULL, "%s iteration returned something after the last of %zu elements", back ? "backward" : "forward", n);
    ev(back ? "complete backward pass" : "complete forward pass");
}
static void run_iter(uint64_t idx) {
    al_t al = al_random();
    size_t n = chance(10) ? 0 : 1 + rsize(40);
    if (idx % 41 == 7) n = 250 + rn(20);
    if (idx % 173 == 9) n = 500 + rn(3000);
    if (idx % 1501 == 11) n = 65530 + rn(20);
    if (idx % 4001 == 13) n = 66000 + rn(4000);
    bool big = n > 4000;
    int what = (int)rn(3); /* vec, plist, str */
    struct VitaBaseArrayType *c;
    size_t es;
    if (what == 0) {
        es = n < 100 && chance(8) ? 1 + rn(3000) : elsizes[rn(big ? 6 : 8)];
        c = vt_vec_create(n + 1 + rn(5), es, al.a);
        unsigned char b[3000];
        for (size_t i = 0; i < n; i++) { rbytes(b, es); vt_vec_push_back(c, b); }
    } else if (what == 1) {
        es = sizeof(void*);
        c = vt_plist_create(n + 1 + rn(5), al.a);
        for (size_t i = 0; i < n; i++) { it_ptrs[i] = &pool[rn(sizeof pool)]; vt_plist_push_back(c, it_ptrs[i]); }
    } else {
        es = 1;
        c = vt_str_create_capacity(n + 1 + rn(5), al.a);
        char *z = malloc(n + 1); rtext(z, n, "abc d\xe9.");
        if (n) vt_str_append(c, z);
        free(z);
    }
    it_base = vt_array_head(c); it_es = es; it_n = n;
    size_t passes = 1 + rn(big ? 2 : 6);
    for (size_t k = 0; k < passes; k++) {
        bool back = rn(2);
        bool generic = rn(2);
        bool stored = what == 1 && !generic;
        slide_fn f = generic ? (back ? vt_array_slide_back : vt_array_slide_front)
            : what == 0 ? (back ? vt_vec_slide_back : vt_vec_slide_front)
            : what == 1 ? (back ? vt_plist_slide_back : vt_plist_slide_front)
            : (back ? s_back : s_front);
        T("%s pass %zu over %zu elements, %s, %s", back ? "backward" : "forward", k, n, what == 0 ? "vec" : what == 1 ? "plist" : "str", generic ? "generic" : "own");
        bool partial = n && chance(40);
        size_t stop = partial ? rn(n) : n + 1;
        pass(c, f, back, stored, n, es, stop);
        if (partial && !big && chance(50)) { /* a copy made in the middle of a pass has its own passes */
            struct VitaBaseArrayType *d = what == 0 ? vt_vec_dup(c, al.a) : what == 1 ? vt_plist_dup(c, al.a) : vt_str_dup(c);
            bool db = rn(2); slide_fn g = what == 0 ? (db ? vt_vec_slide_back : vt_vec_slide_front) : what == 1 ? (db ? vt_plist_slide_back : vt_plist_slide_front) : (db ? s_back : s_front);
            T("%s pass over a copy made in the middle of a pass", db ? "backward" : "forward"); it_base = vt_array_head(d);
            pass(d, g, db, what == 1, n, es, n + 1); it_base = vt_array_head(c); ev("copy in the middle");
            if (what == 0) vt_vec_destroy(d); else if (what == 1) vt_plist_destroy(d); else vt_str_destroy(d);
        }
        if (partial) { /* abandoning a pass and resetting starts over */
            if (generic) vt_array_slide_reset(c);
            else if (what == 0) vt_vec_slide_reset(c); else if (what == 1) vt_plist_slide_reset(c); else vt_str_slide_reset(c);
            ev("reset in the middle");
        }
        if (chance(big ? 80 : 30)) {
            it_calls = 0;
            if (what == 0) vt_vec_apply(c, it_vec); else if (what == 1) vt_plist_apply(c, it_plist); else vt_str_apply(c, it_str);
            CHECK(it_calls == n, "apply visited %zu of %zu elements", it_calls, n);
            ev("apply pass");
        }
        while (!big && chance(35)) { /* anything done to the container between complete passes leaves the next pass complete */
            unsigned char b[3000]; rbytes(b, es);
            size_t at = n ? rn(n) : 0, j, op = rn(9);
            T("between passes: operation %zu on %zu elements", op, n); ev("changed between passes");
            switch (op) {
                case 0: if (what == 0) vt_vec_clear(c); else if (what == 1) vt_plist_clear(c); else vt_str_clear(c); n = 0;
                    for (j = rn(9); j; j--) { if (what == 0) vt_vec_push_back(c, b); else if (what == 1) { it_ptrs[n] = &pool[n % 60]; vt_plist_push_back(c, it_ptrs[n]); } else vt_str_append(c, "y"); n++; } break;
                case 1: if (what == 0) vt_vec_push_front(c, b); else if (what == 1) { memmove(it_ptrs + 1, it_ptrs, n * sizeof *it_ptrs); it_ptrs[0] = pool + 3; vt_plist_push_front(c, it_ptrs[0]); } else vt_str_insert(c, "f", 0); n++; break;
                case 2: if (!n) break; if (what == 0) vt_vec_remove(c, at, rn(2) ? VT_REMOVE_STRATEGY_STABLE : VT_REMOVE_STRATEGY_FAST); else if (what == 1) { memmove(it_ptrs + at, it_ptrs + at + 1, (n - at - 1) * sizeof *it_ptrs); vt_plist_remove(c, at, VT_REMOVE_STRATEGY_STABLE); } else vt_str_remove(c, at, 1); n--; break;
                case 3: if (!n) break; if (what == 0) vt_vec_pop(c); else if (what == 1) vt_plist_pop(c); else vt_str_remove(c, n - 1, 1); n--; break;
                case 4: if (what == 0) vt_vec_reserve(c, 1 + rn(90)); else if (what == 1) vt_plist_reserve(c, 1 + rn(90)); else vt_str_reserve(c, 1 + rn(90)); break;
                case 5: if (what == 0) vt_vec_shrink(c); else if (what == 1) vt_plist_shrink(c); else vt_str_shrink(c); break;
                case 6: if (!n) break; if (what == 0) vt_vec_set(c, b, at); else if (what == 1) { it_ptrs[at] = pool + 5; vt_plist_set(c, it_ptrs[at], at); } else vt_str_set_c(c, 's', at); break;
                case 7: if (!n) break; if (what == 0) vt_vec_insert(c, b, at); else if (what == 1) { memmove(it_ptrs + at + 1, it_ptrs + at, (n - at) * sizeof *it_ptrs); it_ptrs[at] = pool + 9; vt_plist_insert(c, it_ptrs[at], at); } else vt_str_insert(c, "i", at); n++; break;
                case 8: { struct VitaBaseArrayType *d; if (what == 0) { d = vt_vec_dup(c, al.a); vt_vec_destroy(c); } else if (what == 1) { d = vt_plist_dup(c, al.a); vt_plist_destroy(c); } else { d = vt_str_dup(c); vt_str_destroy(c); } c = d; } break;
            }
            it_base = vt_array_head(c); it_n = n;
        }
        if (chance(25)) { /* grow between passes: the new element is visited, too */
            unsigned char b[3000]; rbytes(b, es);
            if (what == 0) { vt_vec_push_back(c, b); n++; }
            else if (what == 1) { it_ptrs[n] = pool; vt_plist_push_back(c, pool); n++; }
            else if (what == 2) { vt_str_append(c, "x"); n++; }
            it_base = vt_array_head(c); it_n = n;
        }
        seen(((uint64_t)what << 40) ^ (n * 64) ^ (back * 2 + generic) ^ ((uint64_t)stop << 20) ^ (uint64_t)es << 50);
    }
    sample("%s of %zu elements: %zu passes", what == 0 ? "vec" : what == 1 ? "plist" : "str", n, passes);
    if (what == 0) vt_vec_destroy(c); else if (what == 1) vt_plist_destroy(c); else vt_str_destroy(c);
    al_end(al);
}

/* ============================================================ span =========================================== */
#define SPAN_TYPED(TT, t) \
static void span_typed_##t(void) { \
    size_t n = 2 + rsize(30); TT *b = malloc(n * sizeof(TT)), *m = malloc(n * sizeof(TT)); \
    for (size_t i = 0; i < n; i++) m[i] = b[i] = R_##t; \
    size_t from = rn(n - 1), to = from + 1 + rn(n - from - 1); \
    vt_span_t s = chance(50) ? vt_span_from_to(b, from, to, sizeof(TT)) : vt_span_from(b + from, to - from, sizeof(TT)); \
    for (size_t o = 0; o < 30; o++) { \
        size_t at = rsize(to - from - 1); TT x = R_##t; \
        if (chance(50)) { vt_span_set##t(s, x, at); m[from + at] = x; ev("span typed set " #t); } \
        else { CHECK(same_scalar_r(vt_span_get##t(s, at), m[from + at]), "typed window element %zu differs (type " #t ")", at); ev("span typed get " #t); } \
        for (size_t i = 0; i < n; i++) CHECK(same_scalar_r(b[i], m[i]), "buffer element %zu differs (window [%zu;%zu), type " #t ")", i, from, to); \
    } \
    seen(from * 64 + to + sizeof(TT) * 10007 + (m[from] > (TT)0 && m[from] < (TT)100 ? (uint64_t)m[from] : 0)); \
    free(b); free(m); \
}
TYPES(SPAN_TYPED)
static void run_span(uint64_t idx) {
    if (idx % 2) {
        switch ((idx / 2) % 11) {
            case 0: span_typed_i8(); break; case 1: span_typed_u8(); break; case 2: span_typed_i16(); break; case 3: span_typed_u16(); break;
            case 4: span_typed_i32(); break; case 5: span_typed_u32(); break; case 6: span_typed_i64(); break; case 7: span_typed_u64(); break;
            case 8: span_typed_f(); break; case 9: span_typed_d(); break; default: span_typed_r(); break;
        }
        return;
    }
    size_t es = elsizes[rn(sizeof elsizes / sizeof *elsizes)], n = 1 + rsize(30);
    bool over_vec = chance(40);
    vt_vec_t *v = NULL;
    unsigned char *b, *m = malloc(n * es), *val = malloc(es);
    if (over_vec) { v = vt_vec_create(n, es, NULL); vt_vec_resize(v, n); b = vt_array_head(v); } else b = malloc(n * es);
    rbytes(m, n * es); memcpy(b, m, n * es);
    int64_t a0 = g_alloc_seen;
    size_t from = rsize(n - 1), to = from + 1 + rsize(n - from - 1);
    bool ft = rn(2);
    T("window [%zu;%zu) of %zu elements of %zu bytes (%s)", from, to, n, es, ft ? "from_to" : "from");
    vt_span_t s = ft ? vt_span_from_to(b, from, to, es) : vt_span_from(b + from * es, to - from, es);
    CHECK(vt_span_len(s) == to - from, "window [%zu;%zu) has length %zu", from, to, vt_span_len(s));
    ev(from ? "span inner" : "span from 0");
    for (size_t o = 0; o < 40; o++) {
        size_t at = rsize(to - from - 1);
        if (chance(50)) {
            rbytes(val, es);
            T("set %zu", at); ev("span.set");
            vt_span_set(s, val, at);
            memcpy(m + (from + at) * es, val, es);
        } else if (chance(50)) {      /* the owner writes, the window sees it */
            size_t i = rn(n); rbytes(val, es);
            memcpy(b + i * es, val, es); memcpy(m + i * es, val, es);
        }
        CHECK(vt_span_get(s, at) == b + (from + at) * es, "window element %zu is not buffer element %zu", at, from + at);
        CHECK(!memcmp(vt_span_get(s, at), m + (from + at) * es, es), "window element %zu has another value", at);
        CHECK(!memcmp(b, m, n * es), "the buffer differs from what was written through window [%zu;%zu) of %zu", from, to, n);
    }
    CHECK(g_alloc_seen == a0, "a window allocated memory");
    seen(hash_bytes(m, n * es, from * 1000 + to));
    sample("window [%zu;%zu) of %zu x %zu bytes", from, to, n, es);
    if (v) vt_vec_destroy(v); else free(b);
    free(m); free(val);
}

/* ============================================================ large containers =============================== */
/* few operations on containers whose length, byte size or positions cross 2^8, 2^16 (and beyond), contents compared whole */
static size_t big_len(uint64_t idx) {
    switch (idx % 8) {
        case 0: case 1: case 2: return 250 + rn(12);
        case 3: return 120 + rn(16);
        case 4: return 1 + rn(5000);
        case 5: return 32760 + rn(16);
        case 6: return 65530 + rn(12);
        default: return 65537 + rn(70000);
    }
}
static void vec_whole(vt_vec_t *v, const model_t *m) {
    CHECK(vt_vec_len(v) == m->n, "length is %zu, expected %zu", vt_vec_len(v), m->n);
    CHECK(vt_vec_capacity(v) >= m->n, "capacity %zu below length %zu", vt_vec_capacity(v), m->n);
    const unsigned char *h = vt_array_head(v);
    if (m->n && memcmp(h, m->d, m->n * m->es)) {
        size_t i = 0; while (!memcmp(h + i * m->es, m->d + i * m->es, m->es)) i++;
        FAIL("element %zu of %zu (element size %zu) differs", i, m->n, m->es);
    }
    for (int k = 0; k < 4 && m->n; k++) { size_t i = rsize(m->n - 1); CHECK(vt_vec_get(v, i) == h + i * m->es, "get(%zu) of %zu is another place", i, m->n); }
    EVAL();
}
static void run_vec_big(uint64_t idx) {
    static const size_t bes[] = { 1, 2, 4, 8, 8, 24, 40, 300, 65535, 65536, 70000, 100000 };
    size_t target = big_len(idx), es = bes[rn(target > 6000 ? 6 : 8)];
    if (target < 300 && chance(15)) { es = bes[8 + rn(4)]; target = 1 + rn(40); }
    al_t al = al_random(), al2 = al_random();
    vt_vec_t *v = vt_vec_create(chance(50) ? target : 1 + rn(300), es, al.a);
    model_t m; m_init(&m, es);
    unsigned char *val = calloc(1, es), *q = calloc(1, es);
    for (size_t i = 0; i < target; i++) {
        uint64_t x = i * 0x9e3779b97f4a7c15ull; if (es == 1) x = (x >> 33) % 255; memcpy(val, &x, es < 8 ? es : 8); if (es > 16) memcpy(val + es - 8, &x, 8);
        vt_vec_push_back(v, val); m_ins(&m, m.n, val);
    }
    T("filled %zu elements of %zu bytes", target, es);
    vec_whole(v, &m);
    for (int o = 0; o < 14; o++) {
        rbytes(val, es < 64 ? es : 64);
        size_t at = m.n ? (chance(50) ? m.n - 1 - rsize(m.n - 1 < 300 ? m.n - 1 : 300) : rn(m.n)) : 0;
        switch (rn(11)) {
            case 0: case 1: if (m.n) { T("insert at %zu of %zu", at, m.n); vt_vec_insert(v, val, at); m_ins(&m, at, val); ev("big insert"); } break;
            case 2: T("push_front to %zu", m.n); vt_vec_push_front(v, val); m_ins(&m, 0, val); ev("big push_front"); break;
            case 3: if (m.n) { T("remove stable at %zu of %zu", at, m.n); vt_vec_remove(v, at, VT_REMOVE_STRATEGY_STABLE); m_del(&m, at); ev("big remove stable"); } break;
            case 4: if (m.n) { T("remove fast at %zu of %zu", at, m.n); vt_vec_remove(v, at, VT_REMOVE_STRATEGY_FAST); if (at != m.n - 1) memcpy(m.d + at * es, m.d + (m.n - 1) * es, es); m.n--; ev("big remove fast"); } break;
            case 5: if (m.n) { T("set at %zu of %zu", at, m.n); vt_vec_set(v, val, at); memcpy(m.d + at * es, val, es); ev("big set"); } break;
            case 6: if (m.n) { if (chance(50)) { memset(q, 0xff, es); if (es > 8) rbytes(q, 8); vt_vec_set(v, q, at); memcpy(m.d + at * es, q, es); } else memcpy(q, m.d + at * es, es); size_t w = 0; while (memcmp(m.d + w * es, q, es)) w++; int64_t r = vt_vec_can_find(v, q); CHECK(r == (int64_t)w, "search in %zu elements returned %lld, expected %zu", m.n, (long long)r, w); ev("big search"); } break;
            case 7: { size_t k = chance(30) ? 250 + rn(12) : chance(40) ? 65530 + rn(12) : 1 + rn(m.n * 2 + 10); if (es > 4000 && k > 60) k = 60; if (es > 24 && k > 6000) k = 6000; size_t old = m.n; T("resize %zu -> %zu", old, k); vt_vec_resize(v, k);
                CHECK(vt_vec_len(v) == k, "length %zu after resize to %zu", vt_vec_len(v), k);
                if (k < old) m.n = k;
                else { CHECK(!memcmp(vt_array_head(v), m.d, old * es), "resize %zu -> %zu lost content", old, k); memset(val, 0x5a, es); while (m.n < k) { vt_vec_set(v, val, m.n); m_ins(&m, m.n, val); } }
                ev("big resize"); } break;
            case 8: if (m.n) { vt_vec_shrink(v); CHECK(vt_vec_capacity(v) == m.n, "capacity %zu after shrink to %zu", vt_vec_capacity(v), m.n); ev("big shrink"); } break;
            case 9: { size_t k = 1 + rn(70000), c = vt_vec_capacity(v); if (es > 40) k = 1 + k % 300; if (c < 400000) { vt_vec_reserve(v, k); CHECK(vt_vec_capacity(v) == c + k, "reserve %zu more than %zu gave %zu", k, c, vt_vec_capacity(v)); ev("big reserve"); } } break;
            case 10: if (m.n) { vt_vec_t *d = vt_vec_dup(v, al2.a); vec_whole(d, &m); vt_vec_destroy(d); ev("big dup"); } break;
        }
        vec_whole(v, &m);
    }
    uint64_t key[3] = { target, es, m.n }; seen(hash_bytes(key, sizeof key, 21));
    sample("vector grown to %zu elements of %zu bytes, %zu at the end", target, es, m.n);
    vt_vec_destroy(v); free(m.d); free(val); free(q);
    al_end(al); al_end(al2);
}
static void plist_whole(vt_plist_t *p, void **m, size_t n) {
    CHECK(vt_plist_len(p) == n, "list length is %zu, expected %zu", vt_plist_len(p), n);
    CHECK(vt_plist_capacity(p) >= n, "list capacity %zu below length %zu", vt_plist_capacity(p), n);
    for (size_t i = 0; i < n; i++) if (vt_plist_get(p, i) != m[i]) FAIL("list entry %zu of %zu is not the pointer that was stored", i, n);
    EVAL();
}
static void run_plist_big(uint64_t idx) {
    size_t target = big_len(idx), n = 0;
    al_t al = al_random(), al2 = al_random();
    vt_plist_t *p = vt_plist_create(chance(50) ? target : 1 + rn(300), al.a);
    static void *m[400000];
    for (size_t i = 0; i < target; i++) { m[n] = (void*)(uintptr_t)(16 * i + 0x1000); vt_plist_push_back(p, m[n]); n++; }
    T("filled %zu entries", target);
    plist_whole(p, m, n);
    for (int o = 0; o < 14; o++) {
        void *x = (void*)(uintptr_t)(rnd() | 1);
        size_t at = n ? (chance(50) ? n - 1 - rsize(n - 1 < 300 ? n - 1 : 300) : rn(n)) : 0;
        switch (rn(12)) {
            case 0: case 1: if (n) { T("insert at %zu of %zu", at, n); vt_plist_insert(p, x, at); memmove(m + at + 1, m + at, (n - at) * sizeof *m); m[at] = x; n++; ev("big insert"); } break;
            case 2: T("push_front to %zu", n); vt_plist_push_front(p, x); memmove(m + 1, m, n * sizeof *m); m[0] = x; n++; ev("big push_front"); break;
            case 3: if (n) { T("remove stable at %zu of %zu", at, n); vt_plist_remove(p, at, VT_REMOVE_STRATEGY_STABLE); memmove(m + at, m + at + 1, (n - at - 1) * sizeof *m); n--; ev("big remove stable"); } break;
            case 4: if (n) { T("remove fast at %zu of %zu", at, n); vt_plist_remove(p, at, VT_REMOVE_STRATEGY_FAST); m[at] = m[n - 1]; n--; ev("big remove fast"); } break;
            case 5: if (n) { vt_plist_set(p, x, at); m[at] = x; ev("big set"); } break;
            case 6: if (n) { void *q = m[at]; size_t w = 0; while (m[w] != q) w++; int64_t r = vt_plist_can_find(p, q); CHECK(r == (int64_t)w, "search in %zu entries returned %lld, expected %zu", n, (long long)r, w); ev("big search"); } break;
            case 7: { size_t k = chance(30) ? 250 + rn(12) : chance(40) ? 65530 + rn(12) : 1 + rn(n * 2 + 10); if (k > 200000) k = 200000; T("resize %zu -> %zu", n, k); vt_plist_resize(p, k);
                CHECK(vt_plist_len(p) == k, "list length %zu after resize to %zu", vt_plist_len(p), k);
                if (k < n) n = k; else while (n < k) { vt_plist_set(p, x, n); m[n++] = x; }
                ev("big resize"); } break;
            case 8: if (n) { vt_plist_shrink(p); CHECK(vt_plist_capacity(p) == n, "list capacity %zu after shrink to %zu", vt_plist_capacity(p), n); ev("big shrink"); } break;
            case 9: { size_t k = 1 + rn(70000), c = vt_plist_capacity(p); if (c < 400000) { vt_plist_reserve(p, k); CHECK(vt_plist_capacity(p) == c + k, "list reserve %zu more than %zu gave %zu", k, c, vt_plist_capacity(p)); ev("big reserve"); } } break;
            case 10: if (n) { vt_plist_t *d = vt_plist_dup(p, al2.a); plist_whole(d, m, n); vt_plist_destroy(d); ev("big dup"); } break;
            case 11: if (n) { void *q = m[at]; size_t w = 0; while (m[w] != q) w++; bool st = rn(2); T("remove_element, first at %zu of %zu", w, n); vt_plist_remove_element(p, q, st ? VT_REMOVE_STRATEGY_STABLE : VT_REMOVE_STRATEGY_FAST);
                if (st) memmove(m + w, m + w + 1, (n - w - 1) * sizeof *m); else m[w] = m[n - 1]; n--; ev("big remove_element"); } break;
        }
        plist_whole(p, m, n);
    }
    uint64_t key[2] = { target, n }; seen(hash_bytes(key, sizeof key, 22));
    sample("list grown to %zu entries, %zu at the end", target, n);
    vt_plist_destroy(p);
    al_end(al); al_end(al2);
}

/* ---- beyond 4 GiB: storage of a user allocator that reserves address space without committing it */
#include <sys/mman.h>
typedef struct { vt_mallocator_t base; struct { void *p; size_t n; } b[16]; } vast_t;
static size_t vast_round(size_t n) { return (n + 4095) & ~(size_t)4095; }
static void *vast_alloc(vt_mallocator_t *const a, const size_t n, const char *const f, const char *const fn, const size_t l) {
    (void)f; (void)fn; (void)l;
    vast_t *t = (vast_t*)a;
    if (n > ((size_t)1 << 40)) FAIL("a container of about 4 GiB asked for %zu bytes", n);
    void *p = mmap(NULL, vast_round(n) , PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { fprintf(stderr, "vast: mmap failed\n"); exit(3); }
    for (int i = 0; i < 16; i++) if (!t->b[i].p) { t->b[i].p = p; t->b[i].n = n; return p; }
    exit(3);
}
static void vast_free(vt_mallocator_t *const a, void *p, const char *const f, const char *const fn, const size_t l) {
    (void)f; (void)fn; (void)l;
    vast_t *t = (vast_t*)a;
    for (int i = 0; i < 16; i++) if (t->b[i].p == p) { munmap(p, vast_round(t->b[i].n)); t->b[i].p = NULL; return; }
    FAIL("allocator asked to free a block it does not own");
}
static void *vast_realloc(vt_mallocator_t *const a, void *p, const size_t n, const char *const f, const char *const fn, const size_t l) {
    (void)f; (void)fn; (void)l;
    vast_t *t = (vast_t*)a;
    for (int i = 0; i < 16; i++) if (t->b[i].p == p) {
        void *q = mremap(p, vast_round(t->b[i].n), vast_round(n), MREMAP_MAYMOVE);
        if (q == MAP_FAILED) { fprintf(stderr, "vast: mremap failed\n"); exit(3); }
        t->b[i].p = q; t->b[i].n = n; return q;
    }
    FAIL("allocator asked to resize a block it does not own");
}
static bool vast_room(void) { /* enough address space here? */
    void *p = mmap(NULL, (size_t)1 << 35, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { ev("no address space: case skipped"); return false; }
    munmap(p, (size_t)1 << 35); return true;
}
static vast_t vast_make(void) { vast_t t; memset(&t, 0, sizeof t); t.base.alloc = vast_alloc; t.base.realloc = vast_realloc; t.base.free = vast_free; return t; }
static void vast_end(vast_t *t) { for (int i = 0; i < 16; i++) CHECK(!t->b[i].p, "a block of %zu bytes was never returned to the allocator", t->b[i].n); }
static void run_vec_vast(uint64_t idx) {
    if (!vast_room()) return;
    static const size_t ves[] = { 1, 8, 16, 24, 4096, 65536, 1 << 20 };
    size_t es = ves[idx % 7];
    size_t n = (((size_t)1 << 32) + rn(1 << 20)) / es + 3 + rn(40); /* elements: just above 4 GiB */
    vast_t al = vast_make();
    unsigned char *val = calloc(1, es), *m = malloc(40 * es);
    T("vector of %zu elements of %zu bytes", n, es);
    vt_vec_t *v = vt_vec_create(rn(2) ? n : 1 + rn(4), es, &al.base);
    if (rn(2)) { if (vt_vec_has_space(v) < n) vt_vec_reserve(v, n); ev("vast reserve"); }
    rbytes(val, es < 64 ? es : 64); vt_vec_push_back(v, val); unsigned char first[64]; memcpy(first, val, es < 64 ? es : 64);
    vt_vec_resize(v, n);
    CHECK(vt_vec_len(v) == n && vt_vec_capacity(v) >= n, "length %zu capacity %zu after resize to %zu", vt_vec_len(v), vt_vec_capacity(v), n);
    CHECK(!memcmp(vt_vec_get(v, 0), first, es < 64 ? es : 64), "the first element changed in a resize to %zu", n);
    unsigned char *h = vt_array_head(v);
    size_t k = 1 + rn(30), base = n - k; /* the monitored tail; everything between stays untouched (zero) */
    for (size_t i = 0; i < k; i++) { rbytes(val, es < 64 ? es : 64); vt_vec_set(v, val, base + i); memcpy(m + i * es, val, es); CHECK(vt_vec_get(v, base + i) == h + (base + i) * es, "element %zu is at another place", base + i); }
    for (int o = 0; o < 25 && k; o++) {
        size_t at = rn(k); rbytes(val, es < 64 ? es : 64);
        T("operation on %zu, tail %zu at %zu", n, k, at);
        switch (rn(6)) {
            case 0: if (k < 39) { vt_vec_insert(v, val, base + at); memmove(m + (at + 1) * es, m + at * es, (k - at) * es); memcpy(m + at * es, val, es); k++; n++; ev("vast insert"); } break;
            case 1: vt_vec_remove(v, base + at, VT_REMOVE_STRATEGY_STABLE); memmove(m + at * es, m + (at + 1) * es, (k - at - 1) * es); k--; n--; ev("vast remove"); break;
            case 2: vt_vec_remove(v, base + at, VT_REMOVE_STRATEGY_FAST); if (at != k - 1) memcpy(m + at * es, m + (k - 1) * es, es); k--; n--; ev("vast remove fast"); break;
            case 3: if (k < 39) { vt_vec_push_back(v, val); memcpy(m + k * es, val, es); k++; n++; ev("vast push_back"); } break;
            case 4: vt_vec_set(v, val, base + at); memcpy(m + at * es, val, es); ev("vast set"); break;
            case 5: { void *p = vt_vec_pop_get(v); CHECK(p && !memcmp(p, m + (k - 1) * es, es), "pop of element %zu returned another value", n - 1); k--; n--; ev("vast pop"); } break;
        }
        CHECK(vt_vec_len(v) == n, "length %zu, expected %zu", vt_vec_len(v), n);
        for (size_t i = 0; i < k; i++) CHECK(!memcmp(vt_vec_get(v, base + i), m + i * es, es), "element %zu of %zu differs", base + i, n);
        CHECK(!memcmp(vt_vec_get(v, 0), first, es < 64 ? es : 64), "the first element changed");
        /* places a 32-bit offset computation would hit instead */
        size_t alias = ((base + rn(k + 1)) * es) & 0xffffffffu; if (alias > es && alias < base * es) CHECK(*((unsigned char*)vt_array_head(v) + alias) == 0, "a write to element about %zu reached byte %zu", base, alias);
    }
    if (chance(50)) { vt_vec_shrink(v); CHECK(vt_vec_capacity(v) == n, "capacity %zu after shrink to %zu", vt_vec_capacity(v), n); for (size_t i = 0; i < k; i++) CHECK(!memcmp(vt_vec_get(v, base + i), m + i * es, es), "element %zu of %zu differs after shrink", base + i, n); ev("vast shrink"); }
    uint64_t key[3] = { es, n, k }; seen(hash_bytes(key, sizeof key, 23));
    sample("vector of %zu elements of %zu bytes (%.1f GiB)", n, es, (double)n * (double)es / 1073741824.0);
    vt_vec_destroy(v); vast_end(&al); free(val); free(m);
}
static void run_plist_vast(uint64_t idx) {
    if (!vast_room()) return;
    (void)idx;
    size_t n = (((size_t)1 << 32) + rn(1 << 20)) / 8 + 3 + rn(40);
    vast_t al = vast_make();
    void *m[64];
    T("list of %zu entries", n);
    vt_plist_t *p = vt_plist_create(rn(2) ? n : 1 + rn(4), &al.base);
    vt_plist_push_back(p, pool);
    vt_plist_resize(p, n);
    CHECK(vt_plist_len(p) == n && vt_plist_capacity(p) >= n, "list length %zu capacity %zu after resize to %zu", vt_plist_len(p), vt_plist_capacity(p), n);
    size_t k = 1 + rn(30), base = n - k;
    for (size_t i = 0; i < k; i++) { m[i] = (void*)(uintptr_t)(rnd() | 1); vt_plist_set(p, m[i], base + i); }
    for (int o = 0; o < 25 && k; o++) {
        size_t at = rn(k); void *x = (void*)(uintptr_t)(rnd() | 1);
        T("list operation on %zu, tail %zu at %zu", n, k, at);
        switch (rn(6)) {
            case 0: if (k < 60) { vt_plist_insert(p, x, base + at); memmove(m + at + 1, m + at, (k - at) * sizeof *m); m[at] = x; k++; n++; ev("vast list insert"); } break;
            case 1: vt_plist_remove(p, base + at, VT_REMOVE_STRATEGY_STABLE); memmove(m + at, m + at + 1, (k - at - 1) * sizeof *m); k--; n--; ev("vast list remove"); break;
            case 2: vt_plist_remove(p, base + at, VT_REMOVE_STRATEGY_FAST); m[at] = m[k - 1]; k--; n--; ev("vast list remove fast"); break;
            case 3: if (k < 60) { vt_plist_push_back(p, x); m[k++] = x; n++; ev("vast list push_back"); } break;
            case 4: vt_plist_set(p, x, base + at); m[at] = x; ev("vast list set"); break;
            case 5: { void *q = vt_plist_pop_get(p); CHECK(q == m[k - 1], "pop of list entry %zu returned another pointer", n - 1); k--; n--; ev("vast list pop"); } break;
        }
        CHECK(vt_plist_len(p) == n, "list length %zu, expected %zu", vt_plist_len(p), n);
        for (size_t i = 0; i < k; i++) CHECK(vt_plist_get(p, base + i) == m[i], "list entry %zu of %zu differs", base + i, n);
        CHECK(vt_plist_get(p, 0) == (void*)pool, "the first list entry changed");
    }
    if (chance(50)) { vt_plist_shrink(p); CHECK(vt_plist_capacity(p) == n, "list capacity %zu after shrink to %zu", vt_plist_capacity(p), n); for (size_t i = 0; i < k; i++) CHECK(vt_plist_get(p, base + i) == m[i], "list entry %zu of %zu differs after shrink", base + i, n); ev("vast list shrink"); }
    uint64_t key[2] = { n, k }; seen(hash_bytes(key, sizeof key, 24));
    sample("list of %zu entries", n);
    vt_plist_destroy(p); vast_end(&al);
}
/* windows over more than 4 GiB */
static void run_span_vast(uint64_t idx) {
    if (!vast_room()) return;
    static const size_t ves[] = { 1, 2, 8, 16, 24, 300, 4096, 65536, 1 << 20 };
    size_t es = ves[idx % 9], bytes = ((size_t)1 << 32) + rn(1 << 24) + 4 * es, n = bytes / es;
    unsigned char *b = mmap(NULL, vast_round(bytes), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (b == MAP_FAILED) exit(3);
    unsigned char *val = malloc(es);
    size_t from = rn(3) ? rn(n / 2) : 0, to = n;
    T("window [%zu;%zu) of %zu elements of %zu bytes", from, to, n, es);
    vt_span_t s = rn(2) ? vt_span_from_to(b, from, to, es) : vt_span_from(b + from * es, to - from, es);
    CHECK(vt_span_len(s) == to - from, "window length %zu, expected %zu", vt_span_len(s), to - from);
    for (int o = 0; o < 20; o++) {
        size_t at = to - from - 1 - rsize(to - from - 1 < 5000 ? to - from - 1 : 5000);
        if (rn(3) == 0) at = rn(to - from);
        rbytes(val, es);
        CHECK(vt_span_get(s, at) == b + (from + at) * es, "window element %zu is not buffer element %zu", at, from + at);
        vt_span_set(s, val, at);
        CHECK(!memcmp(b + (from + at) * es, val, es), "window element %zu was not written", at);
        memset(b + (from + at) * es, 0, es);
        if (es == 1 || es == 2 || es == 8) {
            if (es == 1) { vt_span_setu8(s, 7, at); CHECK(b[from + at] == 7 && vt_span_getu8(s, at) == 7, "typed window access at %zu", at); }
            if (es == 2) { vt_span_setu16(s, 777, at); CHECK(((uint16_t*)b)[from + at] == 777 && vt_span_getu16(s, at) == 777, "typed window access at %zu", at); }
            if (es == 8) { vt_span_seti64(s, -7, at); CHECK(((int64_t*)b)[from + at] == -7 && vt_span_geti64(s, at) == -7, "typed window access at %zu", at); }
            memset(b + (from + at) * es, 0, es);
        }
        size_t alias = ((from + at) * es) & 0xffffffffu; CHECK(b[alias] == 0, "writing window element %zu changed byte %zu", at, alias);
        alias = (at * es) & 0xffffffffu; CHECK(b[from * es + alias < bytes ? from * es + alias : 0] == 0, "writing window element %zu changed another byte", at);
        ev("vast window access");
    }
    uint64_t key[3] = { es, from, to }; seen(hash_bytes(key, sizeof key, 25));
    sample("window [%zu;%zu) of %zu x %zu bytes", from, to, n, es);
    munmap(b, vast_round(bytes)); free(val);
}

const section_t sections[] = {
    { "vec", run_vec, true }, { "vec_typed", run_vec_typed, true }, { "plist", run_plist, true },
    { "iter", run_iter, true }, { "span", run_span, true },
    { "vec_big", run_vec_big, true }, { "plist_big", run_plist_big, true },
    { "vec_vast", run_vec_vast, true }, { "plist_vast", run_plist_vast, true }, { "span_vast", run_span_vast, true }, { NULL, NULL, false }
};

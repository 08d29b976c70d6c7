/* dynamic strings: model-based monitors */
#include "track.h"
#include <wchar.h>
#include "vita/container/str.h"
#include <ctype.h>

void section_setup(const char *name) { (void)name; vt_debug_disable_output(true); }

#define MAXZ 400000
static void same(const vt_str_t *s, const char *m, const char *what) {
    size_t n = strlen(m);
    CHECK(vt_str_len(s) == n, "%s: length is %zu, expected %zu (text %s, expected %s)", what, vt_str_len(s), n, shown(vt_str_z(s), strnlen(vt_str_z(s), vt_str_len(s))), show(m));
    const char *z = vt_str_z(s);
    CHECK(!memcmp(z, m, n), "%s: text is %s, expected %s", what, shown(z, n), show(m));
    CHECK(z[n] == 0, "%s: no terminator after %zu characters", what, n);
    CHECK(vt_str_capacity(s) >= n, "%s: capacity %zu below length %zu", what, vt_str_capacity(s), n);
    CHECK(vt_str_has_space(s) == vt_str_capacity(s) - n, "%s: free space %zu, capacity %zu, length %zu", what, vt_str_has_space(s), vt_str_capacity(s), n);
    CHECK(vt_str_is_empty(s) == (n == 0), "%s: is_empty() for length %zu", what, n);
    seen(hash_bytes(m, n, n) ^ vt_str_capacity(s) * 31337);
}
static const char *alphabets[] = { "ab", "abc", "a,;", "ab \t\n.", "abcdefghijklmnopqrstuvwxyz", "aA zZ09.,!?-\n\t;", "\xc3\xa9""a\xff\x80 ", "a/b.", "0123456789.", "  \t", "a%sdn 1", "%", "@AZ[`az{", "!/09:;<=>?@ABYZ[\\]^_`abyz{|}~\x7f" };
static char every[256]; /* all the bytes a text can contain, except 1 to 4, which serve as markers */
static const char *alpha(void) { size_t k = rn(sizeof alphabets / sizeof *alphabets + 1); if (k < sizeof alphabets / sizeof *alphabets) return alphabets[k]; for (int i = 0; i < 251; i++) every[i] = (char)(i + 5); return every; }

/* ---------------------------------------------------------------- reference text operations (naive, independent) */
static bool at_is(const char *m, size_t i, const char *sub) { return !strncmp(m + i, sub, strlen(sub)); }
static long r_find(const char *m, const char *sub, size_t from) {
    size_t n = strlen(m), k = strlen(sub);
    for (size_t i = from; i + k <= n; i++) if (at_is(m, i, sub)) return (long)i;
    return -1;
}
static size_t r_count(const char *m, const char *sub) {
    size_t c = 0, k = strlen(sub); long i = 0;
    if (!k) return 0;
    while ((i = r_find(m, sub, (size_t)i)) >= 0) { c++; i += (long)k; }
    return c;
}
static long r_last_scan(const char *m, const char *sub) { /* last one met by a left-to-right scan without overlaps */
    long i = 0, l = -1; size_t k = strlen(sub);
    while ((i = r_find(m, sub, (size_t)i)) >= 0) { l = i; i += (long)k; }
    return l;
}
static long r_last_right(const char *m, const char *sub) {
    long n = (long)strlen(m) - (long)strlen(sub);
    for (long i = n; i >= 0; i--) if (at_is(m, (size_t)i, sub)) return i;
    return -1;
}
static void r_splice(char *m, size_t at, size_t del, const char *ins) {
    size_t n = strlen(m), k = strlen(ins);
    memmove(m + at + k, m + at + del, n - at - del + 1);
    memcpy(m + at, ins, k);
}

/* ================================================================ editing ==================================== */
/* the first c characters alone, in a block that ends right after them: functions given a count need no terminator */
static char *exact(const char *z, size_t c) { if (!c || chance(50)) return NULL; char *e = malloc(c); memcpy(e, z, c); ev("counted source without terminator"); return e; }
static void edit_case(int kind) {
    al_t al = al_make(kind);
    static char m[MAXZ], z[2048];
    vt_str_t *s;
    switch (rn(4)) {
        case 0: rtext(z, rsize(60), alpha()); T("create(%s)", show(z)); s = vt_str_create(z, al.a); strcpy(m, z); ev("str.create"); break;
        case 1: { size_t n = 1 + rsize(60); T("create_len(%zu)", n); s = vt_str_create_len(n, al.a); ev("str.create_len");
                  CHECK(vt_str_len(s) == n && strlen(vt_str_z(s)) == n, "create_len(%zu): length %zu, text length %zu", n, vt_str_len(s), strlen(vt_str_z(s)));
                  strcpy(m, vt_str_z(s)); } break;
        case 2: { size_t n = 1 + rsize(60); T("create_capacity(%zu)", n); s = vt_str_create_capacity(n, al.a); m[0] = 0; ev("str.create_capacity");
                  CHECK(vt_str_capacity(s) >= n, "create_capacity(%zu) made room for %zu", n, vt_str_capacity(s)); } break;
        default: {
            rtext(z, rsize(40), alpha()); strcpy(m, z); T("take_ownership(%s)", show(z)); ev("str.take_ownership");
            char *own = al.a ? VT_ALLOCATOR_ALLOC(al.a, strlen(z) + 1) : malloc(strlen(z) + 1);
            strcpy(own, z);
            s = vt_str_take_ownership(own, al.a);
            CHECK(vt_str_z(s) == own, "ownership of another buffer was taken");
        } break;
    }
    CHECK(vt_array_has_alloctr(s) == (al.a != NULL), "has_alloctr()");
    const char *what = "create";
    size_t nops = 5 + rn(g_thorough ? 120 : 60);
    for (size_t o = 0; o < nops; o++) {
        same(s, m, what);
        size_t n = strlen(m);
        rtext(z, rsize(chance(5) ? 600 : 24), alpha());
        size_t k = strlen(z);
        if (n + k > 6000) { vt_str_clear(s); m[0] = 0; what = "clear"; continue; }
        if (chance(10)) { /* an iteration abandoned here and there must not matter to the text */
            bool back = rn(2); size_t c = 1 + rsize(n + 1); T("%zu %s iteration steps", c, back ? "backward" : "forward"); ev("str.steps in between");
            for (size_t i = 0; i < c; i++) { if (back) vt_str_slide_back(s); else vt_str_slide_front(s); }
            same(s, m, "iteration steps");
        }
        switch (rn(20)) {
            case 0: case 1: T("append(%s)", show(z)); what = "append"; ev(k ? "str.append" : "str.append empty"); vt_str_append(s, z); strcat(m, z); break;
            case 2: { size_t c = rsize(k); T("append_n(%s, %zu)", show(z), c); what = "append_n"; ev("str.append_n"); { char *e = exact(z, c); vt_str_append_n(s, e ? e : z, c); free(e); } z[c] = 0; strcat(m, z); } break;
            case 3: case 4: { size_t at = rsize(n); T("insert(%s, at %zu of %zu)", show(z), at, n); what = "insert"; ev(at == n ? "str.insert at end" : "str.insert");
                     vt_str_insert(s, z, at); r_splice(m, at, 0, z); } break;
            case 5: { size_t at = rsize(n), c = rsize(k); if (!c) break; T("insert_n(%s, at %zu, %zu)", show(z), at, c); what = "insert_n"; ev("str.insert_n");
                     { char *e = exact(z, c); vt_str_insert_n(s, e ? e : z, at, c); free(e); } z[c] = 0; r_splice(m, at, 0, z); } break;
            case 6: case 7: { if (!n) break; size_t from = rsize(n - 1), c = 1 + rsize(n + 3); T("remove(from %zu, %zu) of %zu", from, c, n); what = "remove"; ev("str.remove");
                     if (chance(5)) c = (size_t)-1 - rn(3);
                     vt_str_remove(s, from, c); if (c > n - from) c = n - from; r_splice(m, from, c, ""); } break;
            case 8: { size_t c = k > n ? n : k; z[c] = 0; T("set(%s) over %zu", show(z), n); what = "set"; ev("str.set");
                     size_t cap = vt_str_capacity(s);
                     if (chance(50)) vt_str_set(s, z); else { char *e = exact(z, c); vt_str_set_n(s, e ? e : z, c); free(e); }
                     CHECK(vt_str_capacity(s) == cap, "set changed the capacity"); strcpy(m, z); } break;
            case 9: { if (!n) break; size_t at = rsize(n - 1); if (k > n - at) z[n - at] = 0; T("set_at(%s, %zu) of %zu", show(z), at, n); what = "set_at"; ev("str.set_at");
                     enum VitaStatus r = vt_str_set_at(s, z, at); CHECK(r == VT_STATUS_OPERATION_SUCCESS, "set_at status"); strcpy(m + at, z); } break;
            case 10: { if (!n) break; size_t at = rsize(n - 1); char c = "xY. \xff"[rn(5)]; T("set_c(%c, %zu)", c, at); what = "set_c"; ev("str.set_c");
                     CHECK(vt_str_set_c(s, c, at) == VT_STATUS_OPERATION_SUCCESS, "set_c status"); m[at] = c; } break;
            case 11: { size_t c = 1 + rsize(100), cap = vt_str_capacity(s); T("reserve(%zu)", c); what = "reserve"; ev("str.reserve"); vt_str_reserve(s, c);
                     CHECK(vt_str_capacity(s) == cap + c, "capacity %zu after reserving %zu more than %zu", vt_str_capacity(s), c, cap); } break;
            case 12: T("shrink"); what = "shrink"; ev("str.shrink"); vt_str_shrink(s); CHECK(vt_str_capacity(s) == n, "capacity %zu after shrinking to %zu", vt_str_capacity(s), n); break;
            case 13: { size_t c = 1 + rsize(80); T("resize(%zu) of %zu", c, n); what = "resize"; ev(c < n ? "str.resize cut" : "str.resize grow"); vt_str_resize(s, c);
                     if (c < n) m[c] = 0;
                     CHECK(vt_str_capacity(s) == c, "capacity %zu after resizing to %zu", vt_str_capacity(s), c); } break;
            case 14: if (chance(30)) { T("clear"); what = "clear"; ev("str.clear"); vt_str_clear(s); m[0] = 0; } break;
            case 15: { /* text is cut through the raw pointer, then revalidated */
                     size_t at = rsize(n); ((char*)vt_str_z(s))[at] = 0; T("cut raw at %zu of %zu, validate_len", at, n); what = "validate_len"; ev("str.validate_len");
                     size_t r = vt_str_validate_len(s); m[at] = 0; CHECK(r == at, "validate_len returned %zu, expected %zu", r, at); } break;
            case 16: { T("dup"); what = "dup"; ev(n ? "str.dup" : "str.dup empty");
                     vt_str_t *d = vt_str_dup(s); same(d, m, "dup");
                     CHECK(vt_str_z(d) != vt_str_z(s), "copy shares storage with the original");
                     CHECK(vt_str_equals(d, s), "a copy does not equal its original");
                     if (chance(50)) { vt_str_append(d, "tail"); vt_str_insert(d, "head", 0); same(s, m, "original after its copy changed"); vt_str_destroy(d); }
                     else { vt_str_destroy(s); s = d; } } break;
            case 17: { /* announced free space is usable without moving the storage */
                     size_t f = vt_str_has_space(s); if (f > 200) f = 200; if (!f) break;
                     rtext(z, f, alpha()); const char *p0 = vt_str_z(s);
                     vt_str_append(s, z);
                     CHECK(vt_str_z(s) == p0, "appending %zu characters into announced free space reallocated", f);
                     strcat(m, z); what = "append into free space"; ev("str.fill free space"); } break;
            case 18: { /* room check used by callers who write through the raw pointer: the whole capacity is writable */
                     size_t cap = vt_str_capacity(s); if (cap > 2000 || cap < n) break;
                     char *p = (char*)vt_str_z(s);
                     for (size_t i = n; i < cap; i++) p[i] = 'w';
                     p[cap] = 0;
                     size_t r = vt_str_validate_len(s);
                     CHECK(r == cap, "validate_len after filling the capacity %zu by hand returned %zu", cap, r);
                     for (size_t i = n; i < cap; i++) m[i] = 'w';
                     m[cap] = 0; what = "raw fill"; ev("str.raw fill"); } break;
            case 19: { T("appendf"); what = "appendf"; ev("str.appendf"); CHECK(vt_str_appendf(s, "[%s|%zu]", z, k) == VT_STATUS_OPERATION_SUCCESS, "appendf status"); sprintf(m + n, "[%s|%zu]", z, k); } break;
        }
    }
    same(s, m, what);
    sample("edited text of %zu characters after %zu operations: %.60s", strlen(m), nops, show(m));
    vt_str_destroy(s);
    al_end(al);
}
static void run_edit(uint64_t idx) { (void)idx; edit_case((int)rn(3)); }

/* ================================================================ search and replace ========================= */
static bool strip_set(unsigned char c, int mode, const char *set) {
    if (mode == 0) return c == ' ' || (c >= 9 && c <= 13);
    if (mode == 1) return c == ' ' || (c >= 9 && c <= 13) || (c >= 33 && c <= 47) || (c >= 58 && c <= 64) || (c >= 91 && c <= 96) || (c >= 123 && c <= 126);
    return c && strchr(set, c) != NULL;
}
static void r_strip(char *m, int mode, const char *set) {
    size_t n = strlen(m), a = 0;
    while (n && strip_set((unsigned char)m[n - 1], mode, set)) n--;
    m[n] = 0;
    while (m[a] && strip_set((unsigned char)m[a], mode, set)) a++;
    memmove(m, m + a, n - a + 1);
}
/* a needle that is likely to occur: a piece of the text, or random */
static void needle(char *o, const char *m, const char *al) {
    size_t n = strlen(m);
    if (n && chance(65)) { size_t a = rn(n), k = 1 + rsize(n - a - 1 > 6 && !chance(8) ? 6 : n - a - 1); if (chance(2)) { a = 0; k = n; } memcpy(o, m + a, k); o[k] = 0; }
    else rtext(o, 1 + rsize(4), al);
}
static void run_query(uint64_t idx) {
    (void)idx;
    al_t al = al_random();
    const char *ab = alpha();
    static char m[MAXZ], z[1024], y[1024];
    bool wide = chance(4); /* long texts, long needles, long replacements */
    rtext(m, wide ? 300 + rn(450) : rsize(chance(4) ? 700 : 80), ab);
    vt_str_t *s = vt_str_create_capacity(1 + rn(40), al.a);
    vt_str_append(s, m);
    size_t nops = 8 + rn(24);
    const char *what = "create";
    for (size_t o = 0; o < nops; o++) {
        same(s, m, what);
        size_t n = strlen(m);
        if (n < (chance(50) ? 1 : 4) || n > 800) { vt_str_clear(s); rtext(m, 6 + rsize(70), ab); vt_str_append(s, m); n = strlen(m); }
        needle(z, m, ab);
        if (wide && n > 210 && chance(60)) { size_t a = rn(n - 200), k = 200 + rn(n - 200 - a); memcpy(z, m + a, k); z[k] = 0; ev("long needle"); }
        if (strlen(z) > n) z[n] = 0;
        rtext(y, rsize(chance(3) ? 300 : 6), chance(50) ? ab : "XYZ"); if (wide && chance(50)) rtext(y, 200 + rn(600), "XYZ");
        long f = r_find(m, z, 0);
        switch (rn(21)) {
            case 0: { T("find(%s) in %s", show(z), show(m)); what = "find"; ev(f < 0 ? "find absent" : "find present");
                const char *p = vt_str_find(s, z);
                CHECK(p == (f < 0 ? NULL : vt_str_z(s) + f), "find(%s) in %s returned offset %ld, expected %ld", show(z), show(m), p ? (long)(p - vt_str_z(s)) : -1L, f);
                CHECK(vt_str_index_find(s, z) == f, "index_find(%s) in %s returned %lld, expected %ld", show(z), show(m), (long long)vt_str_index_find(s, z), f); } break;
            case 1: { if (chance(5)) z[0] = 0; T("can_find(%s) in %s", show(z), show(m)); what = "can_find"; ev("count");
                size_t c = vt_str_can_find(s, z), w = r_count(m, z);
                CHECK(c == w, "count of %s in %s is %zu, expected %zu", show(z), show(m), c, w); } break;
            case 2: { char c = m[0]; if (chance(60)) c = m[rn(n)]; else c = "aqZ,"[rn(4)]; T("index_of(%c)", c); what = "index_of"; ev("index_of");
                long w = -1; for (size_t i = 0; i < n; i++) if (m[i] == c) { w = (long)i; break; }
                CHECK(vt_str_index_of(s, c) == w, "index of '%c' in %s is %lld, expected %ld", c, show(m), (long long)vt_str_index_of(s, c), w); } break;
            case 3: { what = "starts/ends_with"; ev("starts/ends");
                char b[1000];
                size_t k = rsize(n > 8 && chance(85) ? 8 : n);
                memcpy(b, m, k); b[k] = 0; if (k && chance(40)) b[rn(k)] ^= 1;
                if (strlen(b) == k) { CHECK(vt_str_starts_with(s, b) == !strncmp(m, b, k), "starts_with(%s) of %s", show(b), show(m)); }
                memcpy(b, m + n - k, k); b[k] = 0; if (k && chance(40)) b[rn(k)] ^= 1;
                if (strlen(b) == k) CHECK(vt_str_ends_with(s, b) == !strcmp(m + n - k, b), "ends_with(%s) of %s", show(b), show(m));
                static char lng[MAXZ + 4]; snprintf(lng, sizeof lng, "%sx", m);
                CHECK(!vt_str_starts_with(s, lng) && !vt_str_ends_with(s, lng), "a longer text is reported as prefix or suffix"); } break;
            case 4: { what = "equals"; ev("equals");
                static char b[MAXZ + 4]; strcpy(b, m);
                if (chance(60)) { size_t at = rn(n); b[at] = (char)(b[at] == 'q' ? 'r' : 'q'); }
                if (chance(20)) b[n - 1] = 0;
                if (chance(20)) strcat(b, "z");
                bool w = !strcmp(m, b);
                CHECK(vt_str_equals_z(vt_str_z(s), b) == w, "equals_z(%s, %s) is not %d", show(m), show(b), w);
                if (*b) { vt_str_t *t = vt_str_create(b, NULL); CHECK(vt_str_equals(s, t) == w && vt_str_equals(t, s) == w, "equals(%s, %s) is not %d", show(m), show(b), w); vt_str_destroy(t); }
                vt_str_t st2 = vt_str_create_static(b); CHECK(vt_str_equals(s, &st2) == w, "equals(%s, view of %s) is not %d", show(m), show(b), w);
                size_t k = strlen(b) < n ? strlen(b) : n; if (k) { k = 1 + rn(k); CHECK(vt_str_equals_n(m, b, k) == !memcmp(m, b, k), "equals_n(%s, %s, %zu)", show(m), show(b), k); } } break;
            case 5: { T("insert_before(%s, %s) in %s", show(z), show(y), show(m)); what = "insert_before"; ev(f < 0 ? "insert_before absent" : "insert_before"); vt_str_insert_before(s, z, y); if (f >= 0) r_splice(m, (size_t)f, 0, y); } break;
            case 6: { T("insert_after(%s, %s) in %s", show(z), show(y), show(m)); what = "insert_after"; ev(f < 0 ? "insert_after absent" : "insert_after"); vt_str_insert_after(s, z, y); if (f >= 0) r_splice(m, (size_t)f + strlen(z), 0, y); } break;
            case 7: { T("remove_first(%s) in %s", show(z), show(m)); what = "remove_first"; ev(f < 0 ? "remove_first absent" : "remove_first");
                enum VitaStatus r = vt_str_remove_first(s, z);
                CHECK(r == (f < 0 ? VT_STATUS_ERROR_ELEMENT_NOT_FOUND : VT_STATUS_OPERATION_SUCCESS), "remove_first(%s) in %s: status %s", show(z), show(m), vt_status_to_str(r));
                if (f >= 0) r_splice(m, (size_t)f, strlen(z), ""); } break;
            case 8: { T("remove_last(%s) in %s", show(z), show(m)); what = "remove_last"; ev(f < 0 ? "remove_last absent" : "remove_last");
                long a = r_last_scan(m, z), b = r_last_right(m, z);
                enum VitaStatus r = vt_str_remove_last(s, z);
                CHECK(r == (f < 0 ? VT_STATUS_ERROR_ELEMENT_NOT_FOUND : VT_STATUS_OPERATION_SUCCESS), "remove_last(%s) in %s: status %s", show(z), show(m), vt_status_to_str(r));
                if (f >= 0) { /* when occurrences overlap, either reading of "last" is accepted */
                    static char mb[MAXZ]; strcpy(mb, m); r_splice(mb, (size_t)b, strlen(z), ""); r_splice(m, (size_t)a, strlen(z), "");
                    if (a != b && !strcmp(vt_str_z(s), mb)) strcpy(m, mb);
                } } break;
            case 9: { if (chance(4)) z[0] = 0; T("remove_all(%s) in %s", show(z), show(m)); what = "remove_all"; ev(f < 0 ? "remove_all absent" : "remove_all");
                CHECK(vt_str_remove_all(s, z) == VT_STATUS_OPERATION_SUCCESS, "remove_all status");
                if (*z) {
                    /* the needle must be gone; one pass, or repeated until none is left, are both "all" only if none is left */
                    while ((f = r_find(m, z, 0)) >= 0) r_splice(m, (size_t)f, strlen(z), "");
                } } break;
            case 10: { char cs[24]; rtext(cs, rsize(chance(10) ? 20 : 4), ab); T("remove_c(%s) in %s", show(cs), show(m)); what = "remove_c"; ev("remove_c");
                vt_str_remove_c(s, cs); size_t w = 0; for (size_t i = 0; i < n; i++) if (!strchr(cs, m[i])) m[w++] = m[i]; m[w] = 0; } break;
            case 11: { T("replace(%s, %s) in %s", show(z), show(y), show(m)); what = "replace"; ev(*y ? (f < 0 ? "replace absent" : "replace") : "replace with nothing");
                if (chance(4)) z[0] = 0;
                vt_str_replace(s, z, y);
                if (*z && *y) { size_t at = 0; while ((f = r_find(m, z, at)) >= 0) { r_splice(m, (size_t)f, strlen(z), y); at = (size_t)f + strlen(y); } } } break;
            case 12: { T("replace_first(%s, %s) in %s", show(z), show(y), show(m)); what = "replace_first"; ev(f < 0 ? "replace_first absent" : "replace_first");
                vt_str_replace_first(s, z, y); if (f >= 0 && *y) r_splice(m, (size_t)f, strlen(z), y); } break;
            case 13: { T("replace_last(%s, %s) in %s", show(z), show(y), show(m)); what = "replace_last"; ev(f < 0 ? "replace_last absent" : "replace_last");
                long a = r_last_scan(m, z), b = r_last_right(m, z);
                vt_str_replace_last(s, z, y);
                if (f >= 0 && *y) {
                    static char mb[MAXZ]; strcpy(mb, m); r_splice(mb, (size_t)b, strlen(z), y); r_splice(m, (size_t)a, strlen(z), y);
                    if (a != b && !strcmp(vt_str_z(s), mb)) strcpy(m, mb);
                } } break;
            case 14: { char c[8], r[8]; rtext(c, rsize(4), ab); rtext(r, rsize(strlen(c)), "123"); T("replace_c(%s, %s) in %s", show(c), show(r), show(m)); what = "replace_c"; ev("replace_c");
                vt_str_replace_c(s, c, r);
                if (*c && *r) for (size_t i = 0; i < n; i++) { const char *q = strchr(c, m[i]); if (q) { size_t j = (size_t)(q - c); m[i] = j < strlen(r) ? r[j] : r[strlen(r) - 1]; } } } break;
            case 15: case 16: {
                int mode = (int)rn(3); char set[80]; rtext(set, rsize(4), chance(70) ? ab : " .,");
                if (chance(25)) { /* a long set: every member counts */
                    static const char all[] = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ_-+*/()[]{}<>|&%$"; size_t q = 5 + rn(60); q = q < sizeof all - 1 ? q : sizeof all - 1; size_t o = rn(sizeof all - q); memcpy(set, all + o, q); set[q] = 0; if (chance(50)) { set[q] = ab[rn(strlen(ab))]; set[q + 1] = 0; } ev("strip a long set"); }
                if (chance(35)) { /* all strippable, or padded on both sides */
                    const char *pad = mode == 0 ? " \t\n\r" : mode == 1 ? " .,\n!?" : set; char l[20] = "", r[20] = "";
                    if (*pad) { rtext(l, rsize(8), pad); rtext(r, rsize(8), pad); }
                    if (chance(40)) m[0] = 0;
                    r_splice(m, 0, 0, l); strcat(m, r);
                    vt_str_clear(s); vt_str_append(s, m);
                }
                T("strip mode %d set %s of %s", mode, show(set), show(m)); what = mode == 0 ? "strip" : mode == 1 ? "strip_punct" : "strip_c";
                if (mode == 0) vt_str_strip(s); else if (mode == 1) vt_str_strip_punct(s); else vt_str_strip_c(s, set);
                r_strip(m, mode, set);
                ev(*m ? "strip" : "strip to nothing"); } break;
            case 17: { T("uppercase"); what = "uppercase"; ev("uppercase"); vt_str_to_uppercase(s); for (char *p = m; *p; p++) if (*p >= 'a' && *p <= 'z') *p = (char)(*p - 32); } break;
            case 18: { T("lowercase"); what = "lowercase"; ev("lowercase"); vt_str_to_lowercase(s); for (char *p = m; *p; p++) if (*p >= 'A' && *p <= 'Z') *p = (char)(*p + 32); } break;
            case 19: { what = "is_numeric"; char d[400]; rtext(d, 1 + rsize(chance(80) ? 10 : 380), chance(70) ? "0123456789." : chance(50) ? "0123456789.a- " : "0123456789./:\xb0\xb9\xae");
                if (chance(30)) { char odd[2]; rtext(odd, 1, "a- /:,+\xb0\xb2\xae\x80\xff"); d[chance(50) ? strlen(d) - 1 : rn(strlen(d))] = odd[0]; }
                bool w = strspn(d, "0123456789.") == strlen(d); ev(w ? "numeric" : "not numeric");
                vt_str_t q = vt_str_create_static(d);
                CHECK(vt_str_is_numeric(&q) == w, "is_numeric(%s) is not %d", show(d), w);
                CHECK(vt_str_is_numeric_z(d, strlen(d)) == w, "is_numeric_z(%s) is not %d", show(d), w);
                size_t part = 1 + rn(strlen(d)); w = strspn(d, "0123456789.") >= part; CHECK(vt_str_is_numeric_z(d, part) == w, "is_numeric_z(first %zu of %s) is not %d", part, show(d), w); } break;
            case 20: { vt_str_t *t = vt_str_create_len(1 + rn(5), al.a); vt_str_destroy(t); vt_str_shrink(s); what = "shrink"; } break;
        }
    }
    same(s, m, what);
    sample("after %zu search/replace operations: %.60s", nops, show(m));
    vt_str_destroy(s);
    al_end(al);
}

/* ================================================================ split, join, pop =========================== */
static void free_str(void *p, size_t i) { (void)i; vt_str_destroy(p); }
static void run_split(uint64_t idx) {
    (void)idx;
    static char m[MAXZ], sep[160], w[MAXZ];
    static const char *seps[] = { ",", ";", ", ", "ab", "aa", "/", "::", "-+-", "a", "<=>!", "-----", "\xe2\x86\x92", "[separator]", "abab" };
    #define NSEPS (sizeof seps / sizeof *seps)
    const char *ab = alpha();
    int what = (int)rn(6);
    al_t al = al_random();
    strcpy(sep, seps[rn(NSEPS)]);
    if (chance(12)) rtext(sep, 1 + rsize(chance(10) ? 140 : 12), chance(50) ? ab : "=-+"); /* any text can separate */
    /* text: pieces (possibly empty) around the separator */
    m[0] = 0;
    size_t pieces = rn(chance(3) ? 400 : 9); if (chance(1) && strlen(sep) < 20) { pieces = 1000 + rn(3000); ev("thousands of pieces"); } size_t maxpiece = chance(3) ? 900 / (pieces + 1) + 1 : 10;
    for (size_t i = 0; i < pieces; i++) {
        static char p[1024]; rtext(p, chance(35) ? 0 : rsize(maxpiece), ab);
        strcat(m, p);
        if (i + 1 < pieces || chance(30)) strcat(m, sep);
    }
    if (chance(10)) { m[0] = 0; size_t k = 1 + rn(6); while (k--) strcat(m, sep); } /* separators only */
    size_t n = strlen(m);
    switch (what) {
        case 0: case 1: { /* split: the non-empty pieces in order; nothing when the separator does not occur */
            if (n < strlen(sep)) strcpy(m, sep);
            vt_str_t *s = vt_str_create(m, al.a);
            vt_plist_t *given = NULL; bool reuse = chance(40);
            static char old[3]; size_t nold = 0;
            if (reuse) { given = vt_plist_create(1 + rn(4), al.a); if (chance(40)) { nold = 1 + rn(3); for (size_t i = 0; i < nold; i++) vt_plist_push_back(given, &old[i]); } }
            T("split(%s by %s)", show(m), show(sep));
            vt_plist_t *p = vt_str_split(given, s, sep);
            if (r_find(m, sep, 0) < 0) { CHECK(p == NULL, "splitting %s by absent %s returned a list", show(m), show(sep)); ev("split absent"); if (given) vt_plist_clear(given); }
            else {
                CHECK(p != NULL, "splitting %s by %s returned nothing", show(m), show(sep));
                if (given) CHECK(p == given, "the supplied list was not used");
                size_t k = 0, at = 0; long f;
                for (;;) {
                    f = r_find(m, sep, at);
                    size_t l = (f < 0 ? strlen(m) : (size_t)f) - at;
                    if (l) {
                        memcpy(w, m + at, l); w[l] = 0;
                        CHECK(k < vt_plist_len(p), "splitting %s by %s gave %zu pieces, more were expected", show(m), show(sep), vt_plist_len(p));
                        same(vt_plist_get(p, k), w, "split piece");
                        k++;
                    }
                    if (f < 0) break;
                    at = (size_t)f + strlen(sep);
                }
                CHECK(vt_plist_len(p) == k, "splitting %s by %s gave %zu pieces, expected %zu", show(m), show(sep), vt_plist_len(p), k);
                ev(k ? "split" : "split into nothing");
                seen(hash_bytes(m, strlen(m), k));
                sample("split %s by %s: %zu pieces", show(m), show(sep), k);
                /* joining the pieces again and splitting gives the same pieces */
                if (k > 1) {
                    vt_plist_t *zs = vt_plist_create(k, NULL);
                    for (size_t i = 0; i < k; i++) vt_plist_push_back(zs, vt_str_z(vt_plist_get(p, i)));
                    vt_str_t *j = vt_str_join(NULL, sep, zs);
                    w[0] = 0;
                    for (size_t i = 0; i < k; i++) { if (i) strcat(w, sep); strcat(w, vt_plist_get(zs, i)); }
                    same(j, w, "join of split pieces"); ev("join after split");
                    vt_str_destroy(j); vt_plist_destroy(zs);
                }
                vt_plist_apply(p, free_str);
                if (!given) vt_plist_destroy(p);
            }
            same(s, m, "split source");
            if (given) vt_plist_destroy(given);
            vt_str_destroy(s);
        } break;
        case 2: { /* join: pieces in order with the separator between neighbours, appended to the supplied string */
            size_t k = chance(10) ? 0 : chance(4) ? 300 + rn(1700) : 1 + rn(8); static char parts[2100][40];
            vt_plist_t *p = vt_plist_create(1 + k, al.a);
            for (size_t i = 0; i < k; i++) { rtext(parts[i], chance(15) ? 0 : rsize(12), ab); vt_plist_push_back(p, parts[i]); }
            if (chance(15)) sep[0] = 0;
            vt_str_t *dst = NULL; w[0] = 0;
            if (chance(40)) { dst = vt_str_create("pre:", al.a); strcpy(w, "pre:"); }
            for (size_t i = 0; i < k; i++) { if (i) strcat(w, sep); strcat(w, parts[i]); }
            T("join of %zu pieces by %s", k, show(sep));
            vt_str_t *j = vt_str_join(dst, sep, p);
            if (dst) CHECK(j == dst, "the supplied string was not used");
            same(j, w, "join"); ev(k ? "join" : "join nothing");
            vt_str_destroy(j); vt_plist_destroy(p);
            w[0] = 0;
            static char *q[9] = { parts[0], parts[1], parts[2], parts[3], parts[4], parts[5], parts[6], parts[7], parts[8] };
            for (size_t i = k; i < 9; i++) rtext(parts[i], chance(15) ? 0 : rsize(12), ab);
            size_t c = 1 + rn(9);
            for (size_t i = 0; i < c; i++) { if (i) strcat(w, sep); strcat(w, parts[i]); }
            j = vt_str_join_n(NULL, sep, c, q[0], q[1], q[2], q[3], q[4], q[5], q[6], q[7], q[8]);
            same(j, w, "join_n"); ev("join_n");
            vt_str_destroy(j);
        } break;
        case 3: case 4: { /* pop the part before the first / after the last separator */
            bool first = what == 3;
            vt_str_t *s = vt_str_create_capacity(n + 1 + rn(10), al.a); vt_str_append(s, m);
            for (int round = 0; round < 4; round++) {
                n = strlen(m);
                vt_str_t *dst = NULL;
                if (chance(50)) dst = vt_str_create(chance(50) ? "x" : "some longer text here", al.a);
                static char before[64]; strcpy(before, dst ? vt_str_z(dst) : "");
                T("pop_get_%s(%s by %s)", first ? "first" : "last", show(m), show(sep));
                long f = first ? r_find(m, sep, 0) : r_last_scan(m, sep), f2 = first ? f : r_last_right(m, sep);
                if (f != f2) { if (dst) vt_str_destroy(dst); break; } /* overlapping occurrences: "last" is ambiguous */
                size_t part = f < 0 ? 0 : first ? (size_t)f : n - (size_t)f - strlen(sep);
                vt_str_t *r = first ? vt_str_pop_get_first(dst, s, sep) : vt_str_pop_get_last(dst, s, sep);
                if (f < 0 || !part) { /* nothing to pop */
                    CHECK(r == dst, "popping from %s by %s returned something", show(m), show(sep));
                    if (dst) same(dst, before, "untouched result");
                    same(s, m, "untouched source");
                    ev("pop nothing");
                    if (dst) vt_str_destroy(dst);
                    break;
                }
                CHECK(r != NULL && (!dst || r == dst), "popping from %s by %s gave nothing or another string", show(m), show(sep));
                memcpy(w, first ? m : m + f + strlen(sep), part); w[part] = 0;
                same(r, w, "popped part");
                if (first) memmove(m, m + part + strlen(sep), n - part - strlen(sep) + 1); else m[f] = 0;
                same(s, m, "rest");
                ev(first ? "pop first" : "pop last");
                vt_str_destroy(r);
            }
            vt_str_destroy(s);
        } break;
        case 5: { /* text between two delimiters: after the first left one, up to the next right one */
            char zl[400], zr[400]; strcpy(zl, seps[rn(NSEPS)]); strcpy(zr, chance(25) ? zl : seps[rn(NSEPS)]);
            if (chance(10)) rtext(zl, 1 + rsize(chance(25) ? 390 : 30), "xyz-a[");
            if (chance(10)) rtext(zr, 1 + rsize(chance(25) ? 390 : 30), "xyz-a]");
            m[0] = 0;
            for (size_t i = 0, k = rn(6); i < k; i++) { char p[16]; rtext(p, rsize(6), "xyz-a"); strcat(m, p); if (chance(70)) strcat(m, chance(50) ? zl : zr); }
            vt_str_t *dst = chance(50) ? vt_str_create("some previous text", al.a) : NULL;
            T("split_between(%s, %s, %s)", show(m), show(zl), show(zr));
            long a = r_find(m, zl, 0), b = a < 0 ? -1 : r_find(m, zr, (size_t)a + strlen(zl));
            vt_str_t *r = vt_str_split_between(dst, m, zl, zr);
            if (b < 0) { CHECK(r == NULL, "split_between(%s, %s, %s) returned %s", show(m), show(zl), show(zr), r ? show(vt_str_z(r)) : ""); ev("between absent"); }
            else {
                CHECK(r != NULL, "split_between(%s, %s, %s) returned nothing", show(m), show(zl), show(zr));
                if (dst) CHECK(r == dst, "split_between did not use the supplied string");
                size_t at = (size_t)a + strlen(zl), l = (size_t)b - at;
                memcpy(w, m + at, l); w[l] = 0;
                same(r, w, "split_between"); ev(l ? "between" : "between empty");
                if (!dst) vt_str_destroy(r);
            }
            if (dst) vt_str_destroy(dst);
        } break;
    }
    al_end(al);
}

/* ================================================================ formatting ================================= */
static void run_fmt(uint64_t idx) {
    al_t al = al_random();
    static char m[400000], big[70000], add[180000];
    char pre[64]; rtext(pre, 1 + rsize(30), alpha());
    vt_str_t *s = chance(50) ? vt_str_create(pre, al.a) : vt_str_create_capacity(1 + rn(50), al.a);
    if (vt_str_is_empty(s)) vt_str_append(s, pre);
    strcpy(m, pre);
    size_t rounds = 1 + rn(4);
    for (size_t r = 0; r < rounds; r++) {
        /* lengths cluster around the internal-buffer sizes a formatter could use */
        size_t n;
        static const size_t pivots[] = { 16, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 65536 };
        if (r == 0 && idx < 120) n = 1000 + idx;
        else if (chance(60)) n = pivots[rn(chance(20) ? 10 : 8)] + rn(7) - 3;
        else n = rsize(chance(10) ? 5000 : 60);
        rtext(big, n, alpha());
        int form = (int)rn(12); int iv = (int)rnd(), cnt = 0; double dv = (double)rrange(-1000000, 1000000) / 64.0;
        #define FMT(CALL) switch (form) { case 0: CALL("%s", big); break; case 1: CALL("%d:%s", iv, big); break; case 2: CALL("%s|%.3f", big, dv); break; \
                          case 3: CALL("%*d%s%%", 7, iv % 1000, big); break; case 5: CALL("%%"); break; case 6: CALL("no directive at all"); break; case 7: CALL("%%%%s %%d"); break; case 8: CALL("%s", ""); break; \
                          case 9: CALL("%.*s%+5d% .3e%#o", (int)(n / 2), big, iv, dv, (unsigned)iv); break; case 10: CALL("%s%n%s%n", "ab", &cnt, big, &cnt); break; case 11: CALL("%2$s-%1$s-%2$s", "one", big); break; default: CALL("%c%s%x%s", 'c', big, (unsigned)iv, ""); break; }
        #define S_(...) snprintf(add, sizeof add, __VA_ARGS__)
        FMT(S_)
        size_t l = strlen(add), len = strlen(m);
        if (len + l > 150000) break;
        enum VitaStatus st = VT_STATUS_OPERATION_FAILURE;
        if (chance(3)) { /* a character the locale cannot express: nothing is added and the failure is reported */
            bool ap = chance(50); T("%s of text that cannot be formatted", ap ? "appendf" : "insertf");
            st = ap ? vt_str_appendf(s, "ab%lc", (wint_t)0x20ac) : vt_str_insertf(s, rn(len + 1), "ab%lc", (wint_t)0x20ac);
            CHECK(st != VT_STATUS_OPERATION_SUCCESS, "formatting that failed was reported as success");
            same(s, m, "text after formatting that failed"); ev("unformattable text");
        }
        if (chance(50)) {
            T("appendf of %zu characters to %zu (form %d)", l, len, form); ev("appendf");
            #define A_(...) st = vt_str_appendf(s, __VA_ARGS__)
            FMT(A_)
            strcat(m, add);
        } else {
            size_t at = rsize(len);
            T("insertf of %zu characters at %zu of %zu (form %d)", l, at, len, form); ev("insertf");
            #define I_(...) st = vt_str_insertf(s, at, __VA_ARGS__)
            FMT(I_)
            r_splice(m, at, 0, add);
        }
        CHECK(st == VT_STATUS_OPERATION_SUCCESS, "formatting reported status %s", vt_status_to_str(st));
        same(s, m, "formatted text");
        ev(l < 1023 ? "formatted < 1023" : l < 1026 ? "formatted 1023..1025" : "formatted > 1025");
        sample("formatted %zu characters into a text of %zu", l, len);
    }
    vt_str_destroy(s);
    al_end(al);
}

/* ================================================================ long texts ================================= */
/* few operations on texts whose length and positions cross 2^8 and 2^16, compared whole */
static void big_same(const vt_str_t *s, const char *m, size_t n, const char *what) {
    CHECK(vt_str_len(s) == n, "%s: length is %zu, expected %zu", what, vt_str_len(s), n);
    const char *z = vt_str_z(s);
    if (memcmp(z, m, n + 1)) { size_t i = 0; while (z[i] == m[i]) i++; FAIL("%s: text of %zu characters differs at %zu", what, n, i); }
    CHECK(vt_str_capacity(s) >= n && vt_str_has_space(s) == vt_str_capacity(s) - n, "%s: capacity %zu, free space %zu, length %zu", what, vt_str_capacity(s), vt_str_has_space(s), n);
}
static size_t big_size(uint64_t k) { switch (k % 6) { case 0: case 1: return 250 + rn(12); case 2: return 120 + rn(16); case 3: return rn(5000); case 4: return 65530 + rn(12); default: return 65537 + rn(60000); } }
#define BIGZ 900000
static void run_str_big(uint64_t idx) {
    static char m[BIGZ], z[BIGZ], y[8];
    al_t al = al_random();
    const char *ab = alpha();
    size_t n = big_size(idx);
    rtext(m, n, ab);
    vt_str_t *s = vt_str_create_capacity(1 + rn(300), al.a);
    if (n) vt_str_append(s, m);
    big_same(s, m, n, "create");
    for (int o = 0; o < 10; o++) {
        if (n > 300000) { n = 200 + rn(200); m[n] = 0; vt_str_remove(s, n, (size_t)-1); big_same(s, m, n, "cut"); ev("big cut"); }
        size_t k = big_size(rnd()); rtext(z, k, ab);
        size_t at = chance(50) ? n - rsize(n < 300 ? n : 300) : rn(n + 1);
        const char *what = "";
        T("operation with %zu characters at %zu of %zu", k, at, n);
        switch (rn(15)) {
            case 0: what = "append"; vt_str_append(s, z); memcpy(m + n, z, k + 1); n += k; break;
            case 1: what = "insert"; vt_str_insert(s, z, at); r_splice(m, at, 0, z); n += k; break;
            case 2: what = "insert_n"; if (k) { vt_str_insert_n(s, z, at, k); r_splice(m, at, 0, z); n += k; } break;
            case 3: what = "remove"; if (at < n) { size_t c = 1 + rn(n - at); vt_str_remove(s, at, c); r_splice(m, at, c, ""); n -= c; } break;
            case 4: what = "set_at"; if (at < n) { if (k > n - at) z[k = n - at] = 0; vt_str_set_at(s, z, at); strcpy(m + at, z); n = at + k; } break;
            case 5: what = "resize"; k = chance(50) ? 250 + rn(12) : 65530 + rn(12); vt_str_resize(s, k); if (k < n) { n = k; m[n] = 0; } CHECK(vt_str_capacity(s) == k, "capacity %zu after resize to %zu", vt_str_capacity(s), k); break;
            case 6: what = "shrink"; vt_str_shrink(s); CHECK(vt_str_capacity(s) == n, "capacity %zu after shrinking to %zu", vt_str_capacity(s), n); break;
            case 7: { what = "dup"; vt_str_t *d = vt_str_dup(s); big_same(d, m, n, "dup"); CHECK(vt_str_equals(d, s) && vt_str_equals_z(vt_str_z(d), m) && (!n || vt_str_equals_n(vt_str_z(d), m, n)), "copy of %zu characters does not equal its original", n); if (n) { char last = m[n - 1]; m[n - 1] = last == 'q' ? 'r' : 'q'; CHECK(!vt_str_equals_z(vt_str_z(d), m) && !vt_str_equals_n(vt_str_z(d), m, n) && !vt_str_starts_with(d, m) && !vt_str_ends_with(d, m), "texts of %zu characters that differ in the last one are equal", n); m[n - 1] = last; vt_str_set_c(d, last == 'q' ? 'r' : 'q', n - 1); CHECK(!vt_str_equals(d, s), "texts of %zu characters that differ in the last one are reported equal", n); } vt_str_destroy(d); } break;
            case 8: what = "validate"; CHECK(vt_str_validate_len(s) == n, "validate_len"); break;
            case 9: { what = "search"; if (n < 10) break; char q[9]; size_t a = at > n - 8 ? n - 8 : at; memcpy(q, m + a, 8); q[8] = 0; long f = r_find(m, q, 0);
                CHECK(vt_str_find(s, q) == vt_str_z(s) + f, "find in %zu characters", n); CHECK(vt_str_index_find(s, q) == f, "index_find in %zu characters gave %lld, expected %ld", n, (long long)vt_str_index_find(s, q), f);
                char c = m[a]; long w = strchr(m, c) - m; CHECK(vt_str_index_of(s, c) == w, "index_of");
                size_t cnt = vt_str_can_find(s, q), rc = r_count(m, q); CHECK(cnt == rc, "count in %zu characters is %zu, expected %zu", n, cnt, rc);
                CHECK(vt_str_ends_with(s, m + a), "long suffix not recognised"); CHECK(vt_str_starts_with(s, m), "whole text is no prefix of itself"); } break;
            case 10: { what = "marker"; if (n < 2) break; size_t a = at >= n ? n - 1 : at; m[a] = '\x01'; vt_str_set_c(s, '\x01', a);
                CHECK(vt_str_index_of(s, '\x01') == (int64_t)a, "index of a character at %zu is %lld", a, (long long)vt_str_index_of(s, '\x01')); CHECK(vt_str_index_find(s, "\x01") == (int64_t)a, "index_find at %zu", a);
                switch (rn(9)) {
                    case 4: rtext(y, 1 + rn(6), "xyz"); vt_str_replace_first(s, "\x01", y); r_splice(m, a, 1, y); n += strlen(y) - 1; break;
                    case 5: rtext(y, 1 + rn(6), "xyz"); vt_str_replace_last(s, "\x01", y); r_splice(m, a, 1, y); n += strlen(y) - 1; break;
                    case 6: rtext(y, rn(7), "xyz"); vt_str_insert_before(s, "\x01", y); r_splice(m, a, 0, y); n += strlen(y); vt_str_remove_all(s, "\x01"); r_splice(m, a + strlen(y), 1, ""); n--; break;
                    case 7: { vt_str_insert_n(s, "\x01\x02\x03\x04", a, 4); vt_str_remove(s, a + 4, 1); r_splice(m, a, 1, "\x01\x02\x03\x04"); n += 3; big_same(s, m, n, "insert_n of a marker"); rtext(y, 1 + rn(6), "xyz");
                        if (rn(2)) vt_str_replace(s, "\x01\x02\x03\x04", y); else vt_str_replace_first(s, "\x01\x02\x03\x04", y);
                        r_splice(m, a, 4, y); n += strlen(y); n -= 4; } break;
                    case 8: { size_t b = rn(n); if (b == a) { vt_str_remove_c(s, "\x01"); r_splice(m, a, 1, ""); n--; break; } m[b] = '\x02'; vt_str_set_c(s, '\x02', b); vt_str_t *q = vt_str_split_between(NULL, vt_str_z(s), "\x01", "\x02");
                        if (b < a) CHECK(q == NULL, "text between delimiters in the wrong order was found"); else { CHECK(q != NULL, "text between delimiters at %zu and %zu was not found", a, b); memcpy(z, m + a + 1, b - a - 1); z[b - a - 1] = 0; big_same(q, z, b - a - 1, "text between"); vt_str_destroy(q); }
                        vt_str_replace_c(s, "\x01\x02", "12"); m[a] = '1'; m[b] = '2'; } break;
                    case 0: vt_str_remove_first(s, "\x01"); r_splice(m, a, 1, ""); n--; break;
                    case 1: rtext(y, rn(7), "xyz"); vt_str_insert_after(s, "\x01", y); r_splice(m, a + 1, 0, y); n += strlen(y); vt_str_remove_last(s, "\x01"); r_splice(m, a, 1, ""); n--; break;
                    case 2: rtext(y, 1 + rn(6), "xyz"); vt_str_replace(s, "\x01", y); r_splice(m, a, 1, y); n += strlen(y) - 1; break;
                    default: vt_str_remove_c(s, "\x01"); r_splice(m, a, 1, ""); n--; break;
                } } break;
            case 11: { what = "strip"; size_t l = rn(400), q = rn(400); if (chance(15)) l = 65530 + rn(12); memset(z, ' ', l); z[l] = 0; vt_str_insert(s, z, 0); z[q < l ? q : l] = 0; vt_str_append(s, z); q = q < l ? q : l;
                memmove(m + l, m, n + 1); memset(m, ' ', l); memset(m + l + n, ' ', q); m[l + n + q] = 0; vt_str_strip(s); r_strip(m, 0, ""); n = strlen(m); } break;
            case 12: { what = "case"; if (chance(60)) { vt_str_to_uppercase(s); for (char *p = m; *p; p++) if (*p >= 'a' && *p <= 'z') *p = (char)(*p - 32); big_same(s, m, n, "uppercase"); } if (chance(60)) vt_str_to_lowercase(s); else break; for (char *p = m; *p; p++) if (*p >= 'A' && *p <= 'Z') *p = (char)(*p + 32); } break;
            case 13: { what = "pop"; if (n < 4) break; size_t a = at >= n - 1 ? n - 2 : at; if (!a) a = 1; m[a] = '\x02'; vt_str_set_c(s, '\x02', a); bool first = rn(2);
                vt_str_t *q = first ? vt_str_pop_get_first(NULL, s, "\x02") : vt_str_pop_get_last(NULL, s, "\x02"); CHECK(q != NULL, "nothing popped at %zu of %zu", a, n);
                if (first) { memcpy(z, m, a); z[a] = 0; big_same(q, z, a, "popped part"); memmove(m, m + a + 1, n - a); n -= a + 1; }
                else { big_same(q, m + a + 1, n - a - 1, "popped part"); m[a] = 0; n = a; }
                vt_str_destroy(q); } break;
            case 14: { what = "split"; if (n < 10) break; size_t p = 1 + rn(n > 2000 ? 600 : 300); for (size_t i = 0; i < p; i++) { size_t a = rn(n); m[a] = '\x03'; vt_str_set_c(s, '\x03', a); }
                vt_plist_t *l = vt_str_split(NULL, s, "\x03"); CHECK(l != NULL, "split gave nothing"); size_t i = 0, a = 0;
                while (a < n) { size_t e = a; while (e < n && m[e] != '\x03') e++; if (e > a) { CHECK(i < vt_plist_len(l), "only %zu pieces", i); memcpy(z, m + a, e - a); z[e - a] = 0; big_same(vt_plist_get(l, i), z, e - a, "piece"); i++; } a = e + 1; }
                CHECK(i == vt_plist_len(l), "%zu pieces, expected %zu", vt_plist_len(l), i);
                vt_plist_apply(l, free_str); vt_plist_destroy(l);
                for (size_t j = 0; j < n; j++) if (m[j] == '\x03') { m[j] = '.'; }
                vt_str_replace_c(s, "\x03", "."); } break;
        }
        big_same(s, m, n, what);
        ev(what);
        uint64_t key[4] = { n, at, k, (uint64_t)what[0] }; seen(hash_bytes(key, sizeof key, 27));
    }
    sample("long text, %zu characters at the end", n);
    vt_str_destroy(s);
    al_end(al);
}

/* ================================================================ texts beyond 4 GiB ========================= */
/* the text is base question marks followed by a short tail, which is modelled; the whole text is verified after every call */
static void vast_same(const vt_str_t *s, size_t base, const char *tail, const char *what) {
    const char *z = vt_str_z(s); size_t n = base + strlen(tail);
    CHECK(vt_str_len(s) == n, "%s: length %zu, expected %zu", what, vt_str_len(s), n);
    CHECK(!strcmp(z + base, tail), "%s: the end of the text is %s, expected %s", what, show(z + base), show(tail));
    CHECK(z[0] == '?' && !memcmp(z, z + 1, base - 1), "%s: the text before character %zu changed", what, base); ev("vast text verified");
}
static bool vast_memory(void) {
    FILE *f = fopen("/proc/meminfo", "r"); char l[200]; unsigned long long kb = 0; if (f) { while (fgets(l, sizeof l, f)) if (sscanf(l, "MemAvailable: %llu", &kb) == 1) break; fclose(f); }
    if (kb < 12ull << 20) { ev("not enough memory: case skipped"); return false; } return true;
}
static void run_vast(int mode) {
    if (!vast_memory()) return;
    size_t base = ((size_t)1 << 32) + 16 + rn(5000); char tail[400]; al_t al = al_make((int)rn(2));
    vt_str_t *s = vt_str_create_len(base, al.a); strcpy(tail, ""); vast_same(s, base, tail, "create_len");
    T("text of %zu characters", base);
    vt_str_append(s, "abc-def\x01xyz"); strcpy(tail, "abc-def\x01xyz"); vast_same(s, base, tail, "append");
    if (mode == 0) {
        vt_str_insert(s, "+++", base + 3); strcpy(tail, "abc+++-def\x01xyz"); vast_same(s, base, tail, "insert");
        vt_str_remove(s, base + 1, 4); strcpy(tail, "a+-def\x01xyz"); vast_same(s, base, tail, "remove");
        vt_str_set_c(s, 'Q', base + 1); strcpy(tail, "aQ-def\x01xyz"); vast_same(s, base, tail, "set_c");
        vt_str_insert_n(s, "12345", base, 2); strcpy(tail, "12aQ-def\x01xyz"); vast_same(s, base, tail, "insert_n");
        vt_str_append_n(s, "uvw", 2); strcat(tail, "uv"); vast_same(s, base, tail, "append_n");
        CHECK(vt_str_appendf(s, "%d", 42) == VT_STATUS_OPERATION_SUCCESS, "appendf"); strcat(tail, "42"); vast_same(s, base, tail, "appendf");
        CHECK(vt_str_set_at(s, "END", base + 4) == VT_STATUS_OPERATION_SUCCESS, "set_at"); strcpy(tail, "12aQEND"); vast_same(s, base, tail, "set_at");
        vt_str_reserve(s, 100); vast_same(s, base, tail, "reserve"); vt_str_shrink(s); CHECK(vt_str_capacity(s) == base + 7, "capacity after shrink"); vast_same(s, base, tail, "shrink");
        CHECK(vt_str_validate_len(s) == base + 7, "validate_len"); vast_same(s, base, tail, "validate_len");
        vt_str_t *d = vt_str_dup(s); vast_same(d, base, tail, "dup"); vt_str_destroy(d);
        vt_str_resize(s, base + 3); strcpy(tail, "12a"); vast_same(s, base, tail, "resize");
        vt_str_remove(s, base + 1, (size_t)-1); strcpy(tail, "1"); vast_same(s, base, tail, "remove to the end");
        vt_str_insert(s, "?", 0); base++; vast_same(s, base, tail, "insert at the front"); vt_str_remove(s, 0, 3); base -= 3; vast_same(s, base, tail, "remove at the front");
        ev("vast edits");
    } else if (mode == 1) {
        const char *z = vt_str_z(s);
        CHECK(vt_str_index_of(s, '\x01') == (int64_t)base + 7, "index_of is %lld, expected %zu", (long long)vt_str_index_of(s, '\x01'), base + 7);
        CHECK(vt_str_index_find(s, "def") == (int64_t)base + 4, "index_find is %lld, expected %zu", (long long)vt_str_index_find(s, "def"), base + 4);
        CHECK(vt_str_find(s, "c-d") == z + base + 2 && vt_str_find(s, "nowhere") == NULL && vt_str_index_find(s, "dex") == -1, "find");
        CHECK(vt_str_can_find(s, "abc") == 1, "count"); CHECK(vt_str_can_find(s, "?") == base, "count of %zu characters is %zu", base, vt_str_can_find(s, "?"));
        CHECK(vt_str_starts_with(s, z) && vt_str_ends_with(s, z) && vt_str_ends_with(s, z + 1) && vt_str_ends_with(s, "xyz") && !vt_str_ends_with(s, "xy"), "starts/ends");
        CHECK(!vt_str_is_numeric(s), "is_numeric");
        vt_str_insert_before(s, "\x01", "<<"); strcpy(tail, "abc-def<<\x01xyz"); vast_same(s, base, tail, "insert_before");
        vt_str_insert_after(s, "\x01", ">"); strcpy(tail, "abc-def<<\x01>xyz"); vast_same(s, base, tail, "insert_after");
        vt_str_replace_first(s, "<", "((("); strcpy(tail, "abc-def(((<\x01>xyz"); vast_same(s, base, tail, "replace_first");
        vt_str_replace_last(s, "(<", "<"); strcpy(tail, "abc-def((<\x01>xyz"); vast_same(s, base, tail, "replace_last");
        vt_str_replace(s, "(", "[]"); strcpy(tail, "abc-def[][]<\x01>xyz"); vast_same(s, base, tail, "replace");
        CHECK(vt_str_remove_last(s, "[]") == VT_STATUS_OPERATION_SUCCESS, "remove_last"); strcpy(tail, "abc-def[]<\x01>xyz"); vast_same(s, base, tail, "remove_last");
        CHECK(vt_str_remove_first(s, "abc") == VT_STATUS_OPERATION_SUCCESS, "remove_first"); strcpy(tail, "-def[]<\x01>xyz"); vast_same(s, base, tail, "remove_first");
        CHECK(vt_str_remove_all(s, "e") == VT_STATUS_OPERATION_SUCCESS, "remove_all"); strcpy(tail, "-df[]<\x01>xyz"); vast_same(s, base, tail, "remove_all");
        vt_str_replace_c(s, "xyz", " "); strcpy(tail, "-df[]<\x01>   "); vast_same(s, base, tail, "replace_c"); vt_str_strip(s); strcpy(tail, "-df[]<\x01>"); vast_same(s, base, tail, "strip");
        vt_str_to_uppercase(s); strcpy(tail, "-DF[]<\x01>"); vast_same(s, base, tail, "uppercase"); vt_str_remove_c(s, "[]"); strcpy(tail, "-DF<\x01>"); vast_same(s, base, tail, "remove_c");
        ev("vast searches");
    } else {
        vt_str_t *r = vt_str_pop_get_last(NULL, s, "\x01"); CHECK(r && !strcmp(vt_str_z(r), "xyz") && vt_str_len(r) == 3, "the part popped from the end is %s", show(r ? vt_str_z(r) : NULL)); vt_str_destroy(r); strcpy(tail, "abc-def"); vast_same(s, base, tail, "pop_get_last");
        vt_plist_t *l = vt_str_split(NULL, s, "-"); CHECK(l && vt_plist_len(l) == 2, "%zu pieces", l ? vt_plist_len(l) : 0);
        vast_same(vt_plist_get(l, 0), base, "abc", "first piece"); CHECK(!strcmp(vt_str_z(vt_plist_get(l, 1)), "def"), "second piece");
        vt_plist_apply(l, free_str); vt_plist_destroy(l); vast_same(s, base, tail, "split");
        r = vt_str_split_between(NULL, vt_str_z(s), "b", "f"); CHECK(r && !strcmp(vt_str_z(r), "c-de"), "the text between is %s", show(r ? vt_str_z(r) : NULL)); vt_str_destroy(r);
        r = vt_str_pop_get_first(NULL, s, "-"); CHECK(r, "nothing popped"); vast_same(r, base, "abc", "pop_get_first"); CHECK(!strcmp(vt_str_z(s), "def") && vt_str_len(s) == 3, "after popping the first part the text is %s", show(vt_str_z(s)));
        vt_str_append(s, "+"); vt_str_t *j = vt_str_join_n(s, "=", 2, vt_str_z(r), "end"); (void)j; CHECK(vt_str_len(s) == 4 + base + 3 + 4 && !strcmp(vt_str_z(s) + 4 + base, "abc=end") && !strncmp(vt_str_z(s), "def+???", 7), "joined text of %zu characters", vt_str_len(s));
        vt_str_destroy(r); ev("vast splits");
    }
    sample("text of %zu characters", base); seen(base);
    vt_str_destroy(s); al_end(al);
}
static void run_edit_vast(uint64_t idx) { (void)idx; run_vast(0); }
static void run_query_vast(uint64_t idx) { (void)idx; run_vast(1); }
static void run_split_vast(uint64_t idx) { (void)idx; run_vast(2); }

const section_t sections[] = {
    { "edit_vast", run_edit_vast, true }, { "query_vast", run_query_vast, true }, { "split_vast", run_split_vast, true },
    { "str_big", run_str_big, true },
    { "edit", run_edit, true }, { "query", run_query, true }, { "split", run_split, true }, { "fmt", run_fmt, true }, { NULL, NULL, false }
};

/* Several threads use the library at once, each on its own objects, and all of them read some shared ones.
 * Oracle 1: the race detector.  Oracle 2: every thread's result equals the result of the same work done alone. */
#include "h.h"
#include "vita/vita.h"
#include "vita/network/sockets.h"
#include <netinet/in.h>
#include <pthread.h>
#include <sched.h>
#include <sys/stat.h>

/* the C library's time zone data is protected by its own lock, which the race detector cannot see */
const char *__tsan_default_suppressions(void);
const char *__tsan_default_suppressions(void) { return "race:tzset_internal\nrace:__tz_convert\nrace:__tzfile_read\n"; }

void section_setup(const char *name) { (void)name; vt_debug_disable_output(true); }

typedef struct { uint64_t s, h; int id; const char *dir; const vt_vec_t *v; const vt_plist_t *p; const vt_str_t *z; unsigned n, logged; bool alone; char bad[160]; } w_t;
static unsigned ticket; static uint16_t order[1 << 15];
static uint64_t r(w_t *w) { w->s += 0x9e3779b97f4a7c15ull; uint64_t z = w->s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
static void mixin(w_t *w, const void *p, size_t n) { w->h = hash_bytes(p, n, w->h * 31); }
static void mixz(w_t *w, const char *z) { mixin(w, z, strlen(z)); }
static void mixu(w_t *w, uint64_t u) { mixin(w, &u, sizeof u); }
static void txt(w_t *w, char *o, size_t max) { size_t n = r(w) % (max + 1); for (size_t i = 0; i < n; i++) o[i] = "abcABC.,/12 -"[r(w) % 13]; o[n] = 0; }

static void w_str(w_t *w, vt_mallocator_t *a) {
    char x[64], y[8], q[8]; txt(w, x, 50); vt_str_t *s = vt_str_create(x, a);
    for (int k = 0; k < 8; k++) {
        txt(w, x, 20); txt(w, y, 2); txt(w, q, 3); if (!*y) strcpy(y, "a");
        if (vt_str_len(s) > 400) vt_str_clear(s); if (vt_str_len(s) < 4) vt_str_append(s, "a.b1");
        switch (r(w) % 34) {
            case 0: vt_str_append(s, x); break; case 1: vt_str_insert(s, x, r(w) % (vt_str_len(s) + 1)); break; case 2: vt_str_appendf(s, "%s-%d", x, (int)(r(w) % 1000)); break;
            case 3: if (vt_str_len(s) >= 3) vt_str_replace(s, y, q); break; case 4: if (vt_str_len(s) >= 3) vt_str_remove_all(s, y); break; case 5: vt_str_strip(s); break; case 6: vt_str_to_uppercase(s); break; case 7: vt_str_to_lowercase(s); break;
            case 8: { vt_plist_t *p = vt_str_split(NULL, s, y); if (p) { while (vt_plist_len(p)) { vt_str_t *t = vt_plist_pop_get(p); mixz(w, vt_str_z(t)); vt_str_destroy(t); } vt_plist_destroy(p); } break; }
            case 9: { vt_str_t *d = vt_str_dup(s); mixz(w, vt_str_z(d)); mixu(w, vt_str_equals(s, d)); vt_str_destroy(d); break; }
            case 10: { vt_str_t *t = vt_str_join_n(NULL, y, 3, x, "mid", q); mixz(w, vt_str_z(t)); vt_str_destroy(t); break; }
            case 11: vt_str_strip_c(s, y); break; case 12: vt_str_remove_c(s, y); break; case 13: if (strlen(x) <= vt_str_len(s)) vt_str_set(s, x); break;
            case 14: mixu(w, vt_str_starts_with(s, y)); mixu(w, vt_str_ends_with(s, y)); mixu(w, vt_str_is_numeric(s)); mixu(w, (uint64_t)vt_str_index_of(s, y[0])); break;
            case 15: for (char *c; (c = vt_str_slide_back(s)); ) mixu(w, (uint64_t)*c); vt_str_slide_reset(s); break;
            case 16: vt_str_insertf(s, r(w) % (vt_str_len(s) + 1), "<%s|%*d>", x, (int)(r(w) % 90), (int)(r(w) % 1000)); break; case 17: vt_str_appendf(s, "%0*d", (int)(60 + r(w) % 200), (int)(r(w) % 100000)); break;
            case 18: vt_str_remove(s, r(w) % vt_str_len(s), 1); break; case 19: mixu(w, vt_str_remove_first(s, y)); break; case 20: mixu(w, vt_str_remove_last(s, y)); break;
            case 21: vt_str_insert_before(s, y, q); break; case 22: vt_str_insert_after(s, y, q); break; case 23: if (*q) vt_str_replace_first(s, y, q); break; case 24: if (*q) vt_str_replace_last(s, y, q); break;
            case 25: vt_str_replace_c(s, "ab", "x"); break; case 26: vt_str_strip_punct(s); break; case 27: mixu(w, vt_str_set_c(s, y[0], r(w) % vt_str_len(s))); break; case 28: vt_str_reserve(s, 1 + r(w) % 20); break; case 29: vt_str_shrink(s); break;
            case 30: { vt_str_t *t = r(w) % 2 ? vt_str_pop_get_first(NULL, s, y) : vt_str_pop_get_last(NULL, s, y); if (t) { mixz(w, vt_str_z(t)); vt_str_destroy(t); } break; }
            case 31: { vt_str_t *t = vt_str_split_between(NULL, vt_str_z(s), "a", y); if (t) { mixz(w, vt_str_z(t)); vt_str_destroy(t); } break; }
            case 32: { vt_str_t v = vt_str_create_static(x); mixu(w, vt_str_equals(s, &v)); mixu(w, vt_str_equals_z(x, vt_str_z(s))); if (*x) mixu(w, vt_str_is_numeric_z(x, strlen(x))); break; }
            default: for (char *c; (c = vt_str_slide_front(s)); ) mixu(w, (uint64_t)*c); vt_str_slide_reset(s); break;
        }
        mixz(w, vt_str_z(s)); mixu(w, vt_str_len(s));
    }
    vt_str_destroy(s);
}
static void w_vec(w_t *w, vt_mallocator_t *a) {
    size_t es = 1 + r(w) % 24; uint8_t e[24]; vt_vec_t *v = vt_vec_create(1 + r(w) % 8, es, a);
    for (int k = 0; k < 30; k++) {
        uint64_t z = r(w); memset(e, (int)(z & 7), sizeof e); size_t n = vt_vec_len(v);
        switch (z >> 8 & 7) {
            case 0: case 1: case 2: vt_vec_push_back(v, e); break; case 3: vt_vec_push_front(v, e); break;
            case 4: if (n) vt_vec_remove(v, z % n, (z & 1) ? VT_REMOVE_STRATEGY_STABLE : VT_REMOVE_STRATEGY_FAST); break; case 5: if (n) mixin(w, vt_vec_pop_get(v), es); break;
            case 6: if (n) { vt_vec_set(v, e, z % n); mixu(w, (uint64_t)vt_vec_can_find(v, e)); } break; default: vt_vec_reserve(v, 1 + z % 5); break;
        }
    }
    for (size_t i = 0; i < vt_vec_len(v); i++) mixin(w, vt_vec_get(v, i), es);
    for (void *q; (q = vt_vec_slide_front(v)); ) mixin(w, q, es);
    vt_vec_slide_reset(v); for (void *q; (q = vt_vec_slide_back(v)); ) mixin(w, q, es);
    if (vt_vec_len(v)) { memset(e, 9, sizeof e); vt_vec_insert(v, e, r(w) % vt_vec_len(v)); vt_vec_shrink(v); mixu(w, vt_vec_capacity(v)); vt_vec_pop(v); }
    { vt_vec_t *d = vt_vec_dup(v, a); mixu(w, vt_vec_len(d)); vt_vec_clear(d); mixu(w, vt_vec_is_empty(d)); vt_vec_destroy(d); }
    vt_vec_destroy(v);
}
static void w_plist(w_t *w, vt_mallocator_t *a) {
    static char base[64]; vt_plist_t *p = vt_plist_create(1 + r(w) % 4, a);
    for (int k = 0; k < 30; k++) {
        uint64_t z = r(w); size_t n = vt_plist_len(p); void *q = base + z % 64;
        switch (z >> 8 & 7) { case 0: case 1: case 2: vt_plist_push_back(p, q); break; case 3: vt_plist_push_front(p, q); break; case 4: if (n) vt_plist_remove(p, z % n, VT_REMOVE_STRATEGY_STABLE); break; case 5: if (n) mixu(w, (uint64_t)((char*)vt_plist_pop_get(p) - base)); break; case 6: mixu(w, (uint64_t)vt_plist_can_find(p, q)); break; default: if (n) vt_plist_insert(p, q, z % n); break; }
    }
    for (size_t i = 0; i < vt_plist_len(p); i++) mixu(w, (uint64_t)((char*)vt_plist_get(p, i) - base));
    for (void *q; (q = vt_plist_slide_front(p)); ) mixu(w, (uint64_t)((char*)q - base)); vt_plist_slide_reset(p); for (void *q; (q = vt_plist_slide_back(p)); ) mixu(w, (uint64_t)((char*)q - base));
    vt_plist_reserve(p, 1 + r(w) % 9); mixu(w, vt_plist_capacity(p)); if (vt_plist_len(p)) { vt_plist_set(p, base + 3, r(w) % vt_plist_len(p)); vt_plist_shrink(p); vt_plist_pop(p); } { vt_plist_t *d = vt_plist_dup(p, a); mixu(w, vt_plist_len(d)); vt_plist_clear(d); vt_plist_destroy(d); }
    vt_plist_destroy(p);
}
static void w_path(w_t *w, vt_mallocator_t *a) {
    char b[600], c[700], x[40]; snprintf(b, sizeof b, "%s/t%d", w->dir, w->id); txt(w, x, 30);
    vt_path_mkdir(b); snprintf(c, sizeof c, "%s/file", b);
    mixu(w, vt_file_write(c, x)); mixu(w, vt_file_appendln(c, "more")); mixu(w, vt_file_writefc(c, true, true, true, "%s=%d", x, (int)(r(w) % 99))); mixu(w, (uint64_t)vt_path_get_file_size(c)); mixu(w, vt_path_exists(c) * 4u + vt_path_is_dir(b) * 2u + vt_path_is_file(b));
    vt_str_t *s = vt_file_read(c, a); if (s) { mixz(w, vt_str_z(s)); vt_str_destroy(s); }
    char buf[32] = {0}; const char *z = vt_file_read_to_buffer(c, buf, sizeof buf); mixu(w, z == buf); mixin(w, buf, sizeof buf);
    mixu(w, vt_file_writeb(c, x)); mixu(w, vt_file_appendb(c, x)); mixu(w, vt_file_append(c, "!")); mixu(w, vt_file_writefln(c, "%s:%*d", x, (int)(r(w) % 300), 7)); mixu(w, vt_file_appendbln(c, x));
    s = vt_file_readb(c, a); if (s) { mixz(w, vt_str_z(s)); vt_str_destroy(s); }
    s = vt_path_get_cwd(a); if (s) { mixz(w, vt_str_z(s)); vt_str_destroy(s); } s = vt_path_get_this_exe_location(a); if (s) { mixz(w, vt_str_z(s)); vt_str_destroy(s); }
    { char p[64]; txt(w, p, 40); vt_path_validate(p); mixz(w, p); strcat(p, "/a/b"); vt_path_pop(p); mixz(w, p); }
    snprintf(c, sizeof c, "%s/x/y", b); mixu(w, vt_path_mkdir_parents(c));
    { vt_plist_t *l = vt_path_dir_list(NULL, b, true); if (l) { mixu(w, vt_plist_len(l)); vt_path_dir_free(l); } }
    vt_plist_t *l = vt_path_dir_list_recurse(NULL, b, false); if (l) { mixu(w, vt_plist_len(l)); vt_path_dir_free(l); }
    char f[700]; snprintf(f, sizeof f, "%s/file", b); snprintf(c, sizeof c, "%s/new", b); mixu(w, vt_path_rename(f, c)); mixu(w, vt_path_remove(c));
    snprintf(c, sizeof c, "%s/x", b); mixu(w, vt_path_rmdir_recurse(c)); mixu(w, vt_path_rmdir(b));
    s = vt_path_basename(NULL, "some/dir/name.txt"); mixz(w, vt_str_z(s)); vt_str_destroy(s);
    s = vt_path_build_n(NULL, 3, "a", "b", "c"); mixz(w, vt_str_z(s)); vt_str_destroy(s);
    s = vt_path_expand_tilda("~/x", a); if (s) { mixz(w, vt_str_z(s)); vt_str_destroy(s); }
}
static void w_misc(w_t *w, vt_mallocator_t *a) {
    char b[64]; int64_t n = (int64_t)r(w); vt_conv_i64_to_str(b, sizeof b, n); mixz(w, b); mixu(w, (uint64_t)vt_conv_str_to_i64(b)); vt_conv_d_to_str(b, sizeof b, (double)(n % 100000) / 7); mixz(w, b);
    mixu(w, (uint64_t)vt_math_gcd(n % 100000, (n >> 20) % 100000)); mixu(w, vt_math_is_palindrome((uint64_t)n % 1000));
    int32_t o1 = 0; double o2 = 0; vt_str_t *o3 = NULL; bool o4 = false; char a1[40], a2[40]; snprintf(a1, sizeof a1, "--num=%d", (int)(n % 1000)); snprintf(a2, sizeof a2, "v%d", (int)(n % 77 + 77));
    const char *av[] = { "prog", a1, "-d", "2.5", "--name", a2, "-f" };
    vt_argopt_t ov[] = { { "--num", "-n", "", VT_ARGOPT(o1), VT_TYPE_INT32 }, { "--dbl", "-d", "", VT_ARGOPT(o2), VT_TYPE_DOUBLE }, { "--name", "-m", "", VT_ARGOPT(o3), VT_TYPE_STR }, { "--flag", "-f", "", VT_ARGOPT(o4), VT_TYPE_BOOL } };
    mixu(w, (uint64_t)(vt_argopt_parse(7, av, 4, ov, a) + 5)); mixu(w, (uint64_t)o1); mixu(w, (uint64_t)(o2 * 2)); mixu(w, o4); if (o3) { mixz(w, vt_str_z(o3)); vt_str_destroy(o3); }
    struct VitaDateTime d = vt_datetime_create((int16_t)(1900 + r(w) % 200), (int16_t)(1 + r(w) % 12), (int16_t)(1 + r(w) % 28), (int16_t)(r(w) % 24), (int16_t)(r(w) % 60), (int16_t)(r(w) % 60), -1, -1);
    char t[64]; vt_datetime_to_text(d, t, sizeof t); mixz(w, t); d = vt_datetime_from_text(t); mixu(w, (uint64_t)d.year_day * 10 + (uint64_t)d.week_day); vt_datetime_to_text_iso(d, t, sizeof t); mixz(w, t); mixu(w, vt_datetime_is_valid_text_iso(t)); vt_datetime_to_text_pretty(d, t, sizeof t); mixz(w, t);
    struct VitaDateTime e = vt_datetime_op(d, (struct VitaDateTime){ .month_day = (int16_t)(r(w) % 500) }); mixu(w, (uint64_t)vt_datetime_diff_days(e, d)); mixu(w, (uint64_t)vt_datetime_to_secs(e));
    { char u[64]; vt_datetime_to_text_iso_ext(d, u, sizeof u); mixz(w, u); mixu(w, vt_datetime_is_valid_text_iso_ext(u)); struct VitaDateTime g = vt_datetime_from_text_iso_ext(u); mixu(w, (uint64_t)g.second); vt_datetime_to_text_iso(d, u, sizeof u); g = vt_datetime_from_text_iso(u); mixu(w, (uint64_t)g.hour);
      g = vt_datetime_from_secs((time_t)(r(w) % 4000000000u)); mixu(w, (uint64_t)g.year * 400 + (uint64_t)g.month_day); mixu(w, (uint64_t)vt_datetime_find_week_day(g) + (uint64_t)vt_datetime_find_year_day(g) * 7); mixu(w, (uint64_t)vt_datetime_diff_secs(g, d)); mixu(w, (uint64_t)vt_datetime_diff_hours(g, d)); }
    { char u[64]; vt_conv_u64_to_str(u, sizeof u, (uint64_t)n); mixz(w, u); vt_conv_i8_to_str(u, sizeof u, (int8_t)n); mixz(w, u); vt_conv_r_to_str(u, sizeof u, (real)(n % 1000) / 8); mixz(w, u); mixu(w, (uint64_t)vt_conv_str_to_i16(u)); mixu(w, vt_conv_str_to_u32("4000000000")); mixu(w, (uint64_t)(vt_conv_str_to_d("12.5") * 2)); }
    { char g1[40], g2[40]; txt(w, g1, 39); txt(w, g2, 39); size_t gl = 1 + r(w) % 39; memset(g1 + strlen(g1), 'x', 39 - strlen(g1)); memset(g2 + strlen(g2), 'y', 39 - strlen(g2)); vt_gswap(g1, g2, gl); mixin(w, g1, 39); mixin(w, g2, 39); mixu(w, (uint64_t)vt_memcmp(g1, g2, 39) != 0); mixu(w, (uint64_t)vt_math_lcm(1 + n % 1000 * (n > 0), 12)); float sq = vt_math_sqrt_carmack((float)(1 + r(w) % 1000)); mixin(w, &sq, sizeof sq); }
    if (a) { char *m = VT_ALLOCATOR_ALLOC(a, 1 + r(w) % 90); m = VT_ALLOCATOR_REALLOC(a, m, 200 + r(w) % 90); m[199] = 1; mixu(w, a->stats.count_bytes_allocated); VT_ALLOCATOR_FREE(a, m); }
    int16_t arr[9]; for (int i = 0; i < 9; i++) arr[i] = (int16_t)r(w); vt_span_t sp = vt_span_from(arr, 9, sizeof *arr); for (size_t i = 0; i < vt_span_len(sp); i++) mixin(w, vt_span_get(sp, i), 2);
}
static uint16_t port_of(vt_socket_t s) { struct sockaddr_in a = {0}; socklen_t l = sizeof a; getsockname((int)s, (struct sockaddr*)&a, &l); return ntohs(a.sin_port); }
/* a conversation of two sockets that both belong to this thread */
static void w_sock(w_t *w) {
    char x[64], b[64]; txt(w, x, 50); if (!*x) strcpy(x, "q"); struct VitaSocketAddress from = {0};
    if (r(w) % 2) {
        vt_socket_t u = vt_socket_startup_server(VT_SOCKET_TYPE_UDP, 0, 1), c; mixu(w, u >= 0); if (u < 0) return;
        struct VitaSocketAddress to = vt_socket_make_address((int16_t)port_of(u), "127.0.0.1"); mixu(w, to.addr); c = vt_socket_startup_client(VT_SOCKET_TYPE_UDP, to); mixu(w, c >= 0);
        mixu(w, (uint64_t)vt_socket_send_to(c, to, x, strlen(x))); int32_t k = vt_socket_receive_timed_from(u, &from, b, sizeof b, 20000); mixu(w, (uint64_t)k); if (k > 0) mixin(w, b, (size_t)k); mixu(w, from.addr == to.addr && from.port == htons(port_of(c)));
        mixu(w, vt_socket_close(c)); mixu(w, vt_socket_close(u));
    } else {
        vt_socket_t u = vt_socket_startup_server(VT_SOCKET_TYPE_TCP, 0, 2); mixu(w, u >= 0); if (u < 0) return;
        vt_socket_t c = vt_socket_startup_client(VT_SOCKET_TYPE_TCP, vt_socket_make_address((int16_t)port_of(u), "127.0.0.1")), d = vt_socket_accept_client(u); mixu(w, c >= 0); mixu(w, d >= 0);
        mixu(w, (uint64_t)vt_socket_send(c, x, strlen(x))); struct pollfd pf = { .fd = (int)d, .events = POLLIN }; mixu(w, (uint64_t)vt_socket_poll(&pf, 1, 20000)); size_t got = 0;
        while (got < strlen(x)) { int32_t k = vt_socket_receive_timed(d, b, sizeof b, 20000); if (k <= 0) break; mixin(w, b, (size_t)k); got += (size_t)k; } mixu(w, got);
        struct linger lg = { 1, 0 }; setsockopt((int)c, SOL_SOCKET, SO_LINGER, &lg, sizeof lg); /* many connections: leave no port waiting */ mixu(w, vt_socket_close(c)); mixu(w, vt_socket_close(d)); mixu(w, vt_socket_close(u));
    }
}
/* messages to a file of its own, and one to a file that all threads use */
static const char fill[] = "abcdefghijklmnopqrstuvwxyz0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ";
static void w_log(w_t *w, vt_mallocator_t *a) {
    char c[700], x[64]; snprintf(c, sizeof c, "%s/log%d", w->dir, w->id);
    for (int k = 0; k < 3; k++) { txt(w, x, 40); vt_log(c, (enum VitaLogLevel)(r(w) % 4), false, k == 1 ? "k == 1" : NULL, "f.c", 7, "%s:%*d", x, (int)(r(w) % 200), k); }
    vt_str_t *s = vt_file_read(c, a); if (s) { for (const char *p = vt_str_z(s), *e; (e = strchr(p, '\n')); p = e + 1) if (e - p >= 19) mixin(w, p + 19, (size_t)(e - p) - 19); else mixu(w, 77); vt_str_destroy(s); } mixu(w, vt_path_remove(c));
    size_t l = r(w) % sizeof fill; if (!w->alone) { snprintf(c, sizeof c, "%s/log-all", w->dir); vt_log(c, vt_log_info, false, NULL, "f.c", 9, "T%d-%u-%zu-%.*s|", w->id, w->logged++, l, (int)l, fill); }
    time_t t0 = time(NULL); struct VitaDateTime d = vt_datetime_get_now(); char b[VT_DATETIME_BUFFER_SIZE]; vt_datetime_get_now_as_text(b, sizeof b); time_t t1 = time(NULL), td = vt_datetime_to_secs(d), tb = vt_datetime_to_secs(vt_datetime_from_text(b));
    if (!(td >= t0 && td <= t1 && tb >= t0 && tb <= t1) && !*w->bad) snprintf(w->bad, sizeof w->bad, "the current time is %lld (%s) between %lld and %lld", (long long)td, b, (long long)t0, (long long)t1); vt_datetime_get_now_as_text_pretty(b, sizeof b); mixu(w, strlen(b));
}
static void log_all(w_t *con, int nt) {
    char c[700]; snprintf(c, sizeof c, "%s/log-all", con[0].dir); unsigned next[8] = {0}; FILE *f = fopen(c, "r"); unsigned lines = 0; char b[512];
    if (f) { while (fgets(b, sizeof b, f)) {
        int id = -1; unsigned q = 0; size_t l = 0; int at = 0; lines++; char want[300];
        CHECK(strlen(b) > 20 && sscanf(b + 19, " INFO f.c:9: T%d-%u-%zu-%n", &id, &q, &l, &at) == 3 && at && id >= 0 && id < nt && l < sizeof fill, "the file all threads log to has the line %s", b);
        snprintf(want, sizeof want, "%.*s|\n", (int)l, fill); CHECK(!strcmp(b + 19 + at, want), "the message %u of thread %d arrived as %s", q, id, b); CHECK(q == next[id], "message %u of thread %d comes where %u is due", q, id, next[id]); next[id]++;
    } fclose(f); unlink(c); }
    for (int i = 0; i < nt; i++) { CHECK(next[i] == con[i].logged, "thread %d logged %u messages to the common file, %u arrived", i, con[i].logged, next[i]); }
    evn("messages logged by several threads to one file", lines);
}
static void w_shared(w_t *w) {
    for (int k = 0; k < 6; k++) {
        size_t i = r(w) % vt_vec_len(w->v); int32_t e = *(int32_t*)vt_vec_get(w->v, i); mixu(w, (uint64_t)e + vt_vec_capacity(w->v) + vt_vec_has_space(w->v)); mixu(w, (uint64_t)vt_vec_can_find(w->v, &e));
        mixz(w, vt_plist_get(w->p, r(w) % vt_plist_len(w->p))); mixu(w, vt_plist_is_empty(w->p));
        char y[8]; txt(w, y, 2); if (!*y) strcpy(y, "b"); const char *f = vt_str_find(w->z, y); mixu(w, f ? (uint64_t)(f - vt_str_z(w->z)) : 999); mixu(w, vt_str_can_find(w->z, y)); mixu(w, vt_str_starts_with(w->z, y)); mixu(w, (uint64_t)vt_str_index_find(w->z, y));
        vt_str_t *d = vt_str_dup(w->z); mixu(w, vt_str_equals(d, w->z)); vt_str_destroy(d);
        vt_vec_t *c = vt_vec_dup(w->v, NULL); mixu(w, vt_vec_len(c)); vt_vec_destroy(c);
        vt_plist_t *l = vt_str_split(NULL, w->z, y); if (l) { mixu(w, vt_plist_len(l)); while (vt_plist_len(l)) vt_str_destroy(vt_plist_pop_get(l)); vt_plist_destroy(l); }
        vt_str_t *j = vt_str_join(NULL, y, w->p); if (j) { mixu(w, vt_str_len(j)); vt_str_destroy(j); }
    }
}
static void step(w_t *w) { unsigned t = __atomic_fetch_add(&ticket, 1, __ATOMIC_RELAXED); if (t < sizeof order / sizeof *order) __atomic_store_n(&order[t], (uint16_t)(w->id + 1), __ATOMIC_RELAXED); }
static void *work(void *arg) {
    w_t *w = arg; w->h = 1;
    for (unsigned k = 0; k < w->n; k++) {
        step(w);
        vt_mallocator_t *a = r(w) % 2 ? vt_mallocator_create() : NULL;
        switch (r(w) % 8) { case 0: w_str(w, a); break; case 1: w_vec(w, a); break; case 2: w_plist(w, a); break; case 3: w_path(w, a); break; case 4: w_misc(w, a); break; case 5: w_sock(w); break; case 6: w_log(w, a); break; default: w_shared(w); break; }
        if (a) { mixu(w, a->stats.count_allocs); mixu(w, a->stats.count_bytes_allocated); vt_mallocator_destroy(a); }
        if (r(w) % 4 == 0) sched_yield();
    }
    step(w);
    return NULL;
}
#define NT 4
static void run_threads(uint64_t idx) {
    int nt = 2 + (int)rn(NT - 1); w_t ref[NT], con[NT]; unsigned n = 4 + (unsigned)rn(10);
    vt_vec_t *v = vt_vec_create(4, sizeof(int32_t), NULL); vt_plist_t *p = vt_plist_create(4, NULL); vt_str_t *z = vt_str_create("", NULL);
    static const char *words[] = { "alpha", "b", "", "c.d" }; for (size_t i = 0, m = 5 + rn(40); i < m; i++) { int32_t e = (int32_t)rn(50); vt_vec_push_back(v, &e); vt_plist_push_back(p, words[rn(4)]); vt_str_appendf(z, "%d.ab/", e); }
    for (int i = 0; i < nt; i++) { ref[i] = (w_t){ .s = rnd(), .id = i, .dir = scratch(), .v = v, .p = p, .z = z, .n = n }; con[i] = ref[i]; ref[i].alone = true; work(&ref[i]); }
    ticket = 0; memset(order, 0, sizeof order); T("%d threads, %u rounds", nt, n);
    pthread_t t[NT]; for (int i = 0; i < nt; i++) if (pthread_create(&t[i], NULL, work, &con[i])) { fprintf(stderr, "no thread\n"); exit(3); }
    for (int i = 0; i < nt; i++) pthread_join(t[i], NULL);
    for (int i = 0; i < nt; i++) CHECK(!*con[i].bad && !*ref[i].bad, "%s%s", con[i].bad, ref[i].bad);
    for (int i = 0; i < nt; i++) CHECK(con[i].h == ref[i].h, "thread %d of %d got a different result than the same work alone", i, nt);
    log_all(con, nt);
    unsigned sw = 0; for (unsigned k = 1; k < ticket; k++) sw += order[k] != order[k - 1];
    evn("thread switches observed between operations", sw); evn("operations run concurrently", ticket); ev("concurrent runs"); seen(hash_bytes(order, ticket * sizeof *order, 3));
    sample("%d threads, %u steps, %u switches", nt, ticket, sw); (void)idx;
    vt_vec_destroy(v); vt_plist_destroy(p); vt_str_destroy(z);
}
const section_t sections[] = { { "threads", run_threads, true }, { NULL, NULL, false } };

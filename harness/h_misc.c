/* Number conversion, command-line options, mathematics and the small primitives. */
#include "h.h"
#include "track.h"
#include "vita/vita.h"
#include <ctype.h>
#include <fcntl.h>
#include <float.h>
#include <inttypes.h>
#include <math.h>

void section_setup(const char *name) { (void)name; vt_debug_disable_output(true); }

/* ============================================================ conversion ===================================== */
static uint64_t rbits(void) { switch (rn(6)) { case 0: return rn(20); case 1: return (uint64_t)0 - 1 - rn(20); case 2: return (1ull << rn(64)) - rn(3) + 1; default: return rnd() >> rn(64); } }
static char *hstr(const char *z) { char *h = malloc(strlen(z) + 1); strcpy(h, z); return h; }
/* digits and dots only, with one leading minus where the type has a sign */
static bool numeric(const char *z, bool sgn) { if (sgn && *z == '-') z++; for (; *z; z++) if ((*z < '0' || *z > '9') && *z != '.') return false; return true; }
/* the integer in front of the first dot; false when it does not fit 64 bits (not exercised) */
static bool ipart(const char *z, bool *neg, uint64_t *v) { *neg = *z == '-'; if (*neg) z++; *v = 0; for (; *z >= '0' && *z <= '9'; z++) if (__builtin_mul_overflow(*v, 10, v) || __builtin_add_overflow(*v, (uint64_t)(*z - '0'), v)) return false; return true; }
static void rnumtext(char *o, size_t max) {
    size_t n = 0; if (chance(30)) o[n++] = '-';
    while (chance(20) && n < 8) o[n++] = '0';
    size_t k = rn(max); for (size_t i = 0; i < k; i++) o[n++] = (char)('0' + rn(10));
    if (chance(40)) { o[n++] = '.'; k = rn(12); for (size_t i = 0; i < k; i++) o[n++] = (char)('0' + rn(10)); }
    o[n] = 0;
    if (chance(15)) o[rn(n + 1)] = "ae+- x.,"[rn(8)], o[n + 1] = 0;
    if (chance(5)) strcat(o, ".5");
}
/* halfway between two neighbouring values of a type with so many bits, or a hair above or below: only one rounding gives the nearest value */
static void midtext(char *o, int bits) {
    long double v = 1; int e = (int)rn(20) - 10;
    uint64_t m = (1ull << (bits - 1)) | (rnd() & ((1ull << (bits - 1)) - 1)); v = ldexpl((long double)m + 0.5L, e - bits);
    int n = snprintf(o, 200, "%.*Lf", bits - e + 2, v); /* exact */
    if (chance(60)) { strcpy(o + n, "000000000000000000000001"); ev("number just above the middle of two"); } else ev("number in the middle of two");
}
#define CONV_INT(TY, t, FMT, SG, LO, HI) { TY v = (TY)rbits(), back; char want[64]; int n = snprintf(want, sizeof want, "%" FMT, v); \
        char *b = malloc((size_t)n + 1 + (extra = rn(3))); rbytes(b, (size_t)n + 1); T(#t " %s", want); vt_conv_##t##_to_str(b, (size_t)n + 1 + extra, v); \
        CHECK(!strcmp(b, want), #t " %s as text is %s", want, show(b)); \
        char *h = hstr(b); back = vt_conv_str_to_##t(h); CHECK(back == v, "text %s as " #t " is %" FMT, show(h), back); free(b); free(h); \
        char x[80]; rnumtext(x, 21); bool neg; uint64_t u; bool fits = ipart(x, &neg, &u) && (neg ? u <= 0 - (uint64_t)(int64_t)(LO) : u <= (uint64_t)(HI)); \
        T("text %s as " #t, show(x)); h = hstr(x); back = vt_conv_str_to_##t(h); free(h); \
        if (!numeric(x, SG)) { CHECK(back == 0, "text %s as " #t " is %" FMT ", not 0", show(x), back); ev("malformed number"); } \
        else if (fits) { CHECK(back == (TY)(neg ? 0 - u : u), "text %s as " #t " is %" FMT, show(x), back); ev("number read"); } \
        seen(hash_bytes(x, strlen(x), hash_bytes(want, (size_t)n, __LINE__))); }
#define CONV_FLT(TY, t, FMT, STRTO, MAXE) { TY v = (TY)(rnd() >> 11) / (TY)(1ull << rn(53)) * (chance(50) ? -1 : 1), back; if (chance(20)) v = ldexpl((TY)rn(1000), (int)rrange(-(MAXE), MAXE)); if (chance(5)) v = 0; char want[600]; int n = snprintf(want, sizeof want, "%" FMT, v); \
        char *b = malloc((size_t)n + 1 + (extra = rn(3))); T(#t " %s", want); vt_conv_##t##_to_str(b, (size_t)n + 1 + extra, v); CHECK(!strcmp(b, want), #t " %s as text is %s", want, show(b)); \
        char *h = hstr(b); back = vt_conv_str_to_##t(h); TY ref = STRTO(h, NULL); CHECK(back == ref, "text %s as " #t " is %" FMT, show(h), back); free(b); free(h); \
        char x[300]; rnumtext(x, 30); if (chance(10)) midtext(x, sizeof(TY) == 4 ? 24 : 53); T("text %s as " #t, show(x)); h = hstr(x); back = vt_conv_str_to_##t(h); ref = STRTO(h, NULL); free(h); \
        if (!numeric(x, true)) { CHECK(back == 0, "text %s as " #t " is not 0", show(x)); ev("malformed number"); } else { CHECK(back == ref, "text %s as " #t " is %" FMT ", expected %" FMT, show(x), back, ref); ev("number read"); } \
        seen(hash_bytes(x, strlen(x), hash_bytes(want, (size_t)n, __LINE__))); }
static void run_conv(uint64_t idx) {
    size_t extra;
    switch (idx % 11) {
        case 0: CONV_INT(int8_t, i8, PRId8, true, INT8_MIN, INT8_MAX) break;
        case 1: CONV_INT(uint8_t, u8, PRIu8, false, 0, UINT8_MAX) break;
        case 2: CONV_INT(int16_t, i16, PRId16, true, INT16_MIN, INT16_MAX) break;
        case 3: CONV_INT(uint16_t, u16, PRIu16, false, 0, UINT16_MAX) break;
        case 4: CONV_INT(int32_t, i32, PRId32, true, INT32_MIN, INT32_MAX) break;
        case 5: CONV_INT(uint32_t, u32, PRIu32, false, 0, UINT32_MAX) break;
        case 6: CONV_INT(int64_t, i64, PRId64, true, INT64_MIN, INT64_MAX) break;
        case 7: CONV_INT(uint64_t, u64, PRIu64, false, 0, UINT64_MAX) break;
        case 8: CONV_FLT(float, f, "f", strtof, 100) break;
        case 9: CONV_FLT(double, d, "f", strtod, 1000) break;
        default: CONV_FLT(long double, r, "Lf", strtold, 1500) break;
    }
    ev("conversions");
}
typedef struct { int t; uint64_t bits; size_t have; char *b; } cs_t;
static int cs_need(cs_t *c, bool run) {
    double d = (double)(int64_t)c->bits / 3; 
#define X(i, T, t, FMT) case i: if (run) vt_conv_##t##_to_str(c->b, c->have, (T)c->bits); return snprintf(NULL, 0, "%" FMT, (T)c->bits) + 1;
    switch (c->t) {
        X(0, int8_t, i8, PRId8) X(1, uint8_t, u8, PRIu8) X(2, int16_t, i16, PRId16) X(3, uint16_t, u16, PRIu16) X(4, int32_t, i32, PRId32) X(5, uint32_t, u32, PRIu32) X(6, int64_t, i64, PRId64) X(7, uint64_t, u64, PRIu64)
        case 8: if (run) vt_conv_f_to_str(c->b, c->have, (float)d); return snprintf(NULL, 0, "%f", (float)d) + 1;
        case 9: if (run) vt_conv_d_to_str(c->b, c->have, d); return snprintf(NULL, 0, "%f", d) + 1;
        default: if (run) vt_conv_r_to_str(c->b, c->have, (real)d); return snprintf(NULL, 0, "%Lf", (real)d) + 1;
    }
#undef X
}
static void cs_body(void *a) { cs_need(a, true); }
static void run_conv_small(uint64_t idx) {
    cs_t c = { .t = (int)(idx % 11), .bits = rbits() };
    int need = cs_need(&c, false);
    c.have = chance(40) ? (size_t)need - 1 : rn((size_t)need); c.b = malloc(c.have ? c.have : 1);
    T("value needing %d characters into %zu (type %d)", need, c.have, c.t);
    death_t d = in_child(cs_body, &c, 30);
    CHECK(d.exited && d.code == EXIT_FAILURE, "a number that needs %d characters was stored in %zu: exit %d signal %d%s", need, c.have, d.code, d.sig, d.survived ? " (went on)" : "");
    free(c.b); ev("too small buffer refused"); seen(hash_bytes(&c, sizeof c - sizeof c.b, 3));
}

/* ============================================================ command line =================================== */
#define NO 80
static const enum VitaTypeInfo otypes[] = { VT_TYPE_INT8, VT_TYPE_UINT8, VT_TYPE_INT16, VT_TYPE_UINT16, VT_TYPE_INT32, VT_TYPE_UINT32, VT_TYPE_INT64, VT_TYPE_UINT64, VT_TYPE_FLOAT, VT_TYPE_DOUBLE, VT_TYPE_REAL, VT_TYPE_BOOL, VT_TYPE_CHAR, VT_TYPE_CSTR, VT_TYPE_STR };
typedef struct { char lng[400], sht[8]; enum VitaTypeInfo ty; union { int8_t i8; uint8_t u8; int16_t i16; uint16_t u16; int32_t i32; uint32_t u32; int64_t i64; uint64_t u64; float f; double d; real r; bool b; char c; char *z; vt_str_t *s; uint8_t raw[32]; } v, want; char *text; bool was_null; } mo_t;
static size_t tsize(enum VitaTypeInfo t) { switch (t) { case VT_TYPE_INT8: case VT_TYPE_UINT8: case VT_TYPE_CHAR: return 1; case VT_TYPE_BOOL: return sizeof(bool); case VT_TYPE_INT16: case VT_TYPE_UINT16: return 2; case VT_TYPE_INT32: case VT_TYPE_UINT32: case VT_TYPE_FLOAT: return 4; case VT_TYPE_REAL: return 10; default: return 8; } }
static void rvalue(char *o, enum VitaTypeInfo t, bool after_eq) {
    switch (t) {
        case VT_TYPE_INT8: sprintf(o, "%d", (int8_t)rbits()); break; case VT_TYPE_UINT8: sprintf(o, "%u", (uint8_t)rbits()); break;
        case VT_TYPE_INT16: sprintf(o, "%d", (int16_t)rbits()); break; case VT_TYPE_UINT16: sprintf(o, "%u", (uint16_t)rbits()); break;
        case VT_TYPE_INT32: sprintf(o, "%d", (int32_t)rbits()); break; case VT_TYPE_UINT32: sprintf(o, "%u", (uint32_t)rbits()); break;
        case VT_TYPE_INT64: sprintf(o, "%" PRId64, (int64_t)rbits()); break; case VT_TYPE_UINT64: sprintf(o, "%" PRIu64, rbits()); break;
        case VT_TYPE_FLOAT: case VT_TYPE_DOUBLE: case VT_TYPE_REAL: sprintf(o, "%.*f", (int)rn(9), (double)(int64_t)rnd() / 1e10); break;
        case VT_TYPE_BOOL: { static const char *b[] = { "1", "true", "0", "false", "12", "yes", "", "truely", "TRUE" }; strcpy(o, b[rn(9)]); break; }
        case VT_TYPE_CHAR: rtext(o, rn(5), "abc=.'\"\\%0 "); break;
        default: rtext(o, chance(90) ? rsize(40) : rn(chance(80) ? 1500 : 9000), chance(50) ? "abc/. " : "ab=\xc3\xa9-?"); break;
    }
    if (chance(5) && t <= VT_TYPE_REAL) strcpy(o, chance(50) ? "x1" : "");
    if (!after_eq && o[0] == '-') o[0] = '7'; /* a separate argument beginning with a dash is the next option */
    if (t == VT_TYPE_INT8 && !after_eq && strlen(o) > 2) o[2] = 0;
    if (t == VT_TYPE_INT16 && !after_eq && strlen(o) > 4) o[4] = 0;
    if (t == VT_TYPE_INT32 && !after_eq && strlen(o) > 9) o[9] = 0;
    if (t == VT_TYPE_INT64 && !after_eq && strlen(o) > 18) o[18] = 0;
}
static void model_set(mo_t *m, const char *z) {
    if (m->ty == VT_TYPE_CSTR || m->ty == VT_TYPE_STR) memset(&m->want, 0, sizeof m->want);
    bool sg = m->ty != VT_TYPE_UINT8 && m->ty != VT_TYPE_UINT16 && m->ty != VT_TYPE_UINT32 && m->ty != VT_TYPE_UINT64, num = numeric(z, sg);
    switch (m->ty) {
        case VT_TYPE_INT8: m->want.i8 = num ? (int8_t)strtol(z, NULL, 10) : 0; break; case VT_TYPE_UINT8: m->want.u8 = num ? (uint8_t)strtoul(z, NULL, 10) : 0; break;
        case VT_TYPE_INT16: m->want.i16 = num ? (int16_t)strtol(z, NULL, 10) : 0; break; case VT_TYPE_UINT16: m->want.u16 = num ? (uint16_t)strtoul(z, NULL, 10) : 0; break;
        case VT_TYPE_INT32: m->want.i32 = num ? (int32_t)strtol(z, NULL, 10) : 0; break; case VT_TYPE_UINT32: m->want.u32 = num ? (uint32_t)strtoul(z, NULL, 10) : 0; break;
        case VT_TYPE_INT64: m->want.i64 = num ? strtoll(z, NULL, 10) : 0; break; case VT_TYPE_UINT64: m->want.u64 = num ? strtoull(z, NULL, 10) : 0; break;
        case VT_TYPE_FLOAT: m->want.f = num ? strtof(z, NULL) : 0; break; case VT_TYPE_DOUBLE: m->want.d = num ? strtod(z, NULL) : 0; break; case VT_TYPE_REAL: m->want.r = num ? strtold(z, NULL) : 0; break;
        case VT_TYPE_BOOL: m->want.b = z[0] == '1' || !strcmp(z, "true"); break;
        case VT_TYPE_CHAR: m->want.c = z[0]; break;
        default: free(m->text); m->text = strdup(z); break;
    }
}
static void run_argopt(uint64_t idx) {
    static mo_t o[NO]; al_t al = al_random();
    size_t n = 1 + rn(chance(80) ? 10 : NO), helplike = chance(15) ? rn(n) : NO, odd = chance(25) ? rn(n) : NO;
    static const char *ln[] = { "--alpha", "--a", "--beta", "--gamma", "--delta-x", "--verbose", "--out", "--input", "--long-option-name", "--z" }, *sn[] = { "-a", "-b", "-bb", "-g", "-d", "-v", "-o", "-i", "-l", "-z" };
    for (size_t i = 0; i < n; i++) {
        memset(&o[i], 0, sizeof o[i]); if (i < 10) { strcpy(o[i].lng, ln[i]); strcpy(o[i].sht, sn[i]); } else { sprintf(o[i].lng, "--more%zu", i); sprintf(o[i].sht, "-%c%c", 'A' + (int)(i / 10), '0' + (int)(i % 10)); } o[i].ty = otypes[rn(15)];
        if (i == helplike) { strcpy(o[i].sht, "-h"); if (chance(50)) strcpy(o[i].lng, "--help"); } /* names like the help request are ordinary unless they stand alone */
        if (i == odd) { static const char *ol[] = { "--name", "--?opt", "--very-long-name-23-chrs", "-long", "--a.b" }, *os[] = { "-n", "-?", "-xy", "-L", "-A" }; size_t q = rn(5); strcpy(o[i].lng, ol[q]); strcpy(o[i].sht, os[q]); if (chance(20)) { size_t ll = 40 + rn(340); memset(o[i].lng, 'w', ll); o[i].lng[0] = o[i].lng[1] = '-'; o[i].lng[ll] = 0; ev("very long option name"); } }
        if (o[i].ty == VT_TYPE_CSTR || o[i].ty == VT_TYPE_STR) {
            char z[60]; rtext(z, rsize(50), "default");
            o[i].was_null = chance(50);
            if (o[i].was_null) { o[i].text = NULL; }
            else {
                o[i].text = strdup(z);
                if (o[i].ty == VT_TYPE_STR) o[i].v.s = vt_str_create(z, al.a);
                else { o[i].v.z = al.a ? VT_ALLOCATOR_ALLOC(al.a, strlen(z) + 1) : VT_CALLOC(strlen(z) + 1); strcpy(o[i].v.z, z); }
            }
        } else { rbytes(o[i].v.raw, 16); if (o[i].ty == VT_TYPE_BOOL) o[i].v.raw[0] &= 1; if (o[i].ty == VT_TYPE_REAL) o[i].v.r = 1.25L; memcpy(o[i].want.raw, o[i].v.raw, sizeof o[i].v.raw); }
    }
    static char *mem[900]; static const char *argv[900]; size_t argc = 0, nm = 0; bool stop = false; const char *unknown = NULL; int expect = VT_ARGOPT_PARSE_SUCCESS;
#define ARG(z) (argv[argc++] = mem[nm++] = hstr(z))
    ARG("./prog");
    char tr[350] = ""; static char big[9800], val[9200];
    size_t k = chance(3) ? 100 + rn(300) : rn(14); bool help = chance(5);
    if (help) { static const char *h[] = { "?", "-h", "--help", "?x" }; ARG(h[rn(4)]); expect = VT_ARGOPT_PARSE_HELP_WANTED; k = 0; }
    for (size_t j = 0; j < k; j++) {
        size_t i = chance(15) ? n - 1 : rn(n); const char *nme = chance(50) ? o[i].lng : o[i].sht;
        int form = (int)rn(20); if (k > 20 && form == 0 && !chance(5)) form = 5;
        if (form == 0) { /* not an option: nothing after it is looked at */
            static const char *bad[] = { "-q", "--unknown", "--alph", "--alphabet", "plain", "--unknown=3", "-", "--", "--h", "" };
            strcpy(big, bad[rn(10)]);
            if (chance(60)) { /* almost a known name */
                strcpy(big, nme); size_t l = strlen(big);
                switch (rn(8)) { case 0: strcat(big, "x"); break; case 1: big[l - 1] = 0; break; case 2: big[l - 1] = (char)(big[l - 1] == 'q' ? 'p' : 'q'); break; case 3: for (char *c = big; *c; c++) if (islower((unsigned char)*c)) *c = (char)toupper((unsigned char)*c); break;
                    case 4: memmove(big + 1, big, l + 1); big[0] = '-'; break; case 5: memmove(big, big + 1, l); break; case 6: strcat(big, "-"); break; default: strcat(big, " "); break; }
                bool known = !*big || strchr("?", *big); for (size_t q = 0; q < n; q++) if (!strcmp(big, o[q].lng) || !strcmp(big, o[q].sht)) known = true;
                if (known) strcpy(big, "--unknown"); else ev("option name almost right");
                if (chance(40)) strcat(big, "=3");
            }
            ARG(big); if (!stop) { expect = VT_ARGOPT_PARSE_ERROR; unknown = argv[argc - 1]; } stop = true; snprintf(tr + strlen(tr), sizeof tr - strlen(tr), "%s ", argv[argc - 1]); ev("unknown option"); continue;
        }
        if (form < 10) { rvalue(val, o[i].ty, true); snprintf(big, sizeof big, "%s=%s", nme, val); ARG(big); if (!stop) model_set(&o[i], val); ev("option=value"); }
        else if (form < 17) { rvalue(val, o[i].ty, false); ARG(nme); ARG(val); if (!stop) { if (val[0] == '-') { model_set(&o[i], "1"); /* not reached */ } else model_set(&o[i], val); } ev("option value"); }
        else if (form == 17 && chance(25)) { /* what starts with a dash is never a value: it is looked up as an option itself */
            static const char *neg[] = { "-5", "-0.5", "-1e3", "--5", "-", "--", "-9223372036854775808", "-text" };
            ARG(nme); if (!stop) model_set(&o[i], "1"); ARG(neg[rn(8)]); if (!stop) { expect = VT_ARGOPT_PARSE_ERROR; unknown = argv[argc - 1]; } stop = true; ev("dash argument after an option"); }
        else { ARG(nme); if (!stop) model_set(&o[i], "1"); ev("bare option"); /* must be followed by an option or nothing */
            if (j + 1 < k) { size_t i2 = rn(n); rvalue(val, o[i2].ty, true); snprintf(big, sizeof big, "%s=%s", o[i2].lng, val); ARG(big); if (!stop) model_set(&o[i2], val); } }
        if (strlen(tr) + 60 < sizeof tr) snprintf(tr + strlen(tr), 60, "%s ", argv[argc - 1]);
        if (argc > 890) break;
    }
    /* a lone argument that asks for help is a request for help, whatever it is otherwise */
    if (argc == 2 && (argv[1][0] == '?' || !strcmp(argv[1], "-h") || !strcmp(argv[1], "--help"))) {
        expect = VT_ARGOPT_PARSE_HELP_WANTED; unknown = NULL; ev("lone help request");
        for (size_t i = 0; i < n; i++) { /* nothing is assigned */
            if (o[i].ty == VT_TYPE_STR || o[i].ty == VT_TYPE_CSTR) { free(o[i].text); o[i].text = o[i].was_null ? NULL : strdup(o[i].ty == VT_TYPE_STR ? vt_str_z(o[i].v.s) : o[i].v.z); }
            else memcpy(o[i].want.raw, o[i].v.raw, sizeof o[i].v.raw);
        }
    }
    T("%zu options, %zu arguments: %s", n, argc, show(tr));
    char store[NO * sizeof(vt_argopt_t)]; vt_argopt_t *ov = (vt_argopt_t*)store;
    vt_argopt_t *heap = malloc(n * sizeof(vt_argopt_t));
    for (size_t i = 0; i < n; i++) { vt_argopt_t t = { o[i].lng, o[i].sht, "text", (void**)&o[i].v, o[i].ty }; memcpy(&heap[i], &t, sizeof t); }
    (void)ov;
    const char **hv = malloc(argc * sizeof *hv); memcpy(hv, argv, argc * sizeof *hv);
    fflush(stdout); char op[600]; snprintf(op, sizeof op, "%s/parse", scratch());
    int so = dup(1), dn = open(op, O_RDWR | O_CREAT | O_TRUNC, 0600); if (dn < 0) exit(3); dup2(dn, 1);
    int r = vt_argopt_parse(argc, hv, n, heap, al.a);
    fflush(stdout); dup2(so, 1); close(so);
    char *said = calloc(1, 20000); if (pread(dn, said, 19999, 0) < 0) exit(3);
    close(dn); unlink(op);
    CHECK(r == expect, "parsing returned %d, expected %d", r, expect);
    if (unknown) CHECK(strstr(said, unknown), "the unknown option %s is not named: %s", show(unknown), show(said));
    free(said);
    for (size_t i = 0; i < n; i++) {
        if (o[i].ty == VT_TYPE_STR) {
            CHECK((o[i].v.s != NULL) == (o[i].text != NULL), "string option %s is %s", o[i].lng, o[i].v.s ? "set" : "missing");
            if (o[i].v.s) { CHECK(!strcmp(vt_str_z(o[i].v.s), o[i].text) && vt_str_len(o[i].v.s) == strlen(o[i].text), "%s is %s, expected %s", o[i].lng, show(vt_str_z(o[i].v.s)), show(o[i].text)); vt_str_destroy(o[i].v.s); }
        } else if (o[i].ty == VT_TYPE_CSTR) {
            CHECK((o[i].v.z != NULL) == (o[i].text != NULL), "text option %s is %s", o[i].lng, o[i].v.z ? "set" : "missing");
            if (o[i].v.z) { CHECK(!strcmp(o[i].v.z, o[i].text), "%s is %s, expected %s", o[i].lng, show(o[i].v.z), show(o[i].text)); if (al.a) VT_ALLOCATOR_FREE(al.a, o[i].v.z); else VT_FREE(o[i].v.z); }
        } else {
            bool eq = !memcmp(o[i].v.raw, o[i].want.raw, tsize(o[i].ty));
            CHECK(eq, "%s (type %d) has bytes %s, expected %s", o[i].lng, o[i].ty, shown(o[i].v.raw, tsize(o[i].ty)), shown(o[i].want.raw, tsize(o[i].ty)));
            if (o[i].ty != VT_TYPE_REAL) CHECK(!memcmp(o[i].v.raw, o[i].want.raw, 16), "setting %s (type %d) changed the bytes after it: %s", o[i].lng, o[i].ty, shown(o[i].v.raw, 16));
        }
        free(o[i].text);
    }
    ev(expect == 0 ? "parsed" : expect == 1 ? "help wanted" : "error reported");
    seen(hash_bytes(tr, strlen(tr), n)); sample("%s-> %d", show(tr), r);
    for (size_t i = 0; i < nm; i++) free(mem[i]);
    free(heap); free(hv); al_end(al);
}
static void run_help(uint64_t idx) {
    static char lng[90][300], sht[90][8], dsc[90][1500], head[3000]; size_t n = 1 + rn(chance(25) ? 90 : 8); vt_argopt_t *v = malloc(n * sizeof *v); int dummy = 0; size_t lw = 6, sw = 2;
    bool hd = chance(50), ft = chance(50); char *want = malloc(300000), *w = want; rtext(head, chance(20) ? rn(2900) : rsize(60), "Usage: 100%\n it");
    for (size_t i = 0; i < n; i++) { rtext(lng[i], rn(chance(3) ? 290 : 39), "-abc"); rtext(sht[i], rn(4), "-xyz"); rtext(dsc[i], chance(4) ? rn(1400) : rsize(110), "words %s\n"); if (strlen(lng[i]) > lw) lw = strlen(lng[i]); if (strlen(sht[i]) > sw) sw = strlen(sht[i]);
        vt_argopt_t t = { lng[i], sht[i], dsc[i], (void**)&dummy, VT_TYPE_INT32 }; memcpy(&v[i], &t, sizeof t); }
    if (hd) w += sprintf(w, "%s\n", head);
    for (size_t i = 0; i < n; i++) w += sprintf(w, "%*s %*s %s\n", (int)sw, sht[i], (int)lw, lng[i], dsc[i]);
    w += sprintf(w, "%*s %*s This help information.\n", (int)sw, "-h", (int)lw, "--help");
    if (ft) w += sprintf(w, "%s\n", head + strlen(head) / 3);
    T("help of %zu options", n);
    char p[600]; snprintf(p, sizeof p, "%s/help", scratch());
    fflush(stdout); int so = dup(1), fd = open(p, O_RDWR | O_CREAT | O_TRUNC, 0600); if (fd < 0) exit(3); dup2(fd, 1);
    vt_argopt_print_help(hd ? head : NULL, ft ? head + strlen(head) / 3 : NULL, n, v);
    fflush(stdout); dup2(so, 1); close(so);
    char *got = calloc(1, 300000); if (pread(fd, got, 299999, 0) < 0) exit(3);
    close(fd); unlink(p);
    CHECK(!strcmp(got, want), "help is %s, expected %s", show(got), show(want));
    ev("help printed"); seen(hash_bytes(want, strlen(want), 1));
    free(got); free(want); free(v);
    /* descriptions that cannot be used are reported, nothing is assigned */
    int val = 7; const char *av[] = { "p", "--x=3" }; int bad = (int)(idx % 5); size_t qn = 2 + rn(chance(30) ? 60 : 5), at = rn(qn), xat = (at + 1 + rn(qn - 1)) % qn;
    static const char *ql[] = { "--a", "--b", "--c", "--d", "--e", "--f" }, *qs[] = { "-a", "-b", "-c", "-d", "-e", "-f" };
    vt_argopt_t q[64];
    for (size_t i = 0; i < qn; i++) {
        vt_argopt_t g = { ql[i % 6], qs[i % 6], "d", (void**)&dummy, VT_TYPE_INT32 }, x = { "--x", "-x", "d", (void**)&val, VT_TYPE_INT32 };
        vt_argopt_t w = { bad == 0 ? NULL : "--y", bad == 1 ? NULL : bad == 2 ? "-lng" : "-y", "d", bad == 3 ? NULL : (void**)&dummy, bad == 4 ? VT_TYPE_COUNT : VT_TYPE_INT32 };
        memcpy(&q[i], i == at ? &w : i == xat ? &x : &g, sizeof g);
    }
    int se = dup(2), dn = open("/dev/null", O_WRONLY); dup2(dn, 2); close(dn);
    int r = vt_argopt_parse(2, av, qn, q, NULL);
    fflush(stderr); dup2(se, 2); close(se);
    CHECK(r == VT_ARGOPT_PARSE_ERROR && val == 7, "an unusable option table (%d at %zu of %zu): returned %d, value %d", bad, at, qn, r, val);
    ev("unusable option table refused");
}

/* ============================================================ mathematics ==================================== */
static bool pal(uint64_t v) { char z[32]; int n = sprintf(z, "%" PRIu64, v); for (int i = 0; i < n / 2; i++) if (z[i] != z[n - 1 - i]) return false; return true; }
static uint64_t gcd_ref(uint64_t a, uint64_t b) { if (!a || !b) return a | b; int s = __builtin_ctzll(a | b); a >>= __builtin_ctzll(a); while (b) { b >>= __builtin_ctzll(b); if (a > b) { uint64_t t = a; a = b; b = t; } b -= a; } return a << s; }
static void run_math(uint64_t idx) {
    for (int k = 0; k < 20; k++) {
        uint64_t v = rbits();
        if (chance(50)) { char z[40]; size_t n = 1 + rn(9); for (size_t i = 0; i < n; i++) z[i] = (char)('0' + rn(10)); if (z[0] == '0') z[0] = '4'; size_t m = n; bool odd = chance(50); for (size_t i = odd ? n - 1 : n; i-- > 0; ) z[m++] = z[i]; z[m] = 0; if (chance(20)) z[m - 1] = '1'; v = strtoull(z, NULL, 10); }
        if (chance(5)) { /* no palindromes, though in 32 bits they equal their mirror image */
            static const uint64_t same[] = { 9801002010750401u, 7070123000004051u, 1040570102001089u, 161127200230000009u, 946576509070000001u, 71230353000030001u, 10010700028020297u, 79202082000701001u }; v = same[rn(8)]; }
        bool p = vt_math_is_palindrome(v); CHECK(p == pal(v), "is %" PRIu64 " a palindrome: %d", v, p); ev(p ? "palindrome" : "no palindrome"); seen(v);
        int64_t a = (int64_t)(rbits() % 2000000000), b = (int64_t)(rbits() % 2000000000);
        if (chance(50)) { int64_t c = (int64_t)rn(1000); a = c * (int64_t)rn(100000); b = c * (int64_t)rn(100000); }
        if (chance(30)) a = -a;
        if (chance(30)) b = -b;
        T("gcd and lcm of %" PRId64 " and %" PRId64, a, b);
        int64_t g = vt_math_gcd(a, b), l = vt_math_lcm(a, b); uint64_t gr = gcd_ref((uint64_t)llabs(a), (uint64_t)llabs(b));
        CHECK(g == (int64_t)gr, "gcd(%" PRId64 ", %" PRId64 ") is %" PRId64 ", expected %" PRIu64, a, b, g, gr);
        int64_t lr = a && b ? llabs(a) / (int64_t)gr * llabs(b) : 0;
        CHECK(l == lr, "lcm(%" PRId64 ", %" PRId64 ") is %" PRId64 ", expected %" PRId64, a, b, l, lr); ev("gcd and lcm");
        if (chance(40)) { int64_t e[] = { INT64_MIN, INT64_MIN + 1, -1, 1, INT64_MAX, 2, -2, 1LL << 62, -(1LL << 62) }; int64_t x = chance(50) ? (int64_t)rnd() : e[rn(9)], y = chance(50) ? (int64_t)rnd() : e[rn(9)];
            if (chance(20)) y = (int64_t)rbits();
            T("gcd of %" PRId64 " and %" PRId64, x, y); uint64_t r = gcd_ref(x < 0 ? 0 - (uint64_t)x : (uint64_t)x, y < 0 ? 0 - (uint64_t)y : (uint64_t)y);
            if (r <= INT64_MAX) { int64_t gl = vt_math_gcd(x, y); CHECK(gl == (int64_t)r, "gcd(%" PRId64 ", %" PRId64 ") is %" PRId64 ", expected %" PRIu64, x, y, gl, r); ev(x == INT64_MIN || y == INT64_MIN ? "gcd with the smallest number" : "gcd of large numbers");
                if (x && y && (unsigned __int128)(x < 0 ? 0 - (uint64_t)x : (uint64_t)x) / r * (y < 0 ? 0 - (uint64_t)y : (uint64_t)y) <= INT64_MAX) { uint64_t lw = (x < 0 ? 0 - (uint64_t)x : (uint64_t)x) / r * (y < 0 ? 0 - (uint64_t)y : (uint64_t)y); int64_t ll = vt_math_lcm(x, y); CHECK(ll == (int64_t)lw, "lcm(%" PRId64 ", %" PRId64 ") is %" PRId64 ", expected %" PRIu64, x, y, ll, lw); ev("lcm of large numbers"); } } }
        /* linear mapping */
        double x0 = (double)rrange(-1000, 1000), x1 = x0 + (double)(1 + rn(1000)), o0 = (double)rrange(-1000, 1000), o1 = (double)rrange(-1000, 1000), t = (double)rn(1001) / 1000; if (chance(50)) { x0 += (double)rn(1000) / 1000; x1 += (double)(1000 + rn(1000)) / 1000; o0 += (double)rn(1000) / 1000; o1 -= (double)rn(1000) / 1000; }
        double y = vt_math_map_to(x0 + t * (x1 - x0), x0, x1, o0, o1), yr = o0 + t * (o1 - o0);
        CHECK(fabs(y - yr) < 1e-11 + 1e-12 * fabs((o1 - o0) / (x1 - x0)), "mapping %f of [%f;%f] to [%f;%f] gave %f, expected %f", t, x0, x1, o0, o1, y, yr);
        CHECK(vt_math_map_to(x0, x0, x1, o0, o1) == o0, "the lower bound is not mapped to the lower bound"); ev("mapped");
        /* square roots */
        union { uint32_t u; float f; } q = { .u = 0x00800000 + (uint32_t)rn(0x7e800000u - 0x00800000u) };
        float s = vt_math_sqrt_carmack(q.f), is = vt_math_isqrt_carmack(q.f); double sr = sqrt((double)q.f);
        CHECK(fabs(s / sr - 1) < 2e-6, "square root of %g is %g, expected %g", q.f, s, sr); CHECK(fabs(is * sr - 1) < 2e-6, "inverse square root of %g is %g, expected %g", q.f, is, 1 / sr); ev("square roots");
        /* closeness */
        float f = (float)rrange(-100000, 100000) / 100, h = f + (float)rrange(-100, 100) / 1000, tol = chance(20) ? -(float)rn(1000) : (float)rn(200) / 1000; double d = fabs((double)(f - h)), e = tol < 0 ? FLT_EPSILON : tol;
        if (fabs(d - e) > e * 1e-3) { bool c = vt_math_is_close(f, h, tol), want = d < e; CHECK(c == want, "are %g and %g close within %g: %d", f, h, tol, c); ev(c ? "close" : "not close"); }
        { float f0 = (float)rn(3) / 2, h0 = f0 + FLT_EPSILON / (float)(2 << rn(3)) * (f0 > 0 ? 4 : 1); /* differences around the machine epsilon */
          if (f0 != h0) { CHECK(!vt_math_is_close(f0, h0, 0), "%.10g and %.10g are close within nothing", f0, h0); double d0 = fabs((double)f0 - h0); if (d0 < FLT_EPSILON * 0.99 || d0 > FLT_EPSILON * 1.01) CHECK(vt_math_is_close(f0, h0, -1) == (d0 < FLT_EPSILON), "are %.10g and %.10g close within the machine epsilon", f0, h0); ev("closeness near the epsilon"); } }
        if (chance(20)) CHECK(vt_math_is_close(f, f, -1), "%g is not close to itself", f);
        /* random numbers stay in their ranges */
        uint32_t ub = (uint32_t)rbits(); float r1 = vt_math_random_f32(ub); CHECK(r1 >= 0 && r1 <= (float)ub, "random number %g outside [0;%u]", r1, ub);
        float lb = (float)rrange(-10000, 10000), hb = lb + (float)rn(10000); float r2 = vt_math_random_f32_uniform(lb, hb); CHECK(r2 >= lb && r2 <= hb, "random number %g outside [%g;%g]", r2, lb, hb);
        float r3 = vt_math_random_f32_normal(lb, 1 + (float)rn(100)); CHECK(isfinite(r3), "random number is not finite"); ev("random numbers");
    }
    /* they vary, and a spread of zero gives the mean */
    CHECK(vt_math_random_f32_normal(5, 0) == 5, "normal distribution without spread is not its mean");
    uint64_t u[64]; size_t dis = 0; for (int i = 0; i < 64; i++) { u[i] = vt_math_random_u64(); bool nw = true; for (int j = 0; j < i; j++) nw &= u[j] != u[i]; dis += nw; }
    CHECK(dis > 16, "only %zu different values in 64 random numbers", dis);
    sample("%zu different values in 64 random numbers", dis); (void)idx;
}

/* ============================================================ primitives ===================================== */
#define CMP(T, t) { T x, y, l, h; rbytes(&x, sizeof x); rbytes(&y, sizeof y); if (chance(30)) y = x; if (chance(20)) x = (T)0; l = x < y ? x : y; h = x < y ? y : x; \
        CHECK(vt_cmp_min##t(x, y) == l && vt_cmp_min##t(y, x) == l, "min"#t); CHECK(vt_cmp_max##t(x, y) == h && vt_cmp_max##t(y, x) == h, "max"#t); \
        T z; rbytes(&z, sizeof z); if (chance(20)) z = l; if (chance(20)) z = h; CHECK(vt_cmp_clamp##t(z, l, h) == (z < l ? l : z > h ? h : z), "clamp"#t); ev("comparisons"); }
#define CMPF(T, t) { T x = (T)(int64_t)rnd() / 7, y = chance(30) ? x : (T)(int64_t)rbits(), l = x < y ? x : y, h = x < y ? y : x, z = (T)(int64_t)rnd() / 9; \
        CHECK(vt_cmp_min##t(x, y) == l && vt_cmp_max##t(x, y) == h && vt_cmp_min##t(y, x) == l && vt_cmp_max##t(y, x) == h, "min/max"#t); CHECK(vt_cmp_clamp##t(z, l, h) == (z < l ? l : z > h ? h : z), "clamp"#t); ev("comparisons"); }
static void run_prims(uint64_t idx) {
    for (int k = 0; k < 6; k++) {
        T("comparisons");
        CMP(int8_t, i8) CMP(uint8_t, u8) CMP(int16_t, i16) CMP(uint16_t, u16) CMP(int32_t, i32) CMP(uint32_t, u32) CMP(int64_t, i64) CMP(uint64_t, u64) CMPF(float, f) CMPF(double, d) CMPF(long double, r)
        /* index maps: mutually inverse and in row-major order */
        size_t nr = 1 + rn(chance(50) ? 10 : 1000000), nc = 1 + rn(chance(50) ? 10 : 1000000), nd = 1 + rn(1000), r = rn(nr), c = rn(nc), d = rn(nd), r2 = 1, c2 = 1, d2 = 1;
        T("index (%zu,%zu,%zu) of %zu x %zu x %zu", r, c, d, nr, nc, nd);
        size_t i2 = vt_index_2d_to_1d(r, c, nc), i3 = vt_index_3d_to_1d(r, c, d, nr, nc);
        CHECK(i2 == r * nc + c, "2d index is %zu", i2); CHECK(i3 == d * nr * nc + r * nc + c, "3d index is %zu", i3);
        vt_index_1d_to_2d(&r2, &c2, i2, nc); CHECK(r2 == r && c2 == c, "2d index %zu came back as (%zu,%zu)", i2, r2, c2);
        vt_index_1d_to_3d(&r2, &c2, &d2, i3, nr, nc); CHECK(r2 == r && c2 == c && d2 == d, "3d index %zu came back as (%zu,%zu,%zu)", i3, r2, c2, d2); ev("index maps"); seen(hash_bytes(&i3, 8, nr * 31 + nc));
        /* memory */
        size_t n = chance(8) ? 300 + rn(20000) : 1 + rsize(300); uint8_t *a = malloc(n), *b = malloc(n), *sa = malloc(n), *sb = malloc(n); rbytes(a, n); rbytes(b, n); if (chance(40)) { memcpy(b, a, n); if (chance(50)) b[chance(30) ? n - 1 : rn(n)] ^= 1; } memcpy(sa, a, n); memcpy(sb, b, n);
        T("memory of %zu bytes", n);
        CHECK(vt_memcmp(a, b, n) == !memcmp(sa, sb, n), "comparison of %zu bytes", n);
        vt_gswap(a, b, n); CHECK(!memcmp(a, sb, n) && !memcmp(b, sa, n), "swap of %zu bytes", n);
        vt_gswap(a, a, n); CHECK(!memcmp(a, sb, n), "swapping %zu bytes with themselves changed them", n);
        size_t m = rn(n + 1), f = rn(n - m + 1), t = rn(n - m + 1);
        CHECK(vt_memmove(a + t, a + f, m) == a + t, "memmove result"); memmove(sb + t, sb + f, m); CHECK(!memcmp(a, sb, n), "memmove of %zu bytes", m);
        CHECK(vt_memcopy(a + t, b + f, m) == a + t, "memcopy result"); memcpy(sb + t, sa + f, m); CHECK(!memcmp(a, sb, n), "memcopy of %zu bytes", m);
        int32_t v = (int32_t)rnd(); CHECK(vt_memset(b + t, v, m) == b + t, "memset result"); memset(sa + t, v, m); CHECK(!memcmp(b, sa, n), "memset of %zu bytes", m);
        void *pa = a, *pb = b; vt_pswap(&pa, &pb); CHECK(pa == b && pb == a, "pointer swap"); vt_pswap(&pa, &pa); CHECK(pa == b, "swapping a pointer with itself changed it"); ev("memory primitives");
        free(a); free(b); free(sa); free(sb);
        uint8_t *q = VT_CALLOC(n); for (size_t i = 0; i < n; i++) if (q[i]) FAIL("fresh memory is not zero");
        memset(q, 0x5a, n); size_t n2 = 1 + rn(500); q = VT_REALLOC(q, n2); for (size_t i = 0; i < n && i < n2; i++) if (q[i] != 0x5a) FAIL("resized memory lost its content");
        EVAL(); VT_FREE(q); VT_FREE(NULL); q = VT_MALLOC(n); memset(q, 1, n); VT_FREE(q);
    }
    static const char *names[] = { "VT_STATUS_ERROR_IS_NULL", "VT_STATUS_ERROR_ALLOCATION", "VT_STATUS_ERROR_INVALID_ARGUMENTS", "VT_STATUS_ERROR_OUT_OF_MEMORY", "VT_STATUS_ERROR_OUT_OF_BOUNDS_ACCESS", "VT_STATUS_ERROR_INCOMPATIBLE_DATATYPE", "VT_STATUS_ERROR_CONVERSION", "VT_STATUS_ERROR_ELEMENT_NOT_FOUND", "VT_STATUS_ERROR_IS_VIEW", "VT_STATUS_OPERATION_FAILURE", "VT_STATUS_OPERATION_SUCCESS" };
    static const enum VitaStatus codes[] = { VT_STATUS_ERROR_IS_NULL, VT_STATUS_ERROR_ALLOCATION, VT_STATUS_ERROR_INVALID_ARGUMENTS, VT_STATUS_ERROR_OUT_OF_MEMORY, VT_STATUS_ERROR_OUT_OF_BOUNDS_ACCESS, VT_STATUS_ERROR_INCOMPATIBLE_DATATYPE, VT_STATUS_ERROR_CONVERSION, VT_STATUS_ERROR_ELEMENT_NOT_FOUND, VT_STATUS_ERROR_IS_VIEW, VT_STATUS_OPERATION_FAILURE, VT_STATUS_OPERATION_SUCCESS };
    size_t i = idx % 11; const char *z = vt_status_to_str(codes[i]);
    CHECK(z && !strcmp(z, names[i]), "status %zu is called %s", i, show(z)); CHECK(vt_status_to_str((enum VitaStatus)(VT_STATUS_COUNT + rn(1000))) == NULL, "an unknown status has a name"); ev("status names");
    vt_version_t v = vt_version_get(), c = vt_compiler_get_version(); char want[40];
    snprintf(want, sizeof want, "%u.%u.%u", v.major, v.minor, v.patch); CHECK(v.str && !strcmp(v.str, want), "version text %s does not match %s", v.str, want);
    snprintf(want, sizeof want, "%u.%u.%u", c.major, c.minor, c.patch); CHECK(c.str && !strcmp(c.str, want), "compiler version text %s does not match %s", c.str, want);
}

const section_t sections[] = {
    { "conv", run_conv, true },
    { "conv_small", run_conv_small, true },
    { "argopt", run_argopt, true },
    { "help", run_help, true },
    { "math", run_math, true },
    { "prims", run_prims, true },
    { NULL, NULL, false },
};

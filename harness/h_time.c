/* Calendar, timestamp text and date arithmetic against an independent civil-calendar model. */
#include "h.h"
#include "vita/vita.h"
#include <time.h>

typedef struct VitaDateTime dt_t;

void section_setup(const char *name) { (void)name; vt_debug_disable_output(true); }

/* ------------------------------------------------------------ the model: proleptic Gregorian calendar */
static bool leap(int y) { return y % 400 == 0 || (y % 4 == 0 && y % 100 != 0); }
static int dim(int y, int m) { static const int d[] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 }; return m == 2 && leap(y) ? 29 : d[m - 1]; }
static int yday(int y, int m, int d) { int s = d; for (int i = 1; i < m; i++) s += dim(y, i); return s; }
static int64_t days(int64_t y, int m, int64_t d) { /* days since 1970-01-01; counts years and leap days directly */
    int64_t p = y - 1, n = p * 365 + p / 4 - p / 100 + p / 400;
    return n + yday((int)y, m, 1) - 1 + d - 719163;
}
static void undays(int64_t n, int *y, int *m, int *d) {
    int lo = 1, hi = 33000;
    while (lo < hi) { int mid = (lo + hi + 1) / 2; if (days(mid, 1, 1) <= n) lo = mid; else hi = mid - 1; }
    *y = lo; n -= days(lo, 1, 1); *m = 1;
    while (n >= dim(*y, *m)) n -= dim(*y, (*m)++);
    *d = (int)n + 1;
}
static int wday(int64_t n) { int64_t w = (n + 3) % 7; return (int)(w < 0 ? w + 7 : w) + 1; } /* 1970-01-01 was a Thursday (4) */
static int64_t secs(const dt_t *v) { return days(v->year, v->month, v->month_day) * 86400 + v->hour * 3600 + v->minute * 60 + v->second; }
static dt_t from_secs(int64_t s) {
    int64_t n = s / 86400, r = s % 86400; if (r < 0) { r += 86400; n--; }
    int y, m, d; undays(n, &y, &m, &d);
    return (dt_t){ .year = (int16_t)y, .month = (int16_t)m, .month_day = (int16_t)d, .hour = (int16_t)(r / 3600), .minute = (int16_t)(r / 60 % 60), .second = (int16_t)(r % 60), .week_day = (int16_t)wday(n), .year_day = (int16_t)yday(y, m, d) };
}
static bool same(const dt_t *a, const dt_t *b) { return a->year == b->year && a->month == b->month && a->month_day == b->month_day && a->hour == b->hour && a->minute == b->minute && a->second == b->second && a->week_day == b->week_day && a->year_day == b->year_day; }
static const char *sd(const dt_t *v) { static char b[4][96]; static int i; char *o = b[i++ & 3]; snprintf(o, 96, "%d-%02d-%02d %02d:%02d:%02d wd%d yd%d", v->year, v->month, v->month_day, v->hour, v->minute, v->second, v->week_day, v->year_day); return o; }
static int ryear(void) { switch (rn(6)) { case 0: return (int)rrange(1000, 9999); case 1: return (int)rrange(1960, 1980); case 2: return (int)rrange(10, 99) * 100; case 3: return (int)rrange(2030, 2045); default: return (int)rrange(1900, 2100); } }
static dt_t rdate(int y) {
    int m = 1 + (int)rn(12), d = dim(y, m);
    switch (rn(6)) { case 0: break; case 1: d = 1; break; case 2: m = 2; d = dim(y, 2); break; case 3: m = 12; d = 31; break; default: d = 1 + (int)rn((size_t)d); }
    int64_t s = days(y, m, d) * 86400;
    switch (rn(5)) { case 0: break; case 1: s += 86399; break; default: s += (int64_t)rn(86400); }
    return from_secs(s);
}
static const char *zones[] = { "UTC", "EST5EDT,M3.2.0,M11.1.0", "AEST-10AEDT,M10.1.0,M4.1.0/3", "XXX-5:45", "CET-1CEST,M3.5.0,M10.5.0/3", "YYY12" };
static int zone_set(uint64_t k) { int z = (int)(k % 6); setenv("TZ", zones[z], 1); tzset(); return z; }
/* local times that exist exactly once whatever the rules above say */
static bool plain_time(int z, const dt_t *v) { return z == 0 || z == 3 || z == 5 || v->hour > 4; }

/* ============================================================ calendar ======================================= */
static void run_calendar(uint64_t idx) {
    int y = 1 + (int)(idx % 9999), z = zone_set(idx / 9999 + idx % 3 * 2);
    dt_t v = { .year = (int16_t)y, .month = 1, .month_day = 1 };
    T("year %d, zone %s", y, zones[z]);
    CHECK(vt_datetime_is_leap_year(v) == leap(y), "is %d a leap year: %d", y, vt_datetime_is_leap_year(v));
    CHECK(vt_datetime_find_days_in_year(v) == (leap(y) ? 366 : 365), "days in %d: %d", y, vt_datetime_find_days_in_year(v));
    for (int m = 1; m <= 12; m++) {
        v.month = (int16_t)m;
        CHECK(vt_datetime_find_days_in_month(v) == dim(y, m), "days in %d-%d: %d", y, m, vt_datetime_find_days_in_month(v));
        for (int d = 1; d <= dim(y, m); d++) {
            dt_t q = { .year = (int16_t)y, .month = (int16_t)m, .month_day = (int16_t)d };
            unsigned r = (unsigned)rnd(); /* any time of the day; stale week and year days must not matter */
            q.hour = (int16_t)(r % 24); q.minute = (int16_t)(r / 24 % 60); q.second = (int16_t)(r / 1440 % 60); q.week_day = (int16_t)(r / 86400 % 9) - 1; q.year_day = (int16_t)(r / 777600 % 400) - 1;
            if ((r >> 28) < 3) { q.hour = 23; q.minute = 59; }
            int a = vt_datetime_find_week_day(q), b = vt_datetime_find_year_day(q);
            if (a != wday(days(y, m, d)) || b != yday(y, m, d)) FAIL("%s in %s: week day %d (expected %d), year day %d (expected %d)", sd(&q), zones[z], a, wday(days(y, m, d)), b, yday(y, m, d));
            g_checks += 2;
        }
    }
    evn("dates asked for week and year day", (uint64_t)(leap(y) ? 366 : 365)); ev("years"); seen(hash_bytes(&y, sizeof y, (uint64_t)z));
    /* years that do not exist count as 1900 */
    dt_t bad = { .year = (int16_t)-(int)(1 + rn(32767)), .month = (int16_t)(1 + rn(12)), .month_day = 1 };
    CHECK(!vt_datetime_is_leap_year(bad) && vt_datetime_find_days_in_year(bad) == 365 && vt_datetime_find_days_in_month(bad) == dim(1900, bad.month), "an invalid year is not treated as 1900");
    bad.year = (int16_t)y; bad.month = (int16_t)(chance(50) ? -(int)rn(300) : 13 + (int)rn(300));
    CHECK(vt_datetime_find_days_in_month(bad) == 31, "days in month %d", bad.month);
    ev("out-of-range years and months");
    if (idx % 16 == 0) sample("year %d, every day, zone %s", y, zones[z]);
}
static int16_t wild(int lo, int hi) { switch (rn(6)) { case 0: return (int16_t)rnd(); case 1: return (int16_t)(lo - 1); case 2: return (int16_t)(hi + 1); case 3: return (int16_t)lo; case 4: return (int16_t)hi; default: return (int16_t)rrange(lo, hi); } }
static int clamp(int v, int lo, int hi) { return v < lo ? lo : v > hi ? hi : v; }
static void run_create(uint64_t idx) {
    int z = zone_set(idx);
    int16_t y = chance(10) ? (int16_t)-(int)rn(32768) : (int16_t)ryear(), mo = wild(1, 12), d = wild(1, 31), h = wild(0, 23), mi = wild(0, 59), s = chance(50) ? wild(0, 59) : wild(0, 60), w = chance(50) ? -1 : wild(1, 7), yd = chance(50) ? -1 : wild(1, 366);
    if (y == 0) y = 2000;
    T("create(%d, %d, %d, %d, %d, %d, %d, %d) in %s", y, mo, d, h, mi, s, w, yd, zones[z]);
    dt_t v = vt_datetime_create(y, mo, d, h, mi, s, w, yd);
    int ey = y < 0 ? 1900 : y, em = clamp(mo, 1, 12), ed = d < 1 ? 1 : d > 31 ? dim(ey, em) : d;
    CHECK(v.year == ey && v.month == em && v.month_day == ed, "created %s, expected %d-%d-%d", sd(&v), ey, em, ed);
    CHECK(v.hour == clamp(h, 0, 23) && v.minute == clamp(mi, 0, 59) && v.second == clamp(s, 0, 60), "created %s", sd(&v));
    if (w >= 1 && w <= 7) CHECK(v.week_day == w, "the given week day %d became %d", w, v.week_day);
    else if (ed <= dim(ey, em) && v.second < 60) { CHECK(v.week_day == wday(days(ey, em, ed)), "created %s, but the week day is %d", sd(&v), wday(days(ey, em, ed))); ev("week day filled in"); }
    if (yd >= 1 && yd <= 366) CHECK(v.year_day == yd, "the given year day %d became %d", yd, v.year_day);
    else if (ed <= dim(ey, em) && v.second < 60) { CHECK(v.year_day == yday(ey, em, ed), "created %s, but the year day is %d", sd(&v), yday(ey, em, ed)); ev("year day filled in"); }
    ev("created"); seen(hash_bytes(&v, sizeof v, (uint64_t)z)); sample("%s", sd(&v));
    /* now */
    if (idx % 50 == 0) {
        time_t a = time(NULL); dt_t n = vt_datetime_get_now(); char b[40], p[40]; size_t l = 26 + rn(14); vt_datetime_get_now_as_text(b, l); vt_datetime_get_now_as_text_pretty(p, l); time_t e = time(NULL);
        bool ok1 = false, ok2 = false, ok3 = false;
        for (time_t t = a; t <= e; t++) {
            struct tm tm; localtime_r(&t, &tm); char q[40], r[40]; strftime(q, sizeof q, "%Y-%m-%d %H:%M:%S", &tm); strftime(r, sizeof r, "%a %b %e %H:%M:%S %Y", &tm);
            ok1 |= n.year == tm.tm_year + 1900 && n.month == tm.tm_mon + 1 && n.month_day == tm.tm_mday && n.hour == tm.tm_hour && n.minute == tm.tm_min && n.second == tm.tm_sec && n.week_day == (tm.tm_wday ? tm.tm_wday : 7) && n.year_day == tm.tm_yday + 1;
            ok2 |= !strcmp(q, b); ok3 |= !strcmp(r, p);
        }
        CHECK(ok1, "now is not %s", sd(&n)); CHECK(ok2, "now as text is not %s", b); CHECK(ok3, "now as text is not %s", p); ev("current time");
    }
}

/* ============================================================ text =========================================== */
static const char *pats[] = { "0000-00-00 00:00:00", "00000000T000000", "0000-00-00T00:00:00" };
static bool matches(const char *z, const char *p) { for (;; z++, p++) { if (*p == '0') { if (*z < '0' || *z > '9') return false; } else if (*z != *p) return false; if (!*p) return true; } }
static bool valid(int f, const char *z) { return f == 0 ? vt_datetime_is_valid_text(z) : f == 1 ? vt_datetime_is_valid_text_iso(z) : vt_datetime_is_valid_text_iso_ext(z); }
static dt_t parse(int f, const char *z) { return f == 0 ? vt_datetime_from_text(z) : f == 1 ? vt_datetime_from_text_iso(z) : vt_datetime_from_text_iso_ext(z); }
static void render(int f, char *o, const dt_t *v) { sprintf(o, f == 0 ? "%04d-%02d-%02d %02d:%02d:%02d" : f == 1 ? "%04d%02d%02dT%02d%02d%02d" : "%04d-%02d-%02dT%02d:%02d:%02d", v->year, v->month, v->month_day, v->hour, v->minute, v->second); }
static void run_text(uint64_t idx) {
    int z = zone_set(idx / 3), f = (int)(idx % 3);
    dt_t v = rdate(ryear());
    char want[60]; render(f, want, &v);
    size_t len = chance(60) ? 26 : 26 + rn(60); char *b = malloc(len); rbytes(b, len);
    T("%s as text, format %d, %zu bytes, zone %s", sd(&v), f, len, zones[z]);
    if (f == 0) vt_datetime_to_text(v, b, len); else if (f == 1) vt_datetime_to_text_iso(v, b, len); else vt_datetime_to_text_iso_ext(v, b, len);
    CHECK(memchr(b, 0, len) && !strcmp(b, want), "%s as text is %s, expected %s", sd(&v), shown(b, strnlen(b, len)), want);
    CHECK(valid(f, b), "own text %s is not accepted", show(b));
    dt_t r = parse(f, b);
    CHECK(same(&r, &v), "%s read back from %s is %s", sd(&v), b, sd(&r));
    ev("text round trip"); seen(hash_bytes(want, strlen(want), (uint64_t)z)); sample("%s", want);
    /* pretty text */
    static const char *wn[] = { "", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun" }, *mn[] = { "", "Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec" };
    rbytes(b, len); vt_datetime_to_text_pretty(v, b, len);
    sprintf(want, "%s %s %2d %02d:%02d:%02d %d", wn[v.week_day], mn[v.month], v.month_day, v.hour, v.minute, v.second, v.year);
    CHECK(memchr(b, 0, len) && !strcmp(b, want), "%s as pretty text is %s, expected %s", sd(&v), shown(b, strnlen(b, len)), want);
    dt_t r2 = r; /* a date that was read prints like the original */
    vt_datetime_to_text_pretty(r2, b, len); CHECK(!strcmp(b, want), "pretty text of a date read from text: %s, expected %s", show(b), want);
    free(b); ev("pretty text");
    /* acceptance: damaged texts in storage that ends where they end */
    for (int k = 0; k < 12; k++) {
        char t[80]; int g = (int)rn(3); render((int)rn(3), t, &v); size_t n = strlen(t);
        if (chance(30)) strcpy(t, pats[g]);
        switch (rn(8)) {
            case 0: break;
            case 1: t[rn(n + 1)] = 0; break;
            case 2: t[rn(n)] = "0a:-T Z/.+"[rn(10)]; break;
            case 3: t[rn(n)] = (char)rnd(); break;
            case 4: strcat(t, chance(50) ? " " : "0"); break;
            case 5: { size_t p = rn(n); memmove(t + p, t + p + 1, n - p); break; }
            case 6: { size_t p = rn(n); memmove(t + p + 1, t + p, n - p + 1); break; }
            default: rtext(t, rn(30), "0123456789-:T "); break;
        }
        n = strlen(t); char *heap = malloc(n + 1); memcpy(heap, t, n + 1);
        bool w = matches(t, pats[g]), got = valid(g, heap);
        CHECK(got == w, "%s %s as format %d", show(t), got ? "accepted" : "rejected", g);
        ev(w ? "text accepted" : "text rejected"); free(heap);
        seen(hash_bytes(t, n, (uint64_t)(g + 1) << 40));
    }
}
typedef struct { int f; const char *z; } pr_t;
static void parse_body(void *a) { pr_t *p = a; dt_t r = parse(p->f, p->z); (void)r; }
static void run_refuse(uint64_t idx) {
    char t[80]; int f = (int)(idx % 3); dt_t v = rdate(ryear()); render(f, t, &v); size_t n = strlen(t);
    do { render(f, t, &v); switch (rn(5)) { case 0: t[rn(n)] = 0; break; case 1: t[rn(n)] = "a:-T Z/"[rn(7)]; break; case 2: strcat(t, "0"); break; case 3: render((int)rn(3), t, &v); break; default: rtext(t, rn(30), "0123456789-:T "); } } while (matches(t, pats[f]));
    char *heap = malloc(strlen(t) + 1); strcpy(heap, t);
    pr_t p = { f, heap };
    T("read %s as format %d", show(t), f);
    death_t d = in_child(parse_body, &p, 30);
    CHECK(d.exited && d.code == EXIT_FAILURE, "reading the malformed %s: exit %d signal %d%s instead of being refused", show(t), d.code, d.sig, d.survived ? " (went on)" : "");
    free(heap); ev("malformed text refused"); seen(hash_bytes(t, strlen(t), 5));
}

/* ============================================================ arithmetic ===================================== */
static void run_arith(uint64_t idx) {
    int z = zone_set(idx % 4 ? 0 : idx / 4);
    dt_t v = rdate(ryear()), q = rdate(ryear());
    if (z == 0) {
        T("%s in seconds", sd(&v));
        int64_t s = secs(&v), g = (int64_t)vt_datetime_to_secs(v);
        CHECK(g == s, "%s is %lld seconds, expected %lld", sd(&v), (long long)g, (long long)s);
        dt_t r = vt_datetime_from_secs((time_t)s); CHECK(same(&r, &v), "%lld seconds are %s, expected %s", (long long)s, sd(&r), sd(&v));
        ev("seconds and back");
        { dt_t sx = v; sx.second = 60; int64_t g6 = (int64_t)vt_datetime_to_secs(sx), w6 = s - v.second + 60; CHECK(g6 == w6, "%s is %lld seconds, expected %lld", sd(&sx), (long long)g6, (long long)w6); ev("the sixtieth second"); }
        /* differences */
        int64_t t = secs(&q), d = s - t;
        T("%s minus %s", sd(&v), sd(&q));
        CHECK((int64_t)vt_datetime_diff_secs(v, q) == d, "difference %lld s, expected %lld", (long long)vt_datetime_diff_secs(v, q), (long long)d);
        CHECK((int64_t)vt_datetime_diff_minutes(v, q) == d / 60, "difference %lld min, expected %lld", (long long)vt_datetime_diff_minutes(v, q), (long long)(d / 60));
        CHECK((int64_t)vt_datetime_diff_hours(v, q) == d / 3600, "difference %lld h, expected %lld", (long long)vt_datetime_diff_hours(v, q), (long long)(d / 3600));
        CHECK((int64_t)vt_datetime_diff_days(v, q) == d / 86400, "difference %lld d, expected %lld", (long long)vt_datetime_diff_days(v, q), (long long)(d / 86400));
        ev("differences");
        if (chance(60)) { int64_t off = rrange(-200000, 200000); if (chance(20)) off = rrange(-90, 90) * 86400; if (chance(10)) off = rrange(-100, 100); q = from_secs(s - off); d = off; }
        if (llabs(d / 86400) <= 32000) { /* the day count of a delta has 16 bits */
            dt_t e = vt_datetime_diff(v, q);
            int64_t tot = (int64_t)e.month_day * 86400 + e.hour * 3600 + e.minute * 60 + e.second;
            /* known finding: the parts are computed in single precision */
            double tol = 1.02 + (double)llabs(d) / 4194304.0;
            CHECK(llabs(tot - d) <= (int64_t)tol, "difference of %s and %s: %dd %dh %dm %ds, off by %lld s", sd(&v), sd(&q), e.month_day, e.hour, e.minute, e.second, (long long)(tot - d));
            CHECK(abs(e.hour) <= 24 && abs(e.minute) <= 60 && abs(e.second) <= 60, "difference has parts out of range: %s", sd(&e));
            CHECK(d >= 0 ? e.month_day >= 0 && e.hour >= 0 && e.minute >= 0 && e.second >= 0 : e.month_day <= 0 && e.hour <= 0 && e.minute <= 0 && e.second <= 0, "difference of %lld s has parts of both signs: %s", (long long)d, sd(&e));
            CHECK(e.year == 0 && e.month == 0, "a difference in days has years or months");
            ev(tot == d ? "broken-down difference exact" : "broken-down difference rounded (known finding)");
        }
        /* adding */
        dt_t a = { 0 };
        if (chance(40)) a.year = (int16_t)rrange(-300, 300);
        if (chance(40)) a.month = (int16_t)rrange(-400, 400);
        if (chance(60)) a.month_day = chance(20) ? (int16_t)rnd() : (int16_t)rrange(-800, 800);
        if (chance(50)) a.hour = chance(20) ? (int16_t)rnd() : (int16_t)rrange(-100, 100);
        if (chance(50)) a.minute = chance(20) ? (int16_t)rnd() : (int16_t)rrange(-200, 200);
        if (chance(50)) a.second = chance(20) ? (int16_t)rnd() : (int16_t)rrange(-200, 200);
        int64_t mm = (int64_t)v.year * 12 + v.month - 1 + (int64_t)a.year * 12 + a.month;
        int64_t es = days(mm / 12, (int)(mm % 12) + 1, (int64_t)v.month_day + a.month_day) * 86400 + (v.hour + a.hour) * 3600 + (v.minute + a.minute) * 60 + v.second + a.second;
        if (mm / 12 > 400 && mm / 12 < 20000) {
            dt_t x = from_secs(es), o = vt_datetime_op(v, a);
            T("%s plus %s", sd(&v), sd(&a));
            CHECK(same(&o, &x), "%s plus (%s) is %s, expected %s", sd(&v), sd(&a), sd(&o), sd(&x));
            ev("sums"); seen(hash_bytes(&x, sizeof x, 9)); sample("%s + %s", sd(&v), sd(&a));
        }
        dt_t no = v; no.year = (int16_t)-(int)rn(100); dt_t y19 = v; y19.year = 1900;
        if (v.month_day <= 28) CHECK((int64_t)vt_datetime_to_secs(no) == secs(&y19), "an invalid year is not taken for 1900 but %lld s", (long long)vt_datetime_to_secs(no));
        /* adding a difference in exact units comes back */
        int64_t ds = rrange(-30000, 30000); dt_t u = vt_datetime_op(v, (dt_t){ .second = (int16_t)ds });
        CHECK((int64_t)vt_datetime_diff_secs(u, v) == ds, "adding %lld seconds moved by %lld", (long long)ds, (long long)vt_datetime_diff_secs(u, v));
    } else {
        if (!plain_time(z, &v)) v.hour = 12;
        T("%s in %s", sd(&v), zones[z]);
        dt_t r = vt_datetime_from_secs(vt_datetime_to_secs(v)); CHECK(same(&r, &v), "in %s, %s to seconds and back is %s", zones[z], sd(&v), sd(&r));
        dt_t o = vt_datetime_op(v, (dt_t){ 0 }); CHECK(same(&o, &v), "in %s, %s plus nothing is %s", zones[z], sd(&v), sd(&o));
        int16_t n = (int16_t)rrange(-400, 400); o = vt_datetime_op(v, (dt_t){ .month_day = n }); dt_t x = from_secs(secs(&v) + (int64_t)n * 86400);
        CHECK(same(&o, &x), "in %s, %s plus %d days is %s, expected %s", zones[z], sd(&v), n, sd(&o), sd(&x));
        CHECK(vt_datetime_diff_secs(v, v) == 0, "a date differs from itself");
        int64_t s = rrange(-2000000000, 4000000000ll); dt_t w = vt_datetime_from_secs((time_t)s);
        time_t tt = (time_t)s; struct tm tm; localtime_r(&tt, &tm);
        CHECK(w.year == tm.tm_year + 1900 && w.month == tm.tm_mon + 1 && w.month_day == tm.tm_mday && w.hour == tm.tm_hour && w.minute == tm.tm_min && w.second == tm.tm_sec, "in %s, %lld seconds are %s", zones[z], (long long)s, sd(&w));
        ev("other time zones"); seen(hash_bytes(&v, sizeof v, (uint64_t)z));
    }
}

const section_t sections[] = {
    { "calendar", run_calendar, true },
    { "create", run_create, true },
    { "text", run_text, true },
    { "refuse", run_refuse, true },
    { "arith", run_arith, true },
    { NULL, NULL, false },
};

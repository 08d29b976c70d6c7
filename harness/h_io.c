/* Whole-file I/O, its failure reporting, the logger and the debug output, against byte-exact models of every file. */
#include "h.h"
#include "track.h"
#include <wchar.h>
#include "vita/vita.h"
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <time.h>

void section_setup(const char *name) {
    vt_debug_disable_output(strcmp(name, "debug") && strcmp(name, "debug_quit") ? true : false);
    signal(SIGXFSZ, SIG_IGN);
    drop_privileges();
    if (chdir(scratch())) { perror("chdir"); exit(3); }
}

/* ------------------------------------------------------------ the harness's own file access (plain system calls) */
static void put(const char *p, const void *d, size_t n) {
    int fd = open(p, O_WRONLY | O_CREAT | O_TRUNC, 0666);
    if (fd < 0) { fprintf(stderr, "harness cannot create %s: %s\n", p, strerror(errno)); exit(3); }
    for (size_t o = 0; o < n; ) { ssize_t r = write(fd, (const char*)d + o, n - o); if (r <= 0) exit(3); o += (size_t)r; }
    close(fd);
}
static char *slurp(const char *p, size_t *n) { /* NULL when there is no such file */
    int fd = open(p, O_RDONLY);
    if (fd < 0) return NULL;
    struct stat st; if (fstat(fd, &st)) exit(3);
    size_t cap = (size_t)st.st_size + 1; char *b = malloc(cap); size_t o = 0;
    for (ssize_t r; o < cap - 1 && (r = read(fd, b + o, cap - 1 - o)) > 0; ) o += (size_t)r;
    close(fd);
    b[o] = 0; *n = o;
    return b;
}
static size_t interesting_size(size_t max) {
    static const size_t edge[] = { 0, 1, 2, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 65535, 65536, 65537, 100000 };
    size_t n = chance(40) ? edge[rn(sizeof edge / sizeof edge[0])] : rsize(3000);
    return n > max ? max : n;
}
static const char *alphabets[] = { "ab\n", "a%sdn\\ \t\r\n", "\x01\x7f\x80\xff\xc3\xa9z", "0123456789" };

/* one call of a writing function chosen by `w`; text is what it has to write; returns its result and whether it appends / ends the line */
enum { NW = 12 };
static const char *wname[NW] = { "write", "writeln", "writeb", "writebln", "append", "appendln", "appendb", "appendbln", "writef", "writefln", "writefc", "writefc append" };
static bool w_appends(int w) { return (w >= 4 && w <= 7) || w == 11; }
static bool w_line(int w) { return w < 8 ? w & 1 : w == 9; }
static bool do_write(int w, const char *p, const char *z, size_t n, bool *line) {
    *line = w_line(w);
    int half = (int)(n / 2);
    if (w >= 8 && n && n < 6000 && chance(40)) { /* the whole text in the format itself */
        static char f[13000]; size_t k = 0; for (size_t i = 0; i < n; i++) { f[k++] = z[i]; if (z[i] == '%') f[k++] = '%'; } f[k] = 0; ev("text in the format");
        if (w == 8) return vt_file_writef(p, f);
        if (w == 9) return vt_file_writefln(p, f);
        *line = chance(50); return vt_file_writefc(p, chance(50), w == 11, *line, f);
    }
    switch (w) {
        case 0: return vt_file_write(p, z);
        case 1: return vt_file_writeln(p, z);
        case 2: return vt_file_writeb(p, z);
        case 3: return vt_file_writebln(p, z);
        case 4: return vt_file_append(p, z);
        case 5: return vt_file_appendln(p, z);
        case 6: return vt_file_appendb(p, z);
        case 7: return vt_file_appendbln(p, z);
        case 8: return vt_file_writef(p, "%.*s%s", half, z, z + half);
        case 9: return vt_file_writefln(p, "%.*s%s", half, z, z + half);
        case 10: *line = chance(50); return vt_file_writefc(p, chance(50), false, *line, "%.*s%s", half, z, z + half);
        default: *line = chance(50); return vt_file_writefc(p, chance(50), true, *line, "%.*s%s", half, z, z + half);
    }
}

/* ============================================================ files ========================================== */
/* content that could be taken for something to interpret: encoding marks, line ends, end-of-file characters */
static void mark(char *z, size_t n) {
    static const char *head[] = { "\xEF\xBB\xBF", "\xFF\xFE", "\xFE\xFF", "\r\n", "\n", "\x1a", "#!", "\x1f\x8b", "%s%n%d", " \t" }, *tail[] = { "\n", "\r\n", "\n\n", "\r", "\x1a", " \n", "%", "\\" };
    if (chance(20)) { const char *h = head[rn(10)]; if (strlen(h) <= n) { memcpy(z, h, strlen(h)); ev("content with a special beginning"); } }
    if (chance(20)) { const char *t = tail[rn(8)]; if (strlen(t) <= n) { memcpy(z + n - strlen(t), t, strlen(t)); ev("content with a special end"); } }
}
#define NF 4
static void run_files(uint64_t idx) {
    static char name[NF][3000], alias[NF][120]; char *body[NF] = { 0 }; size_t len[NF] = { 0 }; mode_t mode[NF] = { 0 };
    for (int i = 0; i < NF; i++) {
        char *c = name[i]; size_t room = sizeof name[i];
        for (size_t j = i == 1 ? (chance(10) ? 100 + rn(1200) : 1) : 0; j > 0; j--) { *c++ = '.'; *c++ = '/'; room -= 2; } /* a long way to the file */
        int k = snprintf(c, room, i == 1 ? "f%llu with space %d" : "f%llu_%d", (unsigned long long)idx, i);
        if (i == 2 && chance(10)) { rtext(c + k, 200, "abc._ "); ev("long file name"); }
        if (c - name[i] > 250) ev("long way to a file");
        unlink(name[i]);
        snprintf(alias[i], sizeof alias[i], "f%llu_%d.alias", (unsigned long long)idx, i); unlink(alias[i]);
        if (i == 3 && symlink(name[i], alias[i])) exit(3);
    }
    size_t steps = 4 + rn(g_thorough ? 40 : 16);
    uint64_t h = 0;
    for (size_t k = 0; k < steps; k++) {
        int f = (int)rn(NF), act = (int)rn(10);
        if (act < 5) {
            int w = (int)rn(NW); size_t n = interesting_size(len[f] > 400000 ? 100 : 200000); char *z = malloc(n + 2);
            rtext(z, n, alphabets[rn(4)]); mark(z, n);
            const char *by = f == 3 && chance(50) ? alias[f] : name[f]; if (by == alias[f]) ev("written through a link");
            T("%s %s: %zu bytes (file has %zu)", wname[w], by, n, len[f]);
            bool line, r = do_write(w, by, z, n, &line);
            CHECK(r, "%s of %zu bytes to a writable file reported failure", wname[w], n);
            if (line) { z[n++] = '\n'; z[n] = 0; }
            if (w_appends(w) && body[f]) { body[f] = realloc(body[f], len[f] + n + 1); memcpy(body[f] + len[f], z, n); len[f] += n; free(z); }
            else { free(body[f]); body[f] = z; len[f] = n; }
            ev(wname[w]); h = h * 131 + (uint64_t)w * 7 + n;
        } else if (act == 5) {
            size_t n = interesting_size(200000); free(body[f]); body[f] = malloc(n + 1); rbytes(body[f], n); mark(body[f], n); len[f] = n;
            if (chance(5)) { unlink(name[f]); free(body[f]); body[f] = NULL; len[f] = 0; T("environment deletes %s", name[f]); }
            else { put(name[f], body[f], n); if (chance(30)) { if (chmod(name[f], 0600 | (mode_t)rn(0100))) exit(3); } T("environment stores %zu arbitrary bytes in %s", n, name[f]); }
            ev("arbitrary content stored"); h = h * 131 + n;
        } else if (act < 8) {
            al_t al = al_random(); bool bin = chance(50);
            T("%s %s", bin ? "readb" : "read", name[f]);
            const char *by = f == 3 && chance(50) ? alias[f] : name[f];
            vt_str_t *s = bin ? vt_file_readb(by, al.a) : vt_file_read(by, al.a);
            CHECK((s != NULL) == (body[f] != NULL), "reading %s file gave %s", body[f] ? "an existing" : "a missing", s ? "a text" : "nothing");
            if (s) {
                CHECK(vt_str_len(s) == len[f], "read %zu bytes of a file of %zu", vt_str_len(s), len[f]);
                CHECK(!memcmp(vt_str_z(s), body[f], len[f]), "the bytes read are not the bytes of the file");
                CHECK(vt_str_z(s)[len[f]] == 0, "the text read is not terminated");
                CHECK(s->alloctr == al.a, "the text read does not belong to the given allocator");
                if (chance(30)) { size_t z0 = strlen(vt_str_z(s)); if (z0 == len[f]) { vt_str_append(s, "tail"); CHECK(vt_str_len(s) == z0 + 4 && !memcmp(vt_str_z(s), body[f], z0), "appending to the text read changed it"); } }
                vt_str_destroy(s);
            }
            al_end(al); ev(body[f] ? "whole file read" : "missing file read");
        } else {
            size_t n = 1 + (chance(50) ? rsize(len[f] + 10) : interesting_size(100000)); char *b = malloc(n), *shadow = malloc(n);
            rbytes(shadow, n); memcpy(b, shadow, n);
            T("read_to_buffer %s into %zu bytes", name[f], n);
            const char *r = vt_file_read_to_buffer(name[f], b, n);
            CHECK((r == b) == (body[f] != NULL), "reading %s file into a buffer gave %s", body[f] ? "an existing" : "a missing", r ? "the buffer" : "nothing");
            if (body[f]) {
                size_t m = n < len[f] ? n : len[f];
                CHECK(!memcmp(b, body[f], m), "the bytes in the buffer are not the first bytes of the file");
                /* what follows the content is the caller's: at most a terminator may have been put there */
                for (size_t i = m; i < n; i++) if (b[i] != shadow[i] && !(i == m && b[i] == 0)) FAIL("buffer byte %zu beyond the %zu bytes of content changed", i, m);
                EVAL();
            }
            free(b); free(shadow); ev("read into a buffer");
        }
        for (int i = 0; i < NF; i++) {
            struct stat st; mode_t now = stat(name[i], &st) ? 0 : st.st_mode;
            if (act != 5 && mode[i] && now) CHECK(now == mode[i], "the permissions of %s changed from %o to %o", name[i], mode[i], now);
            mode[i] = now; if (i == 3) CHECK(!lstat(alias[i], &st) && S_ISLNK(st.st_mode), "the link to a file is not a link any more");
            size_t n = 0; char *b = slurp(name[i], &n);
            CHECK((b != NULL) == (body[i] != NULL), "%s %s", name[i], b ? "appeared" : "vanished");
            if (b) { CHECK(n == len[i] && !memcmp(b, body[i], n), "content of %s (%zu bytes) is not what was written (%zu bytes)", name[i], n, len[i]); seen(hash_bytes(b, n, (uint64_t)i)); free(b); }
        }
    }
    sample("%zu steps over %d files, final sizes %zu %zu %zu %zu", steps, NF, len[0], len[1], len[2], len[3]);
    for (int i = 0; i < NF; i++) { unlink(name[i]); unlink(alias[i]); free(body[i]); }
    DIR *d = opendir("."); if (!d) exit(3);
    for (struct dirent *e; (e = readdir(d)); ) CHECK(e->d_name[0] == '.', "%s was left behind", show(e->d_name));
    closedir(d);
    (void)h;
}

/* ============================================================ failures ======================================= */
static void limit(int what, rlim_t soft, struct rlimit *old) {
    if (getrlimit(what, old)) exit(3);
    struct rlimit l = { .rlim_cur = soft < old->rlim_max ? soft : old->rlim_max, .rlim_max = old->rlim_max };
    if (setrlimit(what, &l)) exit(3);
}
static void run_fail(uint64_t idx) {
    char p[600]; size_t n = interesting_size(120000), on = chance(50) ? interesting_size(70000) : 0;
    char *z = malloc(n + 2); rtext(z, n, alphabets[rn(4)]);
    char *old = malloc(on + 1); rtext(old, on, "old\n");
    int w = (int)rn(NW), how = (int)(idx % 10); bool line = false, r; struct rlimit sv;
    snprintf(p, sizeof p, "x%llu", (unsigned long long)idx); unlink(p);
    switch (how) {
        case 0: { /* the file may only grow to a limit */
            bool ap = w_appends(w);
            if (ap && on) put(p, old, on); else on = 0;
            size_t before = ap ? on : 0, total = before + n, lim;
            switch (rn(5)) { case 0: lim = total; break; case 1: lim = total + 1 + rn(100); break; case 2: lim = total ? total - 1 : 0; break; case 3: lim = rn(total + 1); break; default: lim = before + rn(n + 1); }
            if (lim < before) lim = before;
            T("%s of %zu bytes to a file of %zu bytes that may hold %zu", wname[w], n, before, lim);
            limit(RLIMIT_FSIZE, lim, &sv);
            r = do_write(w, p, z, n, &line);
            if (setrlimit(RLIMIT_FSIZE, &sv)) exit(3);
            size_t need = before + n + (line ? 1 : 0), m = 0; char *b = slurp(p, &m);
            CHECK(r == (need <= lim), "%s of %zu bytes (limit %zu, already %zu) reported %s", wname[w], n + (line ? 1 : 0), lim, before, r ? "success" : "failure");
            if (r) { CHECK(b && m == need, "success reported but the file has %zu bytes instead of %zu", m, need); CHECK(!memcmp(b, old, before) && !memcmp(b + before, z, n) && (!line || b[m - 1] == '\n'), "success reported but the content is wrong"); }
            if (ap && before) CHECK(b && m >= before && !memcmp(b, old, before), "a failed append damaged what the file already held");
            ev(r ? "write within the limit" : "write cut short, failure reported"); free(b);
            seen(hash_bytes(&lim, sizeof lim, (uint64_t)w * 1000003 + n));
            break; }
        case 1: /* device without space */
            if (access("/dev/full", W_OK)) { ev("no /dev/full"); break; }
            T("%s of %zu bytes to a full device", wname[w], n);
            r = do_write(w, "/dev/full", z, n, &line);
            CHECK(r == (n + (line ? 1 : 0) == 0), "%s of %zu bytes to a full device reported %s", wname[w], n, r ? "success" : "failure");
            ev("full device"); seen((uint64_t)w * 1000003 + n + 1);
            break;
        case 2: /* no such directory */
            snprintf(p, sizeof p, "nodir%llu/x", (unsigned long long)idx);
            T("%s to a missing directory", wname[w]);
            CHECK(!do_write(w, p, z, n, &line), "%s into a missing directory reported success", wname[w]);
            { size_t m; CHECK(!slurp(p, &m), "a file appeared in a missing directory"); }
            ev("missing directory"); seen((uint64_t)w + 50);
            break;
        case 3: /* a directory where the file should be */
            if (mkdir(p, 0777)) exit(3);
            T("%s to a directory", wname[w]);
            CHECK(!do_write(w, p, z, n, &line), "%s to a directory reported success", wname[w]);
            rmdir(p); ev("directory as target"); seen((uint64_t)w + 100);
            break;
        case 4: { /* protected file */
            put(p, old, on); chmod(p, 0400);
            T("%s to a read-only file", wname[w]);
            r = do_write(w, p, z, n, &line);
            chmod(p, 0600); size_t m = 0; char *b = slurp(p, &m);
            if (geteuid()) { CHECK(!r, "%s to a read-only file reported success", wname[w]); CHECK(b && m == on && !memcmp(b, old, on), "a read-only file changed"); ev("read-only file"); }
            free(b); seen((uint64_t)w + 150);
            break; }
        case 5: { /* protected directory */
            snprintf(p, sizeof p, "ro%llu", (unsigned long long)idx); if (mkdir(p, 0777)) exit(3);
            chmod(p, 0500); char q[700]; snprintf(q, sizeof q, "%s/x", p);
            T("%s into a read-only directory", wname[w]);
            r = do_write(w, q, z, n, &line);
            chmod(p, 0700); if (geteuid()) { CHECK(!r, "%s into a read-only directory reported success", wname[w]); ev("read-only directory"); }
            unlink(q); rmdir(p); seen((uint64_t)w + 200);
            break; }
        case 9: { /* text that cannot be formatted (a character the locale cannot express) */
            bool ap = chance(50), bin = chance(50), ln = chance(50); int v = (int)rn(3); wint_t bad = (wint_t)0x20ac; size_t m = 0;
            put(p, old, on);
            T("%s with a format that cannot be carried out", v == 0 ? "writef" : v == 1 ? "writefln" : "writefc");
            const char *f = chance(50) ? "%lc" : "begin %lc end";
            r = v == 0 ? vt_file_writef(p, f, bad) : v == 1 ? vt_file_writefln(p, f, bad) : vt_file_writefc(p, bin, ap, ln, f, bad);
            CHECK(!r, "text that could not be formatted was reported as written");
            if (v == 2 && ap) { char *b = slurp(p, &m); CHECK(b && m >= on && !memcmp(b, old, on), "a failed append damaged what the file already held"); free(b); }
            ev("unformattable text"); seen((uint64_t)v * 8 + ap * 4 + bin * 2 + ln + 400);
            break; }
        case 6: { /* no descriptors left */
            put(p, old, on);
            int d[2]; if (pipe(d)) exit(3); close(d[0]); close(d[1]);
            limit(RLIMIT_NOFILE, (rlim_t)d[0], &sv); /* d[0] was the lowest free descriptor */
            T("no descriptors left: %s, read", wname[w]);
            r = do_write(w, p, z, n, &line);
            vt_str_t *a = vt_file_read(p, NULL), *b2 = vt_file_readb(p, NULL); char buf[8]; const char *c = vt_file_read_to_buffer(p, buf, sizeof buf);
            if (setrlimit(RLIMIT_NOFILE, &sv)) exit(3);
            CHECK(!r, "%s without descriptors reported success", wname[w]); CHECK(!a && !b2 && !c, "reading without descriptors gave something");
            size_t m = 0; char *b = slurp(p, &m); CHECK(b && m == on && !memcmp(b, old, on), "the file changed although it could not be opened"); free(b);
            ev("no descriptors"); seen((uint64_t)w + 250);
            break; }
        default: { /* reads that cannot work */
            al_t al = al_random(); char buf[64]; int k = (int)rn(4);
            if (k == 0) { snprintf(p, sizeof p, "nodir%llu/x", (unsigned long long)idx); }
            if (k == 1) { if (mkdir(p, 0777)) exit(3); }
            if (k == 2) { put(p, old, on); chmod(p, 0200); if (!geteuid()) k = 4; }
            static const char *kinds[] = { "in a missing directory", "that is a directory", "without read permission", "that is missing", "(root)" };
            T("read of a file %s", kinds[k]);
            if (k < 4) {
                vt_str_t *a = vt_file_read(p, al.a), *b = vt_file_readb(p, al.a);
                const char *c = vt_file_read_to_buffer(p, buf, 1 + rn(64));
                CHECK(!a && !b && !c, "reading a file %s gave something", kinds[k]);
                ev(kinds[k]);
            }
            if (k == 1) rmdir(p);
            al_end(al); seen((uint64_t)k + 300); }
    }
    unlink(p); free(z); free(old);
}

/* ============================================================ logger and debug output ======================== */
static int saved_err = -1;
static void cap_begin(const char *p) {
    fflush(stderr);
    saved_err = dup(2); int fd = open(p, O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0666);
    if (fd < 0 || saved_err < 0) exit(3);
    dup2(fd, 2); close(fd);
}
static void cap_end(void) { dup2(saved_err, 2); close(saved_err); }

/* text begins with a timestamp of the moment; returns what follows it */
static const char *after_time(const char *z, time_t a, time_t b) {
    for (time_t t = a; t <= b; t++) {
        char q[40]; struct tm tm; localtime_r(&t, &tm);
        size_t k = strftime(q, sizeof q, "%Y-%m-%d %H:%M:%S ", &tm);
        if (!strncmp(z, q, k)) return z + k;
    }
    return NULL;
}
#define NDEST 4
static char dest[NDEST][4200];
static void dbase(char *o, uint64_t idx, int i) { if (i == 3 && idx % 2) sprintf(o, "%c", 'a' + (int)(idx % 26)); else sprintf(o, "l%llu_%d", (unsigned long long)idx, i); }
static char unopenable[3][9000] = { "no such directory/log", "." };
static const char *bad_dest(void) { if (!unopenable[2][0]) memset(unopenable[2], 'x', 4096 + 700); return unopenable[rn(3)]; } /* missing directory, a directory, a name longer than any path */
static void mkdests(uint64_t idx) {
    for (int i = 0; i < NDEST; i++) {
        char base[64]; dbase(base, idx, i);
        size_t want = i == 1 ? 4095 : i == 2 ? 200 + rn(3000) : 0;
        dest[i][0] = 0;
        size_t l = 0;
        while (l + strlen(base) + 2 <= want) { dest[i][l++] = '.'; dest[i][l++] = '/'; }
        if (i == 1 && l + strlen(base) < 4095) { /* exactly the longest possible name */ while (l + strlen(base) < 4095) dest[i][l++] = '/'; }
        strcpy(dest[i] + l, base);
        unlink(base);
    }
}
static void rmdests(uint64_t idx) { for (int i = 0; i < NDEST; i++) { char base[64]; dbase(base, idx, i); unlink(base); } }
/* models: what every destination holds; -1 = stderr */
typedef struct { char *b; size_t n; } acc_t;
static acc_t model[NDEST + 1];
static void m_add(acc_t *m, const char *z, size_t n) { m->b = realloc(m->b, m->n + n + 1); memcpy(m->b + m->n, z, n); m->n += n; m->b[m->n] = 0; }
static const char *lvl[] = { "INFO", "WARN", "DEBUG", "ERROR", "FATAL", "ASSERT FAILURE" };
static size_t rmsg(char **o) { size_t n = chance(90) ? rsize(300) : interesting_size(20000); *o = malloc(n + 1); rtext(*o, n, alphabets[rn(4)]); return n; }

/* finds the new text of destination d and checks that everything before it is unchanged; d == NDEST is stderr */
static bool blocked[NDEST + 2];
static char *newpart(int d, const char *errp, size_t *n) {
    if (blocked[d]) { *n = 0; return strdup(""); }
    size_t m = 0; char *b = slurp(d == NDEST ? errp : dest[d], &m);
    if (d == NDEST) { *n = m; return b; }
    if (!b) { CHECK(model[d].n == 0, "a log file vanished"); *n = 0; return strdup(""); }
    CHECK(m >= model[d].n && !memcmp(b, model[d].b ? model[d].b : "", model[d].n), "what was logged earlier to destination %d has changed", d);
    char *r = malloc(m - model[d].n + 1); memcpy(r, b + model[d].n, m - model[d].n); *n = m - model[d].n; r[*n] = 0;
    free(b);
    return r;
}
static void expect_only(int d, const char *errp, time_t a, time_t b, const char *want, const char *what) {
    for (int i = 0; i <= NDEST; i++) {
        size_t n; char *z = newpart(i, errp, &n);
        if (i == d) {
            const char *rest = after_time(z, a, b);
            CHECK(rest, "%s: the text in the destination does not start with the time: %s", what, shown(z, n < 80 ? n : 80));
            CHECK(!strcmp(rest, want), "%s: destination %d got %s, expected %s", what, d, show(rest), show(want));
            if (i < NDEST) m_add(&model[i], z, n);
        } else CHECK(n == 0, "%s: destination %d got text it should not: %s", what, i, shown(z, n < 120 ? n : 120));
        free(z);
    }
}
/* the time in front of a message is the local one, wherever the program runs */
static void zone(uint64_t idx) { static const char *zs[] = { "UTC0", "AAA+05:30", "BBB-13", "CCC+11" }; setenv("TZ", zs[idx % 4], 1); tzset(); }
/* a destination that cannot be opened for a while: its file is moved away and a directory stands in its place */
static void block(uint64_t idx, int d) {
    char base[64], away[80]; dbase(base, idx, d); snprintf(away, sizeof away, "%s.away", base);
    if (!blocked[d]) { rename(base, away); if (mkdir(base, 0700)) exit(3); ev("destination blocked"); }
    else { if (rmdir(base)) FAIL("something was put into a directory standing in for a log file"); rename(away, base); ev("destination opened again"); }
    blocked[d] = !blocked[d];
}
static void run_log(uint64_t idx) {
    zone(idx);
    char errp[64]; snprintf(errp, sizeof errp, "err%llu", (unsigned long long)idx);
    mkdests(idx);
    for (int i = 0; i < NDEST; i++) model[i] = (acc_t){ 0 };
    if (chance(50)) { put(dest[0], "earlier content\n", 16); m_add(&model[0], "earlier content\n", 16); }
    int route[6]; /* NDEST = stderr, NDEST+1 = unopenable */
    vt_log_redirect_all_output(NULL); for (int i = 0; i < 6; i++) route[i] = NDEST;
    size_t steps = 3 + rn(g_thorough ? 40 : 14); uint64_t h = 0;
    for (size_t k = 0; k < steps; k++) {
        int act = (int)rn(10);
        if (chance(8)) { int d = (int)rn(NDEST); T("destination %d %s", d, blocked[d] ? "opens" : "cannot be opened"); block(idx, d); }
        if (act < 3) {
            int to = (int)rn(NDEST + 2), l = (int)rn(6); char nm[9000]; const char *pz = nm;
            if (to == NDEST) { if (chance(50)) pz = NULL; else nm[0] = 0; } else if (to == NDEST + 1) strcpy(nm, bad_dest()); else strcpy(nm, dest[to]);
            if (chance(35)) { T("redirect everything to %d", to); vt_log_redirect_all_output(pz); for (int i = 0; i < 6; i++) route[i] = to; ev("all redirected"); }
            else { T("redirect %s to %d", lvl[l], to); vt_log_redirect_level_output((enum VitaLogLevel)l, pz); route[l] = to; ev("level redirected"); }
            memset(nm, 'X', 100); nm[100] = 0; /* the caller's buffer is the caller's again */
            h = h * 31 + (uint64_t)to * 7 + (uint64_t)l;
            continue;
        }
        int l = (int)rn(6); bool ex = chance(50), truth = ex && chance(40), own = chance(30);
        if (l >= 4) truth = true, ex = true; /* ending levels are exercised in log_quit */
        int to = own ? (chance(10) ? NDEST + 1 : (int)rn(NDEST)) : route[l]; const char *ownz = own ? (to > NDEST ? bad_dest() : dest[to]) : NULL;
        char *m; size_t n = rmsg(&m); char file[400]; rtext(file, 1 + rn(chance(10) ? 390 : 30), "abc_./%"); size_t line = chance(10) ? (size_t)-1 : rn(100000); static char zexpr[800]; rtext(zexpr, rn(chance(10) ? 790 : 39), "x=%d [](<>)!");
        T("log %s, %s%s, %zu bytes, to %d%s", lvl[l], ex ? "with expression" : "plain", truth ? " (true)" : "", n, to, own ? " (named)" : "");
        time_t t0 = time(NULL);
        cap_begin(errp);
        bool nl = chance(10);
        if (nl) vt_log(ownz, (enum VitaLogLevel)l, truth, ex ? zexpr : NULL, file, line, "%s\n", m);
        else if (n > 1 && chance(30)) vt_log(ownz, (enum VitaLogLevel)l, truth, ex ? zexpr : NULL, file, line, "%.*s%c%s", (int)(n / 2), m, m[n / 2], m + n / 2 + 1);
        else vt_log(ownz, (enum VitaLogLevel)l, truth, ex ? zexpr : NULL, file, line, "%s", m);
        cap_end();
        time_t t1 = time(NULL);
        char *want = malloc(n + 1600);
        if (ex) snprintf(want, n + 1600, "%5s [%s] %s:%zu: %s%s\n", lvl[l], zexpr, file, line, m, nl ? "\n" : ""); else snprintf(want, n + 1600, "%5s %s:%zu: %s%s\n", lvl[l], file, line, m, nl ? "\n" : "");
        if (truth) { for (int i = 0; i <= NDEST; i++) { size_t q; char *z = newpart(i, errp, &q); CHECK(q == 0, "a satisfied condition logged something"); free(z); } ev("satisfied condition silent"); }
        else { expect_only(to > NDEST || blocked[to] ? NDEST : to, errp, t0, t1, want, "log"); ev(to == NDEST + 1 ? "unopenable file: message on stderr" : to == NDEST ? "message on stderr" : own ? "message in named file" : "message in redirected file"); }
        seen(hash_bytes(&to, sizeof to, (uint64_t)l * 1000 + n)); sample("%s", show(want));
        free(want); free(m); unlink(errp);
    }
    CHECK(!strcmp(vt_log_get_level_str((enum VitaLogLevel)(idx % 6)), lvl[idx % 6]), "level name");
    vt_log_redirect_all_output(NULL);
    for (int i = 0; i < NDEST; i++) { if (blocked[i]) block(idx, i); free(model[i].b); }
    rmdests(idx);
}
/* the ending levels, observed from a parent */
typedef struct { int l; bool truth; const char *file; const char *msg; bool own, all; } lq_t;
static int after_flag_fd = -1;
static void lq_body(void *arg) {
    lq_t *q = arg;
    if (!q->own && q->all) vt_log_redirect_all_output(q->file);
    else if (!q->own) vt_log_redirect_level_output((enum VitaLogLevel)q->l, q->file);
    if (q->l == 5) vt_log(q->own ? q->file : NULL, vt_log_assert, q->truth, "a < b", "f.c", 7, "%s", q->msg);
    else vt_log(q->own ? q->file : NULL, vt_log_fatal, q->truth, NULL, "f.c", 7, "%s", q->msg);
    (void)after_flag_fd;
}
static void run_log_quit(uint64_t idx) {
    char p[64]; snprintf(p, sizeof p, "q%llu", (unsigned long long)idx); unlink(p);
    char *m; size_t n = rmsg(&m); if (n > 3000) { n = 3000; m[n] = 0; }
    int where = (int)rn(3); /* stderr, file, unopenable */
    lq_t q = { .l = 4 + (int)rn(2), .truth = chance(20), .file = where == 0 ? NULL : where == 1 ? p : "no such directory/log", .msg = m, .own = where && chance(50), .all = chance(40) };
    T("%s message (%s) to %s", lvl[q.l], q.truth ? "condition true" : "condition false", where == 0 ? "stderr" : where == 1 ? "a file" : "an unopenable file");
    size_t had = where == 1 && chance(50) ? rn(60) : 0; if (had) put(p, "an earlier line of this file\nand one that is not finished ...", had);
    time_t t0 = time(NULL);
    death_t d = in_child(lq_body, &q, 30);
    time_t t1 = time(NULL);
    if (q.truth) { CHECK(d.survived, "a satisfied condition ended the program (exit %d, signal %d)", d.code, d.sig); CHECK(d.err_len == 0 && d.out_len == 0 && (had || access(p, F_OK)), "a satisfied condition produced output"); ev("satisfied condition survives"); }
    else {
        CHECK(d.exited && d.code == EXIT_FAILURE, "%s message: exit %d signal %d%s instead of a failure exit", lvl[q.l], d.code, d.sig, d.survived ? " (went on)" : "");
        size_t fn = 0; char *fb = slurp(p, &fn); d.err[d.err_len] = 0;
        if (had) { CHECK(fb && fn >= had && !memcmp(fb, "an earlier line of this file\nand one that is not finished ...", had), "an ending message did not keep what the file held"); ev("earlier content kept"); }
        const char *z = where == 1 ? (fb ? fb + had : fb) : d.err; const char *rest = z ? after_time(z, t0, t1) : NULL;
        char want[4000]; snprintf(want, sizeof want, q.l == 5 ? "%5s [a < b] f.c:7: %s\n" : "%5s f.c:7: %s\n", lvl[q.l], m);
        CHECK(rest && !strcmp(rest, want), "%s message: destination holds %s, expected (time) %s", lvl[q.l], show(z), show(want));
        if (where == 1) CHECK(d.err_len == 0, "a message for a file also went to stderr");
        CHECK(d.out_len == 0, "a message went to stdout");
        free(fb); ev(where == 0 ? "ended with message on stderr" : where == 1 ? "ended with message in file" : "ended, unopenable file, message on stderr");
    }
    seen(hash_bytes(m, n, (uint64_t)(q.l * 10 + where))); sample("%s to %s: exit %d", lvl[q.l], where == 0 ? "stderr" : where == 1 ? "file" : "unopenable file", d.code);
    unlink(p); free(m);
}
static int evaluated; static bool once(bool v) { evaluated++; return v; }
static void run_debug(uint64_t idx) {
    zone(idx);
    char errp[64]; snprintf(errp, sizeof errp, "err%llu", (unsigned long long)idx);
    mkdests(idx);
    for (int i = 0; i < NDEST; i++) model[i] = (acc_t){ 0 };
    if (chance(50)) { put(dest[0], "earlier content\n", 16); m_add(&model[0], "earlier content\n", 16); }
    int route = NDEST; bool off = false;
    vt_debug_redirect_output(NULL); vt_debug_disable_output(false);
    size_t steps = 3 + rn(g_thorough ? 40 : 14);
    for (size_t k = 0; k < steps; k++) {
        int act = (int)rn(10);
        if (chance(10)) { int d = (int)rn(NDEST); T("destination %d %s", d, blocked[d] ? "opens" : "cannot be opened"); block(idx, d); }
        if (act < 2) { route = (int)rn(NDEST + 2); T("redirect to %d", route); vt_debug_redirect_output(route == NDEST ? NULL : route > NDEST ? bad_dest() : dest[route]); ev("redirected"); continue; }
        if (act == 2) { off = chance(50); T("output %s", off ? "off" : "on"); vt_debug_disable_output(off); ev("switched"); continue; }
        char *m; size_t n = rmsg(&m); static char zx[800]; rtext(zx, rn(chance(10) ? 790 : 39), "x=%d [](<>)!"); char *want = malloc(n + 1500), subj[400]; rtext(subj, 1 + rn(chance(10) ? 390 : 28), "ABC DEF%"); bool truth = false; int kind = (int)rn(4); evaluated = 0; int line = 0;
        T("debug output kind %d, %zu bytes, to %d%s", kind, n, route, off ? " (off)" : "");
        time_t t0 = time(NULL);
        cap_begin(errp);
        switch (kind) {
            case 0: vt_debug_printf(subj, "%s", m); snprintf(want, n + 1500, "%s %s", subj, m); break;
            case 1: truth = chance(30); vt_debug_assert(truth, zx, subj, false, "file.c", "fn", 12, "%s", m); snprintf(want, n + 1500, "%s [%s] file.c:fn:12: %s\n", subj, zx, m); break;
            case 2: truth = chance(30); VT_CHECK(once(truth), "%s", m); line = __LINE__; snprintf(want, n + 500, "CHECK FAILURE [once(truth)] h_io.c:run_debug:%d: %s\n", line, m); break;
            default: VT_NOTE("%s", m); line = __LINE__; snprintf(want, n + 500, "NOTE [!] h_io.c:run_debug:%d: %s\n", line, m); break;
        }
        cap_end();
        time_t t1 = time(NULL);
        if (kind == 2) CHECK(evaluated == 1, "a checked condition was evaluated %d times", evaluated);
        if (truth || off) { for (int i = 0; i <= NDEST; i++) { size_t q; char *z = newpart(i, errp, &q); CHECK(q == 0, "%s produced output", off ? "disabled debug output" : "a satisfied condition"); free(z); } ev(off ? "disabled output silent" : "satisfied condition silent"); }
        else { expect_only(route > NDEST || blocked[route] ? NDEST : route, errp, t0, t1, want, "debug output"); ev(route > NDEST ? "unopenable file: text on stderr" : route == NDEST ? "text on stderr" : "text in file"); sample("%s", show(want)); }
        seen(hash_bytes(&route, sizeof route, (uint64_t)kind * 1000 + n));
        free(m); free(want); unlink(errp);
    }
    vt_debug_redirect_output(NULL); vt_debug_disable_output(false);
    for (int i = 0; i < NDEST; i++) { if (blocked[i]) block(idx, i); free(model[i].b); }
    rmdests(idx);
}
typedef struct { int kind; bool truth, off; const char *file; const char *msg; } dq_t;
static void dq_body(void *arg) {
    dq_t *q = arg;
    vt_debug_disable_output(q->off); vt_debug_redirect_output(q->file);
    switch (q->kind) {
        case 0: VT_ENFORCE(q->truth, "%s", q->msg); break;
        case 1: vt_debug_assert(q->truth, "c", "DEBUG ASSERTION FAILURE", true, "f.c", "fn", 3, "%s", q->msg); break;
        case 2: VT_REQUIRED("%s", q->msg); break;
        case 3: VT_TODO("%s", q->msg); break;
        default: VT_UNIMPLEMENTED("%s", q->msg); break;
    }
}
static void run_debug_quit(uint64_t idx) {
    char p[64]; snprintf(p, sizeof p, "q%llu", (unsigned long long)idx); unlink(p);
    char *m; size_t n = rmsg(&m); if (n > 3000) { n = 3000; m[n] = 0; }
    int where = (int)rn(3);
    dq_t q = { .kind = (int)rn(5), .off = chance(25), .file = where == 0 ? NULL : where == 1 ? p : "no such directory/log", .msg = m };
    if (q.kind < 2) q.truth = chance(30);
    T("ending debug call %d (%s%s) to %d", q.kind, q.truth ? "satisfied" : "violated", q.off ? ", output off" : "", where);
    size_t had = where == 1 && chance(50) ? rn(60) : 0; if (had) put(p, "an earlier line of this file\nand one that is not finished ...", had);
    time_t t0 = time(NULL);
    death_t d = in_child(dq_body, &q, 30);
    time_t t1 = time(NULL);
    size_t fn = 0; char *all = slurp(p, &fn), *fb = all;
    if (had) { CHECK(fb && fn >= had && !memcmp(fb, "an earlier line of this file\nand one that is not finished ...", had), "a diagnostic did not keep what the file held"); fb += had; fn -= had; if (!fn) fb = NULL; ev("earlier content kept"); }
    if (q.truth) { CHECK(d.survived, "a satisfied condition ended the program"); CHECK(!d.err_len && !d.out_len && !fb, "a satisfied condition produced output"); ev("satisfied condition survives"); }
    else {
        CHECK(d.exited && d.code == EXIT_FAILURE, "violated condition: exit %d signal %d%s instead of a failure exit", d.code, d.sig, d.survived ? " (went on)" : "");
        if (q.off) { CHECK(!d.err_len && !d.out_len && !fn, "disabled output printed something"); ev("ended silently, output disabled"); }
        else {
            static const char *subj[] = { "ENFORCE FAILURE [q->truth] h_io.c:dq_body:", "DEBUG ASSERTION FAILURE [c] f.c:fn:3:", "REQUIRED [!] h_io.c:dq_body:", "TODO [!] h_io.c:dq_body:", "UNIMPLEMENTED [!] h_io.c:dq_body:" };
            d.err[d.err_len] = 0; const char *z = where == 1 ? fb : d.err, *rest = z ? after_time(z, t0, t1) : NULL;
            CHECK(rest && !strncmp(rest, subj[q.kind], strlen(subj[q.kind])), "diagnostic is %s, expected %s...", show(z), subj[q.kind]);
            size_t l = strlen(rest); char want[3100]; snprintf(want, sizeof want, " %s\n", m);
            CHECK(l >= strlen(want) && !strcmp(rest + l - strlen(want), want), "diagnostic %s does not end with the message", show(rest));
            if (where == 1) CHECK(!d.err_len, "a diagnostic for a file also went to stderr");
            ev(where == 0 ? "ended with diagnostic on stderr" : where == 1 ? "ended with diagnostic in file" : "ended, unopenable file, diagnostic on stderr");
        }
    }
    seen(hash_bytes(m, n, (uint64_t)(q.kind * 10 + where))); sample("ending call %d: exit %d", q.kind, d.code);
    free(all); free(m); unlink(p);
}

/* files beyond 2 and 4 GiB: sparse, with bytes only at both ends */
static char vast_head[6000], vast_tail[20000];
static void vast_make_file(const char *p, size_t size, size_t nt) {
    unlink(p); int fd = open(p, O_RDWR | O_CREAT | O_TRUNC, 0666); if (fd < 0) exit(3);
    rbytes(vast_head, sizeof vast_head); rbytes(vast_tail, nt);
    if (ftruncate(fd, (off_t)size) || pwrite(fd, vast_head, sizeof vast_head, 0) != (ssize_t)sizeof vast_head || pwrite(fd, vast_tail, nt, (off_t)(size - nt)) != (ssize_t)nt) exit(3);
    close(fd);
}
static void run_files_vast(uint64_t idx) {
    char p[80]; snprintf(p, sizeof p, "vast%llu", (unsigned long long)idx);
    static const size_t sizes[] = { (size_t)1 << 31, (size_t)1 << 32, ((size_t)1 << 32) + ((size_t)1 << 31), (size_t)5 << 32 };
    size_t nt = 1 + rn(3000), size = sizes[rn(4)] + (chance(50) ? rn(10000) : rn(10)) - (chance(30) ? 5 : 0); vast_make_file(p, size, nt);
    size_t steps = 2 + rn(6);
    for (size_t k = 0; k < steps; k++) {
        if (chance(50)) { /* the first bytes */
            size_t n = 1 + (chance(50) ? rsize(5999) : rn(5999)); char *b = malloc(n); const char *r = vt_file_read_to_buffer(p, b, n); T("first %zu bytes of a file of %zu", n, size);
            CHECK(r == b && !memcmp(b, vast_head, n), "reading the first %zu bytes of a file of %zu bytes %s", n, size, r == b ? "gave other bytes" : "failed"); free(b); ev("start of a vast file read");
        } else { /* text at the end */
            static const int aw[] = { 4, 5, 6, 7, 11 }; int w = aw[rn(5)]; size_t n = rsize(2000); char *z = malloc(n + 2); rtext(z, n, alphabets[rn(4)]); bool line; T("%s of %zu bytes to a file of %zu", wname[w], n, size);
            bool r = do_write(w, p, z, n, &line); CHECK(r, "%s of %zu bytes to a file of %zu bytes reported failure", wname[w], n, size); if (line) z[n++] = '\n';
            memcpy(vast_tail + nt, z, n); nt += n; size += n; free(z); ev("vast file appended to"); if (nt > sizeof vast_tail - 2100) break;
        }
        struct stat st; if (stat(p, &st)) FAIL("the file is gone"); CHECK((size_t)st.st_size == size, "the file has %lld bytes, expected %zu", (long long)st.st_size, size);
        char *b = malloc(sizeof vast_head + nt + 1); int fd = open(p, O_RDONLY); if (fd < 0 || pread(fd, b, sizeof vast_head, 0) != (ssize_t)sizeof vast_head || pread(fd, b + sizeof vast_head, nt + 1, (off_t)(size - nt)) != (ssize_t)nt) exit(3);
        close(fd); CHECK(!memcmp(b, vast_head, sizeof vast_head) && !memcmp(b + sizeof vast_head, vast_tail, nt), "the ends of the file differ"); free(b);
    }
    if (chance(60)) { int w = (int)rn(4); size_t n = rsize(3000); char *z = malloc(n + 2); rtext(z, n, alphabets[rn(4)]); bool line; T("%s of %zu bytes over a file of %zu", wname[w], n, size);
        CHECK(do_write(w, p, z, n, &line), "%s over a vast file reported failure", wname[w]); if (line) z[n++] = '\n'; size_t m; char *b = slurp(p, &m); CHECK(b && m == n && !memcmp(b, z, n), "the file has %zu bytes, expected %zu", m, n); free(b); free(z); ev("vast file replaced"); }
    seen(size); sample("file of %zu bytes", size); unlink(p);
}
static void run_read_vast(uint64_t idx) { /* the whole content of a file beyond 2 GiB (4 GiB in thorough) */
    FILE *f = fopen("/proc/meminfo", "r"); char l[200]; unsigned long long kb = 0; if (f) { while (fgets(l, sizeof l, f)) if (sscanf(l, "MemAvailable: %llu", &kb) == 1) break; fclose(f); }
    if (kb < 8ull << 20) { ev("not enough memory: case skipped"); return; }
    char p[80]; snprintf(p, sizeof p, "readvast%llu", (unsigned long long)idx); size_t nt = 1 + rn(3000), size = ((size_t)1 << (g_thorough ? 32 : 31)) + rn(10000); vast_make_file(p, size, nt);
    bool bin = chance(50); T("%s of a file of %zu bytes", bin ? "readb" : "read", size); al_t al = al_make((int)rn(2));
    vt_str_t *s = bin ? vt_file_readb(p, al.a) : vt_file_read(p, al.a); CHECK(s, "reading a file of %zu bytes failed", size); CHECK(vt_str_len(s) == size, "read %zu bytes of a file of %zu", vt_str_len(s), size);
    const char *z = vt_str_z(s); CHECK(!memcmp(z, vast_head, sizeof vast_head) && !memcmp(z + size - nt, vast_tail, nt) && z[size] == 0, "the bytes read are not the bytes of the file");
    const char *m = z + sizeof vast_head; CHECK(m[0] == 0 && !memcmp(m, m + 1, size - sizeof vast_head - nt - 1), "the bytes read are not the bytes of the file"); ev("vast file read"); vt_str_destroy(s); al_end(al); unlink(p); seen(size);
}

const section_t sections[] = {
    { "files_vast", run_files_vast, true },
    { "read_vast", run_read_vast, true },
    { "files", run_files, true },
    { "fail", run_fail, true },
    { "log", run_log, true },
    { "log_quit", run_log_quit, true },
    { "debug", run_debug, true },
    { "debug_quit", run_debug_quit, true },
    { NULL, NULL, false },
};

/* Path texts, directory operations and recursive removal, against a model of the tree and the real file system. */
#include "h.h"
#include "track.h"
#include "vita/vita.h"
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <sys/stat.h>
#include <sys/wait.h>

void section_setup(const char *name) {
    (void)name;
    vt_debug_disable_output(true);
    drop_privileges();
    if (chdir(scratch())) { perror("chdir"); exit(3); }
}

/* ============================================================ path texts ===================================== */
/* this program, started from somewhere else, says where it believes to be */
static void __attribute__((constructor)) where_am_i(void) {
    if (!getenv("VERIF_WHERE_AM_I")) return;
    vt_str_t *s = vt_path_get_this_exe_location(NULL);
    if (s) { size_t n = vt_str_len(s), w = 0; while (w < n) { ssize_t k = write(1, vt_str_z(s) + w, n - w); if (k <= 0) break; w += (size_t)k; } vt_str_destroy(s); }
    _exit(s ? 7 : 8);
}
static void elsewhere(size_t deep) {
    char d[PATH_MAX], top[600], got[PATH_MAX + 10]; size_t n = (size_t)snprintf(d, sizeof d, "%s", scratch()); size_t first = 0;
    while (n < deep) { size_t k = 1 + rn(deep - n < 200 ? deep - n : 200); if (n + k + 20 >= sizeof d) break; d[n++] = '/'; rtext(d + n, k, "abc d"); d[n] = 'x'; n += k; d[n] = 0; if (mkdir(d, 0777) && errno != EEXIST) { perror(d); exit(3); } if (!first) first = n; }
    snprintf(top, sizeof top, "%.*s", (int)first, d);
    strcpy(d + n, "/prog name"); n += 10;
    int a = open("/proc/self/exe", O_RDONLY), b = open(d, O_WRONLY | O_CREAT | O_TRUNC, 0755); static char buf[1 << 20]; ssize_t k;
    if (a < 0 || b < 0) { perror("copy"); exit(3); }
    while ((k = read(a, buf, sizeof buf)) > 0) if (write(b, buf, (size_t)k) != k) exit(3);
    close(a); close(b);
    int pfd[2]; if (pipe(pfd)) exit(3);
    pid_t pid = fork();
    if (!pid) { dup2(pfd[1], 1); close(pfd[0]); close(pfd[1]); setenv("VERIF_WHERE_AM_I", "1", 1); setenv("_", "/bin/sh", 1); execl(d, chance(50) ? "other name" : d, (char*)NULL); _exit(9); }
    close(pfd[1]); size_t g = 0; while (g < sizeof got - 1 && (k = read(pfd[0], got + g, sizeof got - 1 - g)) > 0) g += (size_t)k; got[g] = 0; close(pfd[0]);
    int st; waitpid(pid, &st, 0);
    T("executable location of a program at a path of %zu characters", n);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 9) ev("program could not be started elsewhere");
    else { CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 7, "the program at a path of %zu characters did not find its location (status %x)", n, st); CHECK(g == n && !strcmp(got, d), "executable location %s (%zu characters), expected %s (%zu)", show(got), g, show(d), n); ev(n > 1000 ? "program at a path beyond 1000 characters" : n > 255 ? "program at a path beyond 255 characters" : "program started elsewhere"); }
    unlink(d); if (first) wipe(top);
}
static void rpath(char *o, size_t max) { rtext(o, chance(2) ? rn(8000) : rsize(max), chance(50) ? "ab/" : "ab./~\\ \xc3\xa9/"); }
static void run_text(uint64_t idx) {
    static char z[9000], y[300], want[20000];
    al_t al = al_random();
    switch (idx % 7) {
        case 0: { /* build */
            size_t n = 1 + rn(chance(5) ? 300 : chance(10) ? 40 : 6); static char part[300][40]; static const char *pp[300]; for (size_t i = 0; i < 40; i++) pp[i] = "-"; bool given = chance(50); strcpy(want, given ? "old content" : ""); /* a supplied string is appended to */
            for (size_t i = 0; i < n; i++) { rtext(part[i], rsize(30), "abc."); pp[i] = part[i]; if (i) strcat(want, "/"); strcat(want, part[i]); }
            vt_str_t *s = given ? vt_str_create("old content", al.a) : NULL, *r;
            T("build %zu parts -> %s", n, show(want));
            if (n > 40 || chance(50)) {
                vt_plist_t *pl = vt_plist_create(n, al.a);
                for (size_t i = 0; i < n; i++) vt_plist_push_back(pl, pp[i]);
                r = vt_path_build(s, pl); vt_plist_destroy(pl);
            } else switch (n) {
                case 1: r = vt_path_build_n(s, n, pp[0]); break;
                case 2: r = vt_path_build_n(s, n, pp[0], pp[1]); break;
                case 3: r = vt_path_build_n(s, n, pp[0], pp[1], pp[2]); break;
                case 4: r = vt_path_build_n(s, n, pp[0], pp[1], pp[2], pp[3]); break;
                case 5: r = vt_path_build_n(s, n, pp[0], pp[1], pp[2], pp[3], pp[4]); break;
                case 6: r = vt_path_build_n(s, n, pp[0], pp[1], pp[2], pp[3], pp[4], pp[5]); break;
#define P4(i) pp[i], pp[i + 1], pp[i + 2], pp[i + 3]
                default: r = vt_path_build_n(s, n, P4(0), P4(4), P4(8), P4(12), P4(16), P4(20), P4(24), P4(28), P4(32), P4(36)); break;
            }
            CHECK(r != NULL && (!given || r == s), "build did not return the path in the given string");
            CHECK(!strcmp(vt_str_z(r), want), "built path %s, expected %s", show(vt_str_z(r)), show(want));
            CHECK(vt_str_len(r) == strlen(want), "built path reports length %zu", vt_str_len(r));
            vt_str_destroy(r); ev("path built"); seen(hash_bytes(want, strlen(want), 1));
            break; }
        case 1: { /* basename */
            rpath(z, 60);
            size_t n = strlen(z); const char *b = z;
            for (size_t i = n; i > 0; i--) if (z[i - 1] == '/' && i != n) { b = z + i; break; }
            bool trailing = n && z[n - 1] == '/', several = trailing && n > 1 && z[n - 2] == '/'; static char bare[9000]; strcpy(bare, b); if (trailing && *bare) bare[strlen(bare) - 1] = 0;
            strcpy(want, b);
            int how = (int)rn(3);
            vt_str_t *s = how == 0 ? NULL : how == 1 ? vt_str_create(chance(50) ? "" : "some/longer old content", al.a) : vt_str_create(z, al.a);
            T("basename of %s into %s", show(z), how == 0 ? "new" : how == 1 ? "given" : "itself");
            vt_str_t *r = vt_path_basename(s, how == 2 ? vt_str_z(s) : z);
            CHECK(r != NULL && (!how || r == s), "basename of %s returned nothing", show(z));
            if (!trailing) CHECK(!strcmp(vt_str_z(r), want), "basename of %s is %s, expected %s", show(z), show(vt_str_z(r)), show(want));
            else if (!several) CHECK(!strcmp(vt_str_z(r), want) || !strcmp(vt_str_z(r), bare), "basename of %s is %s, expected %s", show(z), show(vt_str_z(r)), show(bare)); /* with its separator or without */
            CHECK(vt_str_len(r) == strlen(vt_str_z(r)), "basename length %zu of %s", vt_str_len(r), show(vt_str_z(r)));
            vt_str_destroy(r); ev(trailing ? "basename with trailing separator" : "basename"); seen(hash_bytes(z, n, 2));
            sample("basename(%s) = %s", show(z), show(want));
            break; }
        case 2: { /* pop until nothing is left to pop */
            rpath(z, 60);
            char *heap = malloc(strlen(z) + 1); strcpy(heap, z); strcpy(want, z);
            T("pop %s", show(z));
            for (int k = 0; k < 80; k++) {
                size_t n = strlen(want); bool changed = false;
                if (n && want[n - 1] == '/') { want[n - 1] = 0; changed = true; }
                else { char *sl = strrchr(want, '/'); if (sl) { *sl = 0; changed = true; } }
                vt_path_pop(heap);
                CHECK(!strcmp(heap, want), "pop gave %s, expected %s", show(heap), show(want));
                ev("path popped");
                if (!changed) break;
            }
            free(heap); seen(hash_bytes(z, strlen(z), 3));
            break; }
        case 3: { /* validate */
            rtext(z, chance(2) ? rn(8000) : rsize(100), "a\\/b");
            char *heap = malloc(strlen(z) + 1); strcpy(heap, z); strcpy(want, z);
            for (char *p = want; *p; p++) if (*p == '\\') *p = '/';
            T("validate %s", show(z));
            vt_path_validate(heap);
            CHECK(!strcmp(heap, want), "validate gave %s, expected %s", show(heap), show(want));
            free(heap); ev("path validated"); seen(hash_bytes(z, strlen(z), 4));
            break; }
        case 4: { /* tilda */
            static char home[400];
            bool unset = chance(15);
            rtext(y, rsize(200), "/abc");
            if (unset) unsetenv("HOME"); else { strcpy(home, y); setenv("HOME", home, 1); }
            switch (rn(7)) { case 5: { static const char *tl[] = { "~~", "~~/x", "~user", "~user/file", "~ /x", "~~~", "~.", "~/~/a", "~a~b" }; strcpy(z, tl[rn(9)]); break; } case 6: z[0] = '~'; rpath(z + 1, 40); break; case 0: strcpy(z, "~"); break; case 1: z[0] = '~'; z[1] = '/'; rpath(z + 2, 40); break; case 2: rpath(z, 30); if (z[0] == '~') z[0] = 'x'; strcat(z, "~"); break; case 3: strcpy(z, ""); break; default: rpath(z, 60); if (z[0] == '~') z[0] = '.'; }
            if (z[0] == '~' && !unset) snprintf(want, sizeof want, "%s%s", y, z + 1); else strcpy(want, z);
            T("expand %s with HOME=%s", show(z), unset ? "(unset)" : show(y));
            vt_str_t *r = vt_path_expand_tilda(z, al.a);
            CHECK(r != NULL && !strcmp(vt_str_z(r), want), "expanding %s gave %s, expected %s", show(z), show(r ? vt_str_z(r) : NULL), show(want));
            CHECK(vt_str_len(r) == strlen(want), "expanded path reports length %zu", vt_str_len(r));
            CHECK((r->alloctr == al.a), "expanded path is not in the given allocator");
            vt_str_destroy(r); ev("tilda"); seen(hash_bytes(z, strlen(z), 5));
            break; }
        case 5: { /* cwd */
            static char d[PATH_MAX]; size_t depth = rn(4); if (chance(10)) depth = 4 + rn(10); snprintf(d, sizeof d, "%s", scratch());
            static char first[PATH_MAX]; first[0] = 0;
            for (size_t i = 0; i < depth; i++) { char c[300]; rtext(c, depth > 4 ? 200 + rn(55) : 1 + rn(50), "abcd e"); strcat(d, "/"); strcat(d, c); if (!i) strcpy(first, d); if (mkdir(d, 0777)) exit(3); }
            if (chdir(d)) exit(3);
            char *ref = getcwd(NULL, 0);
            vt_str_t *r = vt_path_get_cwd(al.a);
            CHECK(r != NULL && !strcmp(vt_str_z(r), ref), "current directory %s, expected %s", show(r ? vt_str_z(r) : NULL), show(ref));
            CHECK(vt_str_len(r) == strlen(ref), "current directory length");
            vt_str_append(r, "/and more text, so that the string has to grow beyond its first size, whatever that was, by a wide margin indeed");
            CHECK(!strncmp(vt_str_z(r), ref, strlen(ref)), "growing the current-directory string lost its content");
            vt_str_destroy(r); free(ref); ev("current directory");
            if (depth && chance(50)) { /* the current directory vanishes */
                __attribute__((unused)) int q = rmdir(d);
                vt_str_t *g = vt_path_get_cwd(al.a);
                CHECK(g == NULL, "current directory reported although it was deleted"); ev("deleted current directory");
            }
            if (chdir(scratch())) exit(3);
            while (depth--) { rmdir(d); *strrchr(d, '/') = 0; }
            (void)first; seen(rnd());
            break; }
        default: {
            char ref[PATH_MAX + 1]; ssize_t k = readlink("/proc/self/exe", ref, PATH_MAX); if (k < 0) exit(3); ref[k] = 0;
            vt_str_t *r = vt_path_get_this_exe_location(al.a);
            CHECK(r != NULL && !strcmp(vt_str_z(r), ref) && vt_str_len(r) == strlen(ref), "executable location %s, expected %s", show(r ? vt_str_z(r) : NULL), show(ref));
            vt_str_destroy(r); ev("executable location");
            if (idx < 7 * 8 || chance(g_thorough ? 3 : 1)) elsewhere(idx < 14 ? 300 : chance(50) ? 100 + rn(500) : rn(3900)); }
    }
    al_end(al);
}

/* ============================================================ model of a tree ================================ */
#define NE 120
typedef struct { char path[700]; char type; int64_t size; } ent_t; /* path relative to the tree's root; type d f l p(ipe) */
typedef struct { ent_t e[NE]; size_t n; } tree_t;
static ent_t *t_find(tree_t *t, const char *p) { for (size_t i = 0; i < t->n; i++) if (!strcmp(t->e[i].path, p)) return &t->e[i]; return NULL; }
static void t_add(tree_t *t, const char *p, char type, int64_t size) { if (t->n >= NE) exit(3); ent_t *e = &t->e[t->n++]; snprintf(e->path, sizeof e->path, "%s", p); e->type = type; e->size = size; }
static bool under(const char *p, const char *dir) { size_t k = strlen(dir); return !strncmp(p, dir, k) && p[k] == '/'; }
static void t_del(tree_t *t, const char *p) { for (size_t i = 0; i < t->n; ) if (!strcmp(t->e[i].path, p) || under(t->e[i].path, p)) t->e[i] = t->e[--t->n]; else i++; }
static size_t t_kids(tree_t *t, const char *p) { size_t c = 0; for (size_t i = 0; i < t->n; i++) if (under(t->e[i].path, p)) c++; return c; }
static bool parent_is_dir(tree_t *t, const char *p) { char q[700]; snprintf(q, sizeof q, "%s", p); char *s = strrchr(q, '/'); if (!s) return true; *s = 0; ent_t *e = t_find(t, q); return e && e->type == 'd'; }
static void walk(tree_t *o, const char *root, const char *rel) {
    char full[1400]; snprintf(full, sizeof full, "%s%s%s", root, *rel ? "/" : "", rel);
    DIR *d = opendir(full); if (!d) { FAIL("harness cannot read %s: %s", full, strerror(errno)); }
    struct dirent *de;
    while ((de = readdir(d))) {
        if (!strcmp(de->d_name, ".") || !strcmp(de->d_name, "..")) continue;
        char r[1000], f[2400]; struct stat st;
        snprintf(r, sizeof r, "%s%s%s", rel, *rel ? "/" : "", de->d_name); snprintf(f, sizeof f, "%s/%s", root, r);
        if (lstat(f, &st)) continue;
        char ty = S_ISDIR(st.st_mode) ? 'd' : S_ISLNK(st.st_mode) ? 'l' : S_ISREG(st.st_mode) ? 'f' : 'p';
        t_add(o, r, ty, ty == 'f' ? (int64_t)st.st_size : 0);
        if (ty == 'd') walk(o, root, r);
    }
    closedir(d);
}
static int ecmp(const void *a, const void *b) { return strcmp(((const ent_t*)a)->path, ((const ent_t*)b)->path); }
static void t_same(tree_t *model, const char *root, const char *after) {
    static tree_t real, m; real.n = 0;
    walk(&real, root, "");
    m = *model;
    qsort(m.e, m.n, sizeof(ent_t), ecmp); qsort(real.e, real.n, sizeof(ent_t), ecmp);
    g_checks++;
    for (size_t i = 0; i < m.n || i < real.n; i++) {
        if (i >= real.n || (i < m.n && strcmp(m.e[i].path, real.e[i].path) < 0)) FAIL("after %s: %s is missing from the tree", after, show(m.e[i].path));
        if (i >= m.n || strcmp(m.e[i].path, real.e[i].path)) FAIL("after %s: %s appeared in the tree", after, show(real.e[i].path));
        if (m.e[i].type != real.e[i].type || m.e[i].size != real.e[i].size) FAIL("after %s: %s changed (%c%lld -> %c%lld)", after, show(m.e[i].path), m.e[i].type, (long long)m.e[i].size, real.e[i].type, (long long)real.e[i].size);
    }
}
static void rname(char *o) {
    switch (rn(10)) {
        case 0: rtext(o, 1 + rn(3), " .-"); if (!strcmp(o, ".") || !strcmp(o, "..")) strcpy(o, "..."); break;
        case 1: o[0] = '.'; rtext(o + 1, 1 + rn(4), "abc"); break;
        case 2: rtext(o, 1 + rn(5), "\xc3\xa9\xff\n\t*?"); break;
        case 3: rtext(o, 20 + rn(30), "abcdefgh"); if (chance(8)) { rtext(o, 200 + rn(56), "abcdefgh"); ev("long name"); } break;
        default: rtext(o, 1 + rn(2), "abc"); break;
    }
}
/* a path: existing entry, child of an existing directory, or something random */
static void pick(tree_t *t, char *o, int what) { /* what: 0 any, 1 existing, 2 likely new */
    size_t k = t->n ? rn(t->n) : 0;
    if (t->n && (what == 1 || (what == 0 && chance(60)))) { strcpy(o, t->e[k].path); return; }
    char nm[300]; rname(nm);
    if (t->n && chance(70) && strlen(t->e[k].path) < 150) snprintf(o, 700, "%s/%s", t->e[k].path, nm); else strcpy(o, nm);
}
static char rootdir[560];
/* how the path is handed to the library: relative, absolute, with "./", with a doubled separator */
static const char *spell(const char *rel, char *o, bool doubled) {
    switch (rn(4)) {
        case 0: snprintf(o, 2000, "%s/%s", rootdir, rel); break;
        case 1: { char *c = o; for (size_t i = chance(15) ? rn(500) : 1; i > 0; i--) { *c++ = '.'; *c++ = '/'; } strcpy(c, rel); if (c - o > 250) ev("long way to a path"); break; }
        default: strcpy(o, rel); break;
    }
    if (doubled && chance(15)) { char *s = strrchr(o, '/'); if (s) { memmove(s + 1, s, strlen(s) + 1); } }
    return o;
}
static void mkfile(const char *p, int64_t size) {
    int fd = open(p, O_WRONLY | O_CREAT | O_TRUNC, 0666); if (fd < 0) { FAIL("harness cannot create %s", p); }
    if (size > 1000000) { if (ftruncate(fd, size)) exit(3); }
    else { static char buf[1000000]; for (int64_t i = 0; i < size; i++) buf[i] = (char)(i * 7 + size); if (write(fd, buf, (size_t)size) != size) exit(3); }
    close(fd);
}
static bool intact(const char *p, int64_t size) { /* a file made by mkfile still has its bytes */
    static char buf[1000001]; if (size > 1000000) return true;
    int fd = open(p, O_RDONLY); if (fd < 0) return false;
    ssize_t n = read(fd, buf, sizeof buf); close(fd); if (n != size) return false;
    for (int64_t i = 0; i < size; i++) if (buf[i] != (char)(i * 7 + size)) return false;
    return true;
}
static int names_cmp(const void *a, const void *b) { return strcmp(*(char*const*)a, *(char*const*)b); }

static void run_dirs(uint64_t idx) {
    static tree_t t; t.n = 0;
    snprintf(rootdir, sizeof rootdir, "%s/d%llu", scratch(), (unsigned long long)idx);
    wipe(rootdir);
    if (mkdir(rootdir, 0777) || chdir(rootdir)) exit(3);
    size_t steps = 8 + rn(g_thorough ? 60 : 30);
    char p[700], q[700], z[2600], y[2600], what[400];
    for (size_t k = 0; k < steps && t.n < NE - 20; k++) {
        int64_t d0 = g_destructive;
        switch (rn(13)) {
            case 0: case 1: { /* the environment makes a file or link */
                pick(&t, p, 2); if (t_find(&t, p) || !parent_is_dir(&t, p)) continue;
                if (chance(25)) { pick(&t, q, 0); char tgt[1400]; snprintf(tgt, sizeof tgt, "%s/%s", rootdir, q); if (symlink(tgt, p)) exit(3); t_add(&t, p, 'l', 0); }
                else if (chance(10)) { if (mkfifo(p, 0666)) exit(3); t_add(&t, p, 'p', 0); }
                else { int64_t sz = chance(3) ? (int64_t)5000000000 + (int64_t)rn(1000) : (int64_t)rsize(20000); mkfile(p, sz); t_add(&t, p, 'f', sz); }
                T("environment creates %s", show(p)); snprintf(what, sizeof what, "environment"); break; }
            case 2: case 3: { /* mkdir */
                pick(&t, p, chance(80) ? 2 : 1); ent_t *e = t_find(&t, p);
                { char u[700]; strcpy(u, p); bool skip = false; for (char *s; (s = strrchr(u, '/')); ) { *s = 0; ent_t *a = t_find(&t, u); if (a && a->type == 'l') skip = true; } if (skip) continue; }
                struct stat ls; bool link = e && e->type == 'l', ldir = link && !stat(p, &ls) && S_ISDIR(ls.st_mode); /* a link to a directory will do for one, any other does not */
                bool want = link ? ldir : e ? e->type == 'd' : parent_is_dir(&t, p);
                spell(p, z, true); T("mkdir%s %s%s", link && k % 2 ? "_parents" : "", show(z), link ? " (a link)" : "");
                bool r = link && k % 2 ? vt_path_mkdir_parents(z) : vt_path_mkdir(z);
                if (link) ev(ldir ? "mkdir where a link to a directory stands" : "mkdir where another link stands");
                CHECK(r == want, "mkdir %s returned %d, expected %d", show(z), r, want);
                if (want && !e) t_add(&t, p, 'd', 0);
                snprintf(what, sizeof what, "mkdir"); ev(want ? (e ? "mkdir of existing" : "mkdir made") : "mkdir refused"); break; }
            case 4: { /* mkdir with parents */
                if (chance(4)) { T("mkdir_parents of nothing"); CHECK(!vt_path_mkdir_parents("") && !vt_path_mkdir(""), "making a directory without a name succeeded"); ev("empty name refused"); }
                pick(&t, p, 2); for (size_t m = rn(4); m-- && strlen(p) < 150; ) { char nm[300]; rname(nm); strcat(p, "/"); strcat(p, nm); }
                { char u[700]; strcpy(u, p); bool skip = false; for (;;) { ent_t *a = t_find(&t, u); if (a && a->type == 'l') skip = true; char *s = strrchr(u, '/'); if (!s) break; *s = 0; } if (skip) continue; }
                spell(p, z, true);
                if (strlen(z) < 500) { /* "." and a step down and up again do not change where the path leads */
                    size_t at = strncmp(z, rootdir, strlen(rootdir)) ? 0 : strlen(rootdir) + 1; memcpy(y, z, at); char *o = y + at;
                    for (char *c = z + at; *c; ) { size_t cl = strcspn(c, "/"); bool word = cl && strncmp(c, ".", cl) && cl < 100;
                        if (word && chance(8) && o - y < 900) { memcpy(o, c, cl); o += cl; memcpy(o, "/../", 4); o += 4; ev("way down and up in a path"); }
                        memcpy(o, c, cl); o += cl; c += cl; if (*c == '/') { *o++ = *c++; if (chance(8) && o - y < 900) { *o++ = '.'; *o++ = '/'; } } }
                    *o = 0; strcpy(z, y); }
                if (chance(30)) strcat(z, "/");
                T("mkdir_parents %s", show(z));
                bool r = vt_path_mkdir_parents(z), want = true;
                for (char *s = p; want; s++) if (!*s || *s == '/') { char c = *s; *s = 0; ent_t *e = t_find(&t, p); if (!e) t_add(&t, p, 'd', 0); else if (e->type != 'd') want = false; *s = c; if (!c) break; }
                CHECK(r == want, "mkdir_parents %s returned %d, expected %d", show(z), r, want);
                snprintf(what, sizeof what, "mkdir_parents"); ev(want ? "mkdir_parents made" : "mkdir_parents refused"); break; }
            case 5: { /* rmdir */
                pick(&t, p, 0); ent_t *e = t_find(&t, p); if (e && e->type == 'l') continue;
                bool want = e && e->type == 'd' && !t_kids(&t, p);
                { char u[700]; strcpy(u, p); bool skip = false; for (char *s; (s = strrchr(u, '/')); ) { *s = 0; ent_t *a = t_find(&t, u); if (a && a->type == 'l') skip = true; } if (skip) continue; }
                spell(p, z, true); T("rmdir %s", show(z));
                bool r = vt_path_rmdir(z);
                CHECK(r == want, "rmdir %s returned %d, expected %d", show(z), r, want);
                if (want) t_del(&t, p);
                snprintf(what, sizeof what, "rmdir"); ev(want ? "rmdir done" : "rmdir refused"); break; }
            case 6: { /* remove a file or a link */
                pick(&t, p, 0); ent_t *e = t_find(&t, p);
                { char u[700]; strcpy(u, p); bool skip = false; for (char *s; (s = strrchr(u, '/')); ) { *s = 0; ent_t *a = t_find(&t, u); if (a && a->type == 'l') skip = true; } if (skip) continue; }
                bool want = e && e->type != 'd', either = e && e->type == 'd' && !t_kids(&t, p);
                spell(p, z, true); T("remove %s", show(z));
                bool r = vt_path_remove(z);
                if (either) want = r; /* an empty directory may or may not count as a file, but the answer must be true */
                CHECK(r == want, "remove %s returned %d, expected %d", show(z), r, want);
                if (want) t_del(&t, p);
                snprintf(what, sizeof what, "remove"); ev(want ? "remove done" : "remove refused"); break; }
            case 7: { /* rename to a free name */
                pick(&t, p, 0); pick(&t, q, 2);
                bool over = chance(25); if (over) pick(&t, q, 1);
                ent_t *eq = t_find(&t, q), *ep = t_find(&t, p);
                bool skip = false, either = false, same = !strcmp(p, q);
                if (over && chance(25) && ep) { for (size_t i = 0, at = rn(t.n); i < t.n; i++) { ent_t *x = &t.e[(i + at) % t.n]; if (under(x->path, p)) { strcpy(q, x->path); eq = x; same = false; break; } } } /* into itself */
                if (over && chance(40) && ep && ep->type == 'd') { for (size_t i = 0, at = rn(t.n); i < t.n; i++) { ent_t *x = &t.e[(i + at) % t.n]; if (x->type == 'd' && x != ep) { strcpy(q, x->path); eq = x; same = false; break; } } } /* a directory on a directory */
                { char u[700]; const char *both[2] = { p, q }; for (int b = 0; b < 2; b++) { strcpy(u, both[b]); for (char *s; (s = strrchr(u, '/')); ) { *s = 0; ent_t *a = t_find(&t, u); if (a && a->type == 'l') skip = true; } } }
                ent_t *e = t_find(&t, p); struct stat ls; if (e && e->type == 'l' && stat(p, &ls)) skip = true; /* broken link: not judged */
                if (skip || strlen(p) + strlen(q) > 600) continue;
                bool want = e && parent_is_dir(&t, q) && !under(q, p);
                if (eq && want) { /* what may take an existing name: a file that of a file; an empty directory may or may not be replaced, and an entry renamed to itself stays */
                    if (same || (e->type == 'd' && eq->type == 'd' && !t_kids(&t, q))) either = true;
                    else if (e->type == 'd' || eq->type == 'd') want = false; }
                bool dir_over = eq && eq->type == 'd', into = under(q, p);
                spell(p, z, false); spell(q, y, false); T("rename %s to %s", show(z), show(y));
                bool r = vt_path_rename(z, y);
                if (either) want = r;
                CHECK(r == want, "rename %s to %s returned %d, expected %d", show(z), show(y), r, want);
                if (same) { ev("rename to itself"); if (want) want = false, strcpy(q, p); }
                else if (eq) ev(into ? "rename into its own subtree" : dir_over ? (want ? "rename over an empty directory" : "rename over a directory refused") : want ? "rename over a file" : "rename of a directory over a file");
                if (want && eq) t_del(&t, q); /* after the call: e and eq are stale */
                if (want) for (size_t i = 0; i < t.n; i++) if (!strcmp(t.e[i].path, p) || under(t.e[i].path, p)) { char nw[1500]; snprintf(nw, sizeof nw, "%s%s", q, t.e[i].path + strlen(p)); snprintf(t.e[i].path, sizeof t.e[i].path, "%.699s", nw); }
                { ent_t *m = t_find(&t, want ? q : p); if (m && m->type == 'f') CHECK(intact(m->path, m->size), "after renaming %s to %s the content of %s is different", show(z), show(y), show(m->path)); }
                snprintf(what, sizeof what, "rename"); ev(want ? "rename done" : "rename refused"); break; }
            case 8: { /* recursive removal */
                if (k < steps / 2) continue;
                pick(&t, p, 0); ent_t *e = t_find(&t, p);
                { char u[700]; strcpy(u, p); bool skip = false; for (char *s; (s = strrchr(u, '/')); ) { *s = 0; ent_t *a = t_find(&t, u); if (a && a->type == 'l') skip = true; } if (skip) continue; }
                if (e && e->type == 'l') continue;
                bool want = e && e->type == 'd';
                spell(p, z, false); T("rmdir_recurse %s", show(z));
                bool r = vt_path_rmdir_recurse(z);
                CHECK(r == want, "rmdir_recurse %s returned %d, expected %d", show(z), r, want);
                if (want) t_del(&t, p);
                snprintf(what, sizeof what, "rmdir_recurse"); ev(want ? "tree removed" : "tree removal refused"); break; }
            case 9: case 10: { /* questions */
                for (int m = 0; m < 4; m++) {
                    pick(&t, p, 0); spell(p, z, true);
                    switch (rn(12)) { case 0: strcat(z, "/"); break; case 1: strcpy(z, chance(50) ? "/dev/null" : "/"); p[0] = 0; break; case 2: { size_t n = 250 + rn(12); memset(z, 'n', n); z[n] = 0; p[0] = 0; break; } case 3: z[0] = 0; p[0] = 0; break; }
                    struct stat st; bool ex = stat(z, &st) == 0; /* the environment's answer, links followed */
                    ent_t *e = t_find(&t, p);
                    if (e && e->type != 'l' && z[strlen(z) - 1] != '/') CHECK(ex, "model and file system disagree about %s", show(p));
                    T("query %s", show(z));
                    /* a caller without the right to open a file can still ask about it */
                    bool shut = ex && e && (e->type == 'f' || e->type == 'd') && z[strlen(z) - 1] != '/' && chance(30) && !chmod(p, 0);
                    if (shut) { struct stat s2; ex = stat(z, &s2) == 0; ev("query without permission to read"); }
                    bool a = vt_path_exists(z), b = vt_path_is_dir(z), c = vt_path_is_file(z); int64_t s = vt_path_get_file_size(z);
                    if (shut && chmod(p, st.st_mode & 07777)) exit(3);
                    CHECK(a == ex, "exists(%s) is %d, expected %d", show(z), a, ex);
                    CHECK(b == (ex && S_ISDIR(st.st_mode)), "is_dir(%s) is %d", show(z), b);
                    CHECK(c == (ex && S_ISREG(st.st_mode)), "is_file(%s) is %d", show(z), c);
                    if (!ex) CHECK(s == -1, "size of missing %s is %lld", show(z), (long long)s);
                    else if (!b) { CHECK(s == (int64_t)st.st_size, "size of %s is %lld, expected %lld", show(z), (long long)s, (long long)st.st_size); if (s > 4294967295ll) ev("size beyond 32 bits"); }
                    ev(!ex ? "query of missing path" : b ? "query of directory" : "query of file");
                }
                snprintf(what, sizeof what, "queries"); break; }
            default: { /* listings */
                bool rec = chance(50), nodots = chance(50), top = chance(40);
                if (top) strcpy(p, "."); else pick(&t, p, 0);
                ent_t *e = t_find(&t, p);
                if (!top) { char u[700]; strcpy(u, p); bool skip = false; for (;;) { ent_t *x = t_find(&t, u); if (x && x->type == 'l') skip = true; char *s = strrchr(u, '/'); if (!s) break; *s = 0; } if (skip) continue; }
                bool isd = top || (e && e->type == 'd');
                if (top) snprintf(z, sizeof z, "%s", chance(50) ? "." : rootdir); else spell(p, z, false);
                al_t al = al_random();
                vt_plist_t *given = chance(50) ? vt_plist_create(1 + rn(4), al.a) : NULL;
                T("list %s%s%s", show(z), rec ? " recursively" : "", nodots ? " without dot files" : "");
                vt_plist_t *l = rec ? vt_path_dir_list_recurse(given, z, nodots) : vt_path_dir_list(given, z, nodots);
                CHECK((l != NULL) == isd, "listing %s %s", show(z), l ? "succeeded" : "failed");
                if (!l) { if (given) vt_plist_destroy(given); al_end(al); ev("listing refused"); continue; }
                CHECK(!given || l == given, "listing did not use the given list");
                static char want[NE][3400]; char *wp[NE]; size_t wn = 0;
                for (size_t i = 0; i < t.n; i++) {
                    const char *r = t.e[i].path;
                    if (!top) { if (!under(r, p)) continue; r += strlen(p) + 1; }
                    if (!rec && strchr(r, '/')) continue;
                    if (nodots) { bool hid = r[0] == '.'; for (const char *s = r; (s = strstr(s, "/.")); s++) hid = true; if (hid) continue; }
                    snprintf(want[wn], sizeof want[0], "%s%s%s", rec ? z : "", rec ? "/" : "", r); wp[wn] = want[wn]; wn++;
                }
                CHECK(vt_plist_len(l) == wn, "listing %s has %zu entries, expected %zu", show(z), vt_plist_len(l), wn);
                char *gp[NE]; for (size_t i = 0; i < wn; i++) { vt_str_t *s = vt_plist_get(l, i); gp[i] = (char*)vt_str_z(s); CHECK(vt_str_len(s) == strlen(gp[i]), "entry length"); CHECK(s->alloctr == l->alloctr, "entry is not in the list's allocator"); }
                qsort(wp, wn, sizeof wp[0], names_cmp); qsort(gp, wn, sizeof gp[0], names_cmp);
                for (size_t i = 0; i < wn; i++) CHECK(!strcmp(gp[i], wp[i]), "listing %s contains %s instead of %s", show(z), show(gp[i]), show(wp[i]));
                if (wn && chance(30)) vt_plist_slide_front(l); /* a list may have been partly iterated before it is freed */
                vt_path_dir_free(l); al_end(al);
                evn("entries listed", wn); ev(rec ? "recursive listing" : "listing"); snprintf(what, sizeof what, "listing"); }
        }
        if (!strcmp(what, "queries") || !strcmp(what, "listing")) CHECK(g_destructive == d0, "a read-only operation removed or renamed something");
        t_same(&t, rootdir, what);
        uint64_t h = 0; for (size_t i = 0; i < t.n; i++) h += hash_bytes(t.e[i].path, strlen(t.e[i].path), (uint64_t)t.e[i].type);
        seen(h);
    }
    sample("%zu steps, %zu entries in the tree", steps, t.n);
    if (chdir(scratch())) exit(3);
    wipe(rootdir);
}

/* ============================================================ recursive removal ============================== */
static uint64_t fp(const char *root) { /* fingerprint of a tree: names, types, sizes, contents, modes */
    static tree_t t; t.n = 0; walk(&t, root, "");
    qsort(t.e, t.n, sizeof(ent_t), ecmp);
    uint64_t h = t.n;
    for (size_t i = 0; i < t.n; i++) {
        char f[1400]; snprintf(f, sizeof f, "%s/%s", root, t.e[i].path);
        struct stat st; lstat(f, &st);
        h = hash_bytes(t.e[i].path, strlen(t.e[i].path), h); h = h * 31 + (uint64_t)st.st_mode; h = h * 31 + (uint64_t)t.e[i].size;
        if (t.e[i].type == 'f') { int fd = open(f, O_RDONLY); char b[256]; ssize_t r; while (fd >= 0 && (r = read(fd, b, sizeof b)) > 0) h = hash_bytes(b, (size_t)r, h); if (fd >= 0) close(fd); }
    }
    return h;
}
static void run_contain(uint64_t idx) {
    char base[560], out[640], vic[700], p[1400], tg[1400];
    snprintf(base, sizeof base, "%s/c%llu", scratch(), (unsigned long long)idx);
    wipe(base);
    snprintf(out, sizeof out, "%s/outside", base); snprintf(vic, sizeof vic, "%s/victim", base);
    if (mkdir(base, 0777) || mkdir(out, 0777) || mkdir(vic, 0777)) exit(3);
    /* outside: directories with files, some named like things inside */
    snprintf(p, sizeof p, "%s/dir", out); mkdir(p, 0777); snprintf(p, sizeof p, "%s/dir/sub", out); mkdir(p, 0777); snprintf(p, sizeof p, "%s/dir/sub/precious", out); mkfile(p, 100);
    snprintf(p, sizeof p, "%s/file", out); mkfile(p, 50); snprintf(p, sizeof p, "%s/empty", out); mkdir(p, 0777); snprintf(p, sizeof p, "%s/victim2", base); mkdir(p, 0777); snprintf(p, sizeof p, "%s/victim2/keep", base); mkfile(p, 7);
    /* victim: random tree with links of every kind */
    static char dirs[40][700]; size_t nd = 1; strcpy(dirs[0], vic);
    size_t items = rn(g_thorough ? 40 : 22); size_t links = 0, files = 0, locked = 0;
    char lockdir[800] = "";
    uint64_t shape = 0;
    for (size_t k = 0; k < items; k++) {
        char nm[300]; rname(nm);
        size_t di = chance(40) ? nd - 1 : rn(nd);
        if (strlen(dirs[di]) + strlen(nm) > 640) continue;
        snprintf(p, sizeof p, "%s/%s", dirs[di], nm);
        struct stat st; if (!lstat(p, &st)) continue;
        int w = (int)rn(13); shape = shape * 13 + (uint64_t)w;
        switch (w) {
            case 0: case 1: case 2: if (nd < 40) { mkdir(p, 0777); strcpy(dirs[nd++], p); } break;
            case 3: case 4: mkfile(p, (int64_t)rsize(300)); files++; break;
            case 5: snprintf(tg, sizeof tg, "%s/dir", out); if (symlink(tg, p)) exit(3); links++; ev("link to outside directory"); break;
            case 6: snprintf(tg, sizeof tg, "%s/file", out); if (symlink(tg, p)) exit(3); links++; ev("link to outside file"); break;
            case 7: if (symlink("/nonexistent/verif", p)) exit(3); links++; ev("broken link"); break;
            case 8: if (symlink(chance(50) ? "." : "..", p)) exit(3); links++; ev("link loop"); break;
            case 9: snprintf(tg, sizeof tg, "%s/empty", out); if (symlink(tg, p)) exit(3); links++; ev("link to outside empty directory"); break;
            case 10: snprintf(tg, sizeof tg, "%s/file", out); if (link(tg, p)) exit(3); links++; ev("hard link to outside file"); break;
            case 12: if (mkfifo(p, 0666)) exit(3); ev("named pipe"); break;
            case 11: if (symlink(base, p)) exit(3); links++; ev("link to an ancestor"); break;
        }
    }
    /* sometimes part of the tree cannot be removed */
    bool unpriv = geteuid() != 0;
    int lock = unpriv && nd > 1 && chance(25) ? 1 + (int)rn(2) : 0;
    bool expect_fail = false;
    if (lock) {
        strcpy(lockdir, dirs[1 + rn(nd - 1)]);
        snprintf(p, sizeof p, "%s/locked file", lockdir); mkfile(p, 3);
        chmod(lockdir, lock == 1 ? 0500 : 0000); locked = 1; expect_fail = true; ev(lock == 1 ? "unwritable directory" : "unreadable directory");
    }
    uint64_t before = fp(out); char keep[700]; snprintf(keep, sizeof keep, "%s/victim2", base); uint64_t keepb = fp(keep);
    if (chdir(base)) exit(3);
    int how = (int)rn(4); struct stat st;
    const char *arg = how == 0 ? vic : how == 1 ? (chance(70) ? "victim" : chance(50) ? "victim/" : "victim//") : how == 2 ? (chance(50) ? "./victim" : "outside/../victim") : "outlink";
    if (how == 3) {
        static char form[1400]; static const char *const nm[] = { "outlink", "outlink", ".outlink", "..link", "a link", "-r", "~" };
        const char *l = nm[rn(7)]; static char to[1400];
        switch (rn(4)) { case 0: snprintf(to, sizeof to, "outside/dir/"); break; case 1: snprintf(to, sizeof to, "%s/dir", out); break; case 2: if (symlink("outside/dir", "second")) exit(3); strcpy(to, "second"); break; default: strcpy(to, "outside/dir"); break; }
        if (symlink(to, l)) exit(3);
        switch (rn(5)) { case 0: snprintf(form, sizeof form, "./%s", l); break; case 1: snprintf(form, sizeof form, "%s/%s", base, l); break; case 2: snprintf(form, sizeof form, "outside/../%s", l); break; case 3: snprintf(form, sizeof form, ".//%s", l); break; default: strcpy(form, l); break; }
        arg = form; ev("removal of a link to a directory");
    }
    T("rmdir_recurse %s: %zu directories, %zu files, %zu links, lock %d", how == 3 ? "link to outside" : arg, nd, files, links, lock);
    int64_t d0 = g_destructive;
    bool r = vt_path_rmdir_recurse(arg);
    evn("destructive calls observed", (uint64_t)(g_destructive - d0));
    if (how == 3) {
        bool gone = lstat(arg, &st) != 0;
        CHECK(r == gone, "removal of a link returned %d but the link is %s", r, gone ? "gone" : "there");
    } else {
        bool gone = lstat(vic, &st) != 0;
        CHECK(r == gone, "recursive removal returned %d but the directory is %s", r, gone ? "gone" : "still there");
        if (!expect_fail) CHECK(gone, "recursive removal left a removable tree behind");
        else { CHECK(!gone, "an unremovable tree is reported gone"); ev("partial removal reported as failure"); }
    }
    if (locked) chmod(lockdir, 0700);
    CHECK(lstat(out, &st) == 0 && lstat(keep, &st) == 0, "recursive removal destroyed a neighbour of the tree");
    CHECK(fp(out) == before, "recursive removal changed something outside the tree");
    CHECK(fp(keep) == keepb, "recursive removal changed a sibling directory");
    ev("tree removal watched"); seen(hash_bytes(&shape, sizeof shape, nd * 100 + links + (uint64_t)how));
    sample("tree of %zu directories, %zu files, %zu links removed as %s", nd, files, links, how == 3 ? "a link" : "a directory");
    if (chdir(scratch())) exit(3);
    wipe(base);
}

/* ============================================================ deep and wide trees ============================ */
/* long paths, many levels, many entries: listed completely, then removed completely */
static int lcmp(const void *a, const void *b) { return strcmp(*(char*const*)a, *(char*const*)b); }
static void run_deep(uint64_t idx) {
    char base[560]; snprintf(base, sizeof base, "%s/e%llu", scratch(), (unsigned long long)idx);
    wipe(base); if (mkdir(base, 0777) || chdir(base) || mkdir("top", 0777) || mkdir("top2", 0777)) exit(3);
    mkfile("top2/keep", 10);
    size_t cap = 6000, n = 0; char **want = malloc(cap * sizeof *want);
    static char p[PATH_MAX]; strcpy(p, "top"); bool hidden = false, nodots = chance(30), viaparents = chance(40);
    size_t room = PATH_MAX - 1 - strlen(base) - 300 - 2, len = 500 + rn(room > 3000 ? 2900 : room - 500), maxname = chance(30) ? 1 + rn(3) : 1 + rn(250), levels = 0, wide = chance(30) ? rn(chance(50) ? 4000 : 800) : rn(6), at = rn(12);
    static size_t pl[500];
    while (levels < 300 && strlen(p) + 1 + maxname < len) {
        char nm[260]; rtext(nm, 1 + rn(maxname), "abcdef"); if (chance(1) && maxname > 2) { nm[0] = '.'; nm[1] = 'h'; }
        pl[levels] = strlen(p); strcat(p, "/"); strcat(p, nm); levels++;
        if (!viaparents && mkdir(p, 0777)) FAIL("harness cannot make %s: %s", show(p), strerror(errno));
    }
    if (viaparents && levels) { T("mkdir_parents, %zu levels, %zu bytes", levels, strlen(p)); CHECK(vt_path_mkdir_parents(p), "making %zu nested directories (%zu bytes) failed", levels, strlen(p)); struct stat st; CHECK(!stat(p, &st) && S_ISDIR(st.st_mode), "nested directories reported made are not there"); ev("long path made"); }
    if (at >= levels) at = 0;
    for (size_t k = 0; k < levels; k++) { /* what a listing has to contain */
        char *q = strdup(p); if (k + 1 < levels) q[pl[k + 1]] = 0; const char *last = strrchr(q, '/') + 1;
        if (last[0] == '.') hidden = true;
        if (k == at || chance(2)) for (size_t j = 0; j < (k == at ? wide : rn(3)); j++) {
            char *f = malloc(strlen(q) + 40); char *e = f + sprintf(f, "%.*s", (int)(last - q - 1), q); sprintf(e, "/%sw%zu-%zu", j % 17 == 3 ? "." : "", k, j);
            bool hid = j % 17 == 3, above = false; for (const char *s = q; s < last - 1; s++) if (s[0] == '/' && s[1] == '.') above = true;
            mkfile(f, (int64_t)(j % 3)); if (nodots && (hid || above)) free(f); else if (n < cap) want[n++] = f; else free(f);
        }
        if (nodots && hidden) free(q); else want[n++] = q;
    }
    al_t al = al_random(); vt_plist_t *given = chance(50) ? vt_plist_create(1 + rn(8), al.a) : NULL;
    T("recursive listing: %zu levels, deepest path %zu bytes, %zu entries%s", levels, strlen(p), n, nodots ? ", no dot files" : "");
    vt_plist_t *l = vt_path_dir_list_recurse(given, "top", nodots);
    CHECK(l != NULL && (!given || l == given), "listing a deep tree failed");
    CHECK(vt_plist_len(l) == n, "listing of a tree of %zu entries, %zu levels has %zu entries", n, levels, vt_plist_len(l));
    char **got = malloc((n + 1) * sizeof *got); for (size_t i = 0; i < n; i++) got[i] = (char*)vt_str_z((vt_str_t*)vt_plist_get(l, i));
    qsort(want, n, sizeof *want, lcmp); qsort(got, n, sizeof *got, lcmp);
    for (size_t i = 0; i < n; i++) CHECK(!strcmp(want[i], got[i]), "listing contains %s instead of %s", show(got[i]), show(want[i]));
    vt_path_dir_free(l); al_end(al); free(got); for (size_t i = 0; i < n; i++) free(want[i]); free(want);
    evn("entries listed", n); ev(strlen(p) > 1023 ? "path beyond 1 KiB" : "shorter path"); if (wide > 100) ev("wide directory");
    if (levels && wide > 100) { /* the wide directory by itself */
        char *q = strdup(p); q[pl[at]] = 0; size_t k = 0; char **w = malloc((wide + 500) * sizeof *w);
        DIR *dd = opendir(q); if (!dd) exit(3); for (struct dirent *e; (e = readdir(dd)) && k < wide + 500; ) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..") && !(nodots && e->d_name[0] == '.')) w[k++] = strdup(e->d_name); closedir(dd);
        vt_plist_t *wl = vt_path_dir_list(NULL, q, nodots); CHECK(wl && vt_plist_len(wl) == k, "listing a directory of %zu entries gave %zu", k, wl ? vt_plist_len(wl) : 0);
        char **g = malloc((k + 1) * sizeof *g); for (size_t i = 0; i < k; i++) g[i] = (char*)vt_str_z((vt_str_t*)vt_plist_get(wl, i));
        qsort(w, k, sizeof *w, lcmp); qsort(g, k, sizeof *g, lcmp); for (size_t i = 0; i < k; i++) { CHECK(!strcmp(w[i], g[i]), "listing contains %s instead of %s", show(g[i]), show(w[i])); free(w[i]); }
        vt_path_dir_free(wl); free(g); free(w); free(q); ev("wide directory listed by itself");
    }
    if (levels) { struct stat st; CHECK(vt_path_exists(p) && vt_path_is_dir(p), "a path of %zu bytes is not recognised", strlen(p)); (void)st; }
    T("rmdir_recurse top");
    struct stat st; bool r = vt_path_rmdir_recurse("top"), gone = lstat("top", &st) != 0;
    CHECK(r && gone, "removing a tree of %zu levels, %zu entries returned %d, it is %s", levels, n, r, gone ? "gone" : "there");
    CHECK(intact("top2/keep", 10), "a neighbour of the removed tree was damaged");
    seen(hash_bytes(p, strlen(p), n)); sample("%zu levels, %zu bytes deep, %zu entries", levels, strlen(p), n);
    if (chdir(scratch())) exit(3);
    wipe(base);
}

const section_t sections[] = {
    { "text", run_text, true },
    { "dirs", run_dirs, true },
    { "contain", run_contain, true },
    { "deep", run_deep, true },
    { NULL, NULL, false },
};

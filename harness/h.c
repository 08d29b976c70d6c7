#include "h.h"
#include <errno.h>
#include <setjmp.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <dirent.h>
#include <poll.h>
#include <grp.h>
#include <limits.h>
#include <sys/prctl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>

/* ------------------------------------------------------------ rng: splitmix64 */
static uint64_t rs;
static uint64_t mix(uint64_t z) {
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
uint64_t rnd(void) { rs += 0x9e3779b97f4a7c15ull; return mix(rs); }
size_t rn(size_t n) { return n ? (size_t)(rnd() % n) : 0; }
int64_t rrange(int64_t lo, int64_t hi) {
    uint64_t span = (uint64_t)hi - (uint64_t)lo + 1;
    return (int64_t)((uint64_t)lo + (span ? rnd() % span : rnd()));
}
bool chance(unsigned percent) { return rnd() % 100 < percent; }
size_t rsize(size_t max) {
    switch (rn(8)) {
        case 0: return 0;
        case 1: return max ? 1 : 0;
        case 2: return max;
        case 3: return max ? max - 1 : 0;
        case 4: case 5: return rn((max < 8 ? max : 8) + 1);
        default: return rn(max + 1);
    }
}
void rbytes(void *p, size_t n) { unsigned char *b = p; for (size_t i = 0; i < n; i++) b[i] = (unsigned char)rnd(); }
void rtext(char *out, size_t n, const char *al) {
    size_t l = strlen(al);
    for (size_t i = 0; i < n; i++) out[i] = al[rn(l)];
    out[n] = 0;
}

/* ------------------------------------------------------------ status shared with the driver */
#define NTRACE 64
#define TRLEN 400
typedef struct {
    volatile uint64_t magic, cur, in_case;
    char fail[1600];
    uint64_t ntrace;
    char trace[NTRACE][TRLEN];
} status_t;
static status_t st_local, *st = &st_local;
uint64_t g_checks, g_seed, g_case;
bool g_thorough;
const char *g_section;

void T(const char *fmt, ...) {
    va_list a; va_start(a, fmt);
    vsnprintf(st->trace[st->ntrace % NTRACE], TRLEN, fmt, a);
    va_end(a);
    st->ntrace++;
}
/* VERIF_ONLY=memory: what a case finds out about results is another property's business; it then ends early, and only the
   sanitizers and the balance of blocks and descriptors decide */
static bool memory_only, abandoned;
static jmp_buf leave;
static bool in_forked_child;
void fail_at(const char *file, int line, const char *fmt, ...) {
    char m[1300];
    va_list a; va_start(a, fmt); vsnprintf(m, sizeof m, fmt, a); va_end(a);
    if (memory_only && st->in_case) { abandoned = true; longjmp(leave, 1); }
    const char *f = strrchr(file, '/');
    snprintf(st->fail, sizeof st->fail, "%s:%d: %s", f ? f + 1 : file, line, m);
    (void)in_forked_child;
    _exit(CODE_CHECK);
}

/* ------------------------------------------------------------ event counters */
#define NEV 512
static struct { char name[64]; uint64_t n; } evs[NEV];
static int nev;
void evn(const char *name, uint64_t n) {
    for (int i = 0; i < nev; i++) if (!strcmp(evs[i].name, name)) { evs[i].n += n; return; }
    if (nev < NEV) { snprintf(evs[nev].name, sizeof evs[nev].name, "%s", name); evs[nev++].n = n; }
}
void ev(const char *name) { evn(name, 1); }
#define NSEEN (1u << 20)
static uint64_t *seen_tab; static uint64_t nseen;
void seen(uint64_t h) {
    if (!h) h = 1;
    if (nseen >= NSEEN / 2) return;
    size_t i = mix(h) & (NSEEN - 1);
    while (seen_tab[i]) { if (seen_tab[i] == h) return; i = (i + 1) & (NSEEN - 1); }
    seen_tab[i] = h; nseen++;
}
uint64_t hash_bytes(const void *p, size_t n, uint64_t h) {
    const unsigned char *b = p; h ^= 0xcbf29ce484222325ull;
    for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 0x100000001b3ull; }
    return h;
}
#define NSAMPLE 6
static char samples[NSAMPLE][200]; static int nsample;
void sample(const char *fmt, ...) {
    if (nsample >= NSAMPLE) return;
    va_list a; va_start(a, fmt); vsnprintf(samples[nsample], sizeof samples[0], fmt, a); va_end(a);
    for (int i = 0; i < nsample; i++) if (!strcmp(samples[i], samples[nsample])) return;
    nsample++;
}
const char *shown(const void *p, size_t n) {
    static char bufs[8][300]; static int k;
    char *o = bufs[k++ % 8]; size_t w = 0;
    const unsigned char *z = p;
    o[w++] = '"';
    for (size_t i = 0; i < n && w < 270; i++) {
        if (z[i] >= 32 && z[i] < 127 && z[i] != '"' && z[i] != '\\') o[w++] = (char)z[i];
        else w += (size_t)sprintf(o + w, "\\x%02x", z[i]);
    }
    if (w >= 270) w += (size_t)sprintf(o + w, "...[%zu]", n);
    o[w++] = '"'; o[w] = 0;
    return o;
}
const char *show(const char *z) { return z ? shown(z, strlen(z)) : "NULL"; }

/* ------------------------------------------------------------ heap monitor */
extern int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*)) __attribute__((weak));
static volatile int64_t nlive;
static void on_malloc(const volatile void *p, size_t n) { (void)n; if (p) __atomic_add_fetch(&nlive, 1, __ATOMIC_RELAXED); }
static void on_free(const volatile void *p) { if (p) __atomic_sub_fetch(&nlive, 1, __ATOMIC_RELAXED); }
int64_t live_blocks(void) { return nlive; }
void wipe(const char *p) { /* harness's own removal, never follows links */
    struct stat st;
    if (lstat(p, &st)) return;
    if (S_ISDIR(st.st_mode)) {
        chmod(p, 0700);
        DIR *d = opendir(p); struct dirent *de; char q[9000];
        if (d) { while ((de = readdir(d))) if (strcmp(de->d_name, ".") && strcmp(de->d_name, "..")) { snprintf(q, sizeof q, "%s/%s", p, de->d_name); wipe(q); } closedir(d); }
        rmdir(p);
    } else unlink(p);
}
int open_fds(void) {
    int n = 0;
    DIR *d = opendir("/proc/self/fd");
    if (!d) return 0;
    while (readdir(d)) n++;
    closedir(d);
    return n;
}

/* ------------------------------------------------------------ allocation faults */
int64_t g_alloc_seen, g_alloc_fail_at = -1;
bool g_alloc_failed;
static bool fault(void) {
    int64_t k = __atomic_fetch_add(&g_alloc_seen, 1, __ATOMIC_RELAXED);
    if (g_alloc_fail_at >= 0 && k == g_alloc_fail_at) { g_alloc_failed = true; return true; }
    return false;
}
#ifdef WRAP_ALLOC
static char scratch_dir[512];
int64_t g_destructive;
static void contain(const char *z, const char *what) {
    char parent[4200], real[PATH_MAX + 1], sroot[PATH_MAX + 1];
    __atomic_add_fetch(&g_destructive, 1, __ATOMIC_RELAXED);
    if (!z || !*z || strlen(z) > 4096) return;
    snprintf(parent, sizeof parent, "%s", z);
    size_t n = strlen(parent);
    while (n > 1 && parent[n - 1] == '/') parent[--n] = 0;
    char *sl = strrchr(parent, '/');
    const char *last = sl ? sl + 1 : parent;
    bool dots = !strcmp(last, ".") || !strcmp(last, "..");
    if (!dots) { if (!sl) strcpy(parent, "."); else if (sl == parent) strcpy(parent, "/"); else *sl = 0; }
    int e = errno;
    if (realpath(parent, real) && realpath(scratch_dir, sroot)) {
        size_t k = strlen(sroot);
        if (strncmp(real, sroot, k) || (real[k] && real[k] != '/')) fail_at("h.c", __LINE__, "%s called on a path outside the scratch directory: %s", what, z);
    }
    errno = e;
}
extern void *__real_malloc(size_t), *__real_calloc(size_t, size_t), *__real_realloc(void*, size_t);
extern char *__real_strdup(const char*);
void *__wrap_malloc(size_t n) { return fault() ? NULL : __real_malloc(n); }
void *__wrap_calloc(size_t a, size_t b) { return fault() ? NULL : __real_calloc(a, b); }
void *__wrap_realloc(void *p, size_t n) { return fault() ? NULL : __real_realloc(p, n); }
char *__wrap_strdup(const char *z) { return fault() ? NULL : __real_strdup(z); }
/* destructive calls: observed, and stopped when their target lies outside this process's scratch directory */
extern int __real_remove(const char*), __real_rmdir(const char*), __real_unlink(const char*), __real_rename(const char*, const char*);
int __wrap_remove(const char *z) { contain(z, "remove"); return __real_remove(z); }
int __wrap_rmdir(const char *z) { contain(z, "rmdir"); return __real_rmdir(z); }
int __wrap_unlink(const char *z) { contain(z, "unlink"); return __real_unlink(z); }
int __wrap_rename(const char *a, const char *b) { contain(a, "rename"); contain(b, "rename"); return __real_rename(a, b); }
#else
static void *unused_fault(void) { return (void*)fault; }
void *(*h_keep)(void) = unused_fault;
static char scratch_dir[512];
int64_t g_destructive;
#endif

/* ------------------------------------------------------------ scratch */
void drop_privileges(void) {
    if (geteuid() == 0) {
        if (setgroups(0, NULL) || setgid(65534) || setuid(65534)) { ev("could not drop privileges (containment by interception only)"); return; }
        prctl(PR_SET_DUMPABLE, 1, 0, 0, 0);
    }
    umask(022);
}
const char *scratch(void) { return scratch_dir; }

/* ------------------------------------------------------------ children */
death_t in_child(void (*body)(void*), void *arg, int timeout_s) {
    death_t d; memset(&d, 0, sizeof d);
    int po[2], pe[2];
    if (pipe2(po, O_CLOEXEC) || pipe2(pe, O_CLOEXEC)) { perror("pipe"); exit(3); }
    fflush(NULL);
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); exit(3); }
    if (!pid) {
        in_forked_child = true;
        alarm(0);
        signal(SIGALRM, SIG_DFL);
        dup2(po[1], 1); dup2(pe[1], 2);
        close(po[0]); close(po[1]); close(pe[0]); close(pe[1]);
        body(arg);
        fflush(NULL);
        _exit(CODE_SURVIVED);
    }
    close(po[1]); close(pe[1]);
    struct pollfd pf[2] = {{.fd = po[0], .events = POLLIN}, {.fd = pe[0], .events = POLLIN}};
    struct timespec t0, t1; clock_gettime(CLOCK_MONOTONIC, &t0);
    int nopen = 2;
    while (nopen > 0) {
        clock_gettime(CLOCK_MONOTONIC, &t1);
        if (t1.tv_sec - t0.tv_sec > timeout_s) { d.timeout = true; kill(pid, SIGKILL); break; }
        if (poll(pf, 2, 200) <= 0) continue;
        for (int i = 0; i < 2; i++) {
            if (pf[i].fd < 0 || !pf[i].revents) continue;
            char b[4096]; ssize_t r = read(pf[i].fd, b, sizeof b);
            if (r <= 0) { pf[i].fd = -1; nopen--; continue; }
            char *o = i ? d.err : d.out; size_t *l = i ? &d.err_len : &d.out_len;
            for (ssize_t k = 0; k < r && *l < sizeof d.out - 1; k++) o[(*l)++] = b[k];
        }
    }
    close(po[0]); close(pe[0]);
    int s;
    while (waitpid(pid, &s, 0) < 0 && errno == EINTR) { }
    if (d.timeout) return d;
    if (WIFEXITED(s)) { d.exited = true; d.code = WEXITSTATUS(s); d.survived = d.code == CODE_SURVIVED; }
    else d.sig = WTERMSIG(s);
    if (d.exited && d.code == CODE_CHECK) _exit(CODE_CHECK); /* the child's monitor already wrote the reason */
    if (d.exited && d.code == CODE_SAN) { fwrite(d.err, 1, d.err_len, stderr); fflush(stderr); }
    return d;
}

/* ------------------------------------------------------------ sanitizer callbacks: keep the exit code recognisable */
const char *__asan_default_options(void);
const char *__asan_default_options(void) {
    return "detect_leaks=0:exitcode=99:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=1:"
           "handle_abort=0:symbolize=1:detect_odr_violation=0:max_allocation_size_mb=4096";
}
const char *__ubsan_default_options(void);
const char *__ubsan_default_options(void) { return "print_stacktrace=1:exitcode=99:halt_on_error=1"; }
const char *__tsan_default_options(void);
const char *__tsan_default_options(void) { return "exitcode=99:halt_on_error=1:abort_on_error=0"; }
const char *__msan_default_options(void);
const char *__msan_default_options(void) { return "exit_code=99"; }

static void on_alarm(int sig) {
    (void)sig;
    static const char m[] = "HANG: the case did not finish in time";
    memcpy(st->fail, m, sizeof m);
    _exit(78);
}

static void jstr(FILE *f, const char *s) {
    fputc('"', f);
    for (; *s; s++) {
        unsigned char c = (unsigned char)*s;
        if (c == '"' || c == '\\') fprintf(f, "\\%c", c);
        else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c);
        else fputc(c, f);
    }
    fputc('"', f);
}

static void run_case(const section_t *s, uint64_t seed, uint64_t idx) {
    uint64_t h = hash_bytes(s->name, strlen(s->name), 17);
    rs = mix(h ^ mix(seed)) + idx * 0xd1342543de82ef95ull;
    rs = mix(rs);
    g_case = idx;
    st->cur = idx; st->ntrace = 0;
    st->in_case = 1;
    if (!memory_only || !setjmp(leave)) s->run(idx);
    st->in_case = 0;
}

/* usage: harness SECTION SEED START COUNT MAXSECONDS OUT STATUS SCRATCH quick|thorough */
int main(int argc, char **argv) {
    if (argc < 10) { fprintf(stderr, "usage\n"); return 3; }
    const section_t *s = NULL;
    for (const section_t *p = sections; p->name; p++) if (!strcmp(p->name, argv[1])) s = p;
    if (!s) { fprintf(stderr, "no section %s\n", argv[1]); return 3; }
    g_section = s->name;
    g_seed = strtoull(argv[2], NULL, 10);
    uint64_t start = strtoull(argv[3], NULL, 10), count = strtoull(argv[4], NULL, 10);
    double maxs = atof(argv[5]);
    const char *out = argv[6];
    snprintf(scratch_dir, sizeof scratch_dir, "%s", argv[8]);
    g_thorough = !strcmp(argv[9], "thorough");
    int fd = open(argv[7], O_RDWR | O_CREAT | O_TRUNC | O_CLOEXEC, 0644);
    if (fd < 0 || ftruncate(fd, sizeof(status_t))) { perror("status"); return 3; }
    void *m = mmap(NULL, sizeof(status_t), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    close(fd);
    if (m == MAP_FAILED) { perror("mmap"); return 3; }
    st = m; st->magic = 0x56455249;
    seen_tab = mmap(NULL, NSEEN * sizeof(uint64_t), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (seen_tab == MAP_FAILED) return 3;
    if (__sanitizer_install_malloc_and_free_hooks) __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
    signal(SIGALRM, on_alarm);
    unsigned per_case = 120;
    if (getenv("VERIF_CASE_SECONDS")) per_case = (unsigned)atoi(getenv("VERIF_CASE_SECONDS"));
    memory_only = getenv("VERIF_ONLY") && !strcmp(getenv("VERIF_ONLY"), "memory");
    section_setup(s->name);
    struct timespec t0, t1; clock_gettime(CLOCK_MONOTONIC, &t0);
    uint64_t done = 0, leak_checked = 0;
    for (uint64_t i = start; i < start + count; i++) {
        alarm(per_case);
        int64_t b0 = nlive; int f0 = s->leakcheck ? open_fds() : 0;
        run_case(s, g_seed, i);
        if (abandoned) { abandoned = false; ev("cases left early"); done++; continue; }
        if (s->leakcheck) {
            int64_t b1 = nlive; int f1 = open_fds();
            if (b1 > b0 || f1 > f0) {
                /* one-time caches inside libc also look like this: a leak grows again every time the case is repeated */
                run_case(s, g_seed, i);
                int64_t b2 = nlive; int f2 = open_fds();
                run_case(s, g_seed, i);
                int64_t b3 = nlive; int f3 = open_fds();
                if (b2 > b1 && b3 > b2) FAIL("heap blocks leaked by the case: %lld per run", (long long)(b3 - b2));
                if (f2 > f1 && f3 > f2) FAIL("descriptors leaked by the case: %d per run", f3 - f2);
            }
            leak_checked++;
            g_checks++;
        }
        done++;
        clock_gettime(CLOCK_MONOTONIC, &t1);
        if ((double)(t1.tv_sec - t0.tv_sec) + (double)(t1.tv_nsec - t0.tv_nsec) / 1e9 > maxs) break;
    }
    alarm(0);
    if (leak_checked) evn("resource-balance checks", leak_checked);
    FILE *f = fopen(out, "w");
    if (!f) { perror("out"); return 3; }
    fprintf(f, "{\"section\":\"%s\",\"seed\":%llu,\"start\":%llu,\"cases\":%llu,\"evaluations\":%llu,\"distinct\":%llu,\"events\":{",
        s->name, (unsigned long long)g_seed, (unsigned long long)start, (unsigned long long)done,
        (unsigned long long)g_checks, (unsigned long long)nseen);
    for (int i = 0; i < nev; i++) { if (i) fputc(',', f); jstr(f, evs[i].name); fprintf(f, ":%llu", (unsigned long long)evs[i].n); }
    fprintf(f, "},\"samples\":[");
    for (int i = 0; i < nsample; i++) { if (i) fputc(',', f); jstr(f, samples[i]); }
    fprintf(f, "]}\n");
    if (fclose(f)) return 3;
    char hp[600]; snprintf(hp, sizeof hp, "%s.hashes", out);
    f = fopen(hp, "w");
    if (!f) return 3;
    for (size_t i = 0; i < NSEEN; i++) if (seen_tab[i]) fwrite(&seen_tab[i], 8, 1, f);
    if (fclose(f)) return 3;
    fflush(NULL);
    _exit(0);
}

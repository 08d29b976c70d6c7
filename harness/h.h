/* Common runtime-monitoring support for every harness in this directory.
 *
 * A harness is a set of named sections; one section run executes `count` cases, each of which is fully determined
 * by (section, seed, case index).  A case drives the real library and compares every observation with an
 * independent reference model.  The first disagreement ends the process with exit code 77 and a line in the status
 * file; sanitizer reports end it with exit code 99; anything that prevents the summary from being written
 * (signal, unexpected exit() inside the library, hang) is seen by the driver as a failure as well.
 */
#ifndef VERIF_H_H
#define VERIF_H_H
#define _GNU_SOURCE 1
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdbool.h>
#include <stdarg.h>
#include <stddef.h>
#include <unistd.h>
#include <sys/types.h>

/* ---------------------------------------------------------------- random numbers */
uint64_t rnd(void);                 /* 64 random bits of the case's own stream */
size_t rn(size_t n);                /* uniform in [0;n) */
int64_t rrange(int64_t lo, int64_t hi); /* uniform in [lo;hi] */
bool chance(unsigned percent);
size_t rsize(size_t max);           /* [0;max], biased to small values and to the ends */
void rbytes(void *p, size_t n);
void rtext(char *out, size_t n, const char *alphabet); /* n random characters of alphabet + NUL */

/* ---------------------------------------------------------------- monitors */
void T(const char *fmt, ...) __attribute__((format(printf, 1, 2)));   /* trace one operation (ring, shown on failure) */
void fail_at(const char *file, int line, const char *fmt, ...) __attribute__((format(printf, 3, 4), noreturn));
#define FAIL(...) fail_at(__FILE__, __LINE__, __VA_ARGS__)
extern uint64_t g_checks;           /* oracle evaluations */
#define CHECK(c, ...) do { g_checks++; if (!(c)) fail_at(__FILE__, __LINE__, __VA_ARGS__); } while (0)
#define EVAL() (g_checks++)
void ev(const char *name);          /* count one observed event of this kind */
void evn(const char *name, uint64_t n);
void seen(uint64_t h);              /* record a distinct observed state (set of hashes) */
uint64_t hash_bytes(const void *p, size_t n, uint64_t h);
void sample(const char *fmt, ...) __attribute__((format(printf, 1, 2)));  /* keep a few readable observations */
const char *show(const char *z);    /* printable rendering of a text (rotating buffers) */
const char *shown(const void *p, size_t n);

/* ---------------------------------------------------------------- resources */
/* number of heap blocks currently live in the process (ASan hooks; 0 when not available) */
int64_t live_blocks(void);
int open_fds(void);

/* ---------------------------------------------------------------- allocation faults (link with --wrap) */
extern int64_t g_alloc_seen;        /* malloc/calloc/realloc/strdup calls made by library and harness objects */
extern int64_t g_alloc_fail_at;     /* >=0: the call with this number (counted from 0) returns NULL */
extern bool g_alloc_failed;         /* set once the fault was delivered */

/* ---------------------------------------------------------------- death tests */
typedef struct {
    bool exited; int code;          /* exit status when exited */
    int sig;                        /* signal otherwise */
    bool survived;                  /* body returned */
    bool timeout;
    char out[8192]; size_t out_len; /* stdout + stderr (interleaved) */
    char err[8192]; size_t err_len;
} death_t;
#define CODE_SURVIVED 42
#define CODE_CHECK 77
#define CODE_SAN 99
/* runs body(arg) in a forked child with captured stdout/stderr; the child leaves with CODE_SURVIVED if body returns */
death_t in_child(void (*body)(void*), void *arg, int timeout_s);

/* ---------------------------------------------------------------- scratch */
void drop_privileges(void);         /* become an unprivileged user for the rest of the process */
extern int64_t g_destructive;       /* remove/rmdir/unlink/rename calls seen; one outside the scratch directory is a violation */
void wipe(const char *path);        /* removes a tree made by the harness; never follows links */
const char *scratch(void);          /* private empty directory of this process, removed by the driver */

/* ---------------------------------------------------------------- sections */
typedef struct {
    const char *name;
    void (*run)(uint64_t idx);      /* one case */
    bool leakcheck;                 /* heap blocks and descriptors must balance over a case */
} section_t;
extern const section_t sections[];  /* terminated by name == NULL */
extern const char *g_section;
extern uint64_t g_seed, g_case;
extern bool g_thorough;
void section_setup(const char *name); /* called once before the first case */

#endif

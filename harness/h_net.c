/* Sockets over the loopback interface: streams, datagrams, timeouts, failures.  Setup calls are replaced by stand-ins
 * that pass through to the system or fail on request; everything else is the real kernel. */
#include "h.h"
#include "vita/vita.h"
#include "vita/network/sockets.h"
#include <errno.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <pthread.h>
#include <sched.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <time.h>

static const char *f_call; static int f_errno; static bool f_hit;
static bool faulty(const char *c) { if (!f_call || strcmp(f_call, c)) return false; f_hit = true; errno = f_errno; return true; }
int socket(int d, int t, int p) { return faulty("socket") ? -1 : (int)syscall(SYS_socket, d, t, p); }
int setsockopt(int f, int l, int n, const void *v, socklen_t s) { return faulty("setsockopt") ? -1 : (int)syscall(SYS_setsockopt, f, l, n, v, s); }
int bind(int f, const struct sockaddr *a, socklen_t l) { return faulty("bind") ? -1 : (int)syscall(SYS_bind, f, a, l); }
int listen(int f, int b) { return faulty("listen") ? -1 : (int)syscall(SYS_listen, f, b); }
int connect(int f, const struct sockaddr *a, socklen_t l) { return faulty("connect") ? -1 : (int)syscall(SYS_connect, f, a, l); }
int poll(struct pollfd *p, nfds_t n, int t) { return faulty("poll") ? -1 : (int)syscall(SYS_poll, p, n, t); }

void section_setup(const char *name) {
    (void)name; vt_debug_disable_output(true);
    cpu_set_t s; if (!sched_getaffinity(0, sizeof s, &s)) for (int i = 0, k = (int)(getpid() % CPU_COUNT(&s)); i < CPU_SETSIZE; i++) if (CPU_ISSET(i, &s) && k-- == 0) { cpu_set_t o; CPU_ZERO(&o); CPU_SET(i, &o); sched_setaffinity(0, sizeof o, &o); break; }
    if (!vt_socket_init()) FAIL("sockets could not be initialised");
}
static uint16_t port_of(vt_socket_t s) { struct sockaddr_in a = {0}; socklen_t l = sizeof a; if (getsockname((int)s, (struct sockaddr*)&a, &l)) FAIL("socket %lld is not one", (long long)s); return ntohs(a.sin_port); }
static uint16_t peer_port(vt_socket_t s) { struct sockaddr_in a = {0}; socklen_t l = sizeof a; if (getpeername((int)s, (struct sockaddr*)&a, &l)) FAIL("socket %lld has no peer", (long long)s); return ntohs(a.sin_port); }
static uint32_t peer_addr(vt_socket_t s) { struct sockaddr_in a = {0}; socklen_t l = sizeof a; if (getpeername((int)s, (struct sockaddr*)&a, &l)) FAIL("socket %lld has no peer", (long long)s); return a.sin_addr.s_addr; }
static int type_of(vt_socket_t s) { int t = 0; socklen_t l = sizeof t; getsockopt((int)s, SOL_SOCKET, SO_TYPE, &t, &l); return t; }
static uint16_t free_port(int type) { int s = (int)syscall(SYS_socket, AF_INET, type, 0); struct sockaddr_in a = { .sin_family = AF_INET }; if (s < 0 || syscall(SYS_bind, s, &a, sizeof a)) { fprintf(stderr, "no free port\n"); exit(3); } uint16_t p = port_of(s); close(s); return p; }
static double now_ms(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double)t.tv_sec * 1e3 + (double)t.tv_nsec / 1e6; }
static struct VitaSocketAddress addr_of(uint16_t port) {
    char z[32]; snprintf(z, sizeof z, "127.%d.%d.%d", chance(80) ? 0 : (int)rn(256), chance(80) ? 0 : (int)rn(256), 1 + (int)rn(chance(80) ? 1 : 254));
    char *h = malloc(strlen(z) + 1); strcpy(h, z);
    struct VitaSocketAddress a = vt_socket_make_address((int16_t)port, h); free(h);
    struct in_addr ia; inet_pton(AF_INET, z, &ia);
    if (chance(30)) { /* any other host and port */
        static const char *const odd[] = { "255.255.255.255", "0.0.0.0", "255.0.0.255", "1.2.3.4", "128.0.0.1", "224.0.0.251", "192.168.255.255", "10.0.0.0" };
        char y[32]; if (chance(50)) strcpy(y, odd[rn(8)]); else snprintf(y, sizeof y, "%d.%d.%d.%d", (int)rn(256), (int)rn(256), (int)rn(256), (int)rn(256));
        uint16_t yp = chance(30) ? (uint16_t)(rn(2) ? 65535 - rn(3) : rn(3)) : (uint16_t)rnd(); struct in_addr yi; inet_pton(AF_INET, y, &yi); struct VitaSocketAddress ya = vt_socket_make_address((int16_t)yp, y);
        CHECK(ya.port == htons(yp) && ya.addr == yi.s_addr, "address %s port %u became %08x port %04x", y, yp, ya.addr, ya.port); ev("addresses made");
    }
    CHECK(a.port == htons(port) && a.addr == ia.s_addr, "address %s port %u became %08x port %04x", z, port, a.addr, a.port);
    return a;
}
/* can the port be had at all (by a plain socket with address reuse)? */
static bool port_usable(int type, uint16_t p) { int s = (int)syscall(SYS_socket, AF_INET, type, 0), one = 1; struct sockaddr_in a = { .sin_family = AF_INET, .sin_port = htons(p) }; syscall(SYS_setsockopt, s, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one); bool ok = s >= 0 && !syscall(SYS_bind, s, &a, sizeof a); close(s); return ok; }
static vt_socket_t server(enum VitaSocketType t, int backlog) {
    bool given = chance(30); uint16_t p = given ? free_port(t) : 0;
    vt_socket_t s = vt_socket_startup_server(t, p, backlog);
    if (s < 0 && given && !port_usable(t, p)) { s = vt_socket_startup_server(t, 0, backlog); given = false; } /* somebody else took it */
    CHECK(s >= 0, "starting a server on %s port failed: %lld", given ? "a free" : "any", (long long)s);
    CHECK(type_of(s) == (int)t, "server socket has type %d", type_of(s));
    if (given) CHECK(port_of(s) == p, "server listens on port %u, asked for %u", port_of(s), p);
    return s;
}
/* n byte of a numbered stream */
static uint8_t stream_byte(uint64_t id, size_t n) { uint64_t x = id * 0x9e3779b97f4a7c15ull + n; x ^= x >> 29; x *= 0xbf58476d1ce4e5b9ull; return (uint8_t)(x >> 40); }

/* ============================================================ streams ======================================== */
typedef struct { vt_socket_t fd[2]; bool open[2], fin[2]; size_t sent[2], got[2]; uint64_t id; } cn_t; /* [0] client, [1] accepted */
#define NC 6
static int32_t do_receive(vt_socket_t s, char *b, size_t n, bool data_due, int *how) {
    struct VitaSocketAddress a;
    switch (*how = (int)rn(data_due ? 4 : 3) + (data_due ? 0 : 1)) {
        case 0: return vt_socket_receive(s, b, n);
        case 1: return vt_socket_receive_timed(s, b, n, data_due ? (chance(50) ? 5000 : (uint32_t)-1) : (uint32_t)rn(3));
        case 2: return vt_socket_receive_timed_from(s, &a, b, n, data_due ? (chance(50) ? 5000 : (uint32_t)-1) : (uint32_t)rn(3));
        default: if (data_due) return vt_socket_receive_from(s, &a, b, n); *how = 1; return vt_socket_receive_timed(s, b, n, 0);
    }
}
/* receive on side `to` of c, everything the peer sent and not yet taken is due */
static void take(cn_t *c, int to) {
    int from = 1 - to; size_t due = c->sent[from] - c->got[to], n = 1 + (chance(20) ? rn(60000) : rsize(300)); bool eof = c->fin[from];
    if (!c->open[to]) return;
    char *b = malloc(n); int how; int32_t r = do_receive(c->fd[to], b, n, due || eof, &how);
    T("side %d receives up to %zu (due %zu%s) -> %d", to, n, due, eof ? ", then end" : "", r);
    if (due) {
        CHECK(r > 0 && (size_t)r <= n && (size_t)r <= due, "receiving up to %zu of %zu due bytes returned %d (call %d)", n, due, r, how);
        for (int32_t i = 0; i < r; i++) if ((uint8_t)b[i] != stream_byte(c->id * 2 + (uint64_t)from, c->got[to] + (size_t)i)) FAIL("byte %zu of the stream arrived as %02x", c->got[to] + (size_t)i, (uint8_t)b[i]);
        EVAL(); c->got[to] += (size_t)r; ev("stream data received"); seen(hash_bytes(&due, sizeof due, n * 7 + (size_t)how));
    } else { CHECK(r == 0, "nothing was sent but receiving returned %d (call %d)", r, how); ev(eof ? "end of stream seen" : "timed receive ran out"); }
    free(b);
}
static void put(cn_t *c, int from) {
    int to = 1 - from; size_t room = 120000 - (c->sent[from] - c->got[to]), n = chance(15) ? rn(room + 1) : rsize(room < 400 ? room : 400);
    if (!c->open[from] || !c->open[to]) return;
    char *b = malloc(n ? n : 1); for (size_t i = 0; i < n; i++) b[i] = (char)stream_byte(c->id * 2 + (uint64_t)from, c->sent[from] + i);
    int32_t r = chance(80) ? vt_socket_send(c->fd[from], b, n) : vt_socket_send_to(c->fd[from], addr_of(port_of(c->fd[to])), b, n);
    T("side %d sends %zu -> %d", from, n, r);
    CHECK(r == (int32_t)n, "sending %zu bytes over an open connection returned %d", n, r); ev("stream data sent"); c->sent[from] += n; free(b);
}
/* both ends are finished with sending and data is still there: it is delivered before the end */
static void both_done(uint64_t idx) {
    struct VitaSocketAddress a = {0};
    vt_socket_t ls = server(VT_SOCKET_TYPE_TCP, 2), cl = vt_socket_startup_client(VT_SOCKET_TYPE_TCP, addr_of(port_of(ls))), ac = vt_socket_accept_client(ls); CHECK(cl >= 0 && ac >= 0, "no connection"); bool sd = rn(2); vt_socket_t left = sd ? cl : ac, gone = sd ? ac : cl;
    size_t n = 1 + rn(5000), at = 0; char *d = malloc(n); for (size_t i = 0; i < n; i++) d[i] = (char)stream_byte(idx, i); CHECK(vt_socket_send(gone, d, n) == (int32_t)n, "send failed"); shutdown((int)left, SHUT_WR); CHECK(vt_socket_close(gone), "close failed");
    while (at <= n) { size_t cap = 1 + rn(3000); char *c = malloc(cap); int how = (int)rn(4); int32_t r = how == 0 ? vt_socket_receive(left, c, cap) : how == 1 ? vt_socket_receive_from(left, &a, c, cap) : how == 2 ? vt_socket_receive_timed(left, c, cap, 5000) : vt_socket_receive_timed_from(left, &a, c, cap, 5000); T("both ends closed, %zu of %zu taken, call %d -> %d", at, n, how, r);
        if (at == n) { CHECK(r == 0, "after the last byte call %d returned %d", how, r); at++; }
        else { CHECK(r > 0 && (size_t)r <= cap && (size_t)r <= n - at, "%zu bytes are due, call %d returned %d", n - at, how, r); CHECK(!memcmp(c, d + at, (size_t)r), "bytes at %zu differ", at); at += (size_t)r; }
        free(c); }
    free(d); CHECK(vt_socket_close(left) && vt_socket_close(ls), "close failed"); ev("data delivered before the end");
}
static void run_tcp(uint64_t idx) {
    if (chance(25)) both_done(idx);
    int backlog = 1 + (int)rn(8); vt_socket_t ls = server(VT_SOCKET_TYPE_TCP, backlog); uint16_t port = port_of(ls);
    cn_t c[NC] = {0}; int pend[NC], np = 0, used = 0; for (int i = 0; i < NC; i++) c[i].id = idx * NC + (uint64_t)i;
    size_t ops = 20 + rn(60);
    for (size_t k = 0; k < ops; k++) {
        int op = (int)rn(100);
        if (op < 12 && used < NC && np < backlog) {
            cn_t *x = &c[used]; struct VitaSocketAddress ta = addr_of(port); x->fd[0] = vt_socket_startup_client(VT_SOCKET_TYPE_TCP, ta); T("connection %d", used);
            CHECK(x->fd[0] >= 0, "connecting to a listening server failed: %lld", (long long)x->fd[0]); CHECK(peer_port(x->fd[0]) == port && type_of(x->fd[0]) == SOCK_STREAM, "connected to port %u, wanted %u", peer_port(x->fd[0]), port); CHECK(peer_addr(x->fd[0]) == ta.addr, "connected to address %08x, wanted %08x", ntohl(peer_addr(x->fd[0])), ntohl(ta.addr));
            x->open[0] = true; pend[np++] = used++; ev("connected");
        } else if (op < 25 && np) {
            cn_t *x = &c[pend[0]]; x->fd[1] = vt_socket_accept_client(ls); T("accept");
            CHECK(x->fd[1] >= 0, "accepting a waiting connection failed: %lld", (long long)x->fd[1]); CHECK(peer_port(x->fd[1]) == port_of(x->fd[0]), "accepted a connection from port %u, the first waiting one is from port %u", peer_port(x->fd[1]), port_of(x->fd[0]));
            x->open[1] = true; memmove(pend, pend + 1, sizeof *pend * (size_t)--np); ev("accepted");
        } else if (op < 33) { /* which sockets are ready */
            struct pollfd p[1400]; bool due[1400]; size_t n = 0, nd = 0; p[n].fd = (int)ls; due[n++] = np > 0;
            for (int i = 0; i < used; i++) for (int s = 0; s < 2; s++) if (c[i].open[s] && chance(80)) { p[n].fd = (int)c[i].fd[s]; due[n++] = c[i].sent[1 - s] > c[i].got[s] || c[i].fin[1 - s]; }
            if (chance(15)) { size_t w = n, u = chance(50) ? 60 + rn(20) : rn(480); while (n < u) { size_t q = rn(w); p[n] = p[q]; due[n++] = due[q]; } ev("polled a crowd"); } /* the same sockets several times over */
            struct pollfd *h = malloc(n * sizeof *h); for (size_t i = 0; i < n; i++) { h[i] = p[i]; h[i].events = POLLIN; h[i].revents = 0; nd += due[i]; }
            int32_t r = 0; for (double t0 = now_ms(); ; ) { r = vt_socket_poll(h, n, nd ? 5000 : (uint32_t)rn(2)); if (r == (int32_t)nd || now_ms() - t0 > 8000) break; }
            T("poll of %zu, %zu due -> %d", n, nd, r);
            CHECK(r == (int32_t)nd, "%zu of %zu sockets have something to read, polling reports %d", nd, n, r);
            for (size_t i = 0; i < n; i++) CHECK(((h[i].revents & POLLIN) != 0) == due[i], "socket %zu of %zu is reported %s", i, n, due[i] ? "not ready" : "ready");
            free(h); ev("polled");
        } else if (used) {
            cn_t *x = &c[rn((size_t)used)]; int s = (int)rn(2);
            if (!x->open[0] && !x->open[1]) continue;
            if (op < 62) put(x, s);
            else if (op < 94) take(x, s);
            else if (x->open[s] && (x->open[1 - s] || x->fin[1 - s]) && x->fd[1]) { /* close after everything was taken from it */
                while (x->sent[1 - s] > x->got[s]) take(x, s);
                CHECK(vt_socket_close(x->fd[s]), "closing an open socket failed"); T("side %d closes", s); x->open[s] = false; x->fin[s] = true; ev("closed");
            }
        }
    }
    while (np) { cn_t *x = &c[pend[0]]; x->fd[1] = vt_socket_accept_client(ls); CHECK(x->fd[1] >= 0, "accepting failed"); x->open[1] = true; memmove(pend, pend + 1, sizeof *pend * (size_t)--np); }
    for (int i = 0; i < used; i++) for (int s = 0; s < 2; s++) if (c[i].open[s]) { while (c[i].sent[1 - s] > c[i].got[s]) take(&c[i], s); if (c[i].fin[1 - s]) take(&c[i], s); }
    for (int i = 0; i < used; i++) { int o = (int)rn(2); for (int s = 0; s < 2; s++) if (c[i].open[s ^ o]) CHECK(vt_socket_close(c[i].fd[s ^ o]), "closing failed"); } /* the side that closes first keeps the connection for a while */
    bool again = chance(40);
    CHECK(vt_socket_close(ls), "closing the server failed");
    if (again) { ls = vt_socket_startup_server(VT_SOCKET_TYPE_TCP, port, 2); T("restart on port %u", port); if (ls < 0 && !port_usable(SOCK_STREAM, port)) return; CHECK(ls >= 0, "the server could not be started again on its port at once: %lld", (long long)ls); CHECK(vt_socket_close(ls), "closing failed"); ev("restarted on the same port"); }
    ev("stream histories");
}
/* large transfers with a concurrent reader, and data that arrives while a timed receive waits */
typedef struct { vt_socket_t s; size_t n; uint64_t id; uint32_t seed; bool ok; size_t at; double delay; uint16_t port; } th_t;
static void *reader(void *a) {
    th_t *t = a; uint32_t x = t->seed; t->ok = true; if (t->delay > 0) { struct timespec d = { 0, (long)(t->delay * 1e6) }; nanosleep(&d, NULL); }
    while (t->at < t->n) {
        x = x * 1664525 + 1013904223; size_t n = 1 + (x >> 8) % 70000; char *b = malloc(n); int32_t r = vt_socket_receive(t->s, b, n);
        if (r <= 0 || (size_t)r > n) { t->ok = false; free(b); return NULL; }
        for (int32_t i = 0; i < r; i++) if ((uint8_t)b[i] != stream_byte(t->id, t->at + (size_t)i)) t->ok = false;
        t->at += (size_t)r; free(b); if (!t->ok) return NULL;
    }
    return NULL;
}
static void *late(void *a) { th_t *t = a; struct timespec d = { 0, (long)(t->delay * 1e6) }; nanosleep(&d, NULL); char b[64]; for (size_t i = 0; i < t->n; i++) b[i] = (char)stream_byte(t->id, i); t->ok = vt_socket_send(t->s, b, t->n) == (int32_t)t->n; return NULL; }
static void run_bulk(uint64_t idx) {
    vt_socket_t ls = vt_socket_startup_server(VT_SOCKET_TYPE_TCP, 0, 2), cl = vt_socket_startup_client(VT_SOCKET_TYPE_TCP, addr_of(port_of(ls))), ac = vt_socket_accept_client(ls);
    CHECK(cl >= 0 && ac >= 0, "no connection"); bool dir = chance(50); th_t t = { .s = dir ? cl : ac, .n = 1 + rn(6000000), .id = idx, .seed = (uint32_t)rnd() };
    if (chance(50)) { int sz = 60000 + (int)rn(200000); setsockopt((int)(dir ? ac : cl), SOL_SOCKET, SO_SNDBUF, &sz, sizeof sz); t.delay = (double)rn(40); ev("slow reader, small send buffer"); } /* sending has to wait */
    pthread_t p; if (pthread_create(&p, NULL, reader, &t)) exit(3);
    T("transfer of %zu bytes", t.n);
    for (size_t at = 0; at < t.n; ) {
        size_t n = 1 + rn(chance(30) ? 3000000 : 50000); if (n > t.n - at) n = t.n - at;
        char *b = malloc(n); for (size_t i = 0; i < n; i++) b[i] = (char)stream_byte(idx, at + i);
        int32_t r = vt_socket_send(dir ? ac : cl, b, n); free(b); CHECK(r > 0 && (size_t)r <= n, "sending %zu bytes returned %d", n, r); at += (size_t)r; ev("bulk sends");
    }
    pthread_join(p, NULL); CHECK(t.ok && t.at == t.n, "the reader got %zu of %zu bytes, or they differ", t.at, t.n); seen(t.n);
    /* waiting */
    th_t l = { .s = dir ? ac : cl, .n = 1 + rn(60), .id = idx + 77, .delay = (double)rn(30) }; if (pthread_create(&p, NULL, late, &l)) exit(3);
    char *b = malloc(100); struct VitaSocketAddress ad; static const uint32_t tos[] = { 20000, (uint32_t)-1, 32768, 65536, 65537, 131072, 1u << 20, 1u << 24, 0x7fffffff, 40000 }; uint32_t to = tos[rn(10)]; double t0 = now_ms(); int32_t r = chance(50) ? vt_socket_receive_timed(dir ? cl : ac, b, 100, to) : vt_socket_receive_timed_from(dir ? cl : ac, &ad, b, 100, to); double dt = now_ms() - t0; pthread_join(p, NULL);
    T("data after %g ms -> %d after %.1f ms", l.delay, r, dt);
    CHECK(l.ok && r == (int32_t)l.n, "%zu bytes sent while receive waited, it returned %d", l.n, r); for (int32_t i = 0; i < r; i++) if ((uint8_t)b[i] != stream_byte(l.id, (size_t)i)) FAIL("wrong data");
    CHECK(dt < 15000, "data that arrived after %g ms was delivered after %.0f ms", l.delay, dt); ev("delivered while waiting");
    uint32_t w = (uint32_t)rn(40); t0 = now_ms(); r = chance(50) ? vt_socket_receive_timed(dir ? cl : ac, b, 100, w) : vt_socket_receive_timed_from(dir ? cl : ac, &ad, b, 100, w); dt = now_ms() - t0;
    CHECK(r == 0, "a timed receive with nothing to receive returned %d", r); CHECK(dt >= (double)w - 1.5 && dt < w + 10000, "a wait of %u ms took %.1f ms", w, dt); ev("waits timed"); free(b);
    /* the peer is gone: sending is reported as failed sooner or later and the process goes on */
    vt_socket_t gone = dir ? cl : ac, left = dir ? ac : cl; if (chance(40)) CHECK(vt_socket_send(left, "unread", 6) == 6, "send failed"); CHECK(vt_socket_close(gone), "close failed");
    t0 = now_ms(); bool to_form = chance(30); struct VitaSocketAddress any = addr_of(port_of(ls));
    do { r = to_form ? vt_socket_send_to(left, any, "data", 4) : vt_socket_send(left, "data", 4); CHECK(r == 4 || r == VT_SOCKET_STATUS_ERROR_SEND, "sending to a closed peer returned %d", r); if (r == 4) { struct timespec d = { 0, 200000 }; nanosleep(&d, NULL); } } while (r == 4 && now_ms() - t0 < 8000);
    CHECK(r == VT_SOCKET_STATUS_ERROR_SEND, "sending to a closed peer never failed"); r = vt_socket_send(left, "data", 4); CHECK(r == VT_SOCKET_STATUS_ERROR_SEND, "sending to a closed peer returned %d", r); ev("send to a closed peer reported");
    CHECK(vt_socket_close(left) && vt_socket_close(ls), "close failed");
}

/* ============================================================ datagrams ====================================== */
typedef struct { uint16_t port; size_t n; uint8_t *d; } dg_t;
#define NU 5
typedef struct { vt_socket_t s; uint16_t port; int conn; dg_t q[40]; size_t nq, bytes; struct VitaSocketAddress last; bool has_last; int last_from; } us_t;
static us_t us[NU];
static void deliver(int to, int from, const uint8_t *d, size_t n) { us_t *x = &us[to]; if (x->conn >= 0 && x->conn != from) return; uint8_t *c = malloc(n ? n : 1); memcpy(c, d, n); x->q[x->nq++] = (dg_t){ us[from].port, n, c }; x->bytes += n + 800; }
static void run_udp(uint64_t idx) {
    int ns = 1 + (int)rn(3), n = ns + (int)rn(3); if (n > NU) n = NU;
    memset(us, 0, sizeof us);
    for (int i = 0; i < n; i++) {
        us_t *x = &us[i]; x->conn = -1;
        if (i < ns) x->s = server(VT_SOCKET_TYPE_UDP, (int)rn(chance(70) ? 5 : 500));
        else { x->conn = (int)rn((size_t)ns); x->s = vt_socket_startup_client(VT_SOCKET_TYPE_UDP, vt_socket_make_address((int16_t)us[x->conn].port, "127.0.0.1")); CHECK(x->s >= 0 && type_of(x->s) == SOCK_DGRAM, "no datagram client: %lld", (long long)x->s); CHECK(peer_port(x->s) == us[x->conn].port, "datagram client is connected to port %u", peer_port(x->s)); }
        x->port = port_of(x->s);
    }
    size_t ops = 30 + rn(60);
    for (size_t k = 0; k < ops; k++) {
        int i = (int)rn((size_t)n); us_t *x = &us[i]; int op = (int)rn(100);
        if (op < 45) {
            int to = x->conn; bool direct = x->conn >= 0 && chance(60), reply = false;
            if (!direct) { if (x->has_last && chance(50)) { to = x->last_from; reply = true; } else to = (int)rn((size_t)n); }
            if (to < 0 || us[to].nq >= 40 || to == i) continue;
            size_t len = us[to].bytes ? rsize(chance(90) ? 300 : 9000) : chance(10) ? 65507 - rn(3) : rsize(2000); if (us[to].bytes + len + 800 > 100000) continue;
            uint8_t *d = malloc(len ? len : 1); rbytes(d, len);
            int32_t r = direct ? vt_socket_send(x->s, (char*)d, len) : vt_socket_send_to(x->s, reply ? x->last : vt_socket_make_address((int16_t)us[to].port, "127.0.0.1"), (char*)d, len);
            T("%d sends %zu to %d%s -> %d", i, len, to, reply ? " (reply)" : "", r);
            CHECK(r == (int32_t)len, "sending a datagram of %zu returned %d", len, r); deliver(to, i, d, len); free(d); ev(reply ? "replies sent" : "datagrams sent");
        } else if (op < 90) {
            size_t cap = x->nq && chance(6) ? 0 : 1 + (chance(50) ? rsize(300) : 66000); char *b = malloc(cap ? cap : 1); bool due = x->nq > 0; struct VitaSocketAddress a = { 1, 2 }; int how = (int)rn(due ? 4 : 2) + (due ? 0 : 2); int32_t r; uint32_t to = due ? (chance(50) ? 5000 : (uint32_t)-1) : (uint32_t)rn(2);
            r = how == 0 ? vt_socket_receive(x->s, b, cap) : how == 1 ? vt_socket_receive_from(x->s, &a, b, cap) : how == 2 ? vt_socket_receive_timed(x->s, b, cap, to) : vt_socket_receive_timed_from(x->s, &a, b, cap, to);
            T("%d receives up to %zu, %zu waiting, call %d -> %d", i, cap, x->nq, how, r);
            if (due) {
                dg_t g = x->q[0]; size_t m = g.n < cap ? g.n : cap;
                CHECK(r == (int32_t)m, "a datagram of %zu bytes received into %zu returned %d", g.n, cap, r); CHECK(!memcmp(b, g.d, m), "a datagram of %zu bytes arrived changed or out of order", g.n);
                if (how & 1) { CHECK(a.port == htons(g.port) && a.addr == htonl(INADDR_LOOPBACK), "the sender is port %u of 127.0.0.1, reported %u of %08x", g.port, ntohs(a.port), ntohl(a.addr)); x->last = a; x->has_last = true; for (int q = 0; q < n; q++) if (us[q].port == g.port) x->last_from = q; ev("sender reported"); }
                free(g.d); x->bytes -= g.n + 800; memmove(x->q, x->q + 1, --x->nq * sizeof(dg_t)); ev(m < g.n ? "datagram cut to the buffer" : "datagram received"); seen(hash_bytes(&g.n, sizeof g.n, cap));
            } else { CHECK(r == 0, "nothing was sent but receiving returned %d", r); ev("timed receive ran out"); }
            free(b);
        } else {
            struct pollfd *h = malloc((size_t)n * sizeof *h); int nd = 0; for (int q = 0; q < n; q++) { h[q] = (struct pollfd){ .fd = (int)us[q].s, .events = POLLIN }; nd += us[q].nq > 0; }
            int32_t r = vt_socket_poll(h, (size_t)n, (uint32_t)rn(3)); CHECK(r == nd, "%d sockets have datagrams, polling reports %d", nd, r); for (int q = 0; q < n; q++) CHECK(((h[q].revents & POLLIN) != 0) == (us[q].nq > 0), "socket %d is reported wrongly", q); free(h); ev("polled");
        }
    }
    for (int i = 0; i < n; i++) { for (size_t q = 0; q < us[i].nq; q++) free(us[i].q[q].d); CHECK(vt_socket_close(us[i].s), "close failed"); }
    /* two hosts on one port: a datagram goes to the address it was sent to, and its sender's address is the one reported */
    if (chance(70)) {
        int h[2]; struct sockaddr_in ha[2]; uint16_t hp = free_port(SOCK_DGRAM); bool ok = true;
        for (int i = 0; i < 2; i++) { h[i] = (int)syscall(SYS_socket, AF_INET, SOCK_DGRAM, 0); ha[i] = (struct sockaddr_in){ .sin_family = AF_INET, .sin_port = htons(hp), .sin_addr = { htonl(0x7f000000u | (uint32_t)(i ? 0x100 + rn(200) : 2 + rn(250))) } }; if (h[i] < 0 || syscall(SYS_bind, h[i], &ha[i], sizeof ha[i])) ok = false; }
        vt_socket_t s = server(VT_SOCKET_TYPE_UDP, 0); struct sockaddr_in sa = { .sin_family = AF_INET, .sin_port = htons(port_of(s)), .sin_addr = { htonl(INADDR_LOOPBACK) } };
        for (int k = 0; ok && k < 6; k++) {
            int w = (int)rn(2); char z[32], b[64]; inet_ntop(AF_INET, &ha[w].sin_addr, z, sizeof z); char d[16]; rbytes((uint8_t*)d, sizeof d); bool conn = chance(30); vt_socket_t c = conn ? vt_socket_startup_client(VT_SOCKET_TYPE_UDP, vt_socket_make_address((int16_t)hp, z)) : s;
            int32_t r = conn ? vt_socket_send(c, d, sizeof d) : vt_socket_send_to(s, vt_socket_make_address((int16_t)hp, z), d, sizeof d); T("to %s port %u%s -> %d", z, hp, conn ? " (connected)" : "", r);
            CHECK(r == (int32_t)sizeof d, "sending to %s returned %d", z, r); CHECK(recv(h[w], b, sizeof b, MSG_DONTWAIT) == (ssize_t)sizeof d && !memcmp(b, d, sizeof d), "the datagram sent to %s did not arrive there", z); CHECK(recv(h[!w], b, sizeof b, MSG_DONTWAIT) < 0, "the datagram sent to %s arrived at another address", z);
            if (conn) CHECK(vt_socket_close(c), "close failed");
            if (sendto(h[w], d, sizeof d, 0, (struct sockaddr*)&sa, sizeof sa) == (ssize_t)sizeof d) {
                struct VitaSocketAddress a = { 1, 2 }; r = chance(50) ? vt_socket_receive_from(s, &a, b, sizeof b) : vt_socket_receive_timed_from(s, &a, b, sizeof b, 5000);
                CHECK(r == (int32_t)sizeof d && a.addr == ha[w].sin_addr.s_addr && a.port == ha[w].sin_port, "a datagram from %s port %u returned %d and is reported from %08x port %u", z, hp, r, ntohl(a.addr), ntohs(a.port));
            }
            ev("two hosts told apart");
        }
        for (int i = 0; i < 2; i++) if (h[i] >= 0) close(h[i]);
        CHECK(vt_socket_close(s), "close failed");
    }
    if (chance(25)) { /* a datagram that comes while polling or receiving waits, however long the wait may be */
        static const uint32_t tos[] = { 20000, (uint32_t)-1, 32768, 65536, 65537, 131072, 1u << 20, 1u << 24, 0x7fffffff, 40000 }; uint32_t to = tos[rn(10)];
        vt_socket_t s = server(VT_SOCKET_TYPE_UDP, (int)rn(50)), c = vt_socket_startup_client(VT_SOCKET_TYPE_UDP, addr_of(port_of(s))); CHECK(c >= 0, "no datagram client");
        th_t l = { .s = c, .n = 1 + rn(60), .id = idx + 77, .delay = (double)rn(20) }; pthread_t p; if (pthread_create(&p, NULL, late, &l)) exit(3);
        char b[100]; double t0 = now_ms(); int32_t r; int how = (int)rn(5); struct VitaSocketAddress a;
        if (how == 0) { struct pollfd h = { .fd = (int)s, .events = POLLIN }; r = vt_socket_poll(&h, 1, to); CHECK(r == 1 && (h.revents & POLLIN), "polling for %u ms while a datagram comes after %g ms returned %d", to, l.delay, r); r = vt_socket_receive(s, b, sizeof b); }
        else r = how == 1 ? vt_socket_receive_timed(s, b, sizeof b, to) : how == 2 ? vt_socket_receive_timed_from(s, &a, b, sizeof b, to) : how == 3 ? vt_socket_receive(s, b, sizeof b) : vt_socket_receive_from(s, &a, b, sizeof b);
        double dt = now_ms() - t0; pthread_join(p, NULL); T("datagram after %g ms, wait of up to %u ms -> %d after %.1f ms", l.delay, to, r, dt);
        CHECK(l.ok && r == (int32_t)l.n, "a datagram of %zu bytes came after %g ms while receive waited up to %u ms, it returned %d", l.n, l.delay, to, r); for (int32_t i = 0; i < r; i++) if ((uint8_t)b[i] != stream_byte(l.id, (size_t)i)) FAIL("wrong data");
        CHECK(dt < 15000, "a datagram that arrived after %g ms was delivered after %.0f ms", l.delay, dt); ev("datagram delivered while waiting");
        CHECK(vt_socket_close(c) && vt_socket_close(s), "close failed");
    }
    if (chance(10)) CHECK(vt_socket_quit() && vt_socket_init(), "ending and beginning the use of sockets failed");
    ev("datagram histories"); (void)idx;
}

/* ============================================================ failures ======================================= */
static void run_neterr(uint64_t idx) {
    int f0 = open_fds(); char b[32]; struct VitaSocketAddress a = { 0, 0 }; enum VitaSocketType ty = chance(50) ? VT_SOCKET_TYPE_TCP : VT_SOCKET_TYPE_UDP; int kind = (int)(idx % 15);
    static const int errs[] = { EACCES, ENOBUFS, EMFILE, EINVAL, EADDRINUSE, ENOMEM, ECONNREFUSED, ETIMEDOUT, ENETUNREACH }; f_errno = errs[rn(9)]; f_hit = false;
    uint16_t fp = free_port(ty);
#define SRV(call, want) { f_call = call; T("server, %s fails", call); vt_socket_t s = vt_socket_startup_server(ty, fp, 3); f_call = NULL; if (f_hit) { CHECK(s == (want), "starting a server while " call " fails returned %lld", (long long)s); ev("failing " call " reported"); } else if (s >= 0) CHECK(vt_socket_close(s), "close failed"); }
#define CLI(call, want) { f_call = call; T("client, %s fails", call); vt_socket_t s = vt_socket_startup_client(ty, addr_of(fp)); f_call = NULL; CHECK(f_hit && s == (want), "starting a client while " call " fails returned %lld", (long long)s); ev("failing " call " reported"); }
    switch (kind) {
        case 0: SRV("socket", VT_SOCKET_STATUS_INVALID) break;
        case 1: SRV("setsockopt", VT_SOCKET_STATUS_ERROR_OPTIONS) break;
        case 2: SRV("bind", VT_SOCKET_STATUS_ERROR_BIND) break;
        case 3: SRV("listen", VT_SOCKET_STATUS_ERROR_LISTEN) CHECK(f_hit == (ty == VT_SOCKET_TYPE_TCP), "only stream servers listen"); break;
        case 4: CLI("socket", VT_SOCKET_STATUS_INVALID) break;
        case 5: CLI("connect", VT_SOCKET_STATUS_ERROR_CONNECT) break;
        case 6: { /* really occupied port; nobody there */
            int h = (int)syscall(SYS_socket, AF_INET, ty, 0); struct sockaddr_in sa = { .sin_family = AF_INET, .sin_port = htons(fp) }; if (syscall(SYS_bind, h, &sa, sizeof sa)) { close(h); break; } if (ty == VT_SOCKET_TYPE_TCP) syscall(SYS_listen, h, 1);
            vt_socket_t s = vt_socket_startup_server(ty, fp, 3); T("server on an occupied port -> %lld", (long long)s); CHECK(s == VT_SOCKET_STATUS_ERROR_BIND, "a server on an occupied port: %lld", (long long)s); close(h); ev("occupied port reported");
            { vt_socket_t one = server(VT_SOCKET_TYPE_TCP, 2), two = vt_socket_startup_server(VT_SOCKET_TYPE_TCP, port_of(one), 2); CHECK(two == VT_SOCKET_STATUS_ERROR_BIND, "a second server on the port of another: %lld", (long long)two); CHECK(vt_socket_close(one), "close failed"); ev("port of another server reported"); }
            s = vt_socket_startup_client(VT_SOCKET_TYPE_TCP, addr_of(fp)); T("client to a port without server -> %lld", (long long)s); CHECK(s == VT_SOCKET_STATUS_ERROR_CONNECT, "a client to a port without server: %lld", (long long)s); ev("refused connection reported"); break; }
        case 7: { /* unusable descriptor */
            vt_socket_t s = chance(50) ? 900 + (vt_socket_t)rn(100) : -1; T("unusable socket %lld", (long long)s);
            CHECK(!vt_socket_close(s), "closing socket %lld succeeded", (long long)s); CHECK(vt_socket_accept_client(s) == VT_SOCKET_STATUS_INVALID, "accepting from socket %lld", (long long)s);
            CHECK(vt_socket_send(s, "x", 1) == VT_SOCKET_STATUS_ERROR_SEND && vt_socket_send_to(s, addr_of(fp), "x", 1) == VT_SOCKET_STATUS_ERROR_SEND, "sending to socket %lld", (long long)s);
            CHECK(vt_socket_receive(s, b, 8) == VT_SOCKET_STATUS_ERROR_RECEIVE && vt_socket_receive_from(s, &a, b, 8) == VT_SOCKET_STATUS_ERROR_RECEIVE, "receiving from socket %lld", (long long)s);
            if (s >= 0) { int32_t r = vt_socket_receive_timed(s, b, 8, (uint32_t)rn(3)), q = vt_socket_receive_timed_from(s, &a, b, 8, (uint32_t)rn(3)); CHECK(r < 0 && q < 0, "timed receiving from socket %lld: %d and %d", (long long)s, r, q); }
            ev("unusable socket reported"); break; }
        case 8: { /* wrong kind of socket */
            vt_socket_t s = server(VT_SOCKET_TYPE_TCP, 1), d = server(VT_SOCKET_TYPE_UDP, 1); T("wrong kind of socket");
            CHECK(vt_socket_accept_client(d) == VT_SOCKET_STATUS_INVALID, "a datagram socket accepted a connection"); CHECK(vt_socket_send(s, "x", 1) == VT_SOCKET_STATUS_ERROR_SEND, "a listening socket sent"); CHECK(vt_socket_receive(s, b, 8) == VT_SOCKET_STATUS_ERROR_RECEIVE, "a listening socket received"); CHECK(vt_socket_send(d, "x", 1) == VT_SOCKET_STATUS_ERROR_SEND, "an unconnected socket sent");
            char *big = calloc(1, 65508 + 10); CHECK(vt_socket_send_to(d, addr_of(fp), big, 65508 + rn(10)) == VT_SOCKET_STATUS_ERROR_SEND, "an oversized datagram was sent"); free(big);
            CHECK(vt_socket_close(s) && vt_socket_close(d), "close failed"); CHECK(!vt_socket_close(s), "closed twice"); ev("wrong kind of socket reported"); break; }
        case 9: { /* no descriptor left */
            vt_socket_t ls = server(VT_SOCKET_TYPE_TCP, 2), cl = vt_socket_startup_client(VT_SOCKET_TYPE_TCP, addr_of(port_of(ls))); CHECK(cl >= 0, "no connection");
            struct rlimit old, lim; getrlimit(RLIMIT_NOFILE, &old); lim = old; int top = dup(0); close(top); lim.rlim_cur = (rlim_t)top; bool holes = false; for (int i = 0; i < top; i++) if (fcntl(i, F_GETFD) < 0) holes = true;
            if (!holes && !setrlimit(RLIMIT_NOFILE, &lim)) { vt_socket_t x = vt_socket_startup_server(ty, fp, 1), y = vt_socket_startup_client(VT_SOCKET_TYPE_TCP, vt_socket_make_address((int16_t)port_of(ls), "127.0.0.1")), z = vt_socket_accept_client(ls); setrlimit(RLIMIT_NOFILE, &old); T("no descriptor left -> %lld %lld %lld", (long long)x, (long long)y, (long long)z);
                CHECK(x == VT_SOCKET_STATUS_INVALID && y == VT_SOCKET_STATUS_INVALID && z == VT_SOCKET_STATUS_INVALID, "without descriptors: server %lld, client %lld, accept %lld", (long long)x, (long long)y, (long long)z); ev("exhausted descriptors reported"); }
            vt_socket_t ac = vt_socket_accept_client(ls); CHECK(ac >= 0, "the connection waiting during exhaustion was lost"); CHECK(vt_socket_close(ac) && vt_socket_close(cl) && vt_socket_close(ls), "close failed"); break; }
        case 10: { /* waiting itself fails: that is an error, not a timeout */
            vt_socket_t s = server(VT_SOCKET_TYPE_UDP, 1); struct pollfd p = { .fd = (int)s, .events = POLLIN }; static const int pe[] = { EFAULT, EINVAL, ENOMEM }; f_errno = pe[rn(3)]; int how = (int)rn(3); f_call = "poll";
            int32_t r = how == 0 ? vt_socket_poll(&p, 1, (uint32_t)rn(5)) : how == 1 ? vt_socket_receive_timed(s, b, 8, (uint32_t)rn(5)) : vt_socket_receive_timed_from(s, &a, b, 8, (uint32_t)rn(5)); f_call = NULL; T("waiting fails, call %d -> %d", how, r);
            if (f_hit) { CHECK(r == VT_SOCKET_STATUS_ERROR_POLL, "waiting failed but call %d returned %d", how, r); ev("failing wait reported"); }
            CHECK(vt_socket_close(s), "close failed"); break; }
        case 12: { /* the connection was reset: that is an error, not a timeout and not the end of the data */
            vt_socket_t ls = server(VT_SOCKET_TYPE_TCP, 2), cl = vt_socket_startup_client(VT_SOCKET_TYPE_TCP, addr_of(port_of(ls))), ac = vt_socket_accept_client(ls); CHECK(cl >= 0 && ac >= 0, "no connection"); bool sd = rn(2); vt_socket_t left = sd ? cl : ac, gone = sd ? ac : cl;
            struct linger lg = { 1, 0 }; setsockopt((int)gone, SOL_SOCKET, SO_LINGER, &lg, sizeof lg); CHECK(vt_socket_close(gone), "close failed");
            struct pollfd p = { .fd = (int)left, .events = POLLIN };
            if (poll(&p, 1, 2000) == 1 && (p.revents & POLLERR)) { int how = (int)rn(4); uint32_t to = chance(50) ? 500 : (uint32_t)-1; int32_t r = how == 0 ? vt_socket_receive(left, b, 8) : how == 1 ? vt_socket_receive_from(left, &a, b, 8) : how == 2 ? vt_socket_receive_timed(left, b, 8, to) : vt_socket_receive_timed_from(left, &a, b, 8, to); T("connection reset, call %d -> %d", how, r);
                CHECK(r == VT_SOCKET_STATUS_ERROR_RECEIVE, "the connection was reset and call %d returned %d", how, r); ev("reset connection reported"); }
            CHECK(vt_socket_close(left) && vt_socket_close(ls), "close failed"); break; }
        case 13: { /* a stream socket that never was connected */
            vt_socket_t s = (vt_socket_t)syscall(SYS_socket, AF_INET, SOCK_STREAM, 0); int how = (int)rn(4); int32_t r = how == 0 ? vt_socket_receive(s, b, 8) : how == 1 ? vt_socket_receive_from(s, &a, b, 8) : how == 2 ? vt_socket_receive_timed(s, b, 8, 300) : vt_socket_receive_timed_from(s, &a, b, 8, 300); T("unconnected socket, call %d -> %d", how, r);
            CHECK(r == VT_SOCKET_STATUS_ERROR_RECEIVE, "receiving on an unconnected socket, call %d returned %d", how, r); CHECK(vt_socket_send(s, "x", 1) == VT_SOCKET_STATUS_ERROR_SEND, "an unconnected socket sent"); CHECK(vt_socket_close(s), "close failed"); ev("unconnected socket reported"); break; }
        case 14: both_done(idx); break;
        default: { /* an error waiting on a datagram socket is an error, not a timeout */
            vt_socket_t s = vt_socket_startup_client(VT_SOCKET_TYPE_UDP, vt_socket_make_address((int16_t)free_port(SOCK_DGRAM), "127.0.0.1")); CHECK(s >= 0, "no client"); CHECK(vt_socket_send(s, "hello", 5) == 5, "send failed");
            struct pollfd p = { .fd = (int)s, .events = POLLIN }; if (poll(&p, 1, 2000) == 1 && (p.revents & POLLERR)) { bool fr = chance(50); int32_t r = fr ? vt_socket_receive_timed_from(s, &a, b, 8, chance(50) ? 500 : (uint32_t)-1) : vt_socket_receive_timed(s, b, 8, chance(50) ? 500 : (uint32_t)-1); T("pending error -> %d", r); CHECK(r == VT_SOCKET_STATUS_ERROR_RECEIVE, "a pending error was reported as %d", r); ev("pending error reported"); }
            CHECK(vt_socket_close(s), "close failed"); break; }
    }
    CHECK(open_fds() == f0, "%d descriptors are open after the failure, %d before", open_fds(), f0);
    seen(hash_bytes(&kind, sizeof kind, (uint64_t)f_errno * 4 + (uint64_t)ty));
}

/* ============================================================ long silence =================================== */
/* whatever waits without a limit goes on waiting for as long as it takes */
typedef struct { int how; vt_socket_t s; int32_t r; vt_socket_t got; char b[64]; size_t n; struct VitaSocketAddress a; bool done; } wt_t;
static void *waiter(void *p) {
    wt_t *w = p;
    switch (w->how) {
        case 0: case 1: w->r = vt_socket_receive(w->s, w->b, sizeof w->b); break;
        case 2: case 3: w->r = vt_socket_receive_from(w->s, &w->a, w->b, sizeof w->b); break;
        case 4: w->got = vt_socket_accept_client(w->s); break;
        case 5: w->r = vt_socket_receive_timed(w->s, w->b, sizeof w->b, (uint32_t)-1); break;
        case 6: { char *z = calloc(1, w->n); w->r = 0; for (size_t at = 0; at < w->n; ) { int32_t r = vt_socket_send(w->s, z, w->n - at); if (r <= 0) { w->r = r; break; } at += (size_t)r; w->r += r; } free(z); break; }
    }
    __atomic_store_n(&w->done, true, __ATOMIC_SEQ_CST);
    return NULL;
}
static void run_idle(uint64_t idx) {
    vt_socket_t ls = server(VT_SOCKET_TYPE_TCP, 9), ls2 = server(VT_SOCKET_TYPE_TCP, 2), us0 = server(VT_SOCKET_TYPE_UDP, 0), cl[4], ac[4];
    for (int i = 0; i < 4; i++) { cl[i] = vt_socket_startup_client(VT_SOCKET_TYPE_TCP, addr_of(port_of(ls))); ac[i] = vt_socket_accept_client(ls); CHECK(cl[i] >= 0 && ac[i] >= 0, "no connection"); }
    wt_t w[7] = {0}; w[0].s = cl[0]; w[1].s = ac[1]; w[2].s = us0; w[3].s = ac[2]; w[4].s = ls2; w[5].s = cl[2]; w[6].s = idx % 2 ? cl[3] : ac[3]; w[6].n = 24000000;
    pthread_t th[7]; for (int i = 0; i < 7; i++) { w[i].how = i; if (pthread_create(&th[i], NULL, waiter, &w[i])) exit(3); }
    double ms = 5300 + (double)rn(1500); T("silence of %.0f ms", ms); double t0 = now_ms();
    while (now_ms() - t0 < ms) { struct timespec d = { 0, 20000000 }; nanosleep(&d, NULL); for (int i = 0; i < 7; i++) CHECK(!__atomic_load_n(&w[i].done, __ATOMIC_SEQ_CST), "waiting call %d gave up after %.0f ms of silence and returned %lld", i, now_ms() - t0, (long long)(i == 4 ? w[i].got : w[i].r)); }
    CHECK(vt_socket_send(ac[0], "one", 3) == 3 && vt_socket_send(cl[1], "two", 3) == 3 && vt_socket_send(cl[2], "four", 4) == 4 && vt_socket_send(ac[2], "five", 4) == 4, "sending after a long silence failed");
    vt_socket_t uc = vt_socket_startup_client(VT_SOCKET_TYPE_UDP, addr_of(port_of(us0))), late2 = vt_socket_startup_client(VT_SOCKET_TYPE_TCP, addr_of(port_of(ls2))); CHECK(uc >= 0 && late2 >= 0 && vt_socket_send(uc, "three", 5) == 5, "sending after a long silence failed");
    size_t got = 0; vt_socket_t other = idx % 2 ? ac[3] : cl[3]; char *b = malloc(300000); while (got < w[6].n) { int32_t r = vt_socket_receive(other, b, 300000); CHECK(r > 0, "receiving what a patient sender sends returned %d after %zu bytes", r, got); got += (size_t)r; } free(b);
    for (int i = 0; i < 7; i++) pthread_join(th[i], NULL);
    CHECK(w[0].r == 3 && !memcmp(w[0].b, "one", 3) && w[1].r == 3 && !memcmp(w[1].b, "two", 3), "data after a long silence: %d and %d", w[0].r, w[1].r);
    CHECK(w[2].r == 5 && !memcmp(w[2].b, "three", 5), "a datagram after a long silence: %d", w[2].r); CHECK(w[3].r == 4 && !memcmp(w[3].b, "four", 4) && w[5].r == 4 && !memcmp(w[5].b, "five", 4), "data after a long silence: %d and %d", w[3].r, w[5].r);
    CHECK(w[4].got >= 0, "a connection after a long silence was not accepted: %lld", (long long)w[4].got); CHECK(w[6].r == (int32_t)w[6].n, "a patient sender sent %d of %zu", w[6].r, w[6].n);
    for (int i = 0; i < 4; i++) CHECK(vt_socket_close(cl[i]) && vt_socket_close(ac[i]), "close failed");
    CHECK(vt_socket_close(w[4].got) && vt_socket_close(late2) && vt_socket_close(uc) && vt_socket_close(us0) && vt_socket_close(ls2) && vt_socket_close(ls), "close failed");
    evn("calls that waited through a long silence", 7); seen((uint64_t)ms);
}

const section_t sections[] = {
    { "idle", run_idle, false },
    { "tcp", run_tcp, true },
    { "bulk", run_bulk, true },
    { "udp", run_udp, true },
    { "neterr", run_neterr, true },
    { NULL, NULL, false },
};

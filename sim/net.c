/* In-memory network: stream sockets over which bytes travel in fragments with delays, epoll, event counters.
 * The code under test uses file descriptors; simulated clients of the same process use the ps_net_* calls. */
#include "core.h"
#include <arpa/inet.h>
#include <netinet/in.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include <sys/uio.h>

#define NFDBASE 200000
#define NNFD 8192
#define NCONN 8192
#define SEG 512                 /* segments in flight per direction */

enum { O_NONE, O_SOCK, O_LISTEN, O_CONN, O_EPOLL, O_EVENT, O_PAIR };
struct seg { uint64_t at; uint32_t n; };
struct dir {                    /* one direction of a connection */
    uint8_t *buf; uint32_t cap, head, len;      /* ring buffer of bytes sent and not yet read */
    struct seg s[SEG]; uint32_t sh, sn;
    uint32_t avail;                             /* bytes delivered and not yet read */
    uint64_t last_at;                           /* delivery time of the latest byte */
    uint64_t spent;                             /* long delays so far */
    uint64_t seq;                               /* events: deliveries */
    uint64_t sseq;                              /* events: space became free */
    int full;                                   /* the sender met a full buffer */
    int fin; uint64_t fin_at; int fin_seen;
};
struct conn {
    int used; uint32_t id; uint16_t cport;
    struct dir up, down;                        /* client to server, server to client */
    int rst_by_client, rst_by_server;           /* the connection is gone for the other side */
    int c_closed, s_closed, s_shut_r, accepted;
    uint64_t nsend;                             /* counts send calls, for the random decisions */
};
struct reg { int fd; struct obj *o; uint32_t ev; uint64_t data; uint64_t seen_r, seen_w; int used; };
struct obj {
    int type, refs; int nonblock;
    uint16_t port;
    struct conn *q[256]; uint32_t qh, qn, qmax; uint64_t qat[256]; uint64_t qseq;    /* listener */
    struct conn *c;                             /* connection, server side */
    uint64_t cnt, eseq; int sema;               /* event counter */
    struct reg *r; int nr;                      /* epoll */
    struct obj *peer;                           /* pair */
    uint8_t pb[4096]; uint32_t pn; uint64_t pseq; int peer_closed;
};
static struct obj *F[NNFD]; static int fhi;
static struct conn *N[NCONN]; static int nconn;
static struct obj *listener;
static uint64_t draw;

static uint64_t rnd(uint64_t salt) { return ps_hash3(C->seed_io ^ 0x6e657400ULL, ++draw + ((uint64_t)C->incarnation << 40), salt); }
int net_isfd(int fd) { return fd >= NFDBASE && fd < NFDBASE + NNFD; }
static struct obj *of(int fd) { struct obj *o = net_isfd(fd) ? F[fd - NFDBASE] : 0; if (!o) errno = EBADF; return o; }
static int fd_put(struct obj *o) {
    for (int i = 0; i < NNFD; i++) if (!F[i]) { F[i] = o; o->refs++; if (i >= fhi) fhi = i + 1; return NFDBASE + i; }
    errno = EMFILE; return -1;
}
static struct obj *obj_new(int type) { struct obj *o = calloc(1, sizeof *o); o->type = type; return o; }
static void wake_all(void) { for (int i = 0; i < fhi; i++) if (F[i] && F[i]->type == O_EPOLL) ps_wake((uintptr_t)F[i], 1 << 30); }
static void log_net(uint32_t what, uint64_t a, uint64_t b) {
    ps_trace(0x3000 + what, (a << 32) ^ b);
    if (ps_iotrace()) ps_say("net t%d %lu us: %c conn %lu %lu\n", self->id, (unsigned long)(C->now_ns / 1000), (int)what, (unsigned long)a, (unsigned long)b);
}

/* ---------------- bytes in flight ---------------- */
static void dir_init(struct dir *d, uint64_t h) {
    static const uint32_t caps[] = {1 << 10, 1 << 12, 1 << 16, 1 << 18, 1 << 20, 1 << 20, 1 << 20, 1 << 20};
    memset(d, 0, sizeof *d);
    d->cap = C->net_frag ? caps[h % 8] : 1 << 20;
    d->buf = malloc(d->cap);
}
static void settle(struct dir *d) {     /* what has arrived by now */
    while (d->sn && d->s[d->sh].at <= C->now_ns) { d->avail += d->s[d->sh].n; d->sh = (d->sh + 1) % SEG; d->sn--; d->seq++; }
    if (d->fin && !d->fin_seen && !d->sn && d->fin_at <= C->now_ns) { d->fin_seen = 1; d->seq++; }
}
static uint64_t next_at(struct dir *d) {
    settle(d);
    if (d->sn) return d->s[d->sh].at;
    if (d->fin && !d->fin_seen) return d->fin_at;
    return INF;
}
/* long delays come to at most 2 s per direction of a connection, so that what takes longer is the server's doing */
static uint64_t delay(uint64_t *spent) {
    if (!C->net_delay_us) return 2000;
    uint64_t h = rnd(1);
    if (h % 4 == 0 && *spent < 2000000000ull) { uint64_t t = 1000 + (h >> 8) % ((uint64_t)C->net_delay_us * 1000); *spent += t; C->fired_by_kind[FK_NETDELAY]++; return t; }
    return 1000 + (h >> 8) % 50000;
}
/* takes up to n bytes; the number taken */
static uint32_t dir_put(struct dir *d, const uint8_t *p, size_t n) {
    uint32_t room = d->cap - d->len, t = 0;
    if (n > room) n = room;
    while (t < n && d->sn < SEG) {
        uint32_t m = n - t;
        if (C->net_frag) { uint32_t f = 1 + rnd(2) % C->net_frag; if (f < m && d->sn < SEG - 8) { m = f; C->fired_by_kind[FK_NETFRAG]++; } }
        for (uint32_t i = 0; i < m; i++) d->buf[(d->head + d->len + i) % d->cap] = p[t + i];
        d->len += m; t += m;
        uint64_t at = C->now_ns + delay(&d->spent);
        if (at < d->last_at) at = d->last_at;
        d->last_at = at;
        d->s[(d->sh + d->sn) % SEG] = (struct seg){at, m}; d->sn++;
    }
    C->net_bytes += t;
    return t;
}
static uint32_t dir_get(struct dir *d, uint8_t *p, size_t n) {
    settle(d);
    uint32_t m = n < d->avail ? (uint32_t)n : d->avail;
    for (uint32_t i = 0; i < m; i++) p[i] = d->buf[(d->head + i) % d->cap];
    d->head = (d->head + m) % d->cap; d->len -= m; d->avail -= m;
    if (m && d->full) { d->full = 0; d->sseq++; }
    return m;
}
static void dir_fin(struct dir *d) { if (!d->fin) { d->fin = 1; d->fin_at = C->now_ns + delay(&d->spent); if (d->fin_at < d->last_at) d->fin_at = d->last_at; } }
static void dir_cut(struct dir *d) { settle(d); uint32_t lost = d->len - d->avail; d->len -= lost; d->sn = 0; }
static void conn_wake(struct conn *c) { ps_wake((uintptr_t)c, 1 << 30); wake_all(); }

/* ---------------- readiness ---------------- */
static uint32_t mask(struct obj *o, uint64_t *r, uint64_t *w, uint64_t *next) {
    uint32_t m = 0; *r = *w = 0; *next = INF;
    switch (o->type) {
    case O_LISTEN:
        *r = o->qseq;
        for (uint32_t i = 0; i < o->qn; i++) { uint64_t at = o->qat[(o->qh + i) % 256]; if (at <= C->now_ns) { m |= EPOLLIN; *r = o->qseq; } else if (at < *next) *next = at; }
        { uint64_t arrived = o->qseq - o->qn; for (uint32_t i = 0; i < o->qn; i++) if (o->qat[(o->qh + i) % 256] <= C->now_ns) arrived++; *r = arrived; }
        break;
    case O_CONN: {
        struct conn *c = o->c;
        *next = next_at(&c->up);
        *r = c->up.seq + (c->rst_by_client ? 1000000 : 0); *w = c->down.sseq + (c->rst_by_client ? 1000000 : 0);
        if (c->up.avail) m |= EPOLLIN;
        if (c->up.fin_seen) m |= EPOLLIN | EPOLLRDHUP;
        if (c->s_shut_r) m |= EPOLLIN | EPOLLRDHUP;
        if (c->rst_by_client) m |= EPOLLIN | EPOLLOUT | EPOLLRDHUP | EPOLLERR | EPOLLHUP;
        if (c->up.fin_seen && c->down.fin) m |= EPOLLHUP;
        if (c->down.len < c->down.cap && c->down.sn < SEG) m |= EPOLLOUT;
        break; }
    case O_EVENT: *r = o->eseq; if (o->cnt) m |= EPOLLIN; m |= EPOLLOUT; break;
    case O_PAIR: *r = o->pseq; if (o->pn || o->peer_closed) m |= EPOLLIN; m |= EPOLLOUT; break;
    }
    return m;
}
EXPORT int epoll_create1(int fl) {
    REAL(int, epoll_create1, int);
    if (!ON()) return r_epoll_create1(fl);
    return fd_put(obj_new(O_EPOLL));
}
EXPORT int epoll_create(int n) { (void)n; return epoll_create1(0); }
EXPORT int epoll_ctl(int ep, int op, int fd, struct epoll_event *ev) {
    REAL(int, epoll_ctl, int, int, int, struct epoll_event *);
    if (!ON()) return r_epoll_ctl(ep, op, fd, ev);
    struct obj *e = of(ep), *o = of(fd);
    if (!e || !o) { if (e) ps_fail(EX_SIMERR, "epoll_ctl with fd %d", fd); return -1; }
    struct reg *x = 0;
    for (int i = 0; i < e->nr; i++) if (e->r[i].used && e->r[i].fd == fd && e->r[i].o == o) x = &e->r[i];
    if (op == EPOLL_CTL_ADD) {
        if (x) { errno = EEXIST; return -1; }
        for (int i = 0; i < e->nr && !x; i++) if (!e->r[i].used) x = &e->r[i];
        if (!x) { e->r = realloc(e->r, (e->nr + 1) * sizeof *e->r); x = &e->r[e->nr++]; }
        *x = (struct reg){fd, o, ev->events, ev->data.u64, 0, 0, 1};
        x->seen_r = x->seen_w = UINT64_MAX;
    } else if (!x) { errno = ENOENT; return -1; }
    else if (op == EPOLL_CTL_DEL) x->used = 0;
    else { x->ev = ev->events; x->data = ev->data.u64; x->seen_r = x->seen_w = UINT64_MAX; }
    ps_wake((uintptr_t)e, 1 << 30);
    ps_pt(CLS_NET);
    return 0;
}
EXPORT int epoll_wait(int ep, struct epoll_event *out, int max, int timeout) {
    REAL(int, epoll_wait, int, struct epoll_event *, int, int);
    if (!ON()) return r_epoll_wait(ep, out, max, timeout);
    struct obj *e = of(ep); if (!e) return -1;
    ps_pt(CLS_NET);
    uint64_t dl = timeout < 0 ? INF : C->now_ns + (uint64_t)timeout * 1000000ULL;
    for (;;) {
        int n = 0; uint64_t next = INF;
        int start = e->nr ? (int)(rnd(3) % e->nr) : 0;
        for (int j = 0; j < e->nr && n < max; j++) {
            struct reg *x = &e->r[(start + j) % e->nr];
            if (!x->used) continue;
            uint64_t r, w, nx; uint32_t m = mask(x->o, &r, &w, &nx);
            if (nx < next) next = nx;
            int fresh = r != x->seen_r || w != x->seen_w;
            if (x->seen_r == UINT64_MAX && !(m & (x->ev | EPOLLERR | EPOLLHUP))) { x->seen_r = r; x->seen_w = w; fresh = 0; }
            if (x->ev & EPOLLET) { if (!fresh) continue; }
            m &= x->ev | EPOLLERR | EPOLLHUP;
            x->seen_r = r; x->seen_w = w;
            if (!m) continue;
            out[n].events = m; out[n].data.u64 = x->data; n++;
        }
        if (n) { log_net('e', (uint64_t)n, out[0].data.u64); return n; }
        if (timeout == 0 || C->now_ns >= dl) return 0;
        ps_block((uintptr_t)e, next < dl ? next : dl);
    }
}
EXPORT int epoll_pwait(int ep, struct epoll_event *out, int max, int timeout, const sigset_t *s) { (void)s; return epoll_wait(ep, out, max, timeout); }
EXPORT int eventfd(unsigned v, int fl) {
    REAL(int, eventfd, unsigned, int);
    if (!ON()) return r_eventfd(v, fl);
    struct obj *o = obj_new(O_EVENT); o->cnt = v; o->eseq = v ? 1 : 0; o->nonblock = !!(fl & EFD_NONBLOCK); o->sema = !!(fl & EFD_SEMAPHORE);
    return fd_put(o);
}

/* ---------------- sockets of the code under test ---------------- */
EXPORT int socket(int dom, int type, int proto) {
    REAL(int, socket, int, int, int);
    if (!ON()) return r_socket(dom, type, proto);
    struct obj *o = obj_new(O_SOCK); o->nonblock = !!(type & SOCK_NONBLOCK);
    return fd_put(o);
}
EXPORT int socketpair(int dom, int type, int proto, int sv[2]) {
    REAL(int, socketpair, int, int, int, int *);
    if (!ON()) return r_socketpair(dom, type, proto, sv);
    struct obj *a = obj_new(O_PAIR), *b = obj_new(O_PAIR);
    a->peer = b; b->peer = a; a->nonblock = b->nonblock = !!(type & SOCK_NONBLOCK);
    sv[0] = fd_put(a); sv[1] = fd_put(b);
    return 0;
}
EXPORT int bind(int fd, const struct sockaddr *a, socklen_t l) {
    REAL(int, bind, int, const struct sockaddr *, socklen_t);
    if (!ON() || !net_isfd(fd)) return r_bind(fd, a, l);
    struct obj *o = of(fd); if (!o) return -1;
    if (a->sa_family == AF_INET) o->port = ntohs(((const struct sockaddr_in *)a)->sin_port);
    else o->port = ntohs(((const struct sockaddr_in6 *)a)->sin6_port);
    if (!o->port) o->port = 40000;
    return 0;
}
EXPORT int listen(int fd, int n) {
    REAL(int, listen, int, int);
    if (!ON() || !net_isfd(fd)) return r_listen(fd, n);
    struct obj *o = of(fd); if (!o) return -1;
    o->type = O_LISTEN; o->qmax = n < 1 ? 1 : n > 250 ? 250 : (uint32_t)n; listener = o;
    log_net('l', o->port, 0);
    return 0;
}
EXPORT int setsockopt(int fd, int lv, int nm, const void *v, socklen_t l) {
    REAL(int, setsockopt, int, int, int, const void *, socklen_t);
    if (!ON() || !net_isfd(fd)) return r_setsockopt(fd, lv, nm, v, l);
    return of(fd) ? 0 : -1;
}
EXPORT int getsockopt(int fd, int lv, int nm, void *v, socklen_t *l) {
    REAL(int, getsockopt, int, int, int, void *, socklen_t *);
    if (!ON() || !net_isfd(fd)) return r_getsockopt(fd, lv, nm, v, l);
    struct obj *o = of(fd); if (!o) return -1;
    if (v && l && *l >= 4) { int e = 0; if (nm == SO_ERROR && o->type == O_CONN && o->c->rst_by_client) e = ECONNRESET; memcpy(v, &e, 4); *l = 4; }
    return 0;
}
static void addr(struct sockaddr *a, socklen_t *l, uint16_t port) {
    struct sockaddr_in s; memset(&s, 0, sizeof s); s.sin_family = AF_INET; s.sin_port = htons(port); s.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    if (a && l) { memcpy(a, &s, *l < sizeof s ? *l : sizeof s); *l = sizeof s; }
}
EXPORT int getsockname(int fd, struct sockaddr *a, socklen_t *l) {
    REAL(int, getsockname, int, struct sockaddr *, socklen_t *);
    if (!ON() || !net_isfd(fd)) return r_getsockname(fd, a, l);
    struct obj *o = of(fd); if (!o) return -1;
    addr(a, l, o->type == O_CONN ? listener->port : o->port); return 0;
}
EXPORT int getpeername(int fd, struct sockaddr *a, socklen_t *l) {
    REAL(int, getpeername, int, struct sockaddr *, socklen_t *);
    if (!ON() || !net_isfd(fd)) return r_getpeername(fd, a, l);
    struct obj *o = of(fd); if (!o) return -1;
    if (o->type != O_CONN || o->c->rst_by_client) { errno = ENOTCONN; return -1; }
    addr(a, l, o->c->cport); return 0;
}
EXPORT int accept4(int fd, struct sockaddr *a, socklen_t *l, int fl) {
    REAL(int, accept4, int, struct sockaddr *, socklen_t *, int);
    if (!ON() || !net_isfd(fd)) return r_accept4(fd, a, l, fl);
    struct obj *o = of(fd); if (!o) return -1;
    ps_pt(CLS_NET);
    for (;;) {
        if (o->type != O_LISTEN) { errno = EINVAL; return -1; }
        uint64_t next = INF;
        if (o->qn) { next = o->qat[o->qh]; if (next <= C->now_ns) break; }
        if (o->nonblock) { errno = EAGAIN; return -1; }
        ps_block((uintptr_t)o, next);
    }
    for (uint32_t i = 0; i < C->nfault; i++) {
        struct ps_fault *f = &C->fault[i];
        if (f->kind != FK_NETACCEPT || (f->phase != 0xffffffffu && f->phase != C->phase) || (f->max && f->count >= f->max)) continue;
        if (rnd(4) % 1000000 >= f->ppm) continue;
        f->count++; C->fired_by_kind[FK_NETACCEPT]++;
        static const int es[] = {EMFILE, ECONNABORTED, ENFILE, ENOBUFS};
        int e = es[f->arg % 4];
        log_net('x', 0, (uint64_t)e);
        if (e == ECONNABORTED) { struct conn *c = o->q[o->qh]; o->qh = (o->qh + 1) % 256; o->qn--; c->rst_by_server = 1; conn_wake(c); }
        errno = e; return -1;
    }
    struct conn *c = o->q[o->qh]; o->qh = (o->qh + 1) % 256; o->qn--;
    struct obj *s = obj_new(O_CONN); s->c = c; s->nonblock = !!(fl & SOCK_NONBLOCK); c->accepted = 1;
    addr(a, l, c->cport);
    log_net('a', c->id, 0);
    return fd_put(s);
}
EXPORT int accept(int fd, struct sockaddr *a, socklen_t *l) { return accept4(fd, a, l, 0); }
static ssize_t s_read(struct obj *o, void *b, size_t n, int peek) {
    ps_pt(CLS_NET);
    if (o->type == O_EVENT) {
        while (!o->cnt) { if (o->nonblock) { errno = EAGAIN; return -1; } ps_block((uintptr_t)o, INF); }
        uint64_t v = o->sema ? 1 : o->cnt; o->cnt -= v; memcpy(b, &v, 8); return 8;
    }
    if (o->type == O_PAIR) {
        while (!o->pn) { if (o->peer_closed) return 0; if (o->nonblock) { errno = EAGAIN; return -1; } ps_block((uintptr_t)o, INF); }
        size_t m = n < o->pn ? n : o->pn; memcpy(b, o->pb, m); memmove(o->pb, o->pb + m, o->pn - m); o->pn -= m; return (ssize_t)m;
    }
    if (o->type != O_CONN) { errno = ENOTCONN; return -1; }
    struct conn *c = o->c;
    if (peek) ps_fail(EX_SIMERR, "recv with MSG_PEEK");
    for (;;) {
        uint32_t m = dir_get(&c->up, b, n);
        if (m) { ps_wake((uintptr_t)c, 1 << 30); log_net('r', c->id, m); return m; }
        if (c->rst_by_client) { if (c->rst_by_client == 2) return 0; c->rst_by_client = 2; errno = ECONNRESET; return -1; }
        if (c->up.fin_seen || c->s_shut_r || !n) return 0;
        if (o->nonblock) { errno = EAGAIN; return -1; }
        ps_block((uintptr_t)c, next_at(&c->up));
    }
}
static ssize_t s_write(struct obj *o, const void *b, size_t n) {
    ps_pt(CLS_NET);
    if (o->type == O_EVENT) { uint64_t v; memcpy(&v, b, 8); o->cnt += v; o->eseq++; ps_wake((uintptr_t)o, 1 << 30); wake_all(); return 8; }
    if (o->type == O_PAIR) {
        struct obj *p = o->peer; if (o->peer_closed) { errno = EPIPE; return -1; }
        size_t m = sizeof p->pb - p->pn; if (n < m) m = n; if (!m) { errno = EAGAIN; return -1; }
        memcpy(p->pb + p->pn, b, m); p->pn += m; p->pseq++; ps_wake((uintptr_t)p, 1 << 30); wake_all(); return (ssize_t)m;
    }
    if (o->type != O_CONN) { errno = ENOTCONN; return -1; }
    struct conn *c = o->c;
    for (;;) {
        if (c->rst_by_client) { if (c->rst_by_client == 1) { c->rst_by_client = 2; errno = ECONNRESET; } else errno = EPIPE; return -1; }
        if (c->down.fin) { errno = EPIPE; return -1; }
        if (c->c_closed) { c->rst_by_client = 2; return (ssize_t)n; }      /* the first write after the peer closed is swallowed, then it is reset */
        if (!n) return 0;
        uint32_t m = dir_put(&c->down, b, n);
        if (m) { if (m < n) { c->down.full = 1; C->fired_by_kind[FK_NETSHORTW]++; } ps_wake((uintptr_t)c, 1 << 30); log_net('w', c->id, m); return m; }
        c->down.full = 1;
        if (o->nonblock) { errno = EAGAIN; return -1; }
        ps_block((uintptr_t)c, INF);
    }
}
ssize_t net_read(int fd, void *b, size_t n) { struct obj *o = of(fd); return o ? s_read(o, b, n, 0) : -1; }
ssize_t net_write(int fd, const void *b, size_t n) { struct obj *o = of(fd); return o ? s_write(o, b, n) : -1; }
EXPORT ssize_t recv(int fd, void *b, size_t n, int fl) {
    REAL(ssize_t, recv, int, void *, size_t, int);
    if (!ON() || !net_isfd(fd)) return r_recv(fd, b, n, fl);
    struct obj *o = of(fd); return o ? s_read(o, b, n, fl & MSG_PEEK) : -1;
}
EXPORT ssize_t send(int fd, const void *b, size_t n, int fl) {
    REAL(ssize_t, send, int, const void *, size_t, int);
    if (!ON() || !net_isfd(fd)) return r_send(fd, b, n, fl);
    return net_write(fd, b, n);
}
EXPORT ssize_t recvfrom(int fd, void *b, size_t n, int fl, struct sockaddr *a, socklen_t *l) {
    REAL(ssize_t, recvfrom, int, void *, size_t, int, struct sockaddr *, socklen_t *);
    if (!ON() || !net_isfd(fd)) return r_recvfrom(fd, b, n, fl, a, l);
    return recv(fd, b, n, fl);
}
EXPORT ssize_t sendto(int fd, const void *b, size_t n, int fl, const struct sockaddr *a, socklen_t l) {
    REAL(ssize_t, sendto, int, const void *, size_t, int, const struct sockaddr *, socklen_t);
    if (!ON() || !net_isfd(fd)) return r_sendto(fd, b, n, fl, a, l);
    return net_write(fd, b, n);
}
EXPORT ssize_t sendmsg(int fd, const struct msghdr *m, int fl) {
    REAL(ssize_t, sendmsg, int, const struct msghdr *, int);
    if (!ON() || !net_isfd(fd)) return r_sendmsg(fd, m, fl);
    return writev(fd, m->msg_iov, (int)m->msg_iovlen);
}
EXPORT ssize_t recvmsg(int fd, struct msghdr *m, int fl) {
    REAL(ssize_t, recvmsg, int, struct msghdr *, int);
    if (!ON() || !net_isfd(fd)) return r_recvmsg(fd, m, fl);
    return readv(fd, m->msg_iov, (int)m->msg_iovlen);
}
EXPORT int shutdown(int fd, int how) {
    REAL(int, shutdown, int, int);
    if (!ON() || !net_isfd(fd)) return r_shutdown(fd, how);
    struct obj *o = of(fd); if (!o) return -1;
    ps_pt(CLS_NET);
    if (o->type != O_CONN) { errno = ENOTCONN; return -1; }
    if (how != SHUT_RD) dir_fin(&o->c->down);
    if (how != SHUT_WR) o->c->s_shut_r = 1;
    conn_wake(o->c);
    return 0;
}
int net_close(int fd) {
    struct obj *o = of(fd); if (!o) return -1;
    F[fd - NFDBASE] = 0;
    for (int i = 0; i < fhi; i++) if (F[i] && F[i]->type == O_EPOLL && o->refs == 1) for (int j = 0; j < F[i]->nr; j++) if (F[i]->r[j].used && F[i]->r[j].o == o) F[i]->r[j].used = 0;
    if (--o->refs) return 0;
    if (o->type == O_CONN) {
        struct conn *c = o->c; c->s_closed = 1;
        settle(&c->up);
        if (c->up.len) c->rst_by_server = 1;        /* unread data: reset */
        dir_fin(&c->down);
        log_net('c', c->id, c->up.len);
        conn_wake(c);
    }
    if (o->type == O_LISTEN && listener == o) { listener = 0; for (uint32_t i = 0; i < o->qn; i++) { o->q[(o->qh + i) % 256]->rst_by_server = 1; conn_wake(o->q[(o->qh + i) % 256]); } }
    if (o->type == O_PAIR) { o->peer->peer_closed = 1; o->peer->pseq++; ps_wake((uintptr_t)o->peer, 1 << 30); wake_all(); return 0; }
    if (o->type == O_EPOLL) free(o->r);
    free(o);
    return 0;
}
int net_fcntl(int fd, int cmd, long arg) {
    struct obj *o = of(fd); if (!o) return -1;
    switch (cmd) {
    case F_GETFD: return FD_CLOEXEC;
    case F_SETFD: return 0;
    case F_GETFL: return O_RDWR | (o->nonblock ? O_NONBLOCK : 0);
    case F_SETFL: o->nonblock = !!(arg & O_NONBLOCK); return 0;
    case F_DUPFD: case F_DUPFD_CLOEXEC: return fd_put(o);
    }
    ps_fail(EX_SIMERR, "fcntl %d on a socket", cmd);
}
int net_ioctl(int fd, unsigned long req, void *arg) {
    struct obj *o = of(fd); if (!o) return -1;
    if (req == FIONBIO) { o->nonblock = *(int *)arg != 0; return 0; }
    ps_fail(EX_SIMERR, "ioctl %lx on a socket", req);
}

/* ---------------- simulated clients ---------------- */
EXPORT int ps_net_connect(void) {
    ps_pt(CLS_NET);
    if (!listener || listener->qn >= listener->qmax) return -ECONNREFUSED;
    if (nconn >= NCONN) ps_fail(EX_SIMERR, "too many connections");
    struct conn *c = calloc(1, sizeof *c);
    c->used = 1; c->id = (uint32_t)nconn; c->cport = (uint16_t)(50000 + nconn);
    uint64_t h = rnd(5); dir_init(&c->up, h); dir_init(&c->down, h >> 8);
    N[nconn] = c;
    struct obj *o = listener;
    uint32_t i = (o->qh + o->qn) % 256; static uint64_t spent; uint64_t at = C->now_ns + delay(&spent);
    if (o->qn) { uint64_t p = o->qat[(o->qh + o->qn - 1) % 256]; if (at < p) at = p; }
    o->q[i] = c; o->qat[i] = at; o->qn++; o->qseq++;
    C->net_conns++;
    log_net('C', c->id, 0);
    ps_wake((uintptr_t)o, 1 << 30); wake_all();
    return nconn++;
}
static struct conn *cc(int i) { if (i < 0 || i >= nconn) ps_fail(EX_SIMERR, "bad connection"); return N[i]; }
/* the number of bytes sent (all of them, unless the time is over: 0 or more), or -errno */
EXPORT long ps_net_send(int i, const void *p, size_t n, uint64_t timeout_us) {
    struct conn *c = cc(i);
    uint64_t dl = C->now_ns + timeout_us * 1000ULL; size_t t = 0;
    ps_pt(CLS_NET);
    while (t < n) {
        if (c->c_closed || c->up.fin) return -EPIPE;
        if (c->rst_by_server || c->rst_by_client) return -ECONNRESET;
        if (c->s_closed) { c->rst_by_server = 1; return (long)n; }
        uint32_t m = dir_put(&c->up, (const uint8_t *)p + t, n - t);
        t += m;
        if (m) { log_net('S', c->id, m); wake_all(); ps_wake((uintptr_t)c, 1 << 30); }
        if (t < n) { if (C->now_ns >= dl) return (long)t; c->up.full = 1; ps_block((uintptr_t)c, dl); }
    }
    return (long)t;
}
/* > 0 bytes, 0 end of stream, -errno */
EXPORT long ps_net_recv(int i, void *b, size_t n, uint64_t timeout_us) {
    struct conn *c = cc(i);
    uint64_t dl = C->now_ns + timeout_us * 1000ULL;
    ps_pt(CLS_NET);
    for (;;) {
        uint32_t m = dir_get(&c->down, b, n);
        if (m) { wake_all(); log_net('R', c->id, m); return m; }
        if (c->c_closed) return -EBADF;
        if (c->rst_by_server && !c->down.sn) return -ECONNRESET;
        if (c->down.fin_seen) return 0;
        if (C->now_ns >= dl) return -ETIMEDOUT;
        uint64_t nx = next_at(&c->down);
        ps_block((uintptr_t)c, nx < dl ? nx : dl);
    }
}
EXPORT void ps_net_close(int i) {
    struct conn *c = cc(i); if (c->c_closed) return;
    ps_pt(CLS_NET);
    settle(&c->down);
    c->c_closed = 1; log_net('F', c->id, c->down.len);
    if (c->down.len) { C->fired_by_kind[FK_NETRESET]++; dir_cut(&c->up); if (!c->rst_by_client) c->rst_by_client = 1; }
    else dir_fin(&c->up);
    conn_wake(c);
}
EXPORT void ps_net_reset(int i) {
    struct conn *c = cc(i); if (c->c_closed) return;
    ps_pt(CLS_NET);
    C->fired_by_kind[FK_NETRESET]++; log_net('X', c->id, 0);
    dir_cut(&c->up); c->c_closed = 1; if (!c->rst_by_client) c->rst_by_client = 1;
    conn_wake(c);
}
EXPORT void ps_net_shut(int i) { struct conn *c = cc(i); ps_pt(CLS_NET); dir_fin(&c->up); log_net('H', c->id, 0); conn_wake(c); }

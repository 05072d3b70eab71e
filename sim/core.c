/* Scheduler, virtual time, randomness, thread and synchronisation primitives. */
#include "core.h"
#include <linux/futex.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sched.h>
#include <signal.h>
#include <sys/random.h>
#include <malloc.h>
#include <sys/resource.h>
#include <sys/utsname.h>

struct ps_ctl *C;
int ps_on;
__thread struct th *self __attribute__((tls_model("initial-exec")));
static struct th T[MAXT];
static int nt;
static uint64_t block_seq;
static uint64_t min_deadline = INF;
static pthread_key_t exit_key;
static uint64_t rr_last;
static uint64_t entropy_ctr, rt_reads;
static uint64_t frozen_until_mono, frozen_val;
static uint64_t pct_pt[64]; static int pct_n; static uint64_t pct_low;

/* raw system calls: never interposed */
static long raw6(long n, long a, long b, long c, long d, long e, long f) {
    long ret; register long r10 __asm__("r10") = d; register long r8 __asm__("r8") = e; register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return ret;
}
static void go_wait(struct th *t) {
    while (!__atomic_load_n(&t->go, __ATOMIC_ACQUIRE))
        raw6(SYS_futex, (long)&t->go, FUTEX_WAIT | FUTEX_PRIVATE_FLAG, 0, 0, 0, 0);
    t->go = 0;
}
static void go_give(struct th *t) {
    __atomic_store_n(&t->go, 1, __ATOMIC_RELEASE);
    raw6(SYS_futex, (long)&t->go, FUTEX_WAKE | FUTEX_PRIVATE_FLAG, 1, 0, 0, 0);
}
static inline uint64_t mix(uint64_t x) {
    x ^= x >> 30; x *= 0xbf58476d1ce4e5b9ULL; x ^= x >> 27; x *= 0x94d049bb133111ebULL; x ^= x >> 31; return x;
}
uint64_t ps_hash3(uint64_t a, uint64_t b, uint64_t c) {
    return mix(mix(mix(a + 0x9e3779b97f4a7c15ULL) ^ b) + 0x9e3779b97f4a7c15ULL * (c + 1));
}
void ps_trace(uint64_t a, uint64_t b) {
    C->trace_hash = mix(C->trace_hash * 0x100000001b3ULL + (a ^ mix(b)));
    if (C->trace_on && C->ntrace < PS_TRACECAP) {
        uint32_t *t = C->trace[C->ntrace++];
        t[0] = self ? self->id : 9999; t[1] = (uint32_t)a; t[2] = (uint32_t)b; t[3] = self ? self->k : 0;
    }
}
void ps_fail(int code, const char *fmt, ...) {
    va_list ap; va_start(ap, fmt); vsnprintf(C->errmsg, sizeof C->errmsg, fmt, ap); va_end(ap);
    C->errcode = code;
    raw6(SYS_exit_group, code, 0, 0, 0, 0, 0); __builtin_unreachable();
}
void ps_crash_now(void) { raw6(SYS_exit_group, EX_CRASH, 0, 0, 0, 0, 0); __builtin_unreachable(); }

#include <execinfo.h>
EXPORT void __assert_fail(const char *a, const char *f, unsigned l, const char *fn) {
    (void)fn;
    if (ps_iotrace()) { void *b[60]; int n = backtrace(b, 60); backtrace_symbols_fd(b, n, 2); }
    if (ON()) ps_fail(EX_ASSERT, "assertion of the storage engine's debug build: %s:%u: %s", f, l, a);
    ps_say("%s:%u: %s\n", f, l, a); abort();
}
/* ---------------- given deviations (explicit schedules) ---------------- */
#define DH 65536
static int32_t *dev_head; static int32_t *dev_next;
static void dev_build(void) {
    if (!C->explicit_sched) return;
    dev_head = mmap(0, DH * 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    dev_next = mmap(0, (size_t)(C->ngiven + 1) * 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    memset(dev_head, 0xff, DH * 4);
    for (uint32_t i = 0; i < C->ngiven; i++) {
        uint32_t h = (uint32_t)ps_hash3(C->given[i].tid, C->given[i].k, 1) % DH;
        dev_next[i] = dev_head[h]; dev_head[h] = (int32_t)i;
    }
}
static int dev_lookup(uint32_t tid, uint32_t k, uint32_t e) {
    uint32_t h = (uint32_t)ps_hash3(tid, k, 1) % DH;
    /* incarnations share one list: the incarnation number is in the top byte of tid */
    for (int32_t i = dev_head[h]; i >= 0; i = dev_next[i])
        if (C->given[i].tid == tid && C->given[i].k == k && C->given[i].e == e) return (int)C->given[i].to;
    return -1;
}
/* the smallest given block number above e for this thread and scheduling point (0: none) */
static uint32_t dev_next_edge(uint32_t tid, uint32_t k, uint32_t e) {
    uint32_t best = 0, h = (uint32_t)ps_hash3(tid, k, 1) % DH;
    for (int32_t i = dev_head[h]; i >= 0; i = dev_next[i])
        if (C->given[i].tid == tid && C->given[i].k == k && C->given[i].e > e && (!best || C->given[i].e < best)) best = C->given[i].e;
    return best;
}

/* ---------------- scheduling ---------------- */
static void wake_timeouts(void) {
    uint64_t m = INF;
    for (int i = 0; i < nt; i++) if (T[i].state == ST_BLOCK && T[i].deadline != INF) {
        if (T[i].deadline <= C->now_ns) { T[i].state = ST_RUN; T[i].reason = 1; T[i].obj = 0; C->timeouts++; }
        else if (T[i].deadline < m) m = T[i].deadline;
    }
    min_deadline = m;
}
static const char *clsname[] = {"int", "api", "io", "yield", "block", "exit", "net", "edge"};
int (*ps_idle_hook)(void);   /* network: may make something runnable before time jumps */
static struct th *choose(struct th *me, int cls) {
    for (;;) {
        if (min_deadline <= C->now_ns) wake_timeouts();
        int run[MAXT], n = 0, me_ok = 0;
        for (int i = 0; i < nt; i++) if (T[i].state == ST_RUN) { run[n++] = i; if (&T[i] == me) me_ok = 1; }
        if (n == 0) {
            uint64_t m = INF;
            for (int i = 0; i < nt; i++) if (T[i].state == ST_BLOCK && T[i].deadline < m) m = T[i].deadline;
            if (m == INF) {
                char b[400]; int p = 0; b[0] = 0;
                for (int i = 0; i < nt && p < 360; i++) if (T[i].state == ST_BLOCK) p += snprintf(b + p, sizeof b - p, " t%d@%lx", i, (unsigned long)T[i].obj);
                ps_fail(EX_DEADLOCK, "deadlock: every thread is blocked without a timeout:%s", b);
            }
            if (m > C->now_ns) C->now_ns = m;
            wake_timeouts();
            continue;
        }
        if (n == 1 && me_ok) return me;
        /* default choice: stay, or the next runnable thread in cyclic order */
        int can_stay = me_ok && cls != CLS_YIELD;
        int def = -1;
        if (can_stay) def = me->id;
        else { int from = me ? me->id : (int)rr_last;
            for (int j = 1; j <= nt && def < 0; j++) { int i = (from + j) % nt; if (T[i].state == ST_RUN && !(cls == CLS_YIELD && &T[i] == me)) def = i; }
            if (def < 0) def = me->id; }
        int to = def;
        uint32_t key = (me ? (uint32_t)me->id : 9999u) | (C->incarnation << 20); uint32_t k = me ? me->k : 0;
        if (me && me->nopreempt && can_stay) { to = def; }
        else if (C->explicit_sched) {
            int d = dev_lookup(key, k, cls == CLS_EDGE ? me->e : 0);
            if (d >= 0 && d < nt && T[d].state == ST_RUN) to = d;
        } else if (C->policy == POL_RANDOM) {
            uint64_t h = ps_hash3(C->seed_sched + C->incarnation, key, k);
            int sw = !can_stay;
            if (cls == CLS_EDGE) { sw = 1; h = ps_hash3(h, me->e_cnt, 11); }
            else if (can_stay) { uint32_t p = (cls == CLS_API || cls == CLS_NET) ? C->ppm_api : C->ppm_int; sw = (h >> 20) % 1000000 < p; }
            if (sw) {
                uint64_t h2 = mix(h + 77);
                int c[MAXT], m2 = 0;
                for (int i = 0; i < n; i++) if (!(me && run[i] == me->id && (can_stay || cls == CLS_YIELD))) c[m2++] = run[i];
                if (m2) to = c[h2 % m2];
            }
        } else if (C->policy == POL_PCT) {
            if (me && (cls == CLS_YIELD || cls == CLS_EDGE)) me->prio = --pct_low;
            while (pct_n && C->steps >= pct_pt[pct_n - 1]) { pct_n--; if (me) me->prio = --pct_low; }
            int best = -1;
            for (int i = 0; i < n; i++) if (best < 0 || T[run[i]].prio > T[best].prio) best = run[i];
            to = best;
        }
        if (to != def && C->nrec < PS_MAXDEV) { struct ps_dev *d = &C->rec[C->nrec++]; d->tid = key; d->k = k; d->e = cls == CLS_EDGE ? me->e : 0; d->to = (uint32_t)to; }
        return &T[to];
    }
}
static void account(struct th *me, int cls) {
    me->k++; C->steps++; C->phase_steps++;
    me->e = 0;
    if (C->explicit_sched) me->e_next = C->ngiven ? dev_next_edge((uint32_t)me->id | (C->incarnation << 20), me->k, 0) : 0;
    C->now_ns += 200;
    if (C->step_crash && C->phase == C->step_crash_phase && C->phase_steps >= C->step_crash) {
        C->fired_by_kind[FK_STEPCRASH]++;
        ps_crash_now();
    }
    if (C->steps > C->max_steps) ps_fail(EX_STEPS, "no progress: more than %lu scheduling steps", (unsigned long)C->max_steps);
    (void)cls;
}
static void switch_to(struct th *me, struct th *to, int cls) {
    ps_trace(0x1000 + cls, ((uint64_t)to->id << 32) | (uint32_t)me->id);
    if (to == me) return;
    C->switches++; rr_last = me->id;
    if (cls == CLS_API || cls == CLS_BLOCK) C->sched_hash = mix(C->sched_hash * 31 + to->id * 64 + cls);
    go_give(to);
    go_wait(me);
}
/* A thread that stands still for a while (a slow processor, a page fault): a deviation of its own kind, so that it is recorded and replayed as one. */
static void vsleep(uint64_t ns);
#define STALL 0x80000000u
static int stalled(struct th *me, int cls) {
    uint32_t key = (uint32_t)me->id | (C->incarnation << 20), e = cls == CLS_EDGE ? me->e : 0, us = 0;
    if (me->nopreempt) return 0;
    if (C->explicit_sched) {
        if (!C->ngiven) return 0;
        int d = dev_lookup(key, me->k, e);
        if (d == -1 || !((uint32_t)d & STALL)) return 0;
        us = (uint32_t)d & ~STALL;
    } else {
        if (!C->ppm_stall) return 0;
        uint64_t h = ps_hash3(C->seed_sched + C->incarnation, key, me->k * 2654435761ull + 0x57a11);
        if (cls == CLS_EDGE) { h = ps_hash3(h, me->e_cnt, 12); if ((h >> 20) % 4) return 0; }
        else if ((h >> 20) % 1000000 >= C->ppm_stall) return 0;
        static const uint32_t span[] = {30, 300, 300, 3000, 3000, 20000};
        h = mix(h + 5);
        us = 5 + (uint32_t)((h >> 8) % span[(h >> 40) % 6]);
        if (C->nrec < PS_MAXDEV) { struct ps_dev *d = &C->rec[C->nrec++]; d->tid = key; d->k = me->k; d->e = e; d->to = STALL | us; }
    }
    C->fired_by_kind[FK_STALL]++;
    vsleep((uint64_t)us * 1000);
    return 1;
}
void ps_pt(int cls) {
    struct th *me = self;
    account(me, cls);
    if (cls == CLS_API) { C->api_points++; C->sched_hash = mix(C->sched_hash * 31 + me->id); }
    if (cls != CLS_YIELD && stalled(me, cls)) return;
    struct th *to = choose(me, cls);
    switch_to(me, to, cls);
}
int ps_block(uintptr_t obj, uint64_t deadline) {
    struct th *me = self;
    account(me, CLS_BLOCK);
    me->state = ST_BLOCK; me->obj = obj; me->deadline = deadline; me->seq = ++block_seq; me->reason = 0;
    if (deadline < min_deadline) min_deadline = deadline;
    struct th *to = choose(me, CLS_BLOCK);
    switch_to(me, to, CLS_BLOCK);
    me->deadline = INF;
    return me->reason;
}
int ps_wake(uintptr_t obj, int n) {
    int w = 0;
    while (w < n) {
        struct th *b = 0;
        for (int i = 0; i < nt; i++) if (T[i].state == ST_BLOCK && T[i].obj == obj && (!b || T[i].seq < b->seq)) b = &T[i];
        if (!b) break;
        b->state = ST_RUN; b->obj = 0; b->reason = 0; w++;
    }
    return w;
}

/* ---------------- time ---------------- */
void ps_advance(uint64_t ns) { C->now_ns += ns; }
uint64_t ps_real_ns(void) {
    rt_reads++;
    uint64_t v = C->wall_base_ns + C->now_ns + (uint64_t)C->wall_off;
    switch (C->clock_mode) {
    case 1: v -= v % 15625000ULL; break;                                /* 64 Hz clock */
    case 2: {                                                           /* jumps, mostly backwards */
        uint64_t h = ps_hash3(C->seed_entropy, 0xc10c, rt_reads + C->incarnation * 1000003ULL);
        if (h % 97 == 0) {
            int64_t d = (int64_t)(mix(h) % 7200000000000ULL) - 5400000000000LL;
            if (h & 0x10000) d /= 1000;
            C->wall_off += d; C->fired_by_kind[FK_CLOCKJUMP]++;
            v = C->wall_base_ns + C->now_ns + (uint64_t)C->wall_off;
        }
        break; }
    case 3:                                                             /* stands still for up to 300 ms at a time */
        if (C->now_ns < frozen_until_mono) v = frozen_val;
        else { uint64_t h = ps_hash3(C->seed_entropy, 0xf0, rt_reads);
            if (h % 5 == 0) { frozen_until_mono = C->now_ns + mix(h) % 300000000ULL; frozen_val = v; C->fired_by_kind[FK_CLOCKJUMP]++; } }
        break;
    }
    return v;
}
static uint64_t clk(clockid_t id) {
    C->now_ns += 100;
    switch (id) { case CLOCK_REALTIME: case CLOCK_REALTIME_COARSE: case CLOCK_TAI: return ps_real_ns();
    default: return C->now_ns + 1000000000000ULL; }
}
static uint64_t to_deadline(clockid_t id, const struct timespec *ts) {
    if (!ts) return INF;
    uint64_t abs = (uint64_t)ts->tv_sec * 1000000000ULL + (uint64_t)ts->tv_nsec;
    uint64_t now = clk(id);
    return abs <= now ? C->now_ns : C->now_ns + (abs - now);
}
EXPORT int clock_gettime(clockid_t id, struct timespec *ts) {
    if (!ON()) return (int)raw6(SYS_clock_gettime, id, (long)ts, 0, 0, 0, 0) ? -1 : 0;
    uint64_t v = clk(id); ts->tv_sec = v / 1000000000ULL; ts->tv_nsec = v % 1000000000ULL; return 0;
}
EXPORT int gettimeofday(struct timeval *tv, void *tz) {
    (void)tz;
    if (!ON()) { struct timespec ts; raw6(SYS_clock_gettime, 0, (long)&ts, 0, 0, 0, 0); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0; }
    uint64_t v = clk(CLOCK_REALTIME); tv->tv_sec = v / 1000000000ULL; tv->tv_usec = v % 1000000000ULL / 1000; return 0;
}
EXPORT time_t time(time_t *t) {
    struct timeval tv; gettimeofday(&tv, 0); if (t) *t = tv.tv_sec; return tv.tv_sec;
}
static void vsleep(uint64_t ns) { ps_block((uintptr_t)&self->k, C->now_ns + (ns ? ns : 1)); }
EXPORT int nanosleep(const struct timespec *rq, struct timespec *rm) {
    if (!ON()) return raw6(SYS_nanosleep, (long)rq, (long)rm, 0, 0, 0, 0) ? -1 : 0;
    vsleep((uint64_t)rq->tv_sec * 1000000000ULL + rq->tv_nsec); if (rm) rm->tv_sec = rm->tv_nsec = 0; return 0;
}
EXPORT int clock_nanosleep(clockid_t id, int flags, const struct timespec *rq, struct timespec *rm) {
    if (!ON()) return -(int)raw6(SYS_clock_nanosleep, id, flags, (long)rq, (long)rm, 0, 0);
    if (flags & TIMER_ABSTIME) ps_block((uintptr_t)&self->k, to_deadline(id, rq));
    else vsleep((uint64_t)rq->tv_sec * 1000000000ULL + rq->tv_nsec);
    return 0;
}
EXPORT int usleep(useconds_t us) { struct timespec ts = {us / 1000000, (us % 1000000) * 1000L}; return nanosleep(&ts, 0); }
EXPORT unsigned sleep(unsigned s) { struct timespec ts = {s, 0}; nanosleep(&ts, 0); return 0; }

/* ---------------- randomness and identity ---------------- */
uint64_t ps_entropy(void) { return ps_hash3(C->seed_entropy, 0xe7a0 + C->incarnation, ++entropy_ctr); }
static int quiet; static uint64_t quiet_ctr;
static void fill(void *b, size_t n) { uint8_t *p = b; while (n) { uint64_t v = ON() ? ps_entropy() : ps_hash3(0x9d1e7, 1, ++quiet_ctr); size_t m = n < 8 ? n : 8; memcpy(p, &v, m); p += m; n -= m; } }
EXPORT ssize_t getrandom(void *b, size_t n, unsigned fl) {
    if (!ON() && !quiet) { long r = raw6(SYS_getrandom, (long)b, n, fl, 0, 0, 0); if (r < 0) { errno = -r; return -1; } return r; }
    fill(b, n); return (ssize_t)n;
}
EXPORT int getentropy(void *b, size_t n) {
    if (!ON() && !quiet) return raw6(SYS_getrandom, (long)b, n, 0, 0, 0, 0) < 0 ? -1 : 0;
    fill(b, n); return 0;
}
EXPORT uint32_t arc4random(void) { uint32_t v; getentropy(&v, 4); return v; }
EXPORT unsigned int _ZNSt13random_device9_M_getvalEv(void *x) { (void)x; uint32_t v; getentropy(&v, 4); return v; }
EXPORT int sched_getcpu(void) { if (!ON()) { unsigned c = 0; raw6(SYS_getcpu, (long)&c, 0, 0, 0, 0, 0); return (int)c; } return self->id % (int)(C->ncpu ? C->ncpu : 4); }
EXPORT int get_nprocs(void) { return ON() ? (int)C->ncpu : 4; }
EXPORT int sched_getaffinity(pid_t pid, size_t sz, cpu_set_t *set) {
    if (!ON()) { long r = raw6(SYS_sched_getaffinity, pid, sz, (long)set, 0, 0, 0); if (r < 0) { errno = -r; return -1; } memset((char *)set + r, 0, sz - r); return 0; }
    memset(set, 0, sz); for (uint32_t i = 0; i < C->ncpu; i++) CPU_SET_S(i, sz, set); return 0;
}
EXPORT long sysconf(int name) {
    REAL(long, sysconf, int);
    if (ON() && (name == _SC_NPROCESSORS_ONLN || name == _SC_NPROCESSORS_CONF)) return C->ncpu;
    return r_sysconf(name);
}
EXPORT pid_t getpid(void) { return ON() ? 4242 : (pid_t)raw6(SYS_getpid, 0, 0, 0, 0, 0, 0); }
EXPORT pid_t gettid(void) { return ON() ? 5000 + self->id : (pid_t)raw6(SYS_gettid, 0, 0, 0, 0, 0, 0); }
EXPORT int gethostname(char *b, size_t n) { if (ON()) { snprintf(b, n, "simhost"); return 0; } REAL(int, gethostname, char *, size_t); return r_gethostname(b, n); }
EXPORT int setpriority(__priority_which_t w, id_t who, int p) { (void)w; (void)who; (void)p; return 0; }
EXPORT int sched_setscheduler(pid_t p, int pol, const struct sched_param *sp) { (void)p; (void)pol; (void)sp; return 0; }

/* ---------------- yield and futex ---------------- */
EXPORT int sched_yield(void) { if (!ON()) return (int)raw6(SYS_sched_yield, 0, 0, 0, 0, 0, 0); C->now_ns += 1000; ps_pt(CLS_YIELD); return 0; }
static long sim_futex(uint32_t *ua, int op, uint32_t val, const struct timespec *ts, uint32_t *ua2, uint32_t val3) {
    (void)ua2; (void)val3;
    int cmd = op & FUTEX_CMD_MASK;
    if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
        ps_pt(CLS_INT);
        if (__atomic_load_n(ua, __ATOMIC_SEQ_CST) != val) { errno = EAGAIN; return -1; }
        uint64_t dl = INF;
        if (ts) {
            if (cmd == FUTEX_WAIT) dl = C->now_ns + (uint64_t)ts->tv_sec * 1000000000ULL + ts->tv_nsec;
            else dl = to_deadline((op & FUTEX_CLOCK_REALTIME) ? CLOCK_REALTIME : CLOCK_MONOTONIC, ts);
        }
        C->lock_waits++;
        if (ps_block((uintptr_t)ua, dl)) { errno = ETIMEDOUT; return -1; }
        return 0;
    }
    if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
        int n = ps_wake((uintptr_t)ua, (int)val < 0 ? 1 << 30 : (int)val);
        ps_pt(CLS_INT);
        return n;
    }
    ps_fail(EX_SIMERR, "futex operation %d is not simulated", op);
}
EXPORT long syscall(long n, ...) {
    va_list ap; va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (ON()) switch (n) {
    case SYS_futex: return sim_futex((uint32_t *)a, (int)b, (uint32_t)c, (const struct timespec *)d, (uint32_t *)e, (uint32_t)f);
    case SYS_getrandom: return getrandom((void *)a, (size_t)b, (unsigned)c);
    case SYS_gettid: return gettid();
    case SYS_getpid: return getpid();
    case SYS_sched_yield: return sched_yield();
    case SYS_clock_gettime: return clock_gettime((clockid_t)a, (struct timespec *)b);
    case SYS_getcpu: if (a) *(unsigned *)a = (unsigned)sched_getcpu(); if (b) *(unsigned *)b = 0; return 0;
    case SYS_membarrier: return 0;
    case SYS_statx: errno = ENOSYS; return -1;
    case 258 /* mkdirat */: case 316 /* renameat2 */: errno = ENOSYS; return -1;
    case 157 /*prctl*/: case 251 /*ioprio_set*/: case 252: return 0;
    default: ps_fail(EX_SIMERR, "syscall %ld is not simulated", n);
    }
    long r = raw6(n, a, b, c, d, e, f);
    if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
    return r;
}

/* ---------------- threads ---------------- */
static void thread_end(struct th *me) {
    account(me, CLS_EXIT);
    me->state = ST_DONE;
    ps_wake((uintptr_t)me, 1 << 30);
    struct th *to = choose(me, CLS_EXIT);
    ps_trace(0x1000 + CLS_EXIT, ((uint64_t)to->id << 32) | (uint32_t)me->id);
    rr_last = me->id;
    uint32_t dead = 0;
    go_give(to);
    for (;;) raw6(SYS_futex, (long)&dead, FUTEX_WAIT | FUTEX_PRIVATE_FLAG, 0, 0, 0, 0);
}
static void exit_dtor(void *p) {
    struct th *me = p;
    if (!ps_on || me != self) return;
    if (++me->kr < 4) { pthread_setspecific(exit_key, me); return; }
    thread_end(me);
}
static void *trampoline(void *p) {
    struct th *me = p;
    self = me;
    go_wait(me);
    pthread_setspecific(exit_key, me);
    me->ret = me->fn(me->arg);
    return me->ret;
}
EXPORT int pthread_create(pthread_t *t, const pthread_attr_t *attr, void *(*fn)(void *), void *arg) {
    REAL(int, pthread_create, pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
    if (!ON()) return r_pthread_create(t, attr, fn, arg);
    if (nt >= MAXT) ps_fail(EX_SIMERR, "too many threads");
    struct th *x = &T[nt];
    memset(x, 0, sizeof *x);
    x->id = nt; x->fn = fn; x->arg = arg; x->deadline = INF;
    x->prio = C->policy == POL_PCT ? ps_hash3(C->seed_sched, 0x9c7 + C->incarnation, nt) | (1ULL << 62) : 0;
    if (attr) { int ds = 0; pthread_attr_getdetachstate(attr, &ds); x->detached = ds == PTHREAD_CREATE_DETACHED; }
    if (C->explicit_sched && C->ngiven) x->e_next = dev_next_edge((uint32_t)x->id | (C->incarnation << 20), 0, 0);
    char *stk = (char *)(STACK_BASE + (uint64_t)nt * STACK_SZ);
    if (mmap(stk, STACK_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0) != stk) ps_fail(EX_SIMERR, "stack mmap");
    mprotect(stk, 4096, PROT_NONE);
    pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstack(&a, stk + 4096, STACK_SZ - 4096);
    int r = r_pthread_create(&x->real, &a, trampoline, x);
    pthread_attr_destroy(&a);
    if (r) ps_fail(EX_SIMERR, "pthread_create: %d", r);
    x->state = ST_RUN; nt++; C->nthreads = (uint32_t)nt;
    *t = x->real;
    ps_pt(CLS_INT);
    return 0;
}
static struct th *by_pthread(pthread_t p) { for (int i = 0; i < nt; i++) if (pthread_equal(T[i].real, p)) return &T[i]; return 0; }
EXPORT int pthread_join(pthread_t p, void **ret) {
    REAL(int, pthread_join, pthread_t, void **);
    if (!ON()) return r_pthread_join(p, ret);
    struct th *x = by_pthread(p);
    if (!x) return ESRCH;
    while (x->state != ST_DONE) ps_block((uintptr_t)x, INF);
    if (ret) *ret = x->ret;
    return 0;
}
EXPORT int pthread_detach(pthread_t p) { REAL(int, pthread_detach, pthread_t); if (!ON()) return r_pthread_detach(p); return 0; }
EXPORT int pthread_setname_np(pthread_t p, const char *n) { (void)p; (void)n; return 0; }

/* ---------------- mutex, rwlock, cond, once ---------------- */
EXPORT int pthread_mutex_trylock(pthread_mutex_t *m) { REAL(int, pthread_mutex_trylock, pthread_mutex_t *); if (ON()) ps_pt(CLS_INT); return r_pthread_mutex_trylock(m); }
static int real_try(pthread_mutex_t *m) { REAL(int, pthread_mutex_trylock, pthread_mutex_t *); return r_pthread_mutex_trylock(m); }
static int real_unlock(pthread_mutex_t *m) { REAL(int, pthread_mutex_unlock, pthread_mutex_t *); return r_pthread_mutex_unlock(m); }
static int lock_until(pthread_mutex_t *m, uint64_t dl) {
    int r;
    while ((r = real_try(m)) == EBUSY) { C->lock_waits++; if (ps_block((uintptr_t)m, dl)) { r = real_try(m); return r == EBUSY ? ETIMEDOUT : r; } }
    return r;
}
EXPORT int pthread_mutex_lock(pthread_mutex_t *m) {
    REAL(int, pthread_mutex_lock, pthread_mutex_t *);
    if (!ON()) return r_pthread_mutex_lock(m);
    ps_pt(CLS_INT);
    return lock_until(m, INF);
}
EXPORT int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *ts) {
    REAL(int, pthread_mutex_timedlock, pthread_mutex_t *, const struct timespec *);
    if (!ON()) return r_pthread_mutex_timedlock(m, ts);
    ps_pt(CLS_INT); return lock_until(m, to_deadline(CLOCK_REALTIME, ts));
}
EXPORT int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t c, const struct timespec *ts) {
    REAL(int, pthread_mutex_clocklock, pthread_mutex_t *, clockid_t, const struct timespec *);
    if (!ON()) return r_pthread_mutex_clocklock(m, c, ts);
    ps_pt(CLS_INT); return lock_until(m, to_deadline(c, ts));
}
EXPORT int pthread_mutex_unlock(pthread_mutex_t *m) {
    int r = real_unlock(m);
    if (ON()) { if (ps_wake((uintptr_t)m, 1 << 30)) ps_pt(CLS_INT); }
    return r;
}
static clockid_t cond_clock(pthread_cond_t *c) { /* glibc keeps the clock choice in bit 1 of __wrefs */ return (((unsigned *)c)[9] & 2) ? CLOCK_MONOTONIC : CLOCK_REALTIME; }
static int cond_wait(pthread_cond_t *c, pthread_mutex_t *m, uint64_t dl) {
    C->cond_waits++;
    real_unlock(m); ps_wake((uintptr_t)m, 1 << 30);
    int to = ps_block((uintptr_t)c, dl);
    lock_until(m, INF);
    return to ? ETIMEDOUT : 0;
}
EXPORT int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
    REAL(int, pthread_cond_wait, pthread_cond_t *, pthread_mutex_t *);
    if (!ON()) return r_pthread_cond_wait(c, m);
    return cond_wait(c, m, INF);
}
EXPORT int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) {
    REAL(int, pthread_cond_timedwait, pthread_cond_t *, pthread_mutex_t *, const struct timespec *);
    if (!ON()) return r_pthread_cond_timedwait(c, m, ts);
    return cond_wait(c, m, to_deadline(cond_clock(c), ts));
}
EXPORT int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t clock, const struct timespec *ts) {
    REAL(int, pthread_cond_clockwait, pthread_cond_t *, pthread_mutex_t *, clockid_t, const struct timespec *);
    if (!ON()) return r_pthread_cond_clockwait(c, m, clock, ts);
    return cond_wait(c, m, to_deadline(clock, ts));
}
EXPORT int pthread_cond_signal(pthread_cond_t *c) {
    REAL(int, pthread_cond_signal, pthread_cond_t *);
    if (!ON()) return r_pthread_cond_signal(c);
    if (ps_wake((uintptr_t)c, 1)) ps_pt(CLS_INT);
    return 0;
}
EXPORT int pthread_cond_broadcast(pthread_cond_t *c) {
    REAL(int, pthread_cond_broadcast, pthread_cond_t *);
    if (!ON()) return r_pthread_cond_broadcast(c);
    if (ps_wake((uintptr_t)c, 1 << 30)) ps_pt(CLS_INT);
    return 0;
}
EXPORT int pthread_cond_destroy(pthread_cond_t *c) {
    REAL(int, pthread_cond_destroy, pthread_cond_t *);
    if (!ON()) return r_pthread_cond_destroy(c);
    return 0;
}
EXPORT int pthread_rwlock_rdlock(pthread_rwlock_t *l) {
    REAL(int, pthread_rwlock_rdlock, pthread_rwlock_t *);
    if (!ON()) return r_pthread_rwlock_rdlock(l);
    ps_pt(CLS_INT); int r;
    while ((r = pthread_rwlock_tryrdlock(l)) == EBUSY || r == EAGAIN) { C->lock_waits++; ps_block((uintptr_t)l, INF); }
    return r;
}
EXPORT int pthread_rwlock_wrlock(pthread_rwlock_t *l) {
    REAL(int, pthread_rwlock_wrlock, pthread_rwlock_t *);
    if (!ON()) return r_pthread_rwlock_wrlock(l);
    ps_pt(CLS_INT); int r;
    while ((r = pthread_rwlock_trywrlock(l)) == EBUSY) { C->lock_waits++; ps_block((uintptr_t)l, INF); }
    return r;
}
EXPORT int pthread_rwlock_unlock(pthread_rwlock_t *l) {
    REAL(int, pthread_rwlock_unlock, pthread_rwlock_t *);
    int r = r_pthread_rwlock_unlock(l);
    if (ON()) { if (ps_wake((uintptr_t)l, 1 << 30)) ps_pt(CLS_INT); }
    return r;
}
EXPORT int pthread_once(pthread_once_t *o, void (*f)(void)) {
    REAL(int, pthread_once, pthread_once_t *, void (*)(void));
    if (!ON()) return r_pthread_once(o, f);
    for (;;) {
        int v = __atomic_load_n((int *)o, __ATOMIC_SEQ_CST);
        if (v == 2) return 0;
        if (v == 0) { *(int *)o = 1; f(); *(int *)o = 2; ps_wake((uintptr_t)o, 1 << 30); return 0; }
        ps_block((uintptr_t)o, INF);
    }
}

/* ---------------- instrumented Rust code: every basic block is a possible scheduling point ---------------- */
static uint32_t nguards;
EXPORT void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) { for (; a < b; a++) if (!*a) *a = ++nguards; }
static void edge_draw(struct th *me) {
    /* distance to the next preemption: geometric, by inversion of a uniform number */
    uint64_t h = ps_hash3(C->seed_sched + C->incarnation, 0xed9e0000 + me->id, ++me->e_draw);
    double u = ((h >> 11) + 1) / 9007199254740993.0, l = 0; /* -ln(u) */
    int x; u = __builtin_frexp(u, &x); { double z = (u - 1) / (u + 1), z2 = z * z; l = -(2 * z * (1 + z2 / 3 + z2 * z2 / 5 + z2 * z2 * z2 / 7) + x * 0.6931471805599453); }
    me->e_at = me->e_cnt + 1 + (uint64_t)(l * 1e6 / C->ppm_edge);
}
EXPORT void __sanitizer_cov_trace_pc_guard(uint32_t *g) {
    struct th *me = self;
    if (!ps_on || !me) return;
    C->edges++;
    C->cov[*g % PS_COVCAP] = 1;
    me->e++; me->e_cnt++;
    if (me->e > 200000000u) ps_fail(EX_STEPS, "no progress: endless loop in Rust code");
    if (C->explicit_sched) {
        if (me->e != me->e_next) return;
        me->e_next = dev_next_edge((uint32_t)me->id | (C->incarnation << 20), me->k, me->e);
    } else {
        if (!C->ppm_edge) return;
        if (!me->e_at) edge_draw(me);
        if (me->e_cnt < me->e_at) return;
        edge_draw(me);
    }
    if (me->nopreempt) return;
    C->sched_hash = mix(C->sched_hash * 31 + me->id * 8 + 5);
    if (stalled(me, CLS_EDGE)) return;
    struct th *to = choose(me, CLS_EDGE);
    switch_to(me, to, CLS_EDGE);
}

/* ---------------- I/O faults ---------------- */
static uint32_t pclass(const char *p) {
    size_t n = strlen(p);
    if (n > 4 && !strcmp(p + n - 4, ".log")) return PC_WAL;
    if (n > 4 && !strcmp(p + n - 4, ".sst")) return PC_SST;
    if (strstr(p, "MANIFEST") || strstr(p, "CURRENT")) return PC_MANIFEST;
    return PC_OTHER;
}
int ps_iotrace(void) { static int v = -1; if (v < 0) v = getenv("POLOSIM_IOTRACE") ? 1 : 0; return v; }
void ps_say(const char *fmt, ...) {
    char b[600]; va_list ap; va_start(ap, fmt); int n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    if (n > (int)sizeof b - 1) n = sizeof b - 1;
    raw6(SYS_write, 2, (long)b, n, 0, 0, 0);
}
struct iof ps_io(uint32_t op, const char *path, uint64_t detail) {
    struct iof r = {0, 0, 0};
    ps_pt(CLS_IO);
    C->ios++; C->phase_ios++;
    uint32_t io = (uint32_t)C->phase_ios;
    r.h = ps_hash3(C->seed_io + C->incarnation, C->phase, io);
    ps_trace(0x2000 + op, detail ^ (strlen(path) << 40));
    if (ps_iotrace()) ps_say("io L%u P%u #%u t%d op %x %s\n", C->incarnation, C->phase, io, self->id, op, path);
    for (uint32_t i = 0; i < C->nfault; i++) {
        struct ps_fault *f = &C->fault[i];
        if ((f->phase != 0xffffffffu && f->phase != C->phase) || io < f->from || io > f->to || !(f->opmask & op)) continue;
        if (!(f->pathmask & pclass(path))) continue;
        if (f->max && f->count >= f->max) continue;
        if (f->ppm < 1000000 && ps_hash3(r.h, i, 5) % 1000000 >= f->ppm) continue;
        f->count++; C->fired_by_kind[f->kind]++;
        if (C->nfired < PS_FIREDCAP) {
            struct ps_fired *x = &C->fired[C->nfired++]; x->phase = C->phase | (C->incarnation << 16); x->io = io; x->kind = f->kind; x->op = op;
            size_t n = strlen(path); snprintf(x->path, sizeof x->path, "%s", n > 40 ? path + n - 40 : path);
        }
        if (f->kind == FK_CRASH_BEFORE) ps_crash_now();
        if (f->kind == FK_SLOW) { ps_block((uintptr_t)&self->k, C->now_ns + (uint64_t)f->arg * 1000ULL); continue; }
        r.kind = f->kind; r.arg = f->arg;
        break;
    }
    return r;
}
void ps_io_after(struct iof f) { if (f.kind == FK_CRASH_AFTER || f.kind == FK_CRASH_TORN) ps_crash_now(); }

/* ---------------- control ---------------- */
EXPORT struct ps_ctl *ps_map(void) {
    void *p = mmap((void *)PS_BASE, PS_SIZE, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0);
    if (p != (void *)PS_BASE) { fprintf(stderr, "polosim: cannot map the shared block\n"); _exit(EX_SIMERR); }
    C = p;
    fs_init();
    return C;
}
/* The same block in a file that a program started with exec can map again (fd PS_FD). */
#define PS_FD 900
EXPORT struct ps_ctl *ps_map_shared(void) {
    int fd = (int)syscall(SYS_memfd_create, "polosim", 0);
    if (fd < 0 || ftruncate(fd, PS_SIZE) || (fd != PS_FD && (dup2(fd, PS_FD) < 0 || close(fd)))) { fprintf(stderr, "polosim: memfd\n"); _exit(EX_SIMERR); }
    void *p = mmap((void *)PS_BASE, PS_SIZE, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED | MAP_NORESERVE, PS_FD, 0);
    if (p != (void *)PS_BASE) { fprintf(stderr, "polosim: cannot map the shared block\n"); _exit(EX_SIMERR); }
    C = p;
    fs_init();
    return C;
}
EXPORT struct ps_ctl *ps_attach(int fd) {
    void *p = mmap((void *)PS_BASE, PS_SIZE, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED | MAP_NORESERVE, fd, 0);
    if (p != (void *)PS_BASE) { fprintf(stderr, "polosim: cannot map the shared block\n"); _exit(EX_SIMERR); }
    C = p; fs_attach();
    return C;
}
/* A program under simulation: its main becomes thread 0, the driver's polosim_start() starts the simulated clients. */
static int (*real_main)(int, char **, char **);
static void (*drv_exit)(int);
static int sim_main(int argc, char **argv, char **envp) {
    ps_attach(atoi(getenv("POLOSIM_FD")));
    void (*start)(void) = (void (*)(void))dlsym(RTLD_DEFAULT, "polosim_start");
    drv_exit = (void (*)(int))dlsym(RTLD_DEFAULT, "polosim_exit");
    if (!start || !drv_exit) { fprintf(stderr, "polosim: no driver\n"); _exit(EX_SIMERR); }
    ps_begin();
    start();
    int r = real_main(argc, argv, envp);
    drv_exit(r);
    return r;
}
EXPORT int __libc_start_main(int (*m)(int, char **, char **), int argc, char **argv, void (*in)(void), void (*fi)(void), void (*rf)(void), void *se) {
    REAL(int, __libc_start_main, int (*)(int, char **, char **), int, char **, void (*)(void), void (*)(void), void (*)(void), void *);
    if (!getenv("POLOSIM_FD")) return r___libc_start_main(m, argc, argv, in, fi, rf, se);
    real_main = m;
    return r___libc_start_main(sim_main, argc, argv, in, fi, rf, se);
}
EXPORT void exit(int code) {
    if (ON() && drv_exit) drv_exit(code);
    static void (*r_exit)(int) __attribute__((noreturn));
    if (!r_exit) r_exit = (__typeof__(r_exit))dlsym(RTLD_NEXT, "exit");
    r_exit(code); __builtin_unreachable();
}
static int cmp_u64d(const void *a, const void *b) { uint64_t x = *(const uint64_t *)a, y = *(const uint64_t *)b; return x < y ? 1 : x > y ? -1 : 0; }
EXPORT void ps_begin(void) {
    mallopt(M_ARENA_MAX, 1);
    pthread_key_create(&exit_key, exit_dtor);
    dev_build();
    memset(T, 0, sizeof T);
    nt = 1; T[0].id = 0; T[0].state = ST_RUN; T[0].deadline = INF; T[0].real = pthread_self();
    T[0].prio = C->policy == POL_PCT ? ps_hash3(C->seed_sched, 0x9c7 + C->incarnation, 0) | (1ULL << 62) : 0;
    pct_low = 1ULL << 61; pct_n = 0;
    if (C->policy == POL_PCT) {
        pct_n = (int)(C->pct_depth < 60 ? C->pct_depth : 60);
        for (int i = 0; i < pct_n; i++) pct_pt[i] = C->steps + ps_hash3(C->seed_sched, 0xbc7 + C->incarnation, i) % (C->pct_len ? C->pct_len : 1);
        qsort(pct_pt, pct_n, 8, cmp_u64d);
    }
    if (C->explicit_sched && C->ngiven) T[0].e_next = dev_next_edge(C->incarnation << 20, 0, 0);
    C->phase = 0; C->phase_ios = 0; C->phase_steps = 0; C->errcode = 0; C->nthreads = 1; C->nguards = nguards;
    self = &T[0];
    ps_on = 1;
}
static void phase_done(void) { uint64_t *p = C->pcnt[C->incarnation % 16][C->phase % 4]; p[0] = C->phase_ios; p[1] = C->phase_steps; }
EXPORT void ps_worker(void) { quiet = 1; }
EXPORT void ps_end(int code) { phase_done(); raw6(SYS_exit_group, code, 0, 0, 0, 0, 0); }
EXPORT void ps_phase(uint32_t p) { phase_done(); C->phase = p; C->phase_ios = 0; C->phase_steps = 0; }
EXPORT void ps_point(void) { if (ON()) ps_pt(CLS_API); }
EXPORT void ps_hist(const void *p, uint32_t n) {
    if (C->hist_len + n + 4 > PS_HISTCAP) ps_fail(EX_SIMERR, "history buffer full");
    memcpy(C->hist + C->hist_len, &n, 4); memcpy(C->hist + C->hist_len + 4, p, n);
    C->hist_len += 4 + n;
}
EXPORT size_t ps_ctl_size(void) { return sizeof(struct ps_ctl); }
EXPORT uint64_t ps_now(void) { return C->now_ns; }
EXPORT uint32_t ps_tid(void) { return self ? (uint32_t)self->id : 0; }
EXPORT uint64_t ps_step(void) { return C->steps; }
EXPORT void ps_sleep_us(uint64_t us) { if (ON()) vsleep(us * 1000); }
EXPORT void ps_nopreempt(int on) { if (ON()) self->nopreempt = on; }
__attribute__((constructor)) static void warm(void) {
    /* resolve every dlsym before the simulation starts: no lazy binding inside it */
    (void)clsname; sysconf(_SC_PAGESIZE);
    pthread_mutex_t m = PTHREAD_MUTEX_INITIALIZER; pthread_mutex_trylock(&m); real_unlock(&m); real_try(&m); real_unlock(&m);
    pthread_rwlock_t rw = PTHREAD_RWLOCK_INITIALIZER; pthread_rwlock_rdlock(&rw); pthread_rwlock_unlock(&rw);
}
EXPORT void ps_cfg_default(void) { C->max_steps = 5000000; C->ncpu = 4; C->wall_base_ns = 1700000000ULL * 1000000000ULL; C->io_lat_us = 100; }
EXPORT void ps_report(void) { printf("steps %lu switches %lu api %lu ios %lu trace %016lx sched %016lx nrec %lu err %s threads %u\n", C->steps, C->switches, C->api_points, C->ios, C->trace_hash, C->sched_hash, C->nrec, C->errmsg, C->nthreads); }
EXPORT int pthread_attr_getguardsize(const pthread_attr_t *a, size_t *g) {
    REAL(int, pthread_attr_getguardsize, const pthread_attr_t *, size_t *);
    int r = r_pthread_attr_getguardsize(a, g);
    if (ON() && r == 0 && *g == 0) *g = 4096;     /* our stacks carry their own guard page */
    return r;
}

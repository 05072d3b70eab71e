#ifndef PS_CORE_H
#define PS_CORE_H
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <time.h>
#include <unistd.h>
#include "polosim.h"

#define EXPORT __attribute__((visibility("default")))
#define MAXT 480
#define STACK_BASE 0x520000000000ULL
#define STACK_SZ   (2u << 20)
#define INF UINT64_MAX

enum { ST_NEW, ST_RUN, ST_BLOCK, ST_DONE };
enum { CLS_INT = 0, CLS_API = 1, CLS_IO = 2, CLS_YIELD = 3, CLS_BLOCK = 4, CLS_EXIT = 5, CLS_NET = 6, CLS_EDGE = 7 };

struct th {
    int id, state, detached, reason;
    uint32_t go;
    void *(*fn)(void *);
    void *arg, *ret;
    uintptr_t obj;          /* blocked on */
    uint64_t deadline;      /* virtual ns, INF: none */
    uint64_t seq;           /* order of blocking */
    uint32_t k;             /* per-thread scheduling point counter */
    uint64_t prio;
    pthread_t real;
    int nopreempt;
    uint32_t e, e_next;     /* instrumented blocks since the last scheduling point; next one at which to preempt */
    uint64_t e_cnt, e_at, e_draw;
    int kr;                 /* exit-destructor rounds */
};
extern struct ps_ctl *C;
extern int ps_on;                   /* simulation active in this process */
extern __thread struct th *self __attribute__((tls_model("initial-exec")));
#define ON() (ps_on && self)

uint64_t ps_hash3(uint64_t a, uint64_t b, uint64_t c);
void ps_trace(uint64_t a, uint64_t b);
void ps_pt(int cls);
int ps_block(uintptr_t obj, uint64_t deadline);   /* returns 0 woken, 1 timeout */
int ps_wake(uintptr_t obj, int n);
void ps_fail(int code, const char *fmt, ...) __attribute__((format(printf, 2, 3), noreturn));
void ps_crash_now(void) __attribute__((noreturn));
uint64_t ps_real_ns(void);      /* virtual realtime */
void ps_advance(uint64_t ns);
uint64_t ps_entropy(void);

/* I/O accounting and faults: returns the fault kind to apply (0: none) */
struct iof { uint32_t kind, arg; uint64_t h; };
struct iof ps_io(uint32_t op, const char *path, uint64_t detail);
void ps_io_after(struct iof f);

void fs_init(void);
void fs_attach(void);
int ps_iotrace(void);
void ps_say(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void *fs_base(void);
int fs_is(const char *path);
int net_isfd(int fd);

#define REAL(ret, name, ...) \
    static ret (*r_##name)(__VA_ARGS__); \
    if (!r_##name) r_##name = (ret (*)(__VA_ARGS__))dlsym(RTLD_NEXT, #name)
#endif

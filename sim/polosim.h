/* polosim: deterministic simulation of threads, time, randomness, disk and network
 * for unmodified code, by interposing the C library.  Shared control block. */
#ifndef POLOSIM_H
#define POLOSIM_H
#include <stdint.h>
#include <stddef.h>

#define PS_BASE      0x500000000000ULL
#define PS_SIZE      (768ULL << 20)
#define PS_ROOT      "/polosim"
#define PS_MAXFAULT  64
#define PS_MAXDEV    400000
#define PS_HISTCAP   (48u << 20)
#define PS_FIREDCAP  512
#define PS_TRACECAP  200000
#define PS_COVCAP    131072

/* fault kinds */
enum { FK_EIO = 1, FK_ENOSPC = 2, FK_SHORT = 3, FK_EINTR = 4, FK_FSYNCDROP = 5, FK_SLOW = 6,
       FK_BITFLIP = 7, FK_CRASH_BEFORE = 8, FK_CRASH_TORN = 9, FK_CRASH_AFTER = 10, FK_STEPCRASH = 11,
       FK_CLOCKJUMP = 12, FK_NETRESET = 13, FK_NETFRAG = 14, FK_NETDELAY = 15, FK_NETSHORTW = 16,
       FK_EMFILE = 17, FK_THREADFAIL = 18, FK_LOSTWRITE = 19, FK_NETACCEPT = 20, FK_NOMEM = 21, FK_STALL = 22, FK_MAX = 24 };
/* operation classes for fault masks */
enum { OP_OPEN = 1, OP_CREATE = 2, OP_READ = 4, OP_WRITE = 8, OP_FSYNC = 16, OP_TRUNC = 32, OP_RENAME = 64,
       OP_UNLINK = 128, OP_MKDIR = 256, OP_OPENDIR = 512, OP_STAT = 1024, OP_FALLOC = 2048, OP_LINK = 4096, OP_CLOSE = 8192 };
/* path classes */
enum { PC_WAL = 1, PC_SST = 2, PC_MANIFEST = 4, PC_OTHER = 8 };
/* scheduling policies */
enum { POL_DEFAULT = 0, POL_RANDOM = 1, POL_PCT = 2 };
/* exit codes of an incarnation */
enum { EX_OK = 0, EX_CRASH = 77, EX_DEADLOCK = 78, EX_STEPS = 79, EX_SIMERR = 80, EX_PANIC = 81, EX_ASSERT = 82 };

struct ps_fault {
    uint32_t phase;     /* fires only in this phase (0xffffffff: any) */
    uint32_t from, to;  /* I/O numbers within the phase, inclusive */
    uint32_t opmask;
    uint32_t pathmask;
    uint32_t kind;
    uint32_t arg;
    uint32_t ppm;       /* probability per matching call, in 1/1000000 */
    uint32_t count;     /* measured: times fired */
    uint32_t max;       /* at most that many times (0: unlimited) */
};
struct ps_fired { uint32_t phase, io, kind, op; char path[48]; };
struct ps_dev { uint32_t tid; uint32_t k; uint32_t e; uint32_t to; };

struct ps_ctl {
    /* ---- configuration, written by the driver ---- */
    uint64_t seed_sched, seed_io, seed_entropy;
    uint32_t policy;
    uint32_t ppm_api, ppm_int;      /* preemption probabilities for POL_RANDOM */
    uint32_t pct_depth, pct_len;    /* POL_PCT */
    uint32_t explicit_sched;        /* use only the given deviations */
    uint32_t ngiven;                /* deviations given */
    uint32_t clock_mode;            /* 0 normal, 1 coarse, 2 random jumps, 3 standing still for intervals */
    uint32_t ncpu;
    uint32_t io_lat_us;             /* mean latency of fsync */
    uint32_t nfault;
    uint32_t incarnation;
    uint64_t max_steps;
    uint64_t step_crash;            /* crash when phase step counter reaches this (0: never) */
    uint32_t step_crash_phase;
    uint32_t knob_small;            /* small write buffers, frequent flush and compaction */
    uint32_t knob_nocache;          /* no block cache: every read goes to the disk */
    uint64_t wall_base_ns;
    uint32_t net_frag;              /* max fragment size (0: unlimited) */
    uint32_t net_delay_us;
    uint32_t mem_max_mb;            /* larger single allocations fail (0: none) */
    uint32_t ppm_stall;             /* a thread stands still for a while at a scheduling point */
    uint32_t trace_on;
    uint32_t ppm_edge;              /* preemption probability per basic block of instrumented Rust code */
    struct ps_fault fault[PS_MAXFAULT];
    /* ---- measured ---- */
    uint64_t steps, switches, api_points, ios, phase_ios, phase_steps;
    uint32_t phase;
    uint32_t nthreads;
    uint64_t now_ns;                /* virtual monotonic clock, continues over incarnations */
    int64_t  wall_off;
    uint64_t trace_hash;            /* rolling hash over every decision and I/O */
    uint64_t sched_hash;            /* rolling hash over API-level interleaving only */
    uint64_t nrec;                  /* recorded deviations */
    uint64_t fired_by_kind[FK_MAX];
    uint32_t nfired;
    uint32_t errcode;
    char     errmsg[512];
    struct ps_fired fired[PS_FIREDCAP];
    uint64_t reads, writes, fsyncs, bytes_written;
    uint64_t blocks_lost, blocks_torn, blocks_kept, names_undone;
    uint64_t net_bytes, net_conns;
    uint64_t lock_waits, cond_waits, timeouts;
    uint64_t pcnt[16][4][2];        /* per incarnation and phase: I/Os and steps */
    uint64_t hist_len;
    uint64_t ntrace;
    struct ps_dev given[PS_MAXDEV];
    struct ps_dev rec[PS_MAXDEV];
    uint32_t trace[PS_TRACECAP][4];
    uint64_t edges;
    uint32_t nguards, padg;
    uint8_t  cov[PS_COVCAP];        /* blocks reached */
    uint8_t  hist[PS_HISTCAP];
};

#ifdef __cplusplus
extern "C" {
#endif
struct ps_ctl *ps_map(void);              /* driver: map a fresh shared block (after fork of the runner) */
struct ps_ctl *ps_map_shared(void);       /* the same, in a file (fd 900) that an executed program can map */
int  ps_net_connect(void);                /* simulated clients of a simulated server */
long ps_net_send(int c, const void *p, size_t n, uint64_t timeout_us);
long ps_net_recv(int c, void *p, size_t n, uint64_t timeout_us);
void ps_net_close(int c); void ps_net_reset(int c); void ps_net_shut(int c);
void ps_begin(void);                      /* incarnation: take control of the calling thread as thread 0 */
void ps_end(int code);                    /* leave: _exit(code) */
void ps_phase(uint32_t phase);
void ps_point(void);                      /* explicit API-level scheduling point */
void ps_hist(const void *p, uint32_t n);  /* append one length-prefixed record */
uint64_t ps_now(void);
uint32_t ps_tid(void);
uint64_t ps_step(void);
void ps_fs_crash(int power, uint64_t seed, int mode); /* driver: apply crash semantics to the disk */
uint64_t ps_fs_hash(int durable);
void ps_sleep_us(uint64_t us);
int  ps_fs_dump(char *buf, size_t cap);
void ps_nopreempt(int on);
void ps_worker(void);                     /* driver: no real entropy from here on */
#ifdef __cplusplus
}
#endif
#endif

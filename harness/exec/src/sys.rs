//! Binding of the simulator library (sim/polosim.h).
#![allow(dead_code)]
use std::os::raw::{c_char, c_int, c_void};

pub const MAXFAULT: usize = 64;
pub const MAXDEV: usize = 400000;
pub const HISTCAP: usize = 48 << 20;
pub const FIREDCAP: usize = 512;
pub const TRACECAP: usize = 200000;
pub const COVCAP: usize = 131072;
pub const FK_MAX: usize = 24;
pub const FK_NAMES: [&str; FK_MAX] = [
    "none", "eio", "enospc", "short", "eintr", "fsync_fail", "slow_io", "bitflip", "crash_before_io", "crash_torn_write",
    "crash_after_io", "crash_at_step", "clock_jump", "net_reset", "net_fragment", "net_delay", "net_short_write", "emfile",
    "thread_fail", "lost_write", "net_accept_fail", "alloc_fail", "stall", "-",
];
pub const FK_EIO: u32 = 1;
pub const FK_ENOSPC: u32 = 2;
pub const FK_SHORT: u32 = 3;
pub const FK_EINTR: u32 = 4;
pub const FK_FSYNCDROP: u32 = 5;
pub const FK_SLOW: u32 = 6;
pub const FK_CRASH_BEFORE: u32 = 8;
pub const FK_CRASH_TORN: u32 = 9;
pub const FK_CRASH_AFTER: u32 = 10;
pub const FK_EMFILE: u32 = 17;
pub const FK_NETACCEPT: u32 = 20;
pub const OP_OPEN: u32 = 1;
pub const OP_CREATE: u32 = 2;
pub const OP_READ: u32 = 4;
pub const OP_WRITE: u32 = 8;
pub const OP_FSYNC: u32 = 16;
pub const OP_TRUNC: u32 = 32;
pub const OP_RENAME: u32 = 64;
pub const OP_UNLINK: u32 = 128;
pub const OP_MKDIR: u32 = 256;
pub const OP_OPENDIR: u32 = 512;
pub const OP_STAT: u32 = 1024;
pub const PC_WAL: u32 = 1;
pub const PC_SST: u32 = 2;
pub const PC_MANIFEST: u32 = 4;
pub const PC_OTHER: u32 = 8;
pub const EX_OK: i32 = 0;
pub const EX_CRASH: i32 = 77;
pub const EX_DEADLOCK: i32 = 78;
pub const EX_STEPS: i32 = 79;
pub const EX_SIMERR: i32 = 80;
pub const EX_PANIC: i32 = 81;
pub const EX_ASSERT: i32 = 82;

#[repr(C)]
#[derive(Clone, Copy)]
pub struct Fault { pub phase: u32, pub from: u32, pub to: u32, pub opmask: u32, pub pathmask: u32, pub kind: u32, pub arg: u32, pub ppm: u32, pub count: u32, pub max: u32 }
#[repr(C)]
#[derive(Clone, Copy)]
pub struct Fired { pub phase: u32, pub io: u32, pub kind: u32, pub op: u32, pub path: [u8; 48] }
#[repr(C)]
#[derive(Clone, Copy)]
pub struct Dev { pub tid: u32, pub k: u32, pub e: u32, pub to: u32 }

#[repr(C)]
pub struct Ctl {
    pub seed_sched: u64, pub seed_io: u64, pub seed_entropy: u64,
    pub policy: u32, pub ppm_api: u32, pub ppm_int: u32, pub pct_depth: u32, pub pct_len: u32,
    pub explicit_sched: u32, pub ngiven: u32, pub clock_mode: u32, pub ncpu: u32, pub io_lat_us: u32, pub nfault: u32, pub incarnation: u32,
    pub max_steps: u64, pub step_crash: u64, pub step_crash_phase: u32, pub knob_small: u32, pub knob_nocache: u32,
    pub wall_base_ns: u64, pub net_frag: u32, pub net_delay_us: u32, pub mem_max_mb: u32, pub ppm_stall: u32, pub trace_on: u32, pub ppm_edge: u32,
    pub fault: [Fault; MAXFAULT],
    pub steps: u64, pub switches: u64, pub api_points: u64, pub ios: u64, pub phase_ios: u64, pub phase_steps: u64,
    pub phase: u32, pub nthreads: u32, pub now_ns: u64, pub wall_off: i64, pub trace_hash: u64, pub sched_hash: u64, pub nrec: u64,
    pub fired_by_kind: [u64; FK_MAX], pub nfired: u32, pub errcode: u32, pub errmsg: [c_char; 512], pub fired: [Fired; FIREDCAP],
    pub reads: u64, pub writes: u64, pub fsyncs: u64, pub bytes_written: u64,
    pub blocks_lost: u64, pub blocks_torn: u64, pub blocks_kept: u64, pub names_undone: u64,
    pub net_bytes: u64, pub net_conns: u64, pub lock_waits: u64, pub cond_waits: u64, pub timeouts: u64,
    pub pcnt: [[[u64; 2]; 4]; 16],
    pub hist_len: u64, pub ntrace: u64,
    pub given: [Dev; MAXDEV], pub rec: [Dev; MAXDEV],
    pub trace: [[u32; 4]; TRACECAP],
    pub edges: u64, pub nguards: u32, pub padg: u32, pub cov: [u8; COVCAP],
    pub hist: [u8; HISTCAP],
}
extern "C" {
    pub fn ps_map() -> *mut Ctl;
    pub fn ps_map_shared() -> *mut Ctl;
    pub fn ps_net_connect() -> c_int;
    pub fn ps_net_send(c: c_int, p: *const c_void, n: usize, timeout_us: u64) -> i64;
    pub fn ps_net_recv(c: c_int, p: *mut c_void, n: usize, timeout_us: u64) -> i64;
    pub fn ps_net_close(c: c_int);
    pub fn ps_net_reset(c: c_int);
    pub fn ps_net_shut(c: c_int);
    pub fn ps_begin();
    pub fn ps_end(code: c_int);
    pub fn ps_phase(p: u32);
    pub fn ps_point();
    pub fn ps_hist(p: *const c_void, n: u32);
    pub fn ps_now() -> u64;
    pub fn ps_tid() -> u32;
    pub fn ps_step() -> u64;
    pub fn ps_sleep_us(us: u64);
    pub fn ps_fs_crash(power: c_int, seed: u64, mode: c_int);
    pub fn ps_fs_hash(durable: c_int) -> u64;
    pub fn ps_fs_dump(buf: *mut u8, cap: usize) -> c_int;
    pub fn ps_nopreempt(on: c_int);
    pub fn ps_ctl_size() -> usize;
    pub fn ps_worker();
    pub fn ps_cfg_default();
}
pub fn errmsg(c: &Ctl) -> String {
    let b: Vec<u8> = c.errmsg.iter().take_while(|x| **x != 0).map(|x| *x as u8).collect();
    String::from_utf8_lossy(&b).into_owned()
}

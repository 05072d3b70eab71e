//! Executes one plan: forks one process per life, applies crashes to the simulated disk, judges the history.
use crate::check::{self, viol, Search, Viol};
use crate::oracle;
use polosim_exec::plan::{Op, Plan};
use polosim_exec::sys::{self, Ctl};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Serialize, Deserialize, Default, Clone, Debug)]
pub struct Outcome {
    /// error of the machinery itself
    pub simerr: Option<String>,
    pub viol: Option<(String, String)>,
    pub pcnt: Vec<Vec<(u64, u64)>>,
    pub trace_hash: u64, pub sched_hash: u64, pub hist_hash: u64, pub disk_hash: u64,
    pub steps: u64, pub switches: u64, pub ios: u64, pub now_ns: u64, pub nrec: u64, pub edges: u64,
    pub reads: u64, pub writes: u64, pub fsyncs: u64,
    pub blocks_lost: u64, pub blocks_torn: u64, pub names_undone: u64,
    pub net_bytes: u64, pub net_conns: u64, pub lock_waits: u64, pub timeouts: u64, pub threads: u32,
    pub fired: BTreeMap<String, u64>,
    pub crashes: u32, pub kills: u32, pub asserts: u32, pub lives: u32,
    /// results by operation and class
    pub ops: BTreeMap<String, u64>,
    pub nodes: u64, pub over: bool,
    /// operations that overlapped another one
    pub overlaps: u64,
    pub dev: Option<Vec<(u32, u32, u32, u32)>>,
    pub hist: Option<Vec<String>>,
    pub exits: Vec<String>,
}
pub struct Opts { pub want_dev: bool, pub want_hist: bool }

pub fn setup(plan: &Plan) -> &'static mut Ctl {
    unsafe {
        let c = &mut *(if plan.profile.starts_with("srv") { sys::ps_map_shared() } else { sys::ps_map() });
        let g = &plan.cfg;
        sys::ps_cfg_default();
        c.seed_sched = g.seed_sched; c.seed_io = g.seed_io; c.seed_entropy = g.seed_entropy;
        c.policy = g.policy; c.ppm_api = g.ppm_api; c.ppm_int = g.ppm_int; c.ppm_edge = g.ppm_edge; c.pct_depth = g.pct_depth; c.pct_len = g.pct_len;
        c.clock_mode = g.clock_mode; c.ncpu = g.ncpu.max(1); c.io_lat_us = g.io_lat_us; c.knob_small = g.small; c.knob_nocache = g.nocache;
        c.max_steps = g.max_steps; c.net_frag = g.net_frag; c.net_delay_us = g.net_delay_us; c.mem_max_mb = g.mem_max_mb; c.ppm_stall = g.ppm_stall;
        if let Some(d) = &plan.dev {
            c.explicit_sched = 1;
            c.ngiven = d.len().min(sys::MAXDEV) as u32;
            for (i, x) in d.iter().take(sys::MAXDEV).enumerate() { c.given[i] = sys::Dev { tid: x.0, k: x.1, e: x.2, to: x.3 }; }
        }
        c
    }
}
/// Waits for a child; returns (exit code or -signal).
unsafe fn reap(pid: i32) -> i32 {
    let mut st = 0;
    loop {
        let r = libc::waitpid(pid, &mut st, 0);
        if r == pid { break; }
        if r < 0 && *libc::__errno_location() != libc::EINTR { return -999; }
    }
    if libc::WIFEXITED(st) { libc::WEXITSTATUS(st) } else { -libc::WTERMSIG(st) }
}
pub fn limits() {
    unsafe {
        libc::alarm(600);
        let t = libc::itimerval { it_interval: libc::timeval { tv_sec: 0, tv_usec: 0 }, it_value: libc::timeval { tv_sec: 60, tv_usec: 0 } };
        libc::syscall(libc::SYS_setitimer, libc::ITIMER_VIRTUAL, &t as *const _, std::ptr::null_mut::<libc::itimerval>());
        if std::env::var("POLOSIM_STDERR").is_err() {
            let fd = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
            if fd >= 0 { libc::dup2(fd, 2); }
        }
        let r = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &r);
    }
}
fn storage_failed(c: &Ctl, life: usize) -> bool {
    c.fired[..(c.nfired as usize).min(sys::FIREDCAP)].iter().any(|f| (f.phase >> 16) as usize == life && !matches!(f.kind, sys::FK_CRASH_BEFORE | sys::FK_CRASH_TORN | sys::FK_CRASH_AFTER | sys::FK_SLOW | sys::FK_EINTR))
}
pub fn run(plan: &Plan, opts: &Opts, cov: Option<&mut [u8]>) -> Outcome {
    let c = setup(plan);
    let mut o = Outcome::default();
    let mut early: Option<Viol> = None;
    let server = plan.profile.starts_with("srv");
    for k in 0..plan.incs.len() {
        let inc = &plan.incs[k];
        c.incarnation = k as u32;
        c.nfault = inc.faults.len().min(sys::MAXFAULT) as u32;
        for (i, f) in inc.faults.iter().take(sys::MAXFAULT).enumerate() {
            c.fault[i] = sys::Fault { phase: f.phase, from: f.from, to: f.to, opmask: f.opmask, pathmask: f.pathmask, kind: f.kind, arg: f.arg, ppm: f.ppm, count: 0, max: f.max };
        }
        c.step_crash = inc.step_crash; c.step_crash_phase = inc.step_crash_phase;
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            limits();
            if server { crate::server::exec_inc(plan, k) } else { polosim_exec::exec::run_inc(plan, k) }
        }
        let code = unsafe { reap(pid) };
        o.lives += 1;
        o.exits.push(code.to_string());
        match code {
            sys::EX_OK => { if inc.close || inc.manual { } else { o.kills += 1; } }
            sys::EX_CRASH => o.crashes += 1,
            // RocksDB was built with assertions here: some of them don't hold after a failed write
            sys::EX_ASSERT if storage_failed(c, k) => o.asserts += 1,
            sys::EX_ASSERT => { early = Some(viol("signal", format!("life {k}: {}", sys::errmsg(c)))); }
            sys::EX_DEADLOCK => { early = Some(viol("hang", format!("life {k}: {}", sys::errmsg(c)))); }
            sys::EX_STEPS => { early = Some(viol("hang", format!("life {k}: {}", sys::errmsg(c)))); }
            sys::EX_SIMERR => { o.simerr = Some(format!("life {k}: {}", sys::errmsg(c))); }
            x if x == -libc::SIGVTALRM => { early = Some(viol("hang", format!("life {k}: endless loop (60 s of processor time)"))); }
            x if x == -libc::SIGALRM || x == -libc::SIGKILL => { o.simerr = Some(format!("life {k}: ended by signal {}", -x)); }
            x if x < 0 => { early = Some(viol("signal", format!("life {k}: the process died of signal {}", -x))); }
            x => { early = Some(viol("signal", format!("life {k}: the process ended with code {x}"))); }
        }
        if o.simerr.is_some() || early.is_some() { break; }
        unsafe { sys::ps_fs_crash(inc.power as i32, inc.power_seed, inc.power_mode as i32) };
    }
    for i in 0..plan.incs.len().min(16) { o.pcnt.push((0..4).map(|p| (c.pcnt[i][p][0], c.pcnt[i][p][1])).collect()); }
    o.trace_hash = c.trace_hash; o.sched_hash = c.sched_hash; o.steps = c.steps; o.switches = c.switches; o.ios = c.ios; o.now_ns = c.now_ns;
    o.nrec = c.nrec; o.edges = c.edges; o.reads = c.reads; o.writes = c.writes; o.fsyncs = c.fsyncs;
    o.blocks_lost = c.blocks_lost; o.blocks_torn = c.blocks_torn; o.names_undone = c.names_undone; o.threads = c.nthreads;
    o.net_bytes = c.net_bytes; o.net_conns = c.net_conns; o.lock_waits = c.lock_waits; o.timeouts = c.timeouts;
    for (i, n) in c.fired_by_kind.iter().enumerate() { if *n > 0 { o.fired.insert(sys::FK_NAMES[i].to_string(), *n); } }
    if opts.want_dev { o.dev = Some(c.rec[..(c.nrec as usize).min(sys::MAXDEV)].iter().map(|d| (d.tid, d.k, d.e, d.to)).collect()); }
    let buf = &c.hist[..c.hist_len as usize];
    o.hist_hash = buf.iter().fold(0xcbf29ce484222325u64, |h, x| (h ^ *x as u64).wrapping_mul(0x100000001b3));
    if let Some(cov) = cov { for (a, b) in cov.iter_mut().zip(c.cov.iter()) { *a |= *b; } }
    if o.simerr.is_some() { return o; }
    // lives in which a fault made the storage misbehave
    let faulty: Vec<bool> = (0..plan.incs.len()).map(|k| storage_failed(c, k)).collect();
    let mut h = check::parse(plan, buf);
    if server { crate::server::rewrite(&mut h); }
    stats(&h, &mut o);
    if opts.want_hist { o.hist = Some(dump(&h)); }
    let v = early.or_else(|| judge(plan, &h, &faulty, &mut o));
    o.viol = v.map(|v| (v.kind, v.msg));
    o
}
fn judge(plan: &Plan, h: &check::Hist, faulty: &[bool], o: &mut Outcome) -> Option<Viol> {
    let slow = plan.incs.iter().any(|i| i.faults.iter().any(|f| f.kind == sys::FK_SLOW));
    if let Some(v) = check::panics(h) { return Some(v); }
    if let Some(s) = plan.note.get("bound_s").and_then(|x| x.as_i64()) { if let Some(v) = check::too_slow(h, s) { return Some(v); } }
    if let Some(v) = check::spurious_io(h, faulty, plan.cfg.clock_mode as u32) { return Some(v); }
    // a clock that jumps back prolongs every timed wait of RocksDB
    if !slow && plan.cfg.clock_mode != 2 { if let Some(v) = check::too_slow(h, 60) { return Some(v); } }
    if let Some(v) = check::unjustified_lock(h, faulty) { return Some(v); }
    if let Some(v) = oracle::fresh_ids(h) { return Some(v); }
    for x in &plan.oracle {
        let v = match x.as_str() {
            "cursor" => oracle::cursors(h),
            "lifecycle" => oracle::lifecycle(plan, h),
            _ => None,
        };
        if v.is_some() { return v; }
    }
    if plan.oracle.iter().any(|x| x == "refine") {
        let mut h2 = check::Hist { evs: h.evs.clone(), ..Default::default() };
        oracle::rewrite(&mut h2);
        let mut s = Search::new(&h2, plan.incs.len());
        let v = s.run();
        o.nodes = s.nodes as u64;
        o.over = s.over;
        return v;
    }
    None
}
fn stats(h: &check::Hist, o: &mut Outcome) {
    for e in &h.evs {
        let s = format!("{:?}", e.op);
        let n: String = s.chars().take_while(|c| c.is_alphanumeric()).collect();
        let r = match e.res() { None => "cut".into(), Some(polosim_exec::res::Res::Err(c, _)) => c.clone(), Some(polosim_exec::res::Res::Skip) => "skip".into(), Some(polosim_exec::res::Res::RolledBack) => "rb".into(), Some(_) => "ok".to_string() };
        *o.ops.entry(format!("{n}{}:{r}", if e.op.t() != 0 && !matches!(e.op, Op::Begin { .. } | Op::Commit { .. } | Op::Rollback { .. } | Op::Abandon { .. }) { "(t)" } else { "" })).or_default() += 1;
    }
    for (i, a) in h.evs.iter().enumerate() {
        let (ia, ra) = (a.inv, a.ret.as_ref().map(|r| r.0).unwrap_or(usize::MAX));
        for b in h.evs[i + 1..].iter() {
            if b.inv > ra { break; }
            if a.inc == b.inc && a.phase == 1 && b.phase == 1 && a.client != b.client && b.inv < ra && ia < b.ret.as_ref().map(|r| r.0).unwrap_or(usize::MAX) { o.overlaps += 1; break; }
        }
    }
}
pub fn dump(h: &check::Hist) -> Vec<String> {
    let mut ev: Vec<(usize, String)> = vec![];
    for e in &h.evs {
        ev.push((e.inv, format!("{} s{} -> {}", e.name(), e.s0, check::brief_op(&e.op))));
        if let Some((r, x)) = &e.ret { ev.push((*r, format!("{} s{} t{}us <- {}", e.name(), e.s1, e.t1 / 1000, x.brief()))); }
    }
    ev.sort();
    let mut out: Vec<String> = ev.into_iter().map(|x| x.1).collect();
    for (i, r) in &h.opens { out.push(format!("open of life {i}: {}", r.as_ref().map(|r| r.brief()).unwrap_or("cut".into()))); }
    for n in &h.notes { out.push(format!("note: {n}")); }
    out
}

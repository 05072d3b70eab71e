//! Runs the cases of a check on all cores and writes the evidence.
use crate::gen::{self, Var};
use crate::min;
use crate::runner::Outcome;
use crate::worker::{Cov, Worker};
use polosim_exec::plan::Plan;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Instant;

#[derive(Default)]
struct Agg {
    runs: u64, bases: u64, lives: u64, steps: u64, switches: u64, ios: u64, now_ns: u64, edges: u64, reads: u64, writes: u64, fsyncs: u64,
    blocks_lost: u64, blocks_torn: u64, names_undone: u64, lock_waits: u64, timeouts: u64, net_bytes: u64, net_conns: u64,
    crashes: u64, kills: u64, asserts: u64, overlap_runs: u64, fault_runs: u64, over: u64, nodes: u64,
    fired: BTreeMap<String, u64>, ops: BTreeMap<String, u64>, clock_modes: BTreeMap<String, u64>, policies: BTreeMap<String, u64>,
    sched: HashSet<u64>, traces: HashSet<u64>, nontrivial: HashSet<u64>,
    det: (u64, u64),
    samples: Vec<Value>,
}
fn add(a: &mut Agg, p: &Plan, o: &Outcome) {
    a.runs += 1;
    a.lives += o.lives as u64; a.steps += o.steps; a.switches += o.switches; a.ios += o.ios; a.now_ns += o.now_ns; a.edges += o.edges;
    a.reads += o.reads; a.writes += o.writes; a.fsyncs += o.fsyncs; a.blocks_lost += o.blocks_lost; a.blocks_torn += o.blocks_torn; a.names_undone += o.names_undone;
    a.lock_waits += o.lock_waits; a.timeouts += o.timeouts; a.net_bytes += o.net_bytes; a.net_conns += o.net_conns;
    a.crashes += o.crashes as u64; a.kills += o.kills as u64; a.asserts += o.asserts as u64; a.over += o.over as u64; a.nodes += o.nodes;
    for (k, v) in &o.fired { *a.fired.entry(k.clone()).or_default() += v; }
    for (k, v) in &o.ops { *a.ops.entry(k.clone()).or_default() += v; }
    *a.policies.entry(["default", "random", "pct"][p.cfg.policy.min(2) as usize].to_string()).or_default() += 1;
    if p.cfg.clock_mode > 0 { *a.clock_modes.entry(["", "coarse", "jumping", "standing still"][p.cfg.clock_mode.min(3) as usize].to_string()).or_default() += 1; }
    if o.overlaps > 0 { a.overlap_runs += 1; }
    if !o.fired.is_empty() { a.fault_runs += 1; }
    a.sched.insert(o.sched_hash);
    a.traces.insert(o.trace_hash);
    if o.overlaps > 0 || !o.fired.is_empty() || o.crashes > 0 || o.lives > 1 || o.ops.values().sum::<u64>() >= 15 { a.nontrivial.insert(o.trace_hash); }
    if a.samples.len() < 4 && (a.runs % 7 == 1) {
        a.samples.push(json!({"seed": p.seed, "profile": p.profile, "policy": p.cfg.policy, "lives": p.incs.iter().map(|i| json!({"setup": i.setup.len(), "clients": i.clients.iter().map(|c| c.iter().take(3).map(|o| { let mut s = serde_json::to_string(o).unwrap(); if s.len() > 160 { let mut e = 160; while !s.is_char_boundary(e) { e -= 1; } s.truncate(e); } s }).collect::<Vec<_>>()).collect::<Vec<_>>(), "faults": i.faults.len(), "step_crash": i.step_crash, "power_loss": i.power == 1, "closed": i.close})).collect::<Vec<_>>(), "steps": o.steps, "ios": o.ios, "exits": o.exits, "trace_hash": format!("{:016x}", o.trace_hash)}));
    }
}
pub struct Found { pub job: u64, pub sub: u64, pub plan: Plan, pub out: Outcome }
/// the variants that are derived from one undisturbed run
pub fn variants(base: &Plan, o: &Outcome, var: Var, n: u32) -> Vec<Plan> {
    (1..=n as u64).filter_map(|k| match var {
        Var::Crash => Some(gen::crash_variant(base, &o.pcnt, k)),
        Var::Iof => Some(gen::iof_variant(base, &o.pcnt, k)),
        Var::None => if k < n as u64 { let mut p = base.clone(); gen::vary_sched(&mut p, k); Some(p) } else { None },
    }).collect()
}
/// A finding listed in known_findings.json: a defect of the code that is not repaired.
#[derive(Clone, serde::Deserialize)]
pub struct Known { property: String, kind: String, what: String, contains: Vec<String>, needs_fault: Option<NeedsFault>, replay: String }
#[derive(Clone, serde::Deserialize)]
pub struct NeedsFault { pathmask: u32, opmask: u32 }
impl Known {
    fn is(&self, p: &Plan, v: &(String, String)) -> bool {
        v.0 == self.kind && self.contains.iter().all(|c| v.1.contains(c))
            && self.needs_fault.as_ref().map(|n| p.incs.iter().any(|i| i.faults.iter().any(|f| f.pathmask & n.pathmask != 0 && f.opmask & n.opmask != 0 && f.max != 1))).unwrap_or(true)
    }
}
pub fn known(prop: &str) -> Vec<(Known, Plan)> {
    let Ok(t) = std::fs::read_to_string("/verif/known_findings.json") else { return vec![] };
    let j: Value = serde_json::from_str(&t).expect("known_findings.json");
    let ks: Vec<Known> = serde_json::from_value(j["known"].clone()).expect("known_findings.json");
    ks.into_iter().filter(|k| k.property == prop).map(|k| {
        let r: Value = serde_json::from_str(&std::fs::read_to_string(format!("/verif/{}", k.replay)).expect("replay of a known finding")).expect("replay of a known finding");
        let p = serde_json::from_value(r["plan"].clone()).expect("plan of a known finding");
        (k, p)
    }).collect()
}
pub fn jobs_for(prop: &str, tier: &str) -> u64 {
    if let Ok(x) = std::env::var("POLOSIM_JOBS") { return x.parse().unwrap(); }
    let q = crate::jobs(prop);
    if tier == "thorough" { q * 12 } else { q }
}
pub fn check(prop: &str, tier: &str) -> i32 {
    let t0 = Instant::now();
    let vseed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let njobs = jobs_for(prop, tier);
    let cap: u64 = if tier == "thorough" { 6 * 3600 } else { 400 };
    let nw = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).min(16);
    let cov = Cov::new();
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let agg = Mutex::new(Agg::default());
    let found: Mutex<Vec<Found>> = Mutex::new(vec![]);
    let simerrs: Mutex<Vec<String>> = Mutex::new(vec![]);
    let keep = std::env::var("POLOSIM_KEEP_GOING").is_ok();
    let kn = known(prop);
    let known_hits = Mutex::new(vec![0u64; kn.len()]);
    std::thread::scope(|s| {
        for w in 0..nw {
            let (kn, known_hits) = (&kn, &known_hits);
            let (cov, next, stop, agg, found, simerrs) = (&cov, &next, &stop, &agg, &found, &simerrs);
            s.spawn(move || {
                let mut wk = Worker::spawn(cov.fd);
                let mut first = true;
                loop {
                    let j = next.fetch_add(1, Ordering::SeqCst);
                    if j >= njobs || stop.load(Ordering::SeqCst) || t0.elapsed().as_secs() > cap { break; }
                    let (base, var, n) = gen::generate(prop, j, vseed);
                    let mut queue = vec![base.clone()];
                    let mut sub = 0;
                    while let Some(p) = queue.pop() {
                        let o = wk.run(&p, false, false);
                        if let Some(e) = &o.simerr {
                            let mut s = simerrs.lock().unwrap();
                            s.push(format!("job {j} run {sub}: {e}"));
                            let _ = std::fs::create_dir_all("/verif/out");
                            let _ = std::fs::write(format!("/verif/out/{prop}-simerr.json"), serde_json::to_string(&json!({"plan": p})).unwrap());
                            if s.len() > 5 { stop.store(true, Ordering::SeqCst); }
                            wk = Worker::spawn(cov.fd);
                            break;
                        }
                        if first && w < 4 {
                            first = false;
                            let o2 = wk.run(&p, false, false);
                            let mut a = agg.lock().unwrap();
                            a.det.1 += 1;
                            if (o2.trace_hash, o2.hist_hash) == (o.trace_hash, o.hist_hash) { a.det.0 += 1; }
                        }
                        { let mut a = agg.lock().unwrap(); if sub == 0 { a.bases += 1; } add(&mut a, &p, &o); }
                        if let Some(v) = &o.viol {
                            if let Some(i) = kn.iter().position(|(k, _)| k.is(&p, v)) { known_hits.lock().unwrap()[i] += 1; break; }
                            if !keep { stop.store(true, Ordering::SeqCst); }
                            found.lock().unwrap().push(Found { job: j, sub, plan: p.clone(), out: o.clone() });
                            break;
                        }
                        if sub == 0 { queue = variants(&base, &o, var, n); queue.reverse(); }
                        if stop.load(Ordering::SeqCst) { break; }
                        sub += 1;
                    }
                }
            });
        }
    });
    let mut found = found.into_inner().unwrap();
    found.sort_by_key(|f| (f.job, f.sub));
    let simerrs = simerrs.into_inner().unwrap();
    let a = agg.into_inner().unwrap();
    let search_s = t0.elapsed().as_secs_f64();
    let mut code = 0;
    // what is known
    let mut wk = Worker::spawn(cov.fd);
    let mut known_hit = vec![];
    let known_hits = known_hits.into_inner().unwrap();
    for (i, (k, p)) in kn.iter().enumerate() {
        let o = wk.run(p, false, false);
        let again = o.viol.as_ref().map(|v| k.is(p, v)).unwrap_or(false);
        if again || known_hits[i] > 0 {
            println!("KNOWN-FINDING: property={prop} {}", k.what);
            known_hit.push(json!({"what": k.what, "replayed": again, "runs_that_met_it": known_hits[i]}));
        } else if let Some(v) = &o.viol { println!("{prop}: the replay of a known finding now fails differently: {}: {}", v.0, v.1); found.push(Found { job: u64::MAX, sub: 0, plan: p.clone(), out: o.clone() }); }
    }
    let mut nviol = 0;
    if keep { for f in &found { println!("job {} run {} [{}]: {}", f.job, f.sub, f.out.viol.as_ref().unwrap().0, f.out.viol.as_ref().unwrap().1); let _ = std::fs::create_dir_all("/verif/out/keep"); let _ = std::fs::write(format!("/verif/out/keep/{prop}-{}-{}.json", f.job, f.sub), serde_json::to_string(&json!({"plan": f.plan, "property": prop, "kind": f.out.viol.as_ref().unwrap().0})).unwrap()); } }
    if let Some(f) = found.first() {
        nviol = found.len();
        let (kind, msg) = f.out.viol.clone().unwrap();
        println!("{prop}: {kind}: {msg}");
        println!("  seed {} job {} run {}", f.plan.seed, f.job, f.sub);
        let budget = if tier == "thorough" { 300 } else { 60 };
        let path = min::report(prop, f, &mut wk, budget);
        println!("VIOLATION property={prop} replay={path}");
        code = 1;
    }
    if !simerrs.is_empty() && code == 0 {
        for e in simerrs.iter().take(5) { println!("error of the simulation: {e}"); }
        code = 2;
    }
    let hours = search_s / 3600.0;
    let (real, stub) = crate::components(prop);
    let ev = json!({
        "property": prop, "tier": tier, "seed": vseed, "level": "exploration",
        "coverage": {
            "evaluations": a.runs,
            "distinct_nontrivial": a.nontrivial.len(),
            "rule": "one evaluation is one simulated run of one or more process lives from one generated plan; plans come from seeds VERIF_SEED x property x job, crash and fault points from the counted I/Os and steps of the undisturbed run; a run is non-trivial if operations overlapped, a fault or crash fired, the database was reopened, or at least 15 operations ran; distinct by the hash over every scheduling decision and I/O",
            "samples": a.samples,
            "jobs": njobs, "base_plans": a.bases, "process_lives": a.lives,
            "runs_per_hour": (a.runs as f64 / hours) as u64, "seeds_per_hour": (a.bases as f64 / hours) as u64,
            "simulated_seconds": a.now_ns as f64 / 1e9,
            "scheduling_steps": a.steps, "context_switches": a.switches, "code_blocks_executed": a.edges,
            "simulated_ios": a.ios, "reads": a.reads, "writes": a.writes, "fsyncs": a.fsyncs,
            "distinct_interleavings": a.sched.len(), "interleaving_measure": "hash over the order of threads at storage-engine calls, preempted blocks and client operations",
            "distinct_executions": a.traces.len(),
            "runs_with_overlapping_operations": a.overlap_runs, "runs_with_faults": a.fault_runs,
            "faults_injected": a.fired, "crashes": a.crashes, "kills_without_close": a.kills, "ended_by_engine_assertion_after_fault": a.asserts,
            "unsynced_blocks_lost": a.blocks_lost, "blocks_torn": a.blocks_torn, "directory_entries_undone": a.names_undone,
            "lock_waits": a.lock_waits, "timeouts": a.timeouts, "clock_modes": a.clock_modes, "schedulers": a.policies,
            "network_bytes": a.net_bytes, "network_connections": a.net_conns,
            "code_blocks_reached": cov.count(),
            "results": a.ops,
            "model_states_searched": a.nodes, "searches_given_up": a.over,
            "determinism_reruns": {"identical": a.det.0, "of": a.det.1},
            "real_code": real, "stubs": stub,
            "known_findings": known_hit,
        },
        "assumptions": crate::assumptions(prop),
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": nviol,
    });
    let _ = std::fs::create_dir_all("/verif/evidence");
    std::fs::write(format!("/verif/evidence/{prop}.json"), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    println!("{prop} {tier}: {} runs of {} plans in {:.1} s, {} distinct, {} interleavings, {} crashes, faults {:?}, {} blocks of code, deterministic {}/{}, search given up {}", a.runs, a.bases, search_s, a.traces.len(), a.sched.len(), a.crashes, a.fired, cov.count(), a.det.0, a.det.1, a.over);
    if std::env::var("POLOSIM_VERBOSE").is_ok() { for (k, v) in &a.ops { println!("  {k} {v}"); } }
    let _ = BTreeSet::<u8>::new();
    code
}

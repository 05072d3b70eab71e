//! Minimises a violating plan and writes its replay file.
use crate::coord::Found;
use crate::runner::Outcome;
use crate::worker::Worker;
use polosim_exec::plan::Plan;
use serde_json::json;
use std::time::Instant;

struct M<'a> { w: &'a mut Worker, kind: String, until: Instant, runs: u32 }
impl<'a> M<'a> {
    fn bad(&mut self, p: &Plan) -> Option<Outcome> {
        if Instant::now() > self.until { return None; }
        self.runs += 1;
        let o = self.w.run(p, false, false);
        if o.simerr.is_some() { *self.w = Worker::spawn(-1); return None; }
        if o.viol.as_ref().map(|v| v.0 == self.kind) == Some(true) { Some(o) } else { None }
    }
    /// delta debugging over a list, through `get` and `put`
    fn ddmin<T: Clone>(&mut self, p: &mut Plan, items: Vec<T>, put: &dyn Fn(&mut Plan, Vec<T>)) -> Vec<T> {
        let mut cur = items;
        let mut n = 2usize;
        // all at once
        if !cur.is_empty() { let mut q = p.clone(); put(&mut q, vec![]); if self.bad(&q).is_some() { *p = q; return vec![]; } }
        while cur.len() >= 2 && Instant::now() < self.until {
            let sz = cur.len().div_ceil(n);
            let mut hit = false;
            let mut i = 0;
            while i < cur.len() {
                let mut next = cur[..i].to_vec();
                next.extend_from_slice(&cur[(i + sz).min(cur.len())..]);
                let mut q = p.clone();
                put(&mut q, next.clone());
                if self.bad(&q).is_some() { cur = next; *p = q; hit = true; n = n.saturating_sub(1).max(2); } else { i += sz; }
                if Instant::now() > self.until { break; }
            }
            if !hit { if sz <= 1 { break; } n = (n * 2).min(cur.len()); }
        }
        cur
    }
}
pub fn minimise(plan: &Plan, kind: &str, w: &mut Worker, secs: u64) -> (Plan, Option<Outcome>, u32) {
    let mut m = M { w, kind: kind.into(), until: Instant::now() + std::time::Duration::from_secs(secs), runs: 0 };
    let mut p = plan.clone();
    for round in 0..2 {
        // lives from the end
        while p.incs.len() > 1 { let mut q = p.clone(); q.incs.pop(); if m.bad(&q).is_some() { p = q; } else { break; } }
        for l in 0..p.incs.len() {
            let f = p.incs[l].faults.clone();
            if !f.is_empty() { m.ddmin(&mut p, f, &|q, v| q.incs[l].faults = v); }
            let nc = p.incs[l].clients.len();
            for c in 0..nc { let x = p.incs[l].clients[c].clone(); if !x.is_empty() { m.ddmin(&mut p, x, &|q, v| q.incs[l].clients[c] = v); } }
            while p.incs[l].clients.last().map(|c| c.is_empty()) == Some(true) { let mut q = p.clone(); q.incs[l].clients.pop(); if m.bad(&q).is_some() { p = q; } else { break; } }
            let x = p.incs[l].setup.clone();
            if !x.is_empty() { m.ddmin(&mut p, x, &|q, v| q.incs[l].setup = v); }
            let x = p.incs[l].post.clone();
            if !x.is_empty() { m.ddmin(&mut p, x, &|q, v| q.incs[l].post = v); }
        }
        if round == 0 {
            // a plainer configuration
            for f in [(|q: &mut Plan| q.cfg.ppm_edge = 0) as fn(&mut Plan), |q| q.cfg.ppm_int = 0, |q| q.cfg.small = 0, |q| q.cfg.clock_mode = 0, |q| { q.cfg.policy = 0; q.cfg.ppm_edge = 0 }] {
                let mut q = p.clone();
                f(&mut q);
                if serde_json::to_string(&q.cfg).unwrap() != serde_json::to_string(&p.cfg).unwrap() && m.bad(&q).is_some() { p = q; }
            }
            // the schedule as explicit deviations from the plain one
            let o = m.w.run(&p, true, false);
            if let (Some(d), Some(v)) = (o.dev, &o.viol) {
                if v.0 == m.kind && d.len() < 300_000 {
                    let mut q = p.clone();
                    q.dev = Some(d.clone());
                    if m.bad(&q).is_some() { p = q; m.ddmin(&mut p, d, &|q, v| q.dev = Some(v)); }
                }
            }
        }
    }
    m.until = Instant::now() + std::time::Duration::from_secs(30);
    let o = m.bad(&p);
    let r = m.runs;
    (p, o, r)
}
pub fn report(prop: &str, f: &Found, w: &mut Worker, secs: u64) -> String {
    let kind = f.out.viol.clone().unwrap().0;
    let again = w.run(&f.plan, false, false);
    let same = (again.trace_hash, again.hist_hash) == (f.out.trace_hash, f.out.hist_hash);
    let (p, o, runs) = if same && secs > 0 { minimise(&f.plan, &kind, w, secs) } else { (f.plan.clone(), None, 0) };
    let (p, o) = match o { Some(o) => (p, o), None => (f.plan.clone(), f.out.clone()) };
    let hist = w.run(&p, false, true).hist.unwrap_or_default();
    let _ = std::fs::create_dir_all("/verif/out/replay");
    let path = format!("/verif/out/replay/{prop}-{:016x}.json", f.plan.seed);
    let (k, msg) = o.viol.clone().unwrap_or((kind, String::new()));
    println!("  minimised in {runs} runs: {} operations, {} schedule deviations, {} faults; the original run repeats exactly: {same}", p.incs.iter().map(|i| i.setup.len() + i.post.len() + i.clients.iter().map(|c| c.len()).sum::<usize>()).sum::<usize>(), p.dev.as_ref().map(|d| d.len() as i64).unwrap_or(-1), p.incs.iter().map(|i| i.faults.len() + (i.step_crash > 0) as usize).sum::<usize>());
    println!("  {k}: {msg}");
    let j = json!({"property": prop, "kind": k, "message": msg, "trace_hash": format!("{:016x}", o.trace_hash), "hist_hash": format!("{:016x}", o.hist_hash), "plan": p, "history": hist, "original_seed": f.plan.seed, "original_plan": f.plan});
    std::fs::write(&path, serde_json::to_string(&j).unwrap()).unwrap();
    path
}
pub fn replay(file: &str) -> i32 {
    let j: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(file).unwrap()).unwrap();
    let p: Plan = serde_json::from_value(j["plan"].clone()).unwrap();
    let mut w = Worker::spawn(-1);
    let o = w.run(&p, false, true);
    for l in o.hist.clone().unwrap_or_default() { println!("{l}"); }
    println!("exits {:?} steps {} ios {} pcnt {:?} fired {:?} nrec {}", o.exits, o.steps, o.ios, o.pcnt, o.fired, o.nrec);
    if let Some(e) = &o.simerr { println!("error of the simulation: {e}"); return 2; }
    println!("trace {:016x} (recorded {}), history {:016x} (recorded {})", o.trace_hash, j["trace_hash"].as_str().unwrap_or("-"), o.hist_hash, j["hist_hash"].as_str().unwrap_or("-"));
    match &o.viol { Some((k, m)) => { println!("{k}: {m}"); println!("VIOLATION property={} replay={file}", j["property"].as_str().unwrap_or("?")); 1 } None => { println!("no violation"); 0 } }
}

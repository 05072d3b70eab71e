//! Judges a recorded history against the reference model.
//!
//! Refinement: is there an order of the operations, compatible with real time (an operation that returned before another
//! was invoked comes first), in which the model gives every recorded answer?  Searched with memoisation.  Process lives
//! follow one another; at a crash, operations in progress may have happened or not, open transactions vanish.
use crate::model::{self, *};
use bson::Document;
use polosim_exec::exec::SHARED;
use polosim_exec::plan::{Op, Plan};
use polosim_exec::res::Res;
use std::collections::{BTreeMap, HashSet};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub struct Ev { pub inc: usize, pub phase: u32, pub client: u32, pub idx: usize, pub op: Op, pub inv: usize, pub t0: i64, pub s0: i64, pub ret: Option<(usize, Res)>, pub t1: i64, pub s1: i64, pub implied: bool }
impl Ev {
    pub fn res(&self) -> Option<&Res> { self.ret.as_ref().map(|x| &x.1) }
    pub fn name(&self) -> String { format!("life {} {} client {} op {}", self.inc, ["setup", "run", "post"][self.phase.min(2) as usize], self.client, self.idx) }
}
#[derive(Default)]
pub struct Hist { pub evs: Vec<Ev>, pub opens: Vec<(usize, Option<Res>)>, pub notes: Vec<String>, pub closed: Vec<usize> }
#[derive(Clone, Debug)]
pub struct Viol { pub kind: String, pub msg: String }
pub fn viol(kind: &str, msg: impl Into<String>) -> Viol { Viol { kind: kind.into(), msg: msg.into() } }

pub fn parse(plan: &Plan, buf: &[u8]) -> Hist {
    let mut h = Hist::default();
    let mut open: BTreeMap<(usize, u32, u32, usize), usize> = BTreeMap::new();
    let (mut o, mut n) = (0usize, 0usize);
    while o + 4 <= buf.len() {
        let l = u32::from_le_bytes(buf[o..o + 4].try_into().unwrap()) as usize;
        let Ok(d) = Document::from_reader(&buf[o + 4..o + 4 + l]) else { h.notes.push("unreadable record".into()); break };
        o += 4 + l;
        n += 1;
        let i = |k: &str| d.get_i64(k).unwrap_or(0);
        let (inc, ph, c, ix) = (i("n") as usize, i("p") as u32, i("c") as u32, i("i") as usize);
        match d.get_str("k").unwrap_or("") {
            "i" => {
                let pi = &plan.incs[inc];
                let list: &[Op] = match ph { 0 => &pi.setup, 1 => &pi.clients[c as usize], _ => &pi.post };
                let (op, implied) = match d.get("x") { Some(x) => (Op::Abandon { t: x.as_i64().or(x.as_i32().map(|x| x as i64)).unwrap_or(0) as u32 }, true), None => (list[ix].clone(), false) };
                open.insert((inc, ph, c, ix), h.evs.len());
                h.evs.push(Ev { inc, phase: ph, client: c, idx: ix, op, inv: n, t0: i("t"), s0: i("s"), ret: None, t1: 0, s1: 0, implied });
            }
            "r" => {
                if let Some(k) = open.remove(&(inc, ph, c, ix)) {
                    let e = &mut h.evs[k];
                    e.ret = Some((n, d.get_document("r").map(Res::from_doc).unwrap_or(Res::Skip)));
                    e.t1 = i("t");
                    e.s1 = i("s");
                }
            }
            "o" => h.opens.push((inc, None)),
            "O" => {
                // a server can end before its clients' first step
                if h.opens.last().map(|x| x.0) != Some(inc) { h.opens.push((inc, None)); }
                h.opens.last_mut().unwrap().1 = d.get_document("r").ok().map(Res::from_doc);
            }
            "c" => h.closed.push(inc),
            "x" => h.notes.push(d.get_str("m").unwrap_or("?").to_string()),
            _ => {}
        }
    }
    h
}

#[derive(Clone, Default)]
struct Tc { whole: Option<(u64, Option<Rc<Hc>>)>, docs: BTreeMap<Key, (Option<u64>, Option<Rd>)> }
type Ov = BTreeMap<String, Tc>;
fn view(db: &Db, ov: Option<&Ov>, name: &str) -> Option<Rc<Hc>> {
    let base = db.get(name);
    let Some(t) = ov.and_then(|o| o.get(name)) else { return base.cloned() };
    if let Some((_, w)) = &t.whole { return w.clone(); }
    if t.docs.is_empty() { return base.cloned(); }
    let mut c = base.map(|b| b.c.clone()).unwrap_or_default();
    for (k, (_, d)) in &t.docs { match d { Some(d) => { c.docs.insert(k.clone(), d.clone()); } None => { c.docs.remove(k); } } }
    Some(hc(c))
}
fn hsh(db: &Db, name: &str) -> u64 { db.get(name).map(|c| c.h).unwrap_or(0) }
fn record(ov: &mut Ov, db: &Db, name: &str, old: Option<&Coll>, new: Option<Coll>) {
    let t = ov.entry(name.to_string()).or_default();
    let spec = |c: Option<&Coll>| c.map(|c| c.idx.clone());
    if t.whole.is_some() || spec(old) != spec(new.as_ref()) {
        let b = t.whole.as_ref().map(|w| w.0).unwrap_or_else(|| hsh(db, name));
        t.whole = Some((b, new.map(hc)));
        return;
    }
    let (Some(o), Some(n)) = (old, new) else { return };
    let mut ks: Vec<&Key> = vec![];
    for (k, d) in &n.docs { match o.docs.get(k) { Some(x) if x.h == d.h => {} _ => ks.push(k) } }
    for k in o.docs.keys() { if !n.docs.contains_key(k) { ks.push(k); } }
    for k in ks {
        let b = db.get(name).and_then(|c| c.c.docs.get(k)).map(|d| d.h);
        let nd = n.docs.get(k).cloned();
        t.docs.entry(k.clone()).or_insert((b, None)).1 = nd;
    }
}
/// None: somebody else committed a change of what the transaction wrote
fn commit(db: &Db, ov: &Ov, check: bool) -> Option<Db> {
    let mut out = db.clone();
    for (n, t) in ov {
        // what was written before the collection itself was changed is part of `whole`
        for (k, (b, _)) in &t.docs {
            if check && db.get(n).and_then(|c| c.c.docs.get(k)).map(|d| d.h) != *b { return None; }
        }
        if let Some((b, w)) = &t.whole {
            if check && hsh(db, n) != *b { return None; }
            match w { Some(c) => { out.insert(n.clone(), c.clone()); } None => { out.remove(n); } }
        } else if !t.docs.is_empty() {
            let Some(base) = db.get(n) else { if check { return None; } else { continue } };
            let mut c = base.c.clone();
            for (k, (_, d)) in &t.docs { match d { Some(d) => { c.docs.insert(k.clone(), d.clone()); } None => { c.docs.remove(k); } } }
            if check && c.broken_unique().is_some() { return None; }
            out.insert(n.clone(), hc(c));
        }
    }
    Some(out)
}
#[derive(Clone)]
struct St { pos: Vec<u16>, vis: Rc<Db>, dur: Option<Rc<Db>>, tx: BTreeMap<(usize, u32), Ov> }
impl St {
    fn hash(&self, inc: usize) -> u64 {
        let mut h = 1469598103934665603u64 ^ inc as u64;
        let mut f = |x: u64| h = polosim_exec::rng::mix(h.wrapping_mul(31).wrapping_add(x));
        for p in &self.pos { f(*p as u64); }
        f(db_hash(&self.vis));
        f(self.dur.as_ref().map(|d| db_hash(d)).unwrap_or(3));
        for ((l, t), o) in &self.tx {
            f((*l as u64) << 32 | *t as u64);
            for (n, c) in o {
                for b in n.bytes() { f(b as u64); }
                if let Some((b, w)) = &c.whole { f(*b); f(w.as_ref().map(|w| w.h).unwrap_or(1)); }
                for (k, (b, d)) in &c.docs { for x in k { f(*x as u64); } f(b.unwrap_or(0)); f(d.as_ref().map(|d| d.h).unwrap_or(2)); }
            }
        }
        h
    }
}
pub struct Search<'a> {
    lanes: Vec<Vec<Vec<&'a Ev>>>,
    seen: HashSet<u64>,
    pub nodes: usize,
    limit: usize,
    best: (usize, usize),
    why: Vec<String>,
    pub over: bool,
    pub last: Option<Db>,
}
impl<'a> Search<'a> {
    pub fn new(h: &'a Hist, nincs: usize) -> Search<'a> {
        let mut lanes = vec![];
        for i in 0..nincs {
            let mut m: BTreeMap<(u32, u32), Vec<&Ev>> = BTreeMap::new();
            for e in h.evs.iter().filter(|e| e.inc == i) { m.entry((e.phase, e.client)).or_default().push(e); }
            lanes.push(m.into_values().collect());
        }
        Search { lanes, seen: HashSet::new(), nodes: 0, limit: 150_000, best: (0, 0), why: vec![], over: false, last: None }
    }
    /// None: an order exists (or the search gave up: `over`)
    pub fn run(&mut self) -> Option<Viol> {
        let st = St { pos: vec![0; self.lanes.first().map(|l| l.len()).unwrap_or(0)], vis: Rc::new(Db::new()), dur: None, tx: BTreeMap::new() };
        if self.go(0, st, 0) { return None; }
        if self.over { return None; }
        let mut w = self.why.clone();
        w.dedup();
        Some(viol("refine", format!("no order of the operations explains the answers; at the furthest point: {}", w.join(" | "))))
    }
    fn note(&mut self, inc: usize, depth: usize, m: String) {
        if (inc, depth) > self.best { self.best = (inc, depth); self.why.clear(); }
        if (inc, depth) == self.best && self.why.len() < 6 && !self.why.contains(&m) { self.why.push(m); }
    }
    fn go(&mut self, inc: usize, st: St, depth: usize) -> bool {
        if inc >= self.lanes.len() { self.last = Some((*st.vis).clone()); return true; }
        if self.over { return false; }
        if !self.seen.insert(st.hash(inc)) { return false; }
        self.nodes += 1;
        if self.nodes > self.limit { self.over = true; return false; }
        let n = self.lanes[inc].len();
        let mut minret = usize::MAX;
        let mut cands: Vec<(usize, usize)> = vec![];
        let mut done = true;
        for l in 0..n {
            if let Some(e) = self.lanes[inc][l].get(st.pos[l] as usize) {
                if let Some((r, _)) = &e.ret { minret = minret.min(*r); done = false; }
                cands.push((e.ret.as_ref().map(|r| r.0).unwrap_or(usize::MAX), l));
            }
        }
        cands.sort();
        for (_, l) in &cands {
            let e: &'a Ev = self.lanes[inc][*l][st.pos[*l] as usize];
            if e.inv > minret { continue; }
            for mut ns in self.step(inc, depth, &st, *l, e) {
                ns.pos[*l] += 1;
                if self.go(inc, ns, depth + 1) { return true; }
            }
        }
        if done {
            // the process ends: what was in progress did not happen, open transactions vanish
            let v = st.dur.clone().unwrap_or_else(|| st.vis.clone());
            let ns = St { pos: vec![0; self.lanes.get(inc + 1).map(|l| l.len()).unwrap_or(0)], vis: v, dur: None, tx: BTreeMap::new() };
            if self.go(inc + 1, ns, 0) { return true; }
        }
        false
    }
    /// a shared transaction is used by somebody else at the same time
    fn overlapped(&self, inc: usize, e: &Ev) -> bool {
        let ret = |e: &Ev| e.ret.as_ref().map(|r| r.0).unwrap_or(usize::MAX);
        self.lanes[inc].iter().flatten().any(|o| o.op.t() == e.op.t() && o.inv != e.inv && o.inv < ret(e) && ret(o) > e.inv)
    }
    fn step(&mut self, inc: usize, depth: usize, st: &St, l: usize, e: &Ev) -> Vec<St> {
        let res = e.res();
        let keep = || vec![st.clone()];
        if matches!(res, Some(Res::Skip)) { return keep(); }
        // a transaction of all the clients
        let shared = e.op.t() >= SHARED;
        let l = if shared { usize::MAX } else { l };
        let slot = (l, e.op.t());
        let pending = res.is_none();
        match &e.op {
            Op::Begin { t } => {
                if pending || res.map(|r| r.is_err()).unwrap_or(false) { return keep(); }
                let mut ns = st.clone();
                ns.tx.insert((l, *t), Ov::new());
                return vec![ns];
            }
            // who still uses a shared transaction goes on in it: an empty one after the rollback
            Op::Abandon { .. } if shared => return keep(),
            Op::Rollback { t } if shared => { let mut ns = st.clone(); ns.tx.insert((l, *t), Ov::new()); return vec![ns]; }
            Op::Rollback { t } | Op::Abandon { t } => { let mut ns = st.clone(); ns.tx.remove(&(l, *t)); return vec![ns]; }
            Op::Commit { t } => {
                let mut ns = st.clone();
                let Some(ov) = ns.tx.remove(&(l, *t)) else {
                    if matches!(res, Some(Res::Ok)) { self.note(inc, depth, format!("{}: the transaction has ended, but is committed again", e.name())); return vec![]; }
                    return vec![ns]
                };
                let mut undone = ns.clone();
                if shared { undone.tx.insert((l, *t), Ov::new()); }
                return match res {
                    Some(Res::RolledBack) => vec![ns],
                    Some(Res::Ok) | None => match commit(&st.vis, &ov, true) {
                        None => { self.note(inc, depth, format!("{}: commit: another commit changed what the transaction wrote or read for its writes", e.name())); vec![] }
                        Some(d) => { if let Some(x) = &ns.dur { ns.dur = Some(Rc::new(commit(x, &ov, false).unwrap())); } ns.vis = Rc::new(d); vec![ns] }
                    },
                    Some(Res::Err(c, _)) if c == "io" => {
                        let mut b = undone.clone();
                        let d = b.dur.clone().unwrap_or_else(|| b.vis.clone());
                        b.dur = Some(Rc::new(commit(&d, &ov, false).unwrap()));
                        vec![undone, b]
                    }
                    Some(Res::Err(c, _)) if c == "lock" => vec![undone],
                    Some(r) => { self.note(inc, depth, format!("{}: commit answered {}", e.name(), r.brief())); vec![] }
                };
            }
            Op::Raw { .. } | Op::Pipe { .. } | Op::Bad { .. } | Op::Cut { .. } | Op::Sleep { .. } | Op::CurOpen { .. } | Op::CurNext { .. } | Op::CurClose { .. } | Op::Open { .. } | Op::CloneDb { .. } | Op::DropDb { .. } | Op::GetCol { .. } => return keep(),
            _ => {}
        }
        if shared && res.map(|r| r.err_class() == "ended").unwrap_or(false) { return keep(); }
        let ov = if e.op.t() != 0 { match st.tx.get(&slot) { Some(o) => Some(o), None => {
            // its transaction has ended
            if is_write(&e.op) && res.map(|r| !r.is_err()).unwrap_or(false) { self.note(inc, depth, format!("{}: {} answered {}, but its transaction has ended", e.name(), brief_op(&e.op), res.unwrap().brief())); return vec![]; }
            return keep()
        } } } else { None };
        if !is_write(&e.op) {
            if pending || shared && self.overlapped(inc, e) { return keep(); }
            let r = res.unwrap();
            if r.err_class() == "io" || r.err_class() == "lock" { return keep(); }
            let ok = model::read(&|n| view(&st.vis, ov, n), &|| {
                let mut v: Vec<String> = st.vis.keys().cloned().collect();
                if let Some(o) = ov { for (n, t) in o { if let Some((_, w)) = &t.whole { v.retain(|x| x != n); if w.is_some() { v.push(n.clone()); } } } }
                v
            }, &norm(&e.op), r);
            return match ok {
                Ok(()) => keep(),
                Err(w) => { self.note(inc, depth, format!("{}: {} answered {}; expected {}", e.name(), brief_op(&e.op), r.brief(), w)); vec![] }
            };
        }
        if pending && e.op.t() != 0 && !shared { return keep(); }
        let op = norm(&e.op);
        let name = op.coll().unwrap_or("").to_string();
        let cur = view(&st.vis, ov, &name);
        match res {
            Some(Res::Err(c, _)) if c == "lock" => return keep(),
            Some(Res::Err(c, _)) if c == "io" => {
                let mut out = keep();
                if e.op.t() == 0 {
                    for o in model::write(cur.as_ref().map(|c| &c.c), &op, None).outs {
                        if o.same { continue; }
                        let mut ov = Ov::new();
                        record(&mut ov, &st.vis, &name, cur.as_ref().map(|c| &c.c), o.coll);
                        let mut b = st.clone();
                        let d = b.dur.clone().unwrap_or_else(|| b.vis.clone());
                        b.dur = Some(Rc::new(commit(&d, &ov, false).unwrap()));
                        out.push(b);
                    }
                }
                return out;
            }
            _ => {}
        }
        let mut vd = model::write(cur.as_ref().map(|c| &c.c), &op, res);
        if let (Op::Update { upsert: true, q, .. }, Some("dup"), true) = (&op, res.map(|r| r.err_class()), e.phase == 1 && self.lanes[inc].len() > 1) {
            // somebody else inserted it between the search and the insert
            if let (Some(c), Some(id)) = (&cur, q.0.get("_id")) { if key_bytes(id).map(|k| c.c.docs.contains_key(&k)).unwrap_or(false) { vd.outs.push(Out { same: true, coll: None }); } }
        }
        if vd.outs.is_empty() {
            self.note(inc, depth, format!("{}: {} answered {}; expected {}", e.name(), brief_op(&e.op), res.map(|r| r.brief()).unwrap_or_default(), vd.want));
        }
        vd.outs.into_iter().map(|o| {
            let mut ns = st.clone();
            if o.same { return ns; }
            let old = cur.as_ref().map(|c| &c.c);
            if e.op.t() != 0 {
                record(ns.tx.get_mut(&slot).unwrap(), &st.vis, &name, old, o.coll);
            } else {
                if let Some(d) = &ns.dur {
                    let mut ov = Ov::new();
                    record(&mut ov, &st.vis, &name, old, o.coll.clone());
                    ns.dur = Some(Rc::new(commit(d, &ov, false).unwrap()));
                }
                let mut d = (*st.vis).clone();
                match o.coll { Some(c) => { d.insert(name.clone(), hc(c)); } None => { d.remove(&name); } }
                ns.vis = Rc::new(d);
            }
            ns
        }).collect()
    }
}
/// the same operation through another handle
pub fn norm(op: &Op) -> Op {
    match op {
        Op::HInsert { c, d, .. } => Op::Insert { c: c.clone(), t: 0, d: d.clone() },
        Op::HFind { c, q, .. } => Op::Find { c: c.clone(), t: 0, q: q.clone(), sort: None, skip: None, limit: None },
        o => o.clone(),
    }
}
pub fn is_write(op: &Op) -> bool { op.is_write() || matches!(op, Op::HInsert { .. }) }
pub fn brief_op(op: &Op) -> String {
    let mut s = format!("{op:?}");
    if s.len() > 400 { let mut e = 400; while !s.is_char_boundary(e) { e -= 1; } s.truncate(e); s += "..."; }
    s
}

/// Lock conflicts need somebody who can hold the lock: another operation or open transaction at the same time.
pub fn unjustified_lock(h: &Hist, faulty: &[bool]) -> Option<Viol> {
    // extents of transactions
    struct Tx { inc: usize, phase: u32, client: u32, t: u32, from: usize, to: usize }
    let mut txs: Vec<Tx> = vec![];
    for e in &h.evs {
        match &e.op {
            Op::Begin { t } => if matches!(e.res(), Some(Res::Ok)) { txs.push(Tx { inc: e.inc, phase: e.phase, client: e.client, t: *t, from: e.inv, to: usize::MAX }) },
            Op::Commit { t } | Op::Rollback { t } | Op::Abandon { t } if !matches!(e.res(), Some(Res::Skip)) => {
                if let Some(x) = txs.iter_mut().rev().find(|x| (x.inc, x.phase, x.t) == (e.inc, e.phase, *t) && (x.client == e.client || x.t >= SHARED) && x.to == usize::MAX) { x.to = e.ret.as_ref().map(|r| r.0).unwrap_or(usize::MAX); }
            }
            _ => {}
        }
    }
    // a cursor keeps its abandoned transaction
    for x in txs.iter_mut().filter(|x| x.to != usize::MAX) {
        let mine = |e: &&Ev| e.inc == x.inc && e.phase == x.phase && (e.client == x.client || x.t >= SHARED);
        if !h.evs.iter().filter(mine).any(|e| matches!(&e.op, Op::Abandon { t } if *t == x.t) && e.ret.as_ref().map(|r| r.0) == Some(x.to)) { continue; }
        if h.evs.iter().filter(mine).any(|e| matches!(&e.op, Op::CurOpen { t, .. } if *t == x.t) && e.inv > x.from && e.inv < x.to) { x.to = usize::MAX; }
    }
    // until its last user is done
    for x in txs.iter_mut().filter(|x| x.t >= SHARED && x.to != usize::MAX) {
        let (inc, phase, t, from, to) = (x.inc, x.phase, x.t, x.from, x.to);
        for e in h.evs.iter().filter(|e| e.inc == inc && e.phase == phase && e.op.t() == t && e.inv > from && e.inv < to) { x.to = x.to.max(e.ret.as_ref().map(|r| r.0).unwrap_or(usize::MAX)); }
    }
    for e in &h.evs {
        if e.res().map(|r| r.err_class() == "lock") != Some(true) { continue; }
        if faulty.get(e.inc) == Some(&true) { continue; }
        let (a, b) = (e.inv, e.ret.as_ref().unwrap().0);
        let other = h.evs.iter().any(|o| o.inc == e.inc && !(o.phase == e.phase && o.client == e.client) && o.inv < b && o.ret.as_ref().map(|r| r.0 > a).unwrap_or(true) && (is_write(&o.op) || matches!(o.op, Op::Commit { .. } | Op::Rollback { .. } | Op::Abandon { .. } | Op::ColInsert { .. })));
        let tx = txs.iter().any(|x| x.inc == e.inc && !(x.phase == e.phase && (x.client == e.client || x.t >= SHARED) && x.t == e.op.t()) && x.from < b && x.to > a);
        if !other && !tx { return Some(viol("leftover-lock", format!("{}: {} got a lock conflict ({}), but nothing else was running", e.name(), brief_op(&e.op), e.res().unwrap().brief()))); }
    }
    None
}
/// operations that took longer than `max_s` virtual seconds
pub fn too_slow(h: &Hist, max_s: i64) -> Option<Viol> {
    for e in &h.evs {
        if e.ret.is_some() && !matches!(e.op, Op::Sleep { .. } | Op::Bad { .. } | Op::Cut { .. }) && e.t1 - e.t0 > max_s * 1_000_000_000 { return Some(viol("slow", format!("{}: {} took {} s of virtual time", e.name(), brief_op(&e.op), (e.t1 - e.t0) / 1_000_000_000))); }
    }
    None
}
pub fn panics(h: &Hist) -> Option<Viol> {
    for (i, r) in &h.opens { if let Some(Res::Err(c, m)) = r { if c == "panic" { return Some(viol("panic", format!("opening in life {i}: {m}"))); } } }
    for e in &h.evs { if let Some(Res::Err(c, m)) = e.res() { if c == "panic" || c == "poison" { return Some(viol("panic", format!("{}: {}: {m}", e.name(), brief_op(&e.op)))); } } }
    if let Some(n) = h.notes.iter().find(|n| n.starts_with("protocol: ")) { return Some(viol("protocol", n[10..].to_string())); }
    if let Some(n) = h.notes.first() { return Some(viol("panic", n.clone())); }
    None
}
/// errors of the storage although nothing was injected
/// RocksDB cannot start its periodic tasks when the clock jumps at that moment
pub fn clock_open(r: &Res, clock: u32) -> bool { clock >= 2 && r.brief().contains("Failed to register periodic task") }
/// Reads a cursor whose transaction has ended before.
fn orphan(h: &Hist, e: &Ev) -> bool {
    let Op::CurNext { cur, .. } = &e.op else { return false };
    let of = |x: &&Ev| x.inc == e.inc && x.phase == e.phase && x.client == e.client && x.inv < e.inv;
    let Some(o) = h.evs.iter().filter(of).filter(|x| matches!(&x.op, Op::CurOpen { cur: c, .. } if c == cur)).last() else { return false };
    let t = o.op.t();
    // or whose failed statement was undone
    if t != 0 && h.evs.iter().filter(of).any(|x| x.inv > o.inv && x.op.t() == t && x.op.is_write() && x.res().map(|r| r.is_err()).unwrap_or(false)) { return true; }
    t != 0 && h.evs.iter().filter(of).any(|x| matches!(&x.op, Op::Commit { t: y } | Op::Rollback { t: y } | Op::Abandon { t: y } if *y == t))
}
pub fn spurious_io(h: &Hist, faulty: &[bool], clock: u32) -> Option<Viol> {
    for (i, r) in &h.opens { if faulty.get(*i) == Some(&true) { continue; } if let Some(r @ Res::Err(..)) = r { if clock_open(r, clock) { continue; } return Some(viol("open", format!("opening the database in life {i} failed: {}", r.brief()))); } }
    for e in &h.evs { if faulty.get(e.inc) == Some(&true) || orphan(h, e) { continue; } if let Some(r) = e.res() { if e.op.t() >= SHARED && r.brief().contains("transaction of the cursor is finished") { continue; } if matches!(r.err_class(), "io" | "closed" | "occupied") && !matches!(e.op, Op::Open { .. } | Op::ColInsert { .. } | Op::ColFind { .. }) { return Some(viol("storage-error", format!("{}: {} failed without an injected fault: {}", e.name(), brief_op(&e.op), r.brief()))); } } }
    None
}

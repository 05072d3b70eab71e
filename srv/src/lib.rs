//! The driver of a simulated server: loaded into the server program, it plays the server's clients.
#[path = "../../harness/exec/src/plan.rs"]
mod plan;
#[path = "../../harness/exec/src/res.rs"]
mod res;
#[path = "../../harness/exec/src/rng.rs"]
mod rng;
#[path = "../../harness/exec/src/sys.rs"]
mod sys;
mod bad;
mod wire;

use bson::{doc, spec::BinarySubtype, Binary, Bson, Document};
use plan::*;
use res::Res;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::panic::catch_unwind;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Mutex, OnceLock};
use wire::{num, op_msg, Conn};

struct Drv { plan: Plan, inc: usize }
static DRV: OnceLock<Drv> = OnceLock::new();
static OPENED: AtomicBool = AtomicBool::new(false);
static OPEN_IDS: Mutex<BTreeSet<i64>> = Mutex::new(BTreeSet::new());

fn rec(d: Document) {
    let mut v = Vec::with_capacity(256);
    d.to_writer(&mut v).unwrap();
    unsafe { sys::ps_hist(v.as_ptr() as *const _, v.len() as u32) }
}
fn base(k: &str, inc: u32, p: u32, c: u32, i: usize) -> Document {
    unsafe { doc! {"k": k, "n": inc as i64, "p": p as i64, "c": c as i64, "i": i as i64, "s": sys::ps_step() as i64, "t": sys::ps_now() as i64} }
}
fn note(m: String) { rec(doc! {"k": "x", "m": m}); }

#[no_mangle]
pub extern "C" fn polosim_start() {
    let mut t = vec![];
    let mut b = [0u8; 65536];
    loop {
        let r = unsafe { libc::pread(901, b.as_mut_ptr() as *mut _, b.len(), t.len() as i64) };
        if r <= 0 { break; }
        t.extend_from_slice(&b[..r as usize]);
    }
    let plan: Plan = match serde_json::from_slice(&t) { Ok(p) => p, Err(e) => { eprintln!("plan: {e}"); unsafe { libc::_exit(95) } } };
    let inc = std::env::var("POLOSIM_INC").ok().and_then(|x| x.parse().ok()).unwrap_or(0);
    let _ = DRV.set(Drv { plan, inc });
    std::thread::Builder::new().name("sim-clients".into()).spawn(|| { if catch_unwind(coordinator).is_err() { unsafe { libc::_exit(94) } } }).unwrap();
}
/// the server's main has returned, or it called exit
#[no_mangle]
pub extern "C" fn polosim_exit(code: i32) {
    let n = DRV.get().map(|d| d.inc as u32).unwrap_or(0);
    if !OPENED.load(Ordering::SeqCst) {
        let mut b = base("O", n, 0, 0, 0);
        b.insert("r", Res::Err("io".into(), format!("the server ended with code {code} instead of serving")).to_doc());
        rec(b);
    } else { note(format!("protocol: the server ended with code {code}")); }
    unsafe { sys::ps_end(sys::EX_OK) }
}
fn coordinator() {
    let d = DRV.get().unwrap();
    let (inc, n) = (&d.plan.incs[d.inc], d.inc as u32);
    rec(base("o", n, 0, 0, 0));
    let t0 = unsafe { sys::ps_now() };
    let r = loop {
        match Conn::open() {
            Ok(c) => { c.close(); break Res::Ok; }
            Err(_) if unsafe { sys::ps_now() } - t0 > 30_000_000_000 => break Res::Err("hang".into(), "the server does not listen after 30 s".into()),
            Err(_) => unsafe { sys::ps_sleep_us(500) },
        }
    };
    OPENED.store(true, Ordering::SeqCst);
    let ok = matches!(r, Res::Ok);
    let mut b = base("O", n, 0, 0, 0);
    b.insert("r", r.to_doc());
    rec(b);
    if ok {
        let mut alive = Client::new(0, 0).all(&inc.setup);
        rec(base("p", n, 1, 0, 0));
        unsafe { sys::ps_phase(1) };
        let mut hs = vec![];
        for (c, ops) in inc.clients.iter().enumerate() {
            if !alive { break; }
            hs.push(std::thread::Builder::new().name(format!("client-{c}")).spawn(move || Client::new(c as u32, 1).all(ops)).unwrap());
        }
        for h in hs { match h.join() { Ok(a) => alive &= a, Err(_) => unsafe { libc::_exit(94) } } }
        rec(base("p", n, 2, 0, 0));
        unsafe { sys::ps_phase(2) };
        if alive { Client::new(0, 2).all(&inc.post); }
        rec(base("p", n, 3, 0, 0));
        unsafe { sys::ps_phase(3) };
    }
    unsafe { sys::ps_end(sys::EX_OK) };
}

struct Txn { lsid: u32, number: i64, begun: bool, bad: bool, conn: usize, roam: bool }
struct Cur { c: String, t: u32, id: i64, buf: VecDeque<Document>, batch: Option<i32>, conn: usize }
struct Client { id: u32, phase: u32, inc: u32, conns: [Option<Conn>; 2], txns: BTreeMap<u32, Txn>, curs: BTreeMap<u32, Cur>, number: i64, dead: bool, salt: u64, draws: u64 }
enum Stop { Dead }
type R<T> = Result<T, Stop>;
/// what a reply is read as
enum Kind { Id(Bson), Ids(Vec<(i64, Bson)>), Upd, Del, Find { c: String, t: u32, batch: Option<i32>, conn: usize, first: Option<i32> }, Cnt, Raw(String) }
struct Sent { conn: usize, id: i32, kind: Kind, txn: u32 }

fn cls(m: &str) -> &'static str {
    let l = m.to_ascii_lowercase();
    if l.contains("rocks db error") {
        if l.contains("resource busy") || l.contains("timed out") || l.contains("deadlock") || l.contains("try again") || l.contains("expired") { "lock" } else { "io" }
    } else if l.contains("already exists") && l.contains("primary key") || l.contains("duplicate key error") { "dup" }
    else if l.contains("io error") { "io" }
    else if l.contains("the database is closed") { "closed" }
    else if l.contains("database busy") { "lock" }
    else if l.contains("poison") { "poison" }
    else if l.contains("panic") { "panic" }
    else { "sem" }
}
fn err_of(d: &Document) -> Option<Res> {
    if num(d.get("ok")) == Some(1) {
        if let Ok(a) = d.get_array("writeErrors") { if let Some(x) = a.first() { let m = x.as_document().and_then(|x| x.get_str("errmsg").ok()).unwrap_or("?"); return Some(Res::Err(cls(m).into(), m.chars().take(200).collect())); } }
        return None;
    }
    let m = d.get_str("errmsg").unwrap_or("?");
    let m = m.split(", backtrace").next().unwrap_or("");
    Some(Res::Err(cls(m).into(), m.chars().take(200).collect()))
}
/// sessions differ in a few bytes, anywhere in the id
fn lsid(client: u32, n: u32) -> Bson {
    let mut b = vec![0x5e, 0x11, 0x52, 0x7a, 1, 2, 0x43, 4, 0x85, 6, 7, 8, 9, 10, 11, 12];
    let s = DRV.get().map(|d| rng::hash(d.plan.seed, 0x1d, 0)).unwrap_or(0);
    let at = *[[0usize, 1, 2], [13, 14, 15], [4, 5, 7], [9, 10, 11], [0, 8, 15], [3, 7, 12]].get((s % 6) as usize).unwrap();
    for (i, x) in at.iter().zip([client as u8, n as u8, (n >> 8) as u8]) { b[*i] = x; }
    Bson::Document(doc! {"id": Binary { subtype: BinarySubtype::Uuid, bytes: b }})
}

impl Client {
    fn new(id: u32, phase: u32) -> Client {
        let d = DRV.get().unwrap();
        Client { id, phase, inc: d.inc as u32, conns: [None, None], txns: BTreeMap::new(), curs: BTreeMap::new(), number: 0, dead: false, salt: rng::hash(d.plan.seed, ((d.inc as u64) << 32) ^ ((phase as u64) << 16) ^ id as u64, 0), draws: 0 }
    }
    fn h(&mut self) -> u64 { self.draws += 1; rng::hash(self.salt, self.draws, 1) }
    fn p(&mut self, percent: u64) -> bool { self.h() % 100 < percent }
    fn die<T>(&mut self, e: wire::Bad) -> R<T> {
        self.dead = true;
        note(format!("protocol: client {}.{}.{}: {}", self.inc, self.phase, self.id, match e { wire::Bad::Refused => "the server refuses connections".to_string(), wire::Bad::Gone(s) | wire::Bad::Proto(s) => s }));
        Err(Stop::Dead)
    }
    fn proto<T>(&mut self, s: String) -> R<T> { self.die(wire::Bad::Proto(s)) }
    fn conn(&mut self, k: usize) -> R<&mut Conn> {
        if self.conns[k].is_none() {
            let how = self.h();
            match Conn::greet(how) { Ok(c) => self.conns[k] = Some(c), Err(e) => return self.die(e) }
        }
        Ok(self.conns[k].as_mut().unwrap())
    }
    fn send(&mut self, k: usize, body: Document, seq: Option<(&str, &[Document])>) -> R<i32> {
        let x = self.h();
        let c = self.conn(k)?;
        let id = c.id();
        let m = op_msg(id, if x % 16 == 0 { 1 } else { 0 }, &body, seq, x % 5 == 1);
        match c.send(&m) { Ok(_) => Ok(id), Err(e) => self.die(e) }
    }
    fn recv(&mut self, k: usize, id: i32) -> R<Document> {
        match self.conns[k].as_mut().unwrap().reply(id) { Ok(d) => Ok(d), Err(e) => self.die(e) }
    }
    fn call(&mut self, k: usize, body: Document, seq: Option<(&str, &[Document])>) -> R<Document> { let id = self.send(k, body, seq)?; self.recv(k, id) }
    fn pick(&mut self) -> usize { if self.p(75) { 0 } else { 1 } }
    /// the session of a command: of its transaction, or one that was used before, or none
    fn session(&mut self, t: u32, d: &mut Document, write: bool) -> usize {
        if t != 0 {
            let x = self.txns.get_mut(&t).unwrap();
            d.insert("lsid", lsid(self.id, x.lsid));
            d.insert("txnNumber", x.number);
            if !x.begun { d.insert("startTransaction", true); x.begun = true; }
            d.insert("autocommit", false);
            let (k, roam) = (x.conn, x.roam);
            return if roam { self.pick() } else { k };
        }
        let n = self.number as u32;
        match self.h() % 8 {
            0 => { let k = 100 + self.h() as u32 % 3; d.insert("lsid", lsid(self.id, k)); }
            1 | 2 if n > 0 => {
                // a session whose transaction has ended
                let busy: Vec<u32> = self.txns.values().map(|x| x.lsid).collect();
                if let Some(k) = (0..3).find(|k| !busy.contains(k)) {
                    d.insert("lsid", lsid(self.id, k));
                    if write && self.p(50) { self.number += 1; d.insert("txnNumber", self.number); }
                }
            }
            _ => {}
        }
        self.pick()
    }
    /// an operation of one request and one reply; None: not sent
    fn prep(&mut self, op: &Op, pipe: bool, on: Option<usize>) -> R<Option<Sent>> {
        use Op::*;
        let t = op.t();
        if t != 0 { match self.txns.get(&t) { Some(x) if !x.bad => {} _ => return Ok(None) } }
        let mut seq: Option<(&str, Vec<Document>)> = None;
        let inbody = self.p(40);
        let mut kind;
        let mut d;
        match op {
            Insert { c, d: x, .. } => { d = doc! {"insert": c, "ordered": true}; seq = Some(("documents", vec![x.0.clone()])); kind = Kind::Id(x.0.get("_id").cloned().unwrap_or(Bson::Null)); }
            InsertMany { c, ds, .. } => {
                d = doc! {"insert": c, "ordered": true};
                kind = Kind::Ids(ds.iter().enumerate().map(|(i, x)| (i as i64, x.0.get("_id").cloned().unwrap_or(Bson::Null))).collect());
                seq = Some(("documents", ds.iter().map(|x| x.0.clone()).collect()));
            }
            Update { c, q, u, many, upsert, .. } => {
                d = doc! {"update": c, "ordered": true};
                let mut s = doc! {"q": q.0.clone(), "u": u.0.clone()};
                if *many || self.p(50) { s.insert("multi", *many); }
                if *upsert || self.p(20) { s.insert("upsert", *upsert); }
                seq = Some(("updates", vec![s]));
                kind = Kind::Upd;
            }
            Delete { c, q, many, .. } => {
                d = doc! {"delete": c, "ordered": true};
                let l = if *many { 0 } else { 1 };
                let l = match self.h() % 3 { 0 => Bson::Int32(l), 1 => Bson::Int64(l as i64), _ => Bson::Int32(l) };
                seq = Some(("deletes", vec![doc! {"q": q.0.clone(), "limit": l}]));
                kind = Kind::Del;
            }
            Find { c, q, sort, skip, limit, .. } => {
                d = doc! {"find": c};
                if !q.0.is_empty() || self.p(50) { d.insert("filter", q.0.clone()); }
                if let Some(s) = sort { d.insert("sort", s.0.clone()); }
                if let Some(s) = skip { d.insert("skip", if self.p(50) { Bson::Int64(*s as i64) } else { Bson::Int32(*s as i32) }); }
                else if self.p(5) { d.insert("skip", 0); }
                let mut batch = match self.h() % 8 { 0 => Some(0), 1 => Some(1), 2 => Some(2), 3 => Some(3), 4 => Some(7), 5 => Some(100), 6 => Some(1000), _ => None };
                if pipe { batch = Some(1_000_000); }
                if let Some(l) = limit { d.insert("limit", if self.p(50) { Bson::Int64(*l as i64) } else { Bson::Int32(*l as i32) }); }
                let single = limit.is_some() && self.p(30);
                if single || self.p(5) { d.insert("singleBatch", single); }
                if let Some(b) = batch { d.insert("batchSize", b); }
                kind = Kind::Find { c: c.clone(), t, batch, conn: 0, first: if single { None } else { batch } };
            }
            FindOne { c, q, .. } => { d = doc! {"find": c, "filter": q.0.clone(), "limit": 1, "singleBatch": true}; kind = Kind::Find { c: c.clone(), t, batch: None, conn: 0, first: None }; }
            Count { c, .. } => { d = doc! {"aggregate": c, "pipeline": [{"$match": {}}, {"$group": {"_id": 1, "n": {"$sum": 1}}}], "cursor": {}}; kind = Kind::Cnt; }
            Agg { c, p, .. } => {
                let mut b = doc! {};
                let batch = if pipe { None } else { match self.h() % 5 { 0 => Some(0), 1 => Some(1), 2 => Some(3), 3 => Some(50), _ => None } };
                if let Some(x) = batch { b.insert("batchSize", x); }
                d = doc! {"aggregate": c, "pipeline": p.iter().map(|x| Bson::Document(x.0.clone())).collect::<Vec<_>>(), "cursor": b};
                kind = Kind::Find { c: c.clone(), t, batch, conn: 0, first: None };
            }
            Raw { d: x, expect } => { d = x.0.clone(); kind = Kind::Raw(expect.clone()); }
            _ => return Ok(None),
        }
        let mut k = 0;
        if !matches!(op, Raw { .. }) { k = self.session(t, &mut d, op.is_write()); }
        if let Some(x) = on { k = x; }
        if !d.contains_key("$db") { d.insert("$db", "db"); }
        if let Kind::Find { conn, .. } = &mut kind { *conn = k; }
        let seq = match seq {
            Some((n, ds)) if inbody => { d.insert(n, ds.into_iter().map(Bson::Document).collect::<Vec<_>>()); None }
            x => x,
        };
        // a request without an answer: nothing may come for it
        if let Kind::Raw(e) = &kind { if e == "none" {
            let c = self.conn(k)?;
            let (a, b) = (c.id(), c.id());
            let m = [op_msg(a, 2, &d, None, false), op_msg(b, 0, &doc! {"ping": 1, "$db": "db"}, None, false)].concat();
            return match c.send(&m) { Ok(_) => Ok(Some(Sent { conn: k, id: b, kind: Kind::Raw("ok".into()), txn: t })), Err(e) => self.die(e) };
        } }
        let id = self.send(k, d, seq.as_ref().map(|(n, v)| (*n, v.as_slice())))?;
        Ok(Some(Sent { conn: k, id, kind, txn: t }))
    }
    fn first_batch(&mut self, d: &Document, key: &str, max: Option<i32>) -> R<(i64, Vec<Document>)> {
        let Ok(c) = d.get_document("cursor") else { return self.proto(format!("a reply without cursor: {d}")) };
        let (Some(Bson::Int64(id)), Ok(b), Ok(_)) = (c.get("id"), c.get_array(key), c.get_str("ns")) else { return self.proto(format!("a malformed cursor: {}", d.to_string().chars().take(300).collect::<String>())) };
        let v: Vec<Document> = b.iter().filter_map(|x| x.as_document().cloned()).collect();
        if v.len() != b.len() { return self.proto("a batch with elements that are not documents".into()); }
        if let Some(m) = max { if v.len() > m as usize && (m > 0 || key == "firstBatch") { return self.proto(format!("a batch of {} documents; at most {m} were asked for", v.len())); } }
        Ok((*id, v))
    }
    fn opened(&mut self, id: i64) -> R<()> {
        if id < 0 { return self.proto(format!("cursor id {id}")); }
        if id != 0 && !OPEN_IDS.lock().unwrap().insert(id) { return self.proto(format!("the new cursor got the id of an open one: {id}")); }
        Ok(())
    }
    fn ended(&mut self, id: i64) { OPEN_IDS.lock().unwrap().remove(&id); }
    /// the next batch of a cursor: documents and whether there may be more
    fn more(&mut self, c: &str, t: u32, k: usize, id: i64, batch: Option<i32>) -> R<Result<(i64, Vec<Document>), Res>> {
        let mut d = doc! {"getMore": id, "collection": c};
        if let Some(b) = batch { if b > 0 { d.insert("batchSize", b); } }
        if t != 0 { if let Some(x) = self.txns.get(&t) { d.insert("lsid", lsid(self.id, x.lsid)); d.insert("txnNumber", x.number); d.insert("autocommit", false); } }
        d.insert("$db", "db");
        let d = self.call(k, d, None)?;
        if let Some(e) = err_of(&d) { return Ok(Err(e)); }
        let (n, v) = self.first_batch(&d, "nextBatch", batch.filter(|b| *b > 0))?;
        if n != 0 && n != id { return self.proto(format!("getMore of cursor {id} answered with cursor {n}")); }
        if n != 0 && v.is_empty() { return self.proto(format!("cursor {id} does not advance")); }
        if n == 0 { self.ended(id); }
        Ok(Ok((n, v)))
    }
    /// a cursor that has ended is not known any more
    fn gone(&mut self, c: &str, k: usize, id: i64) -> R<()> {
        let d = self.call(k, doc! {"getMore": id, "collection": c, "$db": "db"}, None)?;
        if err_of(&d).is_none() && !OPEN_IDS.lock().unwrap().contains(&id) { return self.proto(format!("cursor {id} has ended, but getMore answers {d}")); }
        Ok(())
    }
    fn kill(&mut self, c: &str, k: usize, ids: &[i64]) -> R<()> {
        for i in ids { self.ended(*i); }
        let d = self.call(k, doc! {"killCursors": c, "cursors": ids.to_vec(), "$db": "db"}, None)?;
        if err_of(&d).is_some() { return self.proto(format!("killCursors failed: {d}")); }
        Ok(())
    }
    fn finish(&mut self, s: Sent) -> R<Res> {
        let d = self.recv(s.conn, s.id)?;
        if let Kind::Raw(e) = &s.kind {
            let err = err_of(&d);
            return match (e.as_str(), err) { ("err", None) => self.proto(format!("an error was expected, not {d}")), ("ok", Some(_)) => self.proto(format!("success was expected, not {d}")), (_, Some(e)) => Ok(e), _ => Ok(Res::Ok) };
        }
        if let Some(e) = err_of(&d) { return Ok(e); }
        let n = num(d.get("n"));
        Ok(match s.kind {
            Kind::Id(b) => { if n != Some(1) { return self.proto(format!("an insert of 1 document answered {d}")); } Res::Id(b) }
            Kind::Ids(v) => { if n != Some(v.len() as i64) { return self.proto(format!("an insert of {} documents answered {d}", v.len())); } Res::Ids(v) }
            Kind::Upd => match (n, num(d.get("nModified"))) { (Some(a), Some(b)) => Res::Upd(a, b), _ => return self.proto(format!("an update answered {d}")) },
            Kind::Del => match n { Some(a) => Res::Del(a), _ => return self.proto(format!("a delete answered {d}")) },
            Kind::Cnt => {
                let (id, v) = self.first_batch(&d, "firstBatch", None)?;
                if id != 0 || v.len() > 1 { return self.proto(format!("a count answered {d}")); }
                match v.first() { None => Res::Cnt(0), Some(x) => match num(x.get("n")) { Some(n) => Res::Cnt(n), None => return self.proto(format!("a count answered {d}")) } }
            }
            Kind::Find { c, t, batch, conn, first } => {
                let (mut id, mut v) = self.first_batch(&d, "firstBatch", first)?;
                self.opened(id)?;
                let old = id;
                while id != 0 {
                    match self.more(&c, t, conn, id, batch)? {
                        Ok((n, w)) => { id = n; v.extend(w); }
                        Err(e) => { self.ended(id); return Ok(e); }
                    }
                }
                if old != 0 && self.p(20) { self.gone(&c, conn, old)?; }
                Res::Docs(v)
            }
            Kind::Raw(_) => Res::Ok,
        })
    }
    fn end_txn(&mut self, x: &Txn, what: &str) -> R<Res> {
        if !x.begun { return Ok(Res::Ok); }
        let one = match self.h() % 3 { 0 => Bson::Int64(1), _ => Bson::Int32(1) };
        let d = doc! {what: one, "lsid": lsid(self.id, x.lsid), "txnNumber": x.number, "autocommit": false, "$db": "admin"};
        let d = self.call(x.conn, d, None)?;
        Ok(err_of(&d).unwrap_or(Res::Ok))
    }
    fn run(&mut self, op: &Op) -> R<Res> {
        use Op::*;
        Ok(match op {
            Begin { t } => {
                self.number += 1;
                let busy: Vec<u32> = self.txns.values().map(|x| x.lsid).collect();
                let l = (0..100).find(|k| !busy.contains(k)).unwrap();
                let conn = self.pick();
                let roam = self.p(30);
                self.txns.insert(*t, Txn { lsid: l, number: self.number, begun: false, bad: false, conn, roam });
                Res::Ok
            }
            Commit { t } => match self.txns.remove(t) {
                None => Res::Skip,
                Some(x) if x.bad => { self.end_txn(&x, "abortTransaction")?; Res::RolledBack }
                Some(x) => {
                    let r = self.end_txn(&x, "commitTransaction")?;
                    if r.is_err() { self.end_txn(&x, "abortTransaction")?; }
                    else if x.begun && self.p(10) {
                        // the transaction is over
                        let d = self.call(x.conn, doc! {"find": "c", "lsid": lsid(self.id, x.lsid), "txnNumber": x.number, "autocommit": false, "$db": "db"}, None)?;
                        if err_of(&d).is_none() { return self.proto("a command of a transaction that has been committed succeeded".into()); }
                    }
                    r
                }
            },
            Rollback { t } | Abandon { t } => match self.txns.remove(t) {
                None => Res::Skip,
                Some(mut x) => {
                    // the next transaction of the session ends this one
                    let mut what = "abortTransaction";
                    if x.begun && self.curs.values().all(|c| c.t != *t) && self.p(20) {
                        self.number += 1;
                        x.number = self.number;
                        let d = doc! {"find": "c", "filter": {"_id": "nobody"}, "lsid": lsid(self.id, x.lsid), "txnNumber": x.number, "startTransaction": true, "autocommit": false, "$db": "db"};
                        let d = self.call(x.conn, d, None)?;
                        if let Some(e) = err_of(&d) { return Ok(e); }
                        if self.p(60) { what = "commitTransaction"; }
                    }
                    self.end_txn(&x, what)?
                }
            },
            CurOpen { cur, c, t, q, sort } => {
                if *t != 0 { match self.txns.get(t) { Some(x) if !x.bad => {} _ => return Ok(Res::Skip) } }
                let mut d = doc! {"find": c, "filter": q.0.clone()};
                if let Some(s) = sort { d.insert("sort", s.0.clone()); }
                let batch = match self.h() % 7 { 0 => Some(0), 1 => Some(1), 2 => Some(2), 3 => Some(3), 4 => Some(5), 5 => Some(40), _ => None };
                if let Some(b) = batch { d.insert("batchSize", b); }
                let k = self.session(*t, &mut d, false);
                d.insert("$db", "db");
                let d = self.call(k, d, None)?;
                if let Some(e) = err_of(&d) { return Ok(e); }
                let (id, v) = self.first_batch(&d, "firstBatch", batch)?;
                self.opened(id)?;
                self.curs.insert(*cur, Cur { c: c.clone(), t: *t, id, buf: v.into(), batch, conn: k });
                Res::Ok
            }
            CurNext { cur, n } => {
                let Some(mut x) = self.curs.remove(cur) else { return Ok(Res::Skip) };
                let mut v = vec![];
                let mut end = false;
                while v.len() < *n as usize {
                    if let Some(d) = x.buf.pop_front() { v.push(d); continue; }
                    if x.id == 0 { end = true; break; }
                    match self.more(&x.c, x.t, x.conn, x.id, x.batch)? {
                        Ok((id, w)) => { if id == 0 && self.p(20) { let old = x.id; self.gone(&x.c.clone(), x.conn, old)?; } x.id = id; x.buf = w.into(); }
                        Err(e) => { let id = x.id; self.ended(id); self.kill(&x.c.clone(), x.conn, &[id])?; return Ok(e); }
                    }
                }
                self.curs.insert(*cur, x);
                Res::Next(v, end)
            }
            CurClose { cur } => match self.curs.remove(cur) {
                None => Res::Skip,
                Some(x) => {
                    if x.id != 0 { self.kill(&x.c, x.conn, &[x.id])?; if self.p(50) { self.gone(&x.c, x.conn, x.id)?; } }
                    Res::Ok
                }
            },
            Sleep { us } => { unsafe { sys::ps_sleep_us(*us as u64) }; Res::Ok }
            Bad { kind, seed } => { bad::bad(*kind, *seed); Res::Ok }
            Cut { c, d, at, how } => { let h = self.h(); bad::cut(c, &d.0, *at, *how, h); Res::Ok }
            Pipe { .. } => Res::Ok,
            Raw { d, expect } if expect == "big" => { self.big(&d.0)?; Res::Ok }
            Raw { d, expect } if expect == "scn" => {
                match d.0.get_str("k").unwrap_or("") { "cursors" => self.many_cursors(&d.0)?, "kill" => self.kill_race(&d.0)?, "sessions" => self.many_sessions(&d.0)?, _ => self.many_statements(&d.0)? }
                Res::Ok
            }
            _ => match self.prep(op, false, None)? { Some(s) => self.finish(s)?, None => Res::Skip },
        })
    }
    /// more data than one message holds, in a collection of its own
    fn big(&mut self, d: &Document) -> R<()> {
        let g = |k: &str| num(d.get(k)).unwrap_or(1) as usize;
        let (m, n, s) = (g("m"), g("n"), g("s"));
        let c = format!("big{}-{}", self.id, self.phase);
        let k = self.pick();
        let size = |i: usize| s.saturating_sub(i % 7);
        for j in 0..m {
            let ds: Vec<Document> = (j * n..j * n + n).map(|i| doc! {"_id": i as i32, "p": "q".repeat(size(i))}).collect();
            let r = self.call(k, doc! {"insert": &c, "ordered": true, "$db": "db"}, Some(("documents", &ds)))?;
            if err_of(&r).is_some() || num(r.get("n")) != Some(n as i64) { return self.proto(format!("an insert of {n} documents of {s} bytes answered {r}")); }
        }
        for way in 0..2 {
            let batch = match self.h() % 4 { 0 => Some(3), 1 => Some(50), 2 => Some(1000), _ => None };
            let mut q = if way == 0 { doc! {"find": &c, "filter": {}} } else { doc! {"aggregate": &c, "pipeline": [{"$match": {}}], "cursor": {}} };
            if way == 0 { if let Some(b) = batch { q.insert("batchSize", b); } }
            q.insert("$db", "db");
            let r = self.call(k, q, None)?;
            if let Some(e) = err_of(&r) { return self.proto(format!("reading large documents failed: {e:?}")); }
            let (mut id, mut v) = self.first_batch(&r, "firstBatch", if way == 0 { batch } else { None })?;
            self.opened(id)?;
            while id != 0 {
                match self.more(&c, 0, k, id, batch)? { Ok((x, w)) => { id = x; v.extend(w); } Err(e) => return self.proto(format!("reading large documents failed: {e:?}")) }
            }
            let mut ids: Vec<i32> = v.iter().filter_map(|x| x.get_i32("_id").ok()).collect();
            ids.sort();
            if ids != (0..(m * n) as i32).collect::<Vec<_>>() { return self.proto(format!("{} of {} large documents were found", v.len(), m * n)); }
            if v.iter().any(|x| x.get_str("p").map(|p| p.len()).ok() != Some(size(x.get_i32("_id").unwrap() as usize))) { return self.proto("a large document differs".into()); }
        }
        let r = self.call(k, doc! {"delete": &c, "deletes": [{"q": {}, "limit": 0}], "$db": "db"}, None)?;
        if num(r.get("n")) != Some((m * n) as i64) { return self.proto(format!("a delete of {} large documents answered {r}", m * n)); }
        Ok(())
    }
    fn own(&self, what: &str) -> String { format!("{what}{}-{}", self.id, self.phase) }
    fn fill(&mut self, k: usize, c: &str, n: usize) -> R<()> {
        let ds: Vec<Document> = (0..n as i32).map(|i| doc! {"_id": i, "o": 900, "g": i % 3}).collect();
        let r = self.call(k, doc! {"insert": c, "ordered": true, "$db": "db"}, Some(("documents", &ds)))?;
        if err_of(&r).is_some() || num(r.get("n")) != Some(n as i64) { return self.proto(format!("an insert of {n} documents into a collection of its own answered {r}")); }
        Ok(())
    }
    fn empty(&mut self, k: usize, c: &str, n: usize) -> R<()> {
        let r = self.call(k, doc! {"delete": c, "deletes": [{"q": {}, "limit": 0}], "$db": "db"}, None)?;
        if num(r.get("n")) != Some(n as i64) { return self.proto(format!("a delete of all {n} documents answered {r}")); }
        Ok(())
    }
    /// many open cursors, each of which is read to its end in turn with the others, or killed
    fn many_cursors(&mut self, d: &Document) -> R<()> {
        let g = |k: &str| num(d.get(k)).unwrap_or(1) as usize;
        let (n, docs) = (g("n"), g("docs"));
        let c = self.own("cur");
        let k = self.pick();
        self.fill(k, &c, docs)?;
        // (id, remainder of g or 3 for all, what was read)
        let mut open: Vec<(i64, i32, Vec<i32>)> = vec![];
        for _ in 0..n {
            let m = (self.h() % 4) as i32;
            let f = if m == 3 { doc! {} } else { doc! {"g": m} };
            let b = (self.h() % 3) as i32;
            let r = self.call(k, doc! {"find": &c, "filter": f, "batchSize": b, "$db": "db"}, None)?;
            if let Some(e) = err_of(&r) { return self.proto(format!("opening a cursor failed: {e:?}")); }
            let (id, v) = self.first_batch(&r, "firstBatch", Some(b))?;
            self.opened(id)?;
            open.push((id, m, v.iter().filter_map(|x| x.get_i32("_id").ok()).collect()));
        }
        let mut live: Vec<usize> = (0..n).collect();
        while !live.is_empty() {
            let at = match self.h() % 3 { 0 => 0, 1 => live.len() - 1, _ => self.h() as usize % live.len() };
            let i = live[at];
            let (id, m) = (open[i].0, open[i].1);
            if id != 0 && self.p(4) {
                // alone, or together with others
                let mut ids = vec![id];
                if self.p(50) { for j in &live { if *j != i && open[*j].0 != 0 && ids.len() < 5 && self.p(30) { ids.push(open[*j].0); } } }
                self.kill(&c, k, &ids)?;
                for x in &ids { self.gone(&c, k, *x)?; }
                live.retain(|j| !ids.contains(&open[*j].0));
                continue;
            }
            if id != 0 {
                let b = [1, 1, 2, 50][(self.h() % 4) as usize];
                let (id, v) = match self.more(&c, 0, k, id, Some(b))? { Ok(x) => x, Err(e) => return self.proto(format!("reading cursor {id}, one of {n}, failed: {e:?}")) };
                open[i].0 = id;
                open[i].2.extend(v.iter().filter_map(|x| x.get_i32("_id").ok()));
            }
            if open[i].0 == 0 {
                let want: Vec<i32> = (0..docs as i32).filter(|x| m == 3 || x % 3 == m).collect();
                if open[i].2 != want { return self.proto(format!("a cursor, one of {n}, returned {:?} instead of {want:?}", open[i].2)); }
                live.remove(at);
            }
        }
        self.empty(k, &c, docs)
    }
    /// a cursor is killed while it is being read
    fn kill_race(&mut self, d: &Document) -> R<()> {
        let g = |k: &str| num(d.get(k)).unwrap_or(1) as usize;
        let (n, docs) = (g("n"), g("docs"));
        let c = self.own("kill");
        self.fill(0, &c, docs)?;
        for _ in 0..n {
            let r = self.call(0, doc! {"find": &c, "filter": {}, "batchSize": 1, "$db": "db"}, None)?;
            if let Some(e) = err_of(&r) { return self.proto(format!("opening a cursor failed: {e:?}")); }
            let (id, _) = self.first_batch(&r, "firstBatch", Some(1))?;
            if id == 0 { return self.proto("a cursor has ended before its second document".into()); }
            self.opened(id)?;
            let b = if self.p(50) { (docs / 2) as i32 } else { 1 };
            self.conn(1)?;
            let a = self.send(0, doc! {"getMore": id, "collection": &c, "batchSize": b, "$db": "db"}, None)?;
            if self.p(70) { let us = self.h() % (1 << (self.h() % 12)); unsafe { sys::ps_sleep_us(us) }; }
            self.ended(id);
            let z = self.send(1, doc! {"killCursors": &c, "cursors": [id], "$db": "db"}, None)?;
            let (ra, rz) = if self.p(50) { let x = self.recv(0, a)?; (x, self.recv(1, z)?) } else { let y = self.recv(1, z)?; (self.recv(0, a)?, y) };
            if let Some(e) = err_of(&rz) { return self.proto(format!("killCursors failed: {e:?}")); }
            if err_of(&ra).is_none() {
                let (_, v) = self.first_batch(&ra, "nextBatch", Some(b))?;
                let v: Vec<i32> = v.iter().filter_map(|x| x.get_i32("_id").ok()).collect();
                if v != (1..1 + b).collect::<Vec<i32>>() { return self.proto(format!("the second batch of a cursor, of {b} documents, is {v:?}")); }
            }
            let k = self.pick();
            self.gone(&c, k, id)?;
        }
        self.empty(0, &c, docs)
    }
    /// many sessions with a transaction each
    fn many_sessions(&mut self, d: &Document) -> R<()> {
        let n = num(d.get("n")).unwrap_or(1) as i32;
        let c = self.own("ses");
        self.fill(0, &c, 1)?;
        let mut s: Vec<(i32, i64, i32)> = vec![];    // session, number, next step
        for i in 0..n { self.number += 1; s.push((i, self.number, 0)); }
        let mut kept = 1;
        while !s.is_empty() {
            let at = self.h() as usize % s.len();
            let (i, number, step) = s[at];
            let k = self.pick();
            let name = |mut d: Document, cl: u32| { d.insert("lsid", lsid(cl, 200 + i as u32)); d.insert("txnNumber", number); d.insert("autocommit", false); if step == 0 { d.insert("startTransaction", true); } d.insert("$db", "db"); d };
            match step {
                0 | 1 => {
                    let id = 1000 + i * 2 + step;
                    let r = self.call(k, name(doc! {"insert": &c, "documents": [{"_id": id, "o": 900}]}, self.id), None)?;
                    if let Some(e) = err_of(&r) { return self.proto(format!("an insert in session {i} of {n} failed: {e:?}")); }
                }
                2 => {
                    // its own documents, and none of the others' that are not committed
                    let r = self.call(k, name(doc! {"find": &c, "filter": {"_id": {"$in": [1000 + i * 2, 1001 + i * 2]}}, "batchSize": 100}, self.id), None)?;
                    if let Some(e) = err_of(&r) { return self.proto(format!("a find in session {i} of {n} failed: {e:?}")); }
                    let (_, v) = self.first_batch(&r, "firstBatch", None)?;
                    if v.len() != 2 { return self.proto(format!("session {i} of {n} finds {} of its 2 documents", v.len())); }
                    let r = self.call(k, doc! {"find": &c, "filter": {"_id": {"$in": [1000 + i * 2, 1001 + i * 2]}}, "batchSize": 100, "$db": "db"}, None)?;
                    let (_, v) = self.first_batch(&r, "firstBatch", None)?;
                    if !v.is_empty() { return self.proto(format!("documents of the open transaction of session {i} of {n} are visible outside")); }
                }
                _ => {
                    let commit = self.p(60);
                    let what = if commit { "commitTransaction" } else { "abortTransaction" };
                    let r = self.call(k, name(doc! {what: 1}, self.id), None)?;
                    if let Some(e) = err_of(&r) { return self.proto(format!("{what} in session {i} of {n} failed: {e:?}")); }
                    let r = self.call(k, doc! {"find": &c, "filter": {"_id": {"$in": [1000 + i * 2, 1001 + i * 2]}}, "batchSize": 100, "$db": "db"}, None)?;
                    let (_, v) = self.first_batch(&r, "firstBatch", None)?;
                    if v.len() != if commit { 2 } else { 0 } { return self.proto(format!("{} documents of session {i} of {n} are there after {what}", v.len())); }
                    if commit { kept += 2; }
                    s.remove(at);
                    continue;
                }
            }
            s[at].2 += 1;
        }
        self.empty(0, &c, kept as usize)
    }
    /// requests with many statements
    fn many_statements(&mut self, d: &Document) -> R<()> {
        let n = num(d.get("n")).unwrap_or(1) as i32;
        let c = self.own("sta");
        let k = self.pick();
        self.fill(k, &c, n as usize)?;
        let mut v = std::collections::BTreeMap::<i32, i32>::new();
        for _ in 0..4 {
            let m = 1 + (self.h() % (2 * n as u64)) as i32;
            let mut want = 0;
            let mut st = vec![];
            for _ in 0..m {
                let i = (self.h() % n as u64) as i32;
                if self.p(70) { st.push(doc! {"q": {"_id": i}, "u": {"$inc": {"v": 1}}, "multi": false}); *v.entry(i).or_default() += 1; want += 1; }
                else { st.push(doc! {"q": {"g": i % 3}, "u": {"$inc": {"v": 2}}, "multi": true}); for j in 0..n { if j % 3 == i % 3 { *v.entry(j).or_default() += 2; want += 1; } } }
            }
            let r = if self.p(50) { self.call(k, doc! {"update": &c, "$db": "db"}, Some(("updates", &st)))? } else { self.call(k, doc! {"update": &c, "updates": st, "$db": "db"}, None)? };
            if num(r.get("n")) != Some(want) || num(r.get("nModified")) != Some(want) { return self.proto(format!("{m} statements that update {want} documents answered {r}")); }
        }
        let r = self.call(k, doc! {"find": &c, "filter": {}, "batchSize": 100_000, "$db": "db"}, None)?;
        let (_, w) = self.first_batch(&r, "firstBatch", None)?;
        for x in &w { let i = x.get_i32("_id").unwrap_or(-1); if num(x.get("v")).unwrap_or(0) != *v.get(&i).unwrap_or(&0) as i64 { return self.proto(format!("document {x} has not been updated {} times", v.get(&i).unwrap_or(&0))); } }
        if w.len() != n as usize { return self.proto(format!("{} of {n} documents are there", w.len())); }
        let half: Vec<Document> = (0..n / 2).map(|i| doc! {"q": {"_id": i}, "limit": 1}).collect();
        let r = self.call(k, doc! {"delete": &c, "$db": "db"}, Some(("deletes", &half)))?;
        if num(r.get("n")) != Some((n / 2) as i64) { return self.proto(format!("{} deletes answered {r}", n / 2)); }
        self.empty(k, &c, (n - n / 2) as usize)
    }
    fn bad_txn(&mut self, t: u32, r: &Res) { if t != 0 && r.is_err() && !DRV.get().unwrap().plan.note.get("cont").and_then(|x| x.as_bool()).unwrap_or(false) { if let Some(x) = self.txns.get_mut(&t) { x.bad = true; } } }
    fn begin(&mut self, i: usize, op: &Op, implied: bool) {
        let mut b = base("i", self.inc, self.phase, self.id, i);
        if implied { b.insert("x", op.t() as i64); }
        rec(b);
        unsafe { sys::ps_point() };
    }
    fn end(&mut self, i: usize, r: Res) { let mut b = base("r", self.inc, self.phase, self.id, i); b.insert("r", r.to_doc()); rec(b); }
    fn step(&mut self, i: usize, op: &Op, implied: bool) -> R<()> {
        self.begin(i, op, implied);
        let r = self.run(op)?;
        if !matches!(op, Op::Begin { .. } | Op::Commit { .. } | Op::Rollback { .. } | Op::Abandon { .. } | Op::CurNext { .. }) { self.bad_txn(op.t(), &r); }
        self.end(i, r);
        Ok(())
    }
    fn steps(&mut self, ops: &[Op]) -> R<()> {
        let mut i = 0;
        while i < ops.len() {
            let Op::Pipe { n } = &ops[i] else { self.step(i, &ops[i], false)?; i += 1; continue };
            self.step(i, &ops[i], false)?;
            i += 1;
            let k = self.pick();
            let mut out = vec![];
            while i < ops.len() && out.len() < *n as usize && ops[i].t() == 0 {
                use Op::*;
                if !matches!(ops[i], Insert { .. } | InsertMany { .. } | Update { .. } | Delete { .. } | Find { .. } | FindOne { .. } | Count { .. } | Agg { .. } | Raw { .. }) { break; }
                if let Raw { expect, .. } = &ops[i] { if expect == "big" || expect == "scn" { break; } }
                self.begin(i, &ops[i], false);
                let s = self.prep(&ops[i], true, Some(k))?;
                out.push((i, s));
                i += 1;
            }
            for (j, s) in out { let r = match s { Some(s) => self.finish(s)?, None => Res::Skip }; self.end(j, r); }
        }
        Ok(())
    }
    /// false: the client lost its server
    fn all(mut self, ops: &[Op]) -> bool {
        let _ = self.steps(ops);
        if !self.dead {
            let left: Vec<u32> = self.txns.keys().copied().collect();
            for (j, t) in left.into_iter().enumerate() { if self.step(ops.len() + j, &Op::Abandon { t }, true).is_err() { break; } }
        }
        if !self.dead {
            let cs: Vec<(String, usize, i64)> = std::mem::take(&mut self.curs).into_values().filter(|x| x.id != 0).map(|x| (x.c, x.conn, x.id)).collect();
            for (c, k, id) in cs { if self.kill(&c, k, &[id]).is_err() { break; } }
        }
        // nothing is left over on the connections
        if !self.dead { for k in 0..2 { if let Some(c) = &mut self.conns[k] { let _ = c.pull(0); if c.buffered() > 0 { let n = c.buffered(); let _ = self.proto::<()>(format!("{n} bytes nobody asked for")); break; } } } }
        for k in 0..2 { if let Some(c) = self.conns[k].take() { if self.p(50) { unsafe { sys::ps_net_shut(c.c) }; } c.close(); } }
        !self.dead
    }
}

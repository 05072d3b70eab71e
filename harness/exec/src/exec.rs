//! Execution of one incarnation (one process life) of a plan, inside the simulation.
use crate::plan::*;
use crate::res::Res;
use crate::sys;
use bson::{doc, Bson, Document};
use polodb_core::options::UpdateOptions;
use polodb_core::{ClientCursor, Collection, CollectionT, Database, Error, IndexModel, IndexOptions, Transaction};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};

pub const DBPATH: &str = "/polosim/db";
thread_local! { static PANIC: RefCell<Option<String>> = RefCell::new(None); }

pub fn last_panic() -> String { PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default() }
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() { s.to_string() } else if let Some(s) = i.payload().downcast_ref::<String>() { s.clone() } else { "?".into() };
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = PANIC.try_with(|p| *p.borrow_mut() = Some(format!("{m} at {l}")));
    }));
}
fn cls(e: &Error) -> (&'static str, String) {
    let m = e.to_string();
    let m: String = m.split(", backtrace").next().unwrap_or("").chars().take(300).collect();
    let c = match e {
        Error::DuplicateKey(_) | Error::DataExist(_) => "dup",
        Error::CollectionAlreadyExits(_) => "exists",
        Error::RocksDbErr(s) => {
            let l = s.to_ascii_lowercase();
            if l.contains("resource busy") || l.contains("timed out") || l.contains("deadlock") || l.contains("try again") || l.contains("expired") { "lock" } else if l.contains("has already been committed") { "ended" } else { "io" }
        }
        Error::DbIsClosed => "closed",
        Error::NoTransactionStarted => "ended",
        Error::Busy => "lock",
        Error::IOErr(_) => "io",
        Error::DatabaseOccupied => "occupied",
        Error::LockError => "poison",
        Error::Multiple(v) => { return (v.first().map(|e| cls(e).0).unwrap_or("sem"), m); }
        _ => "sem",
    };
    (c, m)
}
fn er(e: Error) -> Res { let (c, m) = cls(&e); Res::Err(c.into(), m) }

#[derive(serde::Serialize, serde::Deserialize)]
#[allow(dead_code)]
struct Narrow { n: i32 }
struct Txn { t: Transaction, bad: bool }
/// transactions from here on belong to all the clients
pub const SHARED: u32 = 1000;
pub struct World { pub cont: bool, /* the place of an ended transaction is free when nobody uses it any more */ pub shared: Mutex<BTreeMap<u32, (Option<Transaction>, Arc<()>)>>, pub db: Option<Database>, pub handles: Mutex<BTreeMap<u32, Database>>, pub cols: Mutex<BTreeMap<u32, Collection<Document>>> }
struct Client { id: u32, phase: u32, inc: u32, db: Option<Database>, w: Arc<World>, txns: BTreeMap<u32, Txn>, curs: BTreeMap<u32, ClientCursor<Document>>, it: bool }

pub fn rec(d: Document) {
    let mut v = Vec::with_capacity(256);
    d.to_writer(&mut v).unwrap();
    unsafe { sys::ps_hist(v.as_ptr() as *const _, v.len() as u32) }
}
fn base(k: &str, inc: u32, p: u32, c: u32, i: usize) -> Document {
    unsafe { doc! {"k": k, "n": inc as i64, "p": p as i64, "c": c as i64, "i": i as i64, "s": sys::ps_step() as i64, "t": sys::ps_now() as i64} }
}
macro_rules! on {
    ($self:ident, $c:expr, $t:expr, $col:ident => $body:expr) => {
        if $t == 0 {
            let Some(db) = &$self.db else { return Res::Skip };
            let $col = db.collection::<Document>($c);
            $body
        } else if $t >= SHARED {
            let x = $self.w.shared.lock().unwrap().get(&$t).cloned();
            match x { Some((Some(x), _used)) => { let $col = x.collection::<Document>($c); drop(x); $body } _ => Res::Skip }
        } else {
            match $self.txns.get(&$t) {
                Some(x) if !x.bad => { let $col = x.t.collection::<Document>($c); $body }
                _ => Res::Skip,
            }
        }
    };
}
/// every third operation reads its cursor as an iterator
fn collect(mut cur: ClientCursor<Document>, it: bool) -> Res {
    let mut v = vec![];
    if it {
        for x in cur { match x { Ok(d) => v.push(d), Err(e) => return er(e) } }
        return Res::Docs(v);
    }
    loop {
        match cur.advance() {
            Ok(false) => return Res::Docs(v),
            Ok(true) => match cur.deserialize_current() { Ok(d) => v.push(d), Err(e) => return er(e) },
            Err(e) => return er(e),
        }
    }
}
fn q_run<C: CollectionT<Document>>(col: &C, q: &D, sort: &Option<D>, skip: &Option<u64>, limit: &Option<u64>) -> Result<ClientCursor<Document>, Error> {
    let mut f = col.find(q.0.clone());
    if let Some(s) = skip { f = f.skip(*s); }
    if let Some(s) = limit { f = f.limit(*s); }
    if let Some(s) = sort { f = f.sort(s.0.clone()); }
    f.run()
}
impl Client {
    fn run(&mut self, op: &Op) -> Res {
        use Op::*;
        let r = self.run1(op);
        if op.t() != 0 && r.is_err() && !self.w.cont && !matches!(op, Begin { .. } | Commit { .. } | Rollback { .. }) {
            if let Some(x) = self.txns.get_mut(&op.t()) { x.bad = true; }
        }
        r
    }
    fn run1(&mut self, op: &Op) -> Res {
        use Op::*;
        match op {
            Insert { c, t, d } => on!(self, c, *t, col => match col.insert_one(d.0.clone()) { Ok(r) => Res::Id(r.inserted_id), Err(e) => er(e) }),
            InsertMany { c, t, ds } => on!(self, c, *t, col => match col.insert_many(ds.iter().map(|d| d.0.clone()).collect::<Vec<_>>()) {
                Ok(r) => { let mut v: Vec<(i64, Bson)> = r.inserted_ids.into_iter().map(|(k, b)| (k as i64, b)).collect(); v.sort_by_key(|x| x.0); Res::Ids(v) }
                Err(e) => er(e) }),
            Update { c, t, q, u, many, upsert } => on!(self, c, *t, col => {
                let (q, u) = (q.0.clone(), u.0.clone());
                let r = match (*many, *upsert) {
                    (false, false) => col.update_one(q, u),
                    (true, false) => col.update_many(q, u),
                    (false, true) => col.update_one_with_options(q, u, UpdateOptions::builder().upsert(true).build()),
                    (true, true) => col.update_many_with_options(q, u, UpdateOptions::builder().upsert(true).build()),
                };
                match r { Ok(r) => Res::Upd(r.matched_count as i64, r.modified_count as i64), Err(e) => er(e) }
            }),
            Delete { c, t, q, many } => on!(self, c, *t, col => {
                let r = if *many { col.delete_many(q.0.clone()) } else { col.delete_one(q.0.clone()) };
                match r { Ok(r) => Res::Del(r.deleted_count as i64), Err(e) => er(e) }
            }),
            Find { c, t, q, sort, skip, limit } => on!(self, c, *t, col => match q_run(&col, q, sort, skip, limit) { Ok(cur) => collect(cur, self.it), Err(e) => er(e) }),
            FindOne { c, t, q } => on!(self, c, *t, col => match col.find_one(q.0.clone()) { Ok(x) => Res::Docs(x.into_iter().collect()), Err(e) => er(e) }),
            Typed { c, t, q } => {
                let mut n = 0;
                macro_rules! go { ($col:expr) => { match $col.find(q.0.clone()).run() {
                    Ok(cur) => {
                        for x in cur { match x { Ok(_) | Err(Error::BsonDeErr(_)) => n += 1, Err(e) => return er(e) } }
                        Res::Cnt(n)
                    }
                    Err(e) => er(e),
                } } }
                let shared = if *t >= SHARED { self.w.shared.lock().unwrap().get(t).cloned() } else { None };
                let (shared, _used) = match shared { Some((x, u)) => (x, Some(u)), None => (None, None) };
                match (*t, &self.db, self.txns.get(t), shared) {
                    (0, Some(db), ..) => go!(db.collection::<Narrow>(c)),
                    (_, _, Some(x), _) if !x.bad => go!(x.t.collection::<Narrow>(c)),
                    (_, _, _, Some(x)) => { let col = x.collection::<Narrow>(c); drop(x); go!(col) }
                    _ => Res::Skip,
                }
            }
            Count { c, t } => on!(self, c, *t, col => match col.count_documents() { Ok(n) => Res::Cnt(n as i64), Err(e) => er(e) }),
            Agg { c, t, p } => on!(self, c, *t, col => match col.aggregate(p.iter().map(|d| d.0.clone()).collect::<Vec<_>>()).run() { Ok(cur) => collect(cur, self.it), Err(e) => er(e) }),
            Sweep { c, t, f, vs } => on!(self, c, *t, col => {
                let mut out = vec![];
                for v in vs {
                    match col.find(doc! {f.as_str(): v.0.clone()}).run() {
                        Ok(cur) => match collect(cur, self.it) { Res::Docs(d) => out.push(d), e => return e },
                        Err(e) => return er(e),
                    }
                }
                Res::Sweep(out)
            }),
            CreateCol { c } => match &self.db { Some(db) => match db.create_collection(c) { Ok(_) => Res::Ok, Err(e) => er(e) }, None => Res::Skip },
            List {} => match &self.db { Some(db) => match db.list_collection_names() { Ok(mut v) => { v.sort(); Res::Names(v) } Err(e) => er(e) }, None => Res::Skip },
            DropCol { c, t } => on!(self, c, *t, col => match col.drop() { Ok(_) => Res::Ok, Err(e) => er(e) }),
            CreateIndex { c, t, key, unique, name } => on!(self, c, *t, col => {
                let options = if *unique || name.is_some() { Some(IndexOptions { name: name.clone(), unique: if *unique { Some(true) } else { None } }) } else { None };
                match col.create_index(IndexModel { keys: doc! {key.as_str(): 1}, options }) { Ok(_) => Res::Ok, Err(e) => er(e) }
            }),
            DropIndex { c, t, name } => on!(self, c, *t, col => match col.drop_index(name) { Ok(_) => Res::Ok, Err(e) => er(e) }),
            Begin { t } if *t >= SHARED => match &self.db {
                Some(db) => {
                    let mut m = self.w.shared.lock().unwrap();
                    if m.get(t).map(|(x, u)| x.is_some() || Arc::strong_count(u) > 1).unwrap_or(false) { return Res::Skip; }
                    match db.start_transaction() { Ok(x) => { m.insert(*t, (Some(x), Arc::new(()))); Res::Ok } Err(e) => er(e) }
                }
                None => Res::Skip,
            },
            Commit { t } | Rollback { t } | Abandon { t } if *t >= SHARED => {
                // the place stays taken until the transaction has ended
                let x = self.w.shared.lock().unwrap().get_mut(t).and_then(|(x, u)| x.take().map(|x| (x, u.clone())));
                let Some((x, _used)) = x else { return Res::Skip };
                match op {
                    Commit { .. } => match x.commit() { Ok(_) => Res::Ok, Err(e) => { let _ = x.rollback(); er(e) } },
                    Rollback { .. } => match x.rollback() { Ok(_) => Res::Ok, Err(e) => er(e) },
                    _ => { drop(x); Res::Ok }
                }
            }
            Begin { t } => match &self.db {
                Some(db) => match db.start_transaction() { Ok(x) => { self.txns.insert(*t, Txn { t: x, bad: false }); Res::Ok } Err(e) => er(e) },
                None => Res::Skip,
            },
            Commit { t } => match self.txns.remove(t) {
                None => Res::Skip,
                Some(x) if x.bad => { let _ = x.t.rollback(); Res::RolledBack }
                Some(x) => match x.t.commit() {
                    // the caller still has it
                    Ok(_) => { if self.w.cont { self.txns.insert(*t, x); } Res::Ok }
                    Err(e) => { let _ = x.t.rollback(); er(e) }
                },
            },
            Rollback { t } => match self.txns.remove(t) { None => Res::Skip, Some(x) => match x.t.rollback() { Ok(_) => Res::Ok, Err(e) => er(e) } },
            Abandon { t } => match self.txns.remove(t) { None => Res::Skip, Some(x) => { drop(x); Res::Ok } },
            CurOpen { cur, c, t, q, sort } => {
                let x = on!(self, c, *t, col => match q_run(&col, q, sort, &None, &None) { Ok(cu) => { self.curs.insert(*cur, cu); Res::Ok } Err(e) => er(e) });
                x
            }
            CurNext { cur, n } => match self.curs.get_mut(cur) {
                None => Res::Skip,
                Some(x) => {
                    let mut v = vec![];
                    for _ in 0..*n {
                        if self.it {
                            match x.next() { Some(Ok(d)) => v.push(d), None => return Res::Next(v, true), Some(Err(e)) => return er(e) }
                            continue;
                        }
                        match x.advance() {
                            Ok(true) => match x.deserialize_current() { Ok(d) => v.push(d), Err(e) => return er(e) },
                            Ok(false) => return Res::Next(v, true),
                            Err(e) => return er(e),
                        }
                    }
                    Res::Next(v, false)
                }
            },
            CurClose { cur } => match self.curs.remove(cur) { None => Res::Skip, Some(x) => { drop(x); Res::Ok } },
            Raw { .. } | Pipe { .. } | Bad { .. } | Cut { .. } => Res::Skip,
            Sleep { us } => { unsafe { sys::ps_sleep_us(*us as u64) }; Res::Ok }
            Open { h } => match Database::open_path(DBPATH) {
                Ok(d) => { let old = self.w.handles.lock().unwrap().insert(*h, d); drop(old); Res::Ok }
                Err(e) => er(e),
            },
            CloneDb { h, to } => {
                let x = self.w.handles.lock().unwrap().get(h).cloned();
                match x { Some(d) => { let old = self.w.handles.lock().unwrap().insert(*to, d); drop(old); Res::Ok } None => Res::Skip }
            }
            DropDb { h } => { let x = self.w.handles.lock().unwrap().remove(h); match x { Some(d) => { drop(d); Res::Ok } None => Res::Skip } }
            GetCol { h, k, c } => {
                let x = self.w.handles.lock().unwrap().get(h).map(|d| d.collection::<Document>(c));
                match x { Some(col) => { self.w.cols.lock().unwrap().insert(*k, col); Res::Ok } None => Res::Skip }
            }
            ColInsert { k, d } => {
                let x = self.w.cols.lock().unwrap().remove(k);
                match x {
                    Some(col) => { let r = match col.insert_one(d.0.clone()) { Ok(r) => Res::Id(r.inserted_id), Err(e) => er(e) }; self.w.cols.lock().unwrap().insert(*k, col); r }
                    None => Res::Skip,
                }
            }
            ColFind { k, q } => {
                let x = self.w.cols.lock().unwrap().remove(k);
                match x {
                    Some(col) => { let r = match col.find(q.0.clone()).run() { Ok(cur) => collect(cur, self.it), Err(e) => er(e) }; self.w.cols.lock().unwrap().insert(*k, col); r }
                    None => Res::Skip,
                }
            }
            HInsert { h, c, d } => {
                let x = self.w.handles.lock().unwrap().remove(h);
                match x {
                    Some(db) => { let r = match db.collection::<Document>(c).insert_one(d.0.clone()) { Ok(r) => Res::Id(r.inserted_id), Err(e) => er(e) }; self.w.handles.lock().unwrap().insert(*h, db); r }
                    None => Res::Skip,
                }
            }
            HFind { h, c, q } => {
                let x = self.w.handles.lock().unwrap().remove(h);
                match x {
                    Some(db) => { let r = match db.collection::<Document>(c).find(q.0.clone()).run() { Ok(cur) => collect(cur, self.it), Err(e) => er(e) }; self.w.handles.lock().unwrap().insert(*h, db); r }
                    None => Res::Skip,
                }
            }
        }
    }
    fn step(&mut self, i: usize, op: &Op, implied: bool) {
        let mut b = base("i", self.inc, self.phase, self.id, i);
        if implied { b.insert("x", bson::to_bson(&op.t()).unwrap()); }
        rec(b);
        unsafe { sys::ps_point() };
        self.it = (i + self.id as usize) % 3 == 1;
        let r = match catch_unwind(AssertUnwindSafe(|| self.run(op))) {
            Ok(r) => r,
            Err(_) => { let m = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default(); Res::Err("panic".into(), m) }
        };
        let mut b = base("r", self.inc, self.phase, self.id, i);
        b.insert("r", r.to_doc());
        rec(b);
    }
    fn all(&mut self, ops: &[Op]) {
        for (i, op) in ops.iter().enumerate() { self.step(i, op, false); }
        // what is left open in the end is dropped: cursors first, then transactions without commit or rollback
        let r = catch_unwind(AssertUnwindSafe(|| { self.curs.clear(); }));
        if r.is_err() { rec(doc! {"k": "x", "m": "panic while dropping cursors"}); }
        let left: Vec<u32> = self.txns.keys().copied().collect();
        for (j, t) in left.into_iter().enumerate() { self.step(ops.len() + j, &Op::Abandon { t }, true); }
        self.db = None;
    }
}
fn client(w: &Arc<World>, db: Option<Database>, inc: u32, phase: u32, id: u32) -> Client {
    Client { id, phase, inc, db, w: w.clone(), txns: BTreeMap::new(), curs: BTreeMap::new(), it: false }
}
/// Runs one incarnation and leaves the process.
pub fn run_inc(plan: &Plan, k: usize) -> ! {
    let inc = &plan.incs[k];
    let n = k as u32;
    unsafe { sys::ps_begin() };
    let cont = plan.note.get("cont").and_then(|x| x.as_bool()).unwrap_or(false);
    let mut w = World { cont, shared: Mutex::new(BTreeMap::new()), db: None, handles: Mutex::new(BTreeMap::new()), cols: Mutex::new(BTreeMap::new()) };
    if !inc.manual {
        rec(base("o", n, 0, 0, 0));
        let r = match catch_unwind(|| Database::open_path(DBPATH)) {
            Ok(Ok(d)) => { w.db = Some(d); Res::Ok }
            Ok(Err(e)) => er(e),
            Err(_) => Res::Err("panic".into(), PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default()),
        };
        let mut b = base("O", n, 0, 0, 0);
        b.insert("r", r.to_doc());
        rec(b);
        if w.db.is_none() { unsafe { sys::ps_end(sys::EX_OK) } unreachable!(); }
    }
    let db = w.db.take();
    let w = Arc::new(w);
    client(&w, db.clone(), n, 0, 0).all(&inc.setup);
    rec(base("p", n, 1, 0, 0));
    unsafe { sys::ps_phase(1) };
    if inc.clients.len() == 1 {
        client(&w, db.clone(), n, 1, 0).all(&inc.clients[0]);
    } else if !inc.clients.is_empty() {
        let mut hs = vec![];
        for (c, ops) in inc.clients.iter().enumerate() {
            let (w, db, ops) = (w.clone(), db.clone(), ops.clone());
            hs.push(std::thread::spawn(move || client(&w, db, n, 1, c as u32).all(&ops)));
        }
        for h in hs { if h.join().is_err() { rec(doc! {"k": "x", "m": "client thread panicked"}); } }
    }
    let left: Vec<u32> = w.shared.lock().unwrap().iter().filter(|x| x.1.0.is_some()).map(|x| *x.0).collect();
    for (j, t) in left.into_iter().enumerate() { client(&w, db.clone(), n, 1, 0).step(1_000_000 + j, &Op::Abandon { t }, true); }
    rec(base("p", n, 2, 0, 0));
    unsafe { sys::ps_phase(2) };
    client(&w, db.clone(), n, 2, 0).all(&inc.post);
    rec(base("p", n, 3, 0, 0));
    unsafe { sys::ps_phase(3) };
    if inc.close {
        let r = catch_unwind(AssertUnwindSafe(move || { drop(db); w.cols.lock().unwrap().clear(); let hs = std::mem::take(&mut *w.handles.lock().unwrap()); drop(hs); }));
        if r.is_err() { rec(doc! {"k": "x", "m": format!("panic while closing: {}", PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default())}); }
        rec(base("c", n, 3, 0, 0));
    } else {
        std::mem::forget(db);
    }
    unsafe { sys::ps_end(sys::EX_OK) };
    unreachable!()
}

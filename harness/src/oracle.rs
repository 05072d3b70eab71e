//! Oracles over the history besides the refinement search.
use crate::check::{brief_op, viol, Ev, Hist, Viol};
use crate::model::{self, key_bytes, Key};
use bson::{doc, Bson, Document};
use polosim_exec::plan::{Op, Plan};
use polosim_exec::res::Res;
use std::collections::{BTreeMap, BTreeSet};

fn no_id(d: &Document) -> bool { matches!(d.get("_id"), None | Some(Bson::Null)) }
/// generated ids are fresh: never reported twice, of type ObjectId, and never the reason of a duplicate
pub fn fresh_ids(h: &Hist) -> Option<Viol> {
    let mut seen: BTreeMap<Key, String> = BTreeMap::new();
    for e in &h.evs {
        let mut got: Vec<Bson> = vec![];
        match (&e.op, e.res()) {
            (Op::Insert { d, .. } | Op::ColInsert { d, .. } | Op::HInsert { d, .. }, Some(Res::Id(b))) if no_id(&d.0) => got.push(b.clone()),
            (Op::InsertMany { ds, .. }, Some(Res::Ids(v))) => for (i, b) in v { if ds.get(*i as usize).map(|d| no_id(&d.0)).unwrap_or(false) { got.push(b.clone()); } },
            _ => {}
        }
        for b in got {
            if !matches!(b, Bson::ObjectId(_)) { return Some(viol("refine", format!("{}: the generated _id is {b}", e.name()))); }
            let k = key_bytes(&b).unwrap();
            if let Some(o) = seen.insert(k, e.name()) { return Some(viol("id-collision", format!("{} and {} both got the generated _id {b}", o, e.name()))); }
        }
    }
    None
}

#[derive(Clone)]
struct W { inv: usize, ret: usize, sure: bool, d: Option<Document>, open: usize }
/// the committed versions of every document: (life, collection, id) -> writes
struct Versions { m: BTreeMap<(String, Key), Vec<W>>, dels: Vec<(usize, String, Document)> }
fn single_id(q: &Document) -> Option<Bson> { match q.get("_id") { Some(Bson::Document(_)) | None => None, Some(b) => Some(b.clone()) } }
/// Only for the cursor profile: every write but those marked `many` names its document and writes all of g and v.
fn versions(h: &Hist, inc: usize) -> Versions {
    let mut m: BTreeMap<(String, Key), Vec<W>> = BTreeMap::new();
    // documents before this life are written at time 0 by the lives before: the profile has only one life with writes
    let mut txw: BTreeMap<(u32, u32, u32), Vec<(usize, String, Key, Option<Document>, bool)>> = BTreeMap::new();
    for e in h.evs.iter().filter(|e| e.inc == inc) {
        let (inv, ret) = (e.inv, e.ret.as_ref().map(|r| r.0).unwrap_or(usize::MAX));
        let mut ws: Vec<(String, Key, Option<Document>)> = vec![];
        match (&e.op, e.res()) {
            (Op::Insert { c, d, .. }, None | Some(Res::Id(_))) => ws.push((c.clone(), key_bytes(d.0.get("_id").unwrap()).unwrap(), Some(d.0.clone()))),
            (Op::InsertMany { c, ds, .. }, None | Some(Res::Ids(_))) => for d in ds { ws.push((c.clone(), key_bytes(d.0.get("_id").unwrap()).unwrap(), Some(d.0.clone()))); },
            (Op::Update { c, q, u, many: false, .. }, r) if matches!(r, None | Some(Res::Upd(1, _))) => if let Some(id) = single_id(&q.0) {
                let mut d = u.0.get_document("$set").cloned().unwrap_or_default();
                d.insert("_id", id.clone());
                // the profile never changes `o`, which follows from the id
                if let Some(i) = model::num_i64(Some(&id)) { d.insert("o", (i % 3) as i32); }
                ws.push((c.clone(), key_bytes(&id).unwrap(), Some(d)));
            },
            (Op::Delete { c, q, many: false, .. }, r) if matches!(r, None | Some(Res::Del(1))) => if let Some(id) = single_id(&q.0) { ws.push((c.clone(), key_bytes(&id).unwrap(), None)); },
            _ => {}
        }
        let key = (e.phase, e.client, e.op.t());
        if e.op.t() == 0 { for (c, k, d) in ws { m.entry((c, k)).or_default().push(W { inv, ret, sure: e.ret.is_some(), d, open: inv }); } }
        else {
            for (c, k, d) in ws { txw.entry(key).or_default().push((e.inv, c, k, d, e.ret.is_some())); }
            match &e.op {
                Op::Commit { .. } => {
                    let l = txw.remove(&key).unwrap_or_default();
                    if matches!(e.res(), None | Some(Res::Ok)) {
                        let mut last: BTreeMap<(String, Key), (usize, Option<Document>)> = BTreeMap::new();
                        for (i, c, k, d, _) in l {
                            // what a `$set` leaves alone comes from what the transaction wrote before
                            let d = match (last.get(&(c.clone(), k.clone())), d) { (Some((_, Some(w))), Some(d)) => { let mut w = w.clone(); w.extend(d); Some(w) } (_, d) => d };
                            last.insert((c, k), (i, d));
                        }
                        for ((c, k), (i, d)) in last { m.entry((c, k)).or_default().push(W { inv, ret, sure: e.ret.is_some(), d, open: i }); }
                    }
                }
                Op::Rollback { .. } | Op::Abandon { .. } | Op::Begin { .. } => { txw.remove(&key); }
                _ => {}
            }
        }
    }
    // deletes of many documents: (when, collection, query)
    let dels = h.evs.iter().filter(|e| e.inc == inc).filter_map(|e| match (&e.op, e.res()) { (Op::Delete { c, q, many: true, .. }, None | Some(Res::Del(1..))) => Some((e.inv, c.clone(), q.0.clone())), _ => None }).collect();
    Versions { m, dels }
}
impl Versions {
    /// versions that may have been the committed one at some moment of [a, b] (`a` is the moment the asking operation began); the bool: absence is possible too
    fn candidates(&self, k: &(String, Key), a: usize, b: usize) -> (Vec<&W>, bool) {
        let Some(ws) = self.m.get(k) else { return (vec![], true) };
        let over = |w_ret: usize| ws.iter().any(|x| x.sure && x.inv > w_ret && x.ret < a);
        let c: Vec<&W> = ws.iter().filter(|w| w.inv < b && !over(w.ret)).collect();
        let gone = self.dels.iter().any(|(i, c, q)| *i != a && *i < b && *c == k.0 && ws.iter().any(|w| w.inv < b && w.d.as_ref().map(|d| model::matches(d, q, true) != Ok(false)).unwrap_or(false)));
        let absent = gone || !over(0) && !ws.iter().any(|x| x.sure && x.ret < a) || c.iter().any(|w| w.d.is_none());
        (c, absent)
    }
}
fn same_version(w: &Document, d: &Document) -> bool { w.iter().all(|(k, v)| k == "k" || d.get(k) == Some(v)) }
/// Cursors and multi-document writes that run while others write.
pub fn cursors(h: &Hist) -> Option<Viol> {
    let incs: BTreeSet<usize> = h.evs.iter().map(|e| e.inc).collect();
    for inc in incs {
        let vs = versions(h, inc);
        // cursors
        let mut cur: BTreeMap<(u32, u32, u32), (&Ev, Vec<(Document, usize)>, bool, usize)> = BTreeMap::new();
        let mut done = vec![];
        for e in h.evs.iter().filter(|e| e.inc == inc) {
            match &e.op {
                Op::CurOpen { cur: n, .. } if matches!(e.res(), Some(Res::Ok)) => { cur.insert((e.phase, e.client, *n), (e, vec![], false, e.ret.as_ref().unwrap().0)); }
                Op::CurNext { cur: n, .. } => if let Some(x) = cur.get_mut(&(e.phase, e.client, *n)) {
                    if let Some((r, Res::Next(ds, end))) = &e.ret { for d in ds { x.1.push((d.clone(), *r)); } x.2 |= *end; x.3 = *r; }
                },
                Op::CurClose { cur: n } => if let Some(x) = cur.remove(&(e.phase, e.client, *n)) { done.push(x); },
                // a find is a cursor that is read at once
                Op::Find { q, sort, skip: None, limit: None, c, t: 0 } => if let Some((r, Res::Docs(ds))) = &e.ret { let _ = (q, sort, c); done.push((e, ds.iter().map(|d| (d.clone(), *r)).collect(), true, *r)); },
                _ => {}
            }
        }
        done.extend(cur.into_values());
        for (o, docs, end, last) in done {
            let (c, q, sort, t) = match &o.op { Op::CurOpen { c, q, sort, t, .. } => (c, &q.0, sort, *t), Op::Find { c, q, sort, t, .. } => (c, &q.0, sort, *t), _ => continue };
            if t != 0 {
                // a cursor of a transaction: what it read before the transaction wrote or ended
                let until = h.evs.iter().filter(|e| e.inc == inc && e.phase == o.phase && e.client == o.client && e.inv > o.inv && (e.op.is_write() && e.op.t() == t || matches!(&e.op, Op::Commit { t: x } | Op::Rollback { t: x } | Op::Abandon { t: x } if *x == t))).map(|e| e.inv).min().unwrap_or(usize::MAX);
                let mut seen = BTreeSet::new();
                for (d, _) in docs.iter().filter(|x| x.1 < until) {
                    if !seen.insert(key_bytes(d.get("_id").unwrap_or(&Bson::Null)).unwrap_or_default()) { return Some(viol("cursor", format!("{}: {} returned the document {} twice", o.name(), brief_op(&o.op), d))); }
                    if model::matches(d, q, true) != Ok(true) { return Some(viol("cursor", format!("{}: {} returned a document that does not match: {}", o.name(), brief_op(&o.op), d))); }
                }
                continue;
            }
            let mut seen = BTreeSet::new();
            for (d, r) in &docs {
                let id = key_bytes(d.get("_id").unwrap_or(&Bson::Null)).unwrap_or_default();
                if !seen.insert(id.clone()) { return Some(viol("cursor", format!("{}: {} returned the document {} twice", o.name(), brief_op(&o.op), d))); }
                if model::matches(d, q, true) != Ok(true) { return Some(viol("cursor", format!("{}: {} returned a document that does not match: {}", o.name(), brief_op(&o.op), d))); }
                let (cand, _) = vs.candidates(&(c.clone(), id), o.inv, *r);
                if !cand.iter().any(|w| w.d.as_ref().map(|w| same_version(w, d)).unwrap_or(false)) {
                    return Some(viol("cursor", format!("{}: {} returned {}, which was not committed at any moment of its life", o.name(), brief_op(&o.op), d)));
                }
            }
            if let Some(s) = sort {
                for w in docs.windows(2) {
                    if model::sort_docs_cmp(&w[0].0, &w[1].0, &s.0) == Ok(std::cmp::Ordering::Greater) { return Some(viol("cursor", format!("{}: {} returned {} before {}", o.name(), brief_op(&o.op), w[0].0, w[1].0))); }
                }
            }
            if end {
                for (k, ws) in vs.m.iter().filter(|(k, _)| k.0 == *c) {
                    if seen.contains(&k.1) { continue; }
                    let _ = ws;
                    let (cand, absent) = vs.candidates(k, o.inv, last);
                    if !absent && !cand.is_empty() && cand.iter().all(|w| w.d.as_ref().map(|d| model::matches(d, q, true) == Ok(true)).unwrap_or(false)) {
                        return Some(viol("cursor", format!("{}: {} missed the document {}, which matched all the time", o.name(), brief_op(&o.op), cand[0].d.as_ref().unwrap())));
                    }
                }
            }
        }
        // multi-document updates {$inc: {k: 1}} and deletes
        let many: Vec<&Ev> = h.evs.iter().filter(|e| e.inc == inc && e.phase == 1 && matches!(&e.op, Op::Update { many: true, .. } | Op::Delete { many: true, .. })).collect();
        if many.is_empty() { continue; }
        // final state: the last Find of everything in the post phase
        let Some(fin) = h.evs.iter().rev().find(|e| e.inc == inc && e.phase == 2 && matches!(&e.op, Op::Find { q, .. } if q.0.is_empty()) && matches!(e.res(), Some(Res::Docs(_)))) else { continue };
        let Some(Res::Docs(fd)) = fin.res() else { continue };
        let fc = fin.op.coll().unwrap();
        let mut lo: BTreeMap<Key, (i64, i64)> = BTreeMap::new();
        for e in &many {
            let (c, q) = match &e.op { Op::Update { c, q, .. } | Op::Delete { c, q, .. } => (c, &q.0), _ => continue };
            if c != fc { continue; }
            let del = matches!(e.op, Op::Delete { .. });
            let (a, b) = (e.inv, e.ret.as_ref().map(|r| r.0).unwrap_or(usize::MAX));
            let (mut must, mut may) = (0i64, 0i64);
            let ok = matches!(e.res(), Some(Res::Upd(..) | Res::Del(..)));
            let failed = matches!(e.res(), Some(Res::Err(..) | Res::Skip));
            for k in vs.m.keys().filter(|k| k.0 == *c) {
                let (cand, absent) = vs.candidates(k, a, b);
                let m = |w: &&W| w.d.as_ref().map(|d| model::matches(d, q, true) == Ok(true)).unwrap_or(false);
                let all = !absent && !cand.is_empty() && cand.iter().all(m);
                let any = cand.iter().any(m);
                if all { must += 1; }
                if any { may += 1; }
                if del {
                    if ok && all && vs.m[k].iter().all(|w| w.ret < a || w.d.is_none()) && fd.iter().any(|d| key_bytes(d.get("_id").unwrap()).ok().as_ref() == Some(&k.1)) {
                        return Some(viol("cursor", format!("{}: {} left a document that matched all the time: {}", e.name(), brief_op(&e.op), cand[0].d.as_ref().unwrap())));
                    }
                } else if !failed {
                    let x = lo.entry(k.1.clone()).or_default();
                    if all && ok { x.0 += 1; }
                    if any { x.1 += 1; }
                }
            }
            let n = match e.res() { Some(Res::Upd(m, n)) => { if m != n { return Some(viol("cursor", format!("{}: {} matched {m} but modified {n}", e.name(), brief_op(&e.op)))); } Some(*m) } Some(Res::Del(n)) => Some(*n), _ => None };
            if let Some(n) = n { if n < must || n > may { return Some(viol("cursor", format!("{}: {} reported {n} documents; between {must} and {may} matched", e.name(), brief_op(&e.op)))); } }
        }
        let dels: Vec<&&Ev> = many.iter().filter(|e| matches!(e.op, Op::Delete { .. })).collect();
        for (k, ws) in vs.m.iter().filter(|(k, _)| k.0 == *fc) {
            let f = fd.iter().find(|d| key_bytes(d.get("_id").unwrap()).ok().as_ref() == Some(&k.1));
            // never written by anybody after the setup: present unless a delete may have matched it
            if ws.len() == 1 && ws[0].d.is_some() && ws[0].sure {
                let (l, m) = lo.get(&k.1).copied().unwrap_or((0, 0));
                match f {
                    Some(d) => {
                        let n = model::num_i64(d.get("k")).unwrap_or(0) - model::num_i64(ws[0].d.as_ref().unwrap().get("k")).unwrap_or(0);
                        if n < l || n > m { return Some(viol("cursor", format!("{d} was touched {n} times by multi-document updates; expected between {l} and {m}"))); }
                    }
                    None => {
                        let d = ws[0].d.as_ref().unwrap();
                        if !dels.iter().any(|e| matches!(&e.op, Op::Delete { q, .. } if model::matches(d, &q.0, true) == Ok(true))) { return Some(viol("cursor", format!("{d} vanished, although no delete matched it"))); }
                    }
                }
            } else if let Some(d) = f {
                // inserted once, then only updated: k counts the touches too
                if ws.iter().filter(|w| w.d.as_ref().map(|d| d.contains_key("k")).unwrap_or(false)).count() == 1 && ws.iter().all(|w| w.d.is_some()) {
                    let n = model::num_i64(d.get("k")).unwrap_or(0);
                    let (l, m) = lo.get(&k.1).copied().unwrap_or((0, 0));
                    if n < l || n > m { return Some(viol("cursor", format!("{d} was touched {n} times by multi-document updates; expected between {l} and {m}"))); }
                }
            }
        }
    }
    None
}

/// One owner of the path.
pub fn lifecycle(_plan: &Plan, h: &Hist) -> Option<Viol> {
    let incs: BTreeSet<usize> = h.evs.iter().map(|e| e.inc).collect();
    for inc in incs {
        let evs: Vec<&Ev> = h.evs.iter().filter(|e| e.inc == inc).collect();
        // life spans of handles: (surely from, surely until, possibly from, possibly until)
        struct Hd { slot: u32, from: usize, pfrom: usize, until: usize, puntil: usize, root: usize }
        let mut hs: Vec<Hd> = vec![];
        for e in &evs {
            let (a, b) = (e.inv, e.ret.as_ref().map(|r| r.0).unwrap_or(usize::MAX));
            let ok = matches!(e.res(), Some(Res::Ok));
            let close = |hs: &mut Vec<Hd>, slot: u32| { if let Some(x) = hs.iter_mut().rev().find(|x| x.slot == slot && x.until == usize::MAX) { x.until = a; x.puntil = b; } };
            match &e.op {
                Op::Open { h: s } if ok => { close(&mut hs, *s); hs.push(Hd { slot: *s, from: b, pfrom: a, until: usize::MAX, puntil: usize::MAX, root: a }); }
                Op::CloneDb { h: s, to } if ok => { if s != to {
                    let root = hs.iter().rev().find(|x| x.slot == *s && x.until == usize::MAX).map(|x| x.root).unwrap_or(0);
                    close(&mut hs, *to); hs.push(Hd { slot: *to, from: b, pfrom: a, until: usize::MAX, puntil: usize::MAX, root });
                } }
                Op::DropDb { h: s } if ok => close(&mut hs, *s),
                _ => {}
            }
        }
        // a handle is owned by one client, but a drop and a slot reuse by the owner are ordered: spans of a slot never overlap
        for e in &evs {
            let (a, b) = (e.inv, e.ret.as_ref().map(|r| r.0).unwrap_or(usize::MAX));
            if let Op::Open { h: s } = &e.op {
                match e.res() {
                    Some(Res::Ok) => if let Some(x) = hs.iter().find(|x| x.from < a && x.until > b && !(x.slot == *s && x.pfrom == a)) {
                        return Some(viol("two-owners", format!("{}: opening the path succeeded although handle {} was open", e.name(), x.slot)));
                    },
                    Some(r @ Res::Err(..)) => {
                        let just = hs.iter().any(|x| x.pfrom < b && x.puntil > a) || evs.iter().any(|o| !std::ptr::eq(*o, *e) && matches!(o.op, Op::Open { .. }) && o.inv < b && o.ret.as_ref().map(|r| r.0).unwrap_or(usize::MAX) > a)
                            // an operation in progress through a collection keeps the database open
                            || evs.iter().any(|o| matches!(o.op, Op::ColInsert { .. } | Op::ColFind { .. }) && o.inv < b && o.ret.as_ref().map(|r| r.0).unwrap_or(usize::MAX) > a);
                        if !just && !crate::check::clock_open(r, _plan.cfg.clock_mode as u32) { return Some(viol("open", format!("{}: opening the path failed although nothing has it open: {}", e.name(), r.brief()))); }
                    }
                    _ => {}
                }
            }
        }
        // collection handles: (client, k) -> root of the database they belong to
        let mut cols: BTreeMap<u32, usize> = BTreeMap::new();
        for e in &evs {
            let (a, b) = (e.inv, e.ret.as_ref().map(|r| r.0).unwrap_or(usize::MAX));
            match &e.op {
                Op::GetCol { h: s, k, .. } if matches!(e.res(), Some(Res::Ok)) => { if let Some(x) = hs.iter().find(|x| x.slot == *s && x.pfrom < a && x.until > a) { cols.insert(*k, x.root); } }
                Op::ColInsert { k, .. } | Op::ColFind { k, .. } => if let (Some(root), Some(r)) = (cols.get(k), e.res()) {
                    let surely = hs.iter().any(|x| x.root == *root && x.from < a && x.until > b);
                    let possibly = hs.iter().any(|x| x.root == *root && x.pfrom < b && x.puntil > a)
                        || evs.iter().any(|o| !std::ptr::eq(*o, *e) && matches!(&o.op, Op::ColInsert { k: k2, .. } | Op::ColFind { k: k2, .. } if cols.get(k2) == Some(root)) && o.inv < b && o.ret.as_ref().map(|r| r.0).unwrap_or(usize::MAX) > a);
                    match r {
                        Res::Err(c, _) if c == "closed" => if surely { return Some(viol("open", format!("{}: {} reports a closed database, but it is open", e.name(), brief_op(&e.op)))); },
                        Res::Err(c, _) if c == "lock" || c == "dup" => {}
                        Res::Err(..) => return Some(viol("storage-error", format!("{}: {} answered {}", e.name(), brief_op(&e.op), r.brief()))),
                        Res::Skip => {}
                        _ => if !possibly { return Some(viol("two-owners", format!("{}: {} worked after the database was closed: {}", e.name(), brief_op(&e.op), r.brief()))); },
                    }
                },
                _ => {}
            }
        }
    }
    None
}
/// For the refinement search: operations through collection handles as plain ones.
pub fn rewrite(h: &mut Hist) {
    let mut cols: BTreeMap<(usize, u32), String> = BTreeMap::new();
    for e in h.evs.iter_mut() {
        match e.op.clone() {
            Op::GetCol { k, c, .. } if matches!(e.res(), Some(Res::Ok)) => { cols.insert((e.inc, k), c); }
            Op::ColInsert { k, d } => if let Some(c) = cols.get(&(e.inc, k)) {
                if e.res().map(|r| r.err_class() == "closed") == Some(true) { e.ret.as_mut().unwrap().1 = Res::Skip; }
                e.op = Op::Insert { c: c.clone(), t: 0, d };
            },
            Op::ColFind { k, q } => if let Some(c) = cols.get(&(e.inc, k)) {
                if e.res().map(|r| r.err_class() == "closed") == Some(true) { e.ret.as_mut().unwrap().1 = Res::Skip; }
                e.op = Op::Find { c: c.clone(), t: 0, q, sort: None, skip: None, limit: None };
            },
            _ => {}
        }
    }
    let _ = doc! {};
}

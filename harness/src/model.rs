//! The reference model: the documented sequential behaviour of the database, on plain in-memory maps.
use bson::{doc, Bson, Document};
use polosim_exec::plan::Op;
use polosim_exec::res::Res;
use std::cmp::Ordering;
use std::collections::BTreeMap;
use std::rc::Rc;

pub type Key = Vec<u8>;
/// class of the error an operation has to report
#[derive(Clone, Debug, PartialEq)]
pub struct Er(pub &'static str, pub String);
pub type R<T> = Result<T, Er>;
fn sem<T>(m: impl Into<String>) -> R<T> { Err(Er("sem", m.into())) }
fn dup<T>(m: impl Into<String>) -> R<T> { Err(Er("dup", m.into())) }

fn h64(b: &[u8]) -> u64 { polosim_exec::rng::mix(b.iter().fold(0xcbf29ce484222325u64, |h, x| (h ^ *x as u64).wrapping_mul(0x100000001b3))) }
pub fn doc_hash(d: &Document) -> u64 {
    let mut s = 0u64;
    for (k, v) in d {
        let mut b = Vec::new();
        let mut one = Document::new();
        one.insert(k.clone(), v.clone());
        one.to_writer(&mut b).unwrap();
        s = s.wrapping_add(h64(&b));
    }
    s
}
#[derive(Debug)]
pub struct Dc { pub d: Document, pub h: u64, pub id: Key }
pub type Rd = Rc<Dc>;
pub fn mk(d: Document) -> R<Rd> {
    let id = key_bytes(d.get("_id").unwrap_or(&Bson::Null))?;
    let h = doc_hash(&d);
    Ok(Rc::new(Dc { d, h, id }))
}
#[derive(Clone, Debug, PartialEq)]
pub struct Idx { pub name: String, pub field: String, pub unique: bool }
#[derive(Clone, Debug, Default)]
pub struct Coll { pub docs: BTreeMap<Key, Rd>, pub idx: Vec<Idx> }
impl Coll {
    pub fn hash(&self) -> u64 {
        let mut s = 1u64;
        for (k, d) in &self.docs { s = s.wrapping_add(polosim_exec::rng::mix(h64(k) ^ d.h)); }
        for i in &self.idx { s = s.wrapping_add(h64(format!("{i:?}").as_bytes())); }
        s
    }
    /// an index whose uniqueness the contents violate
    pub fn broken_unique(&self) -> Option<String> {
        for i in self.idx.iter().filter(|i| i.unique) {
            let mut seen = BTreeMap::new();
            for d in self.docs.values() {
                if let Ok(Some(k)) = idx_key(&d.d, &i.field) { if seen.insert(k, ()).is_some() { return Some(i.name.clone()); } }
            }
        }
        None
    }
}
/// a collection with its hash
#[derive(Debug)]
pub struct Hc { pub c: Coll, pub h: u64 }
pub fn hc(c: Coll) -> Rc<Hc> { let h = c.hash(); Rc::new(Hc { c, h }) }
pub type Db = BTreeMap<String, Rc<Hc>>;
pub fn db_hash(d: &Db) -> u64 { d.iter().fold(7u64, |a, (k, c)| a.wrapping_add(polosim_exec::rng::mix(h64(k.as_bytes()) ^ c.h))) }

pub fn key_bytes(b: &Bson) -> R<Key> {
    let mut v = vec![b.element_type() as u8];
    match b {
        Bson::Double(x) => v.extend(x.to_be_bytes()),
        Bson::String(s) | Bson::Symbol(s) => { v.extend(s.as_bytes()); v.push(0); }
        Bson::Boolean(x) => v.push(*x as u8),
        Bson::Null | Bson::Undefined => {}
        Bson::Int32(x) => v.extend(x.to_be_bytes()),
        Bson::Int64(x) => v.extend(x.to_be_bytes()),
        Bson::Timestamp(t) => { v.extend(t.time.to_be_bytes()); v.extend(t.increment.to_be_bytes()); }
        Bson::ObjectId(o) => v.extend(o.bytes()),
        Bson::DateTime(d) => v.extend(d.timestamp_millis().to_be_bytes()),
        Bson::Decimal128(d) => v.extend(d.bytes()),
        _ => return sem("not a valid key type"),
    }
    Ok(v)
}
/// the field at a dotted path, as conditions and indexes see it: a document is no value
pub fn get_path(d: &Document, p: &str) -> Option<Bson> {
    let mut it = p.split('.');
    let mut cur = d;
    let mut k = it.next()?;
    loop {
        match cur.get(k) {
            Some(Bson::Document(x)) => { cur = x; k = it.next()?; }
            Some(v) => return if it.next().is_none() { Some(v.clone()) } else { None },
            None => return None,
        }
    }
}
fn get_path_doc(d: &Document, p: &str) -> Option<Bson> {
    let mut it = p.split('.');
    let mut v = d.get(it.next()?)?;
    for s in it { v = v.as_document()?.get(s)?; }
    Some(v.clone())
}
pub fn idx_key(d: &Document, field: &str) -> R<Option<Key>> { match get_path(d, field) { None => Ok(None), Some(v) => key_bytes(&v).map(Some) } }

pub fn value_cmp(a: &Bson, b: &Bson) -> R<Ordering> {
    use Bson::*;
    fn num(b: &Bson) -> Option<f64> { match b { Int32(x) => Some(*x as f64), Int64(x) => Some(*x as f64), Double(x) => Some(*x), _ => None } }
    Ok(match (a, b) {
        (Null, Null) | (Undefined, Undefined) => Ordering::Equal,
        (DateTime(x), DateTime(y)) => x.cmp(y),
        (Boolean(x), Boolean(y)) => x.cmp(y),
        (Int64(x), Int64(y)) => x.cmp(y),
        (Int32(x), Int32(y)) => x.cmp(y),
        (Int64(x), Int32(y)) => x.cmp(&(*y as i64)),
        (Int32(x), Int64(y)) => (*x as i64).cmp(y),
        (Binary(x), Binary(y)) => x.bytes.cmp(&y.bytes),
        (String(x), String(y)) => x.cmp(y),
        (ObjectId(x), ObjectId(y)) => x.cmp(y),
        _ => {
            // by the exact value, and -0.0 below 0
            if let (Some(x), Some(y)) = (num(a), num(b)) {
                let big = |b: &Bson, f: f64| match b { Int32(x) => *x as i128, Int64(x) => *x as i128, _ => f as i128 };
                return Ok(x.total_cmp(&y).then_with(|| big(a, x).cmp(&big(b, y))));
            }
            let (x, y) = (a.element_type() as u8, b.element_type() as u8);
            if x != y { x.cmp(&y) } else { return sem("unsupported types") }
        }
    })
}
pub fn sort_cmp(a: &Bson, b: &Bson) -> R<Ordering> {
    fn rank(b: &Bson) -> u8 { match b { Bson::Int32(_) | Bson::Int64(_) | Bson::Double(_) => 1, _ => b.element_type() as u8 } }
    match rank(a).cmp(&rank(b)) { Ordering::Equal => value_cmp(a, b), x => Ok(x) }
}
fn int_eq_dbl(i: i64, d: f64) -> bool { d.is_finite() && d.trunc() == d && (-9223372036854775808.0..9223372036854775808.0).contains(&d) && d as i64 == i }
fn val_eq(a: &Bson, b: &Bson) -> bool {
    use Bson::*;
    match (a, b) {
        (Double(x), Double(y)) => x == y || (x.is_nan() && y.is_nan()),
        (Double(x), Int32(y)) | (Int32(y), Double(x)) => int_eq_dbl(*y as i64, *x),
        (Double(x), Int64(y)) | (Int64(y), Double(x)) => int_eq_dbl(*y, *x),
        (Int32(x), Int64(y)) | (Int64(y), Int32(x)) => *x as i64 == *y,
        (Array(x), Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| val_eq(p, q)),
        (Document(x), Document(y)) => x.len() == y.len() && x.iter().zip(y).all(|((k, p), (l, q))| k == l && val_eq(p, q)),
        (String(x), Symbol(y)) | (Symbol(y), String(x)) => x == y,
        _ => a == b,
    }
}
fn re(r: &bson::Regex) -> R<regex::Regex> {
    let mut b = regex::RegexBuilder::new(r.pattern.as_str());
    for o in r.options.as_str().chars() {
        match o {
            'i' => b.case_insensitive(true), 'm' => b.multi_line(true), 's' => b.dot_matches_new_line(true),
            'u' => b.unicode(true), 'U' => b.swap_greed(true), 'x' => b.ignore_whitespace(true),
            _ => return sem("regex option"),
        };
    }
    b.build().or_else(|_| sem("regex"))
}
fn cand(f: &Bson, c: &Bson) -> R<bool> {
    if val_eq(f, c) { return Ok(true); }
    if let Bson::Array(v) = f { if v.iter().any(|x| val_eq(x, c)) { return Ok(true); } }
    if let Bson::RegularExpression(r) = c {
        let r = re(r)?;
        let s = |b: &Bson| matches!(b, Bson::String(x) | Bson::Symbol(x) if r.is_match(x));
        return Ok(match f { Bson::Array(v) => v.iter().any(s), x => s(x) });
    }
    Ok(false)
}
fn check_cands(v: &Bson) -> R<&Vec<Bson>> {
    let Bson::Array(a) = v else { return sem("operand must be an array") };
    for c in a { if let Bson::RegularExpression(r) = c { re(r)?; } }
    Ok(a)
}
/// conditions of one field; `neg`: inside of a $not
fn cond(d: &Document, key: &str, ops: &Document, neg: bool) -> R<bool> {
    for (o, v) in ops {
        let r = match o.as_str() {
            "$eq" | "$gt" | "$gte" | "$lt" | "$lte" => match get_path(d, key) {
                None => return Ok(false),
                Some(f) => {
                    let c = value_cmp(&f, v)?;
                    neg ^ match o.as_str() { "$eq" => c.is_eq(), "$gt" => c.is_gt(), "$gte" => c.is_ge(), "$lt" => c.is_lt(), _ => c.is_le() }
                }
            },
            "$ne" => neg ^ !value_cmp(&get_path_doc(d, key).unwrap_or(Bson::Null), v)?.is_eq(),
            "$in" | "$nin" => {
                let a = check_cands(v)?;
                let f = get_path_doc(d, key).unwrap_or(Bson::Null);
                let mut m = false;
                for c in a { m |= cand(&f, c)?; }
                neg ^ (m == (o == "$in"))
            }
            "$all" => {
                let a = check_cands(v)?;
                let f = get_path_doc(d, key).unwrap_or(Bson::Null);
                let mut m = !a.is_empty();
                for c in a { m &= cand(&f, c)?; }
                neg ^ m
            }
            "$size" => match get_path(d, key) {
                None => return Ok(false),
                Some(Bson::Array(a)) => neg ^ (Some(a.len() as i64) == v.as_i64()),
                Some(_) => return sem("$size of something else"),
            },
            "$regex" => match get_path(d, key) {
                None => return Ok(false),
                Some(f) => {
                    let Bson::RegularExpression(r) = v else { return sem("$regex") };
                    let r = re(r)?;
                    neg ^ match &f { Bson::String(s) | Bson::Symbol(s) => r.is_match(s), x => r.is_match(&x.to_string()) }
                }
            },
            "$not" => cond(d, key, v.as_document().unwrap(), !neg)?,
            _ => return sem("unknown operator"),
        };
        if !r { return Ok(false); }
    }
    Ok(true)
}
pub fn matches(d: &Document, q: &Document, top: bool) -> R<bool> {
    for (k, v) in q {
        let r = match (k.as_str(), v) {
            ("$and", Bson::Array(a)) => { let mut ok = true; for x in a { if !matches(d, x.as_document().unwrap(), false)? { ok = false; break; } } ok }
            ("$or", Bson::Array(a)) => { let mut ok = false; for x in a { if matches(d, x.as_document().unwrap(), false)? { ok = true; break; } } ok }
            (_, Bson::Document(o)) => cond(d, k, o, false)?,
            ("_id", v) if top => key_bytes(d.get("_id").unwrap())? == key_bytes(v)?,
            (_, v) => match get_path(d, k) { None => false, Some(f) => value_cmp(&f, v)?.is_eq() },
        };
        if !r { return Ok(false); }
    }
    Ok(true)
}
/// errors that the compilation of a query reports, whatever the documents are
pub fn check_query(q: &Document) -> R<()> {
    fn ops(o: &Document) -> R<()> {
        for (k, v) in o {
            match k.as_str() {
                "$eq" | "$gt" | "$gte" | "$lt" | "$lte" | "$ne" => {}
                "$in" | "$nin" | "$all" => {
                    let a = check_cands(v)?;
                    for c in a { if let Bson::Document(d) = c { if let Some(k) = d.keys().next() { if k.starts_with('$') { return sem("operator as candidate"); } } } }
                }
                "$size" => { if !matches!(v, Bson::Int64(_)) { return sem("$size"); } }
                "$regex" => { if !matches!(v, Bson::RegularExpression(_)) { return sem("$regex"); } }
                "$not" => match v { Bson::Document(d) => ops(d)?, _ => return sem("$not") },
                _ => return sem("unknown operator"),
            }
        }
        Ok(())
    }
    for (k, v) in q {
        match (k.as_str(), v) {
            ("$and", Bson::Array(a)) | ("$or", Bson::Array(a)) => for x in a { match x { Bson::Document(d) => check_query(d)?, _ => return sem("item") } },
            (k, _) if k.starts_with('$') => return sem("unknown operator"),
            (_, Bson::Document(o)) => ops(o)?,
            ("_id", Bson::Array(_)) => return sem("key type"),
            (_, Bson::Array(_)) => return sem("array literal"),
            _ => {}
        }
    }
    Ok(())
}
fn bad_name(n: &str) -> bool { n.chars().any(|c| "$\n\t\r.\0".contains(c)) }

fn arith(a: &Bson, b: &Bson, mul: bool) -> R<Bson> {
    use Bson::*;
    let f = |x: f64, y: f64| Double(if mul { x * y } else { x + y });
    let l = |x: i64, y: i64| (if mul { x.checked_mul(y) } else { x.checked_add(y) }).map(Int64).ok_or(Er("sem", "overflow".into()));
    Ok(match (a, b) {
        (Int32(x), Int32(y)) => match if mul { x.checked_mul(*y) } else { x.checked_add(*y) } { Some(v) => Int32(v), None => l(*x as i64, *y as i64)? },
        (Int32(x), Int64(y)) | (Int64(y), Int32(x)) => l(*x as i64, *y)?,
        (Int64(x), Int64(y)) => l(*x, *y)?,
        (Int32(x), Double(y)) => f(*x as f64, *y),
        (Int64(x), Double(y)) => f(*x as f64, *y),
        (Double(x), Double(y)) => f(*x, *y),
        (Double(x), Int32(y)) => f(*x, *y as f64),
        (Double(x), Int64(y)) => f(*x, *y as f64),
        _ => return sem("arithmetic on other types"),
    })
}
pub fn check_update(u: &Document) -> R<()> {
    for (op, v) in u {
        let known = matches!(op.as_str(), "$set" | "$inc" | "$mul" | "$max" | "$min" | "$unset" | "$rename" | "$push" | "$pop");
        if !known { return sem("unknown update operator"); }
        let Bson::Document(v) = v else { return sem("operand must be a document") };
        if v.contains_key("_id") { return sem("_id"); }
        match op.as_str() {
            "$rename" => for (_, x) in v { match x { Bson::String(s) if s != "_id" => {}, _ => return sem("$rename") } },
            "$pop" => for (_, x) in v { match x { Bson::Int32(1) | Bson::Int32(-1) | Bson::Int64(1) | Bson::Int64(-1) => {}, _ => return sem("$pop") } },
            _ => {}
        }
    }
    Ok(())
}
/// the updated document, or None if nothing changed
pub fn updated(d: &Document, u: &Document) -> R<Option<Document>> {
    let mut d = d.clone();
    let mut ch = false;
    for (op, v) in u {
        let v = v.as_document().unwrap();
        for (k, x) in v {
            match op.as_str() {
                "$set" => { d.insert(k.clone(), x.clone()); ch = true; }
                "$inc" => {
                    let n = match d.get(k) { Some(Bson::Null) => return sem("null"), Some(o) => arith(o, x, false)?, None => x.clone() };
                    d.insert(k.clone(), n); ch = true;
                }
                "$mul" => { let n = match d.get(k) { Some(o) => arith(o, x, true)?, None => x.clone() }; d.insert(k.clone(), n); ch = true; }
                "$max" | "$min" => {
                    let c = value_cmp(x, d.get(k).unwrap_or(&Bson::Null))?;
                    if (op == "$max" && c.is_gt()) || (op == "$min" && c.is_lt()) { d.insert(k.clone(), x.clone()); ch = true; }
                }
                "$unset" => { d.remove(k); ch = true; }
                "$rename" => { let o = d.remove(k).unwrap_or(Bson::Null); d.insert(x.as_str().unwrap().to_string(), o); ch = true; }
                "$push" => {
                    let n = match d.get(k) { Some(Bson::Array(a)) => { let mut a = a.clone(); a.push(x.clone()); a } None | Some(Bson::Null) => vec![x.clone()], _ => return sem("$push") };
                    d.insert(k.clone(), n); ch = true;
                }
                "$pop" => {
                    let first = matches!(x, Bson::Int32(1) | Bson::Int64(1));
                    let n = match d.get(k) {
                        Some(Bson::Array(a)) => { if a.is_empty() { continue; } let mut a = a.clone(); if first { a.remove(0); } else { a.pop(); } a }
                        None | Some(Bson::Null) => vec![],
                        _ => return sem("$pop"),
                    };
                    d.insert(k.clone(), n); ch = true;
                }
                _ => return sem("unknown"),
            }
        }
    }
    Ok(if ch { Some(d) } else { None })
}
fn unique_conflict(c: &Coll, d: &Dc) -> R<bool> {
    for i in &c.idx {
        let k = idx_key(&d.d, &i.field)?;
        if let (true, Some(k)) = (i.unique, k) {
            for o in c.docs.values() { if o.id != d.id { if let Ok(Some(ok)) = idx_key(&o.d, &i.field) { if ok == k { return Ok(true); } } } }
        }
    }
    Ok(false)
}
fn put_new(c: &mut Coll, d: Rd) -> R<()> {
    if c.docs.contains_key(&d.id) { return dup("_id"); }
    if unique_conflict(c, &d)? { return dup("unique index"); }
    c.docs.insert(d.id.clone(), d);
    Ok(())
}
/// One possible outcome: the new content of the collection (None: it does not exist), unchanged if `same`.
pub struct Out { pub same: bool, pub coll: Option<Coll> }
fn same() -> Vec<Out> { vec![Out { same: true, coll: None }] }
fn with_id(d: &Document, id: &Bson) -> Document { let mut d = d.clone(); d.insert("_id", id.clone()); d }
fn has_id(d: &Document) -> bool { !matches!(d.get("_id"), None | Some(Bson::Null)) }

/// How the result of a write compares to the model: possible outcomes that agree with it (none: it is impossible),
/// and what the model would have answered.
pub struct Verdict { pub outs: Vec<Out>, pub want: String }
fn v(outs: Vec<Out>, want: impl Into<String>) -> Verdict { Verdict { outs, want: want.into() } }
fn expect_err(res: Option<&Res>, e: &Er) -> Verdict {
    match res {
        None => v(same(), ""),
        Some(Res::Err(c, _)) if c == e.0 => v(same(), ""),
        _ => v(vec![], format!("error {}: {}", e.0, e.1)),
    }
}
/// `res` None: the operation was cut off, any result is possible.
pub fn write(cur: Option<&Coll>, op: &Op, res: Option<&Res>) -> Verdict {
    let name = op.coll().unwrap_or("");
    match op {
        Op::Insert { d, .. } => {
            if bad_name(name) || (name.is_empty() && cur.is_none()) { return expect_err(res, &Er("sem", "name".into())); }
            let mut c = cur.cloned().unwrap_or_default();
            let id = if has_id(&d.0) { d.0.get("_id").unwrap().clone() } else {
                match res { Some(Res::Id(b)) => b.clone(), Some(_) => Bson::ObjectId(bson::oid::ObjectId::from_bytes([0xee; 12])), None => return v(same(), "") }
            };
            let r = mk(with_id(&d.0, &id)).and_then(|d| put_new(&mut c, d));
            match (r, res) {
                (Err(e), _) => expect_err(res, &e),
                (Ok(()), None) => v(vec![Out { same: false, coll: Some(c) }], ""),
                (Ok(()), Some(Res::Id(b))) if *b == id => v(vec![Out { same: false, coll: Some(c) }], ""),
                (Ok(()), _) => v(vec![], format!("ok, inserted {id}")),
            }
        }
        Op::InsertMany { ds, .. } => {
            if bad_name(name) || (name.is_empty() && cur.is_none()) { return expect_err(res, &Er("sem", "name".into())); }
            let mut c = cur.cloned().unwrap_or_default();
            let ids: Option<BTreeMap<i64, Bson>> = match res { Some(Res::Ids(v)) => Some(v.iter().cloned().collect()), _ => None };
            for (i, d) in ds.iter().enumerate() {
                let id = if has_id(&d.0) { d.0.get("_id").unwrap().clone() } else {
                    match &ids {
                        Some(m) => match m.get(&(i as i64)) { Some(b) => b.clone(), None => return v(vec![], "an id for every document") },
                        None => { let mut b = [0xee; 12]; b[11] = i as u8; Bson::ObjectId(bson::oid::ObjectId::from_bytes(b)) }
                    }
                };
                if let Some(m) = &ids { if m.get(&(i as i64)) != Some(&id) { return v(vec![], "the ids of the documents"); } }
                if let Err(e) = mk(with_id(&d.0, &id)).and_then(|d| put_new(&mut c, d)) { return expect_err(res, &e); }
            }
            match res {
                None => v(vec![Out { same: false, coll: Some(c) }], ""),
                Some(Res::Ids(m)) if m.len() == ds.len() => v(vec![Out { same: false, coll: Some(c) }], ""),
                _ => v(vec![], format!("ok, inserted {}", ds.len())),
            }
        }
        Op::Update { q, u, many, upsert, .. } => {
            if bad_name(name) { return expect_err(res, &Er("sem", "name".into())); }
            let mut want = String::new();
            if let Some(c) = cur {
                if let Err(e) = check_query(&q.0).and_then(|_| check_update(&u.0)) { return expect_err(res, &e); }
                let mut m: Vec<Rd> = vec![];
                for d in c.docs.values() { match matches(&d.d, &q.0, true) { Ok(true) => m.push(d.clone()), Ok(false) => {} Err(e) => return expect_err(res, &e) } }
                if !m.is_empty() {
                    if *many {
                        let mut n = c.clone();
                        let mut modified = 0;
                        let mut errs: Vec<Er> = vec![];
                        let mut olds: BTreeMap<(String, Key), Key> = BTreeMap::new(); // unique values before
                        for i in c.idx.iter().filter(|i| i.unique) { for d in &m { if let Ok(Some(k)) = idx_key(&d.d, &i.field) { olds.insert((i.name.clone(), k), d.id.clone()); } } }
                        let mut maybe_dup = false;
                        for d in &m {
                            match updated(&d.d, &u.0) {
                                Err(e) => errs.push(e),
                                Ok(None) => {}
                                Ok(Some(nd)) => {
                                    let nd = mk(nd).unwrap();
                                    for i in &c.idx { match idx_key(&nd.d, &i.field) {
                                        Err(e) => errs.push(e),
                                        Ok(Some(k)) if i.unique => { if let Some(o) = olds.get(&(i.name.clone(), k)) { if *o != nd.id { maybe_dup = true; } } }
                                        _ => {}
                                    } }
                                    modified += 1;
                                    n.docs.insert(nd.id.clone(), nd);
                                }
                            }
                        }
                        if errs.is_empty() && n.broken_unique().is_some() { errs.push(Er("dup", "unique index".into())); maybe_dup = false; }
                        if !errs.is_empty() {
                            // with several failing documents, or a duplicate on the way, either error may come first
                            if maybe_dup || n.broken_unique().is_some() { errs.push(Er("dup", "unique index".into())); }
                            return match res { None => v(same(), ""), Some(Res::Err(c, _)) if errs.iter().any(|e| c == e.0) => v(same(), ""), _ => v(vec![], format!("error {errs:?}")) };
                        }
                        return match res {
                            None => v(vec![Out { same: false, coll: Some(n) }], ""),
                            Some(Res::Err(c, _)) if c == "dup" && maybe_dup => v(same(), ""),
                            Some(Res::Upd(a, b)) if *a == m.len() as i64 && *b == modified => v(vec![Out { same: false, coll: Some(n) }], ""),
                            _ => v(vec![], format!("matched {} modified {}", m.len(), modified)),
                        };
                    }
                    let mut outs = vec![];
                    for d in &m {
                        match updated(&d.d, &u.0) {
                            Err(e) => match res { None => outs.extend(same()), Some(Res::Err(c, _)) if c == e.0 => outs.extend(same()), _ => want += &format!("error {} or ", e.1) },
                            Ok(None) => match res { None | Some(Res::Upd(1, 0)) => outs.extend(same()), _ => want += "matched 1 modified 0 or " },
                            Ok(Some(nd)) => {
                                let nd = mk(nd).unwrap();
                                let mut n = c.clone();
                                n.docs.remove(&nd.id);
                                match unique_conflict(&n, &nd) {
                                    Err(e) => match res { None => outs.extend(same()), Some(Res::Err(c, _)) if c == e.0 => outs.extend(same()), _ => want += &format!("error {} or ", e.1) },
                                    Ok(true) => match res { None => outs.extend(same()), Some(Res::Err(c, _)) if c == "dup" => outs.extend(same()), _ => want += "error dup or " },
                                    Ok(false) => { n.docs.insert(nd.id.clone(), nd); match res { None | Some(Res::Upd(1, 1)) => outs.push(Out { same: false, coll: Some(n) }), _ => want += "matched 1 modified 1 or " } }
                                }
                            }
                        }
                    }
                    return v(outs, want + "none");
                }
            }
            if *upsert {
                if let Some(set) = u.0.get("$set") {
                    let Bson::Document(set) = set else { return expect_err(res, &Er("sem", "$set".into())) };
                    let mut d = q.0.clone();
                    for (k, x) in set {
                        if k.contains('$') || k.contains('.') || matches!(x, Bson::Document(_)) { return expect_err(res, &Er("sem", "upsert".into())); }
                        d.insert(k.clone(), x.clone());
                    }
                    if name.is_empty() && cur.is_none() { return expect_err(res, &Er("sem", "name".into())); }
                    let mut c = cur.cloned().unwrap_or_default();
                    if let Err(e) = mk(d).and_then(|d| put_new(&mut c, d)) { return expect_err(res, &e); }
                    return match res { None | Some(Res::Upd(0, 0)) => v(vec![Out { same: false, coll: Some(c) }], ""), _ => v(vec![], "matched 0 modified 0 (upserted)") };
                }
            }
            match res { None | Some(Res::Upd(0, 0)) => v(same(), ""), _ => v(vec![], "matched 0 modified 0") }
        }
        Op::Delete { q, many, .. } => {
            if bad_name(name) { return expect_err(res, &Er("sem", "name".into())); }
            let all = *many && q.0.is_empty();
            if cur.is_none() {
                if all { return match res { None | Some(Res::Del(0)) => v(same(), ""), _ => v(vec![], "deleted 0") }; }
                if name.is_empty() { return expect_err(res, &Er("sem", "name".into())); }
            }
            let c = cur.cloned().unwrap_or_default();
            if let Err(e) = check_query(&q.0) { return expect_err(res, &e); }
            let mut m = vec![];
            for d in c.docs.values() { match matches(&d.d, &q.0, true) { Ok(true) => m.push(d.id.clone()), Ok(false) => {} Err(e) => return expect_err(res, &e) } }
            if *many || m.len() <= 1 {
                let n = m.len() as i64;
                let mut c = c;
                for k in m { c.docs.remove(&k); }
                return match res { None => v(vec![Out { same: false, coll: Some(c) }], ""), Some(Res::Del(x)) if *x == n => v(vec![Out { same: false, coll: Some(c) }], ""), _ => v(vec![], format!("deleted {n}")) };
            }
            let mut outs = vec![];
            if matches!(res, None | Some(Res::Del(1))) { for k in m { let mut n = c.clone(); n.docs.remove(&k); outs.push(Out { same: false, coll: Some(n) }); } }
            v(outs, "deleted 1")
        }
        Op::CreateCol { .. } => {
            if bad_name(name) || name.is_empty() { return expect_err(res, &Er("sem", "name".into())); }
            if cur.is_some() { return expect_err(res, &Er("exists", "collection exists".into())); }
            match res { None | Some(Res::Ok) => v(vec![Out { same: false, coll: Some(Coll::default()) }], ""), _ => v(vec![], "ok") }
        }
        Op::DropCol { .. } => {
            if bad_name(name) { return expect_err(res, &Er("sem", "name".into())); }
            match res { None | Some(Res::Ok) => v(vec![Out { same: false, coll: None }], ""), _ => v(vec![], "ok") }
        }
        Op::CreateIndex { key, unique, name: iname, .. } => {
            if bad_name(name) || (name.is_empty() && cur.is_none()) { return expect_err(res, &Er("sem", "name".into())); }
            let n = match iname { Some(x) => { if bad_name(x) { return expect_err(res, &Er("sem", "index name".into())); } x.clone() } None => key.replace('.', "_") + "_1" };
            let mut c = cur.cloned().unwrap_or_default();
            let ok = |c: Coll| match res { None | Some(Res::Ok) => v(vec![Out { same: false, coll: Some(c) }], ""), _ => v(vec![], "ok") };
            if c.idx.iter().any(|i| i.name == n) { return ok(c); }
            for d in c.docs.values() { if let Err(e) = idx_key(&d.d, key) {
                // a duplicate may be found before
                if let Some(Res::Err(k, _)) = res { if k == "dup" && *unique { return v(same(), ""); } }
                return expect_err(res, &e);
            } }
            c.idx.push(Idx { name: n, field: key.clone(), unique: *unique });
            if c.broken_unique().is_some() { return expect_err(res, &Er("dup", "unique index".into())); }
            ok(c)
        }
        Op::DropIndex { name: iname, .. } => {
            if bad_name(name) { return expect_err(res, &Er("sem", "name".into())); }
            match (cur, res) {
                (None, None | Some(Res::Ok)) => v(same(), ""),
                (Some(c), None | Some(Res::Ok)) => { let mut c = c.clone(); c.idx.retain(|i| i.name != *iname); v(vec![Out { same: false, coll: Some(c) }], "") }
                _ => v(vec![], "ok"),
            }
        }
        _ => v(vec![], "not a write"),
    }
}
pub fn num_i64(b: Option<&Bson>) -> Option<i64> { match b? { Bson::Int32(x) => Some(*x as i64), Bson::Int64(x) => Some(*x), _ => None } }
pub fn sort_docs_cmp(a: &Document, b: &Document, s: &Document) -> R<Ordering> {
    for (k, o) in s {
        let o = match o { Bson::Int32(x) => *x as i8, Bson::Int64(x) => *x as i8, _ => return sem("sort value") };
        let c = match (a.get(k), b.get(k)) {
            (Some(x), Some(y)) => sort_cmp(x, y)?,
            (Some(_), None) => Ordering::Less,
            (None, Some(_)) => Ordering::Greater,
            _ => Ordering::Equal,
        };
        if c.is_eq() { continue; }
        // an order other than 1 and -1 compares everything equal and ends the comparison
        return Ok(match o { 1 => c, -1 => c.reverse(), _ => Ordering::Equal });
    }
    Ok(Ordering::Equal)
}
fn msub(sub: &[u64], all: &[u64]) -> bool {
    let mut m: BTreeMap<u64, i64> = BTreeMap::new();
    for h in all { *m.entry(*h).or_default() += 1; }
    for h in sub { let e = m.entry(*h).or_default(); *e -= 1; if *e < 0 { return false; } }
    true
}
fn brief(ds: &[Document]) -> String { format!("{} docs {}", ds.len(), polosim_exec::res::bdocs(ds)) }
/// matching documents, with sort, skip and limit: is `got` a right answer?
fn check_docs(all: Vec<&Document>, sort: Option<&Document>, skip: Option<u64>, limit: Option<u64>, got: &[Document]) -> Result<(), String> {
    let mut all = all;
    let n = all.len();
    let sk = (skip.unwrap_or(0) as usize).min(n);
    let want = (n - sk).min(limit.unwrap_or(u64::MAX) as usize);
    let hs: Vec<u64> = all.iter().map(|d| doc_hash(d)).collect();
    let gh: Vec<u64> = got.iter().map(doc_hash).collect();
    let exp = |all: &Vec<&Document>| brief(&all.iter().map(|d| (*d).clone()).collect::<Vec<_>>());
    if got.len() != want { return Err(format!("{want} of {}", exp(&all))); }
    if !msub(&gh, &hs) { return Err(format!("{want} of {}", exp(&all))); }
    if let Some(s) = sort {
        all.sort_by(|a, b| sort_docs_cmp(a, b, s).unwrap_or(Ordering::Equal));
        for (i, g) in got.iter().enumerate() {
            if !sort_docs_cmp(g, all[sk + i], s).unwrap_or(Ordering::Equal).is_eq() { return Err(format!("in order (from {sk}): {}", exp(&all))); }
        }
    }
    Ok(())
}
fn eval_expr(d: &Document, v: &Bson, n: &mut i64) -> Bson {
    fn abs(b: Bson) -> Bson { match b { Bson::Int32(x) => x.checked_abs().map(Bson::Int32).unwrap_or(Bson::Int64((x as i64).abs())), Bson::Int64(x) => x.checked_abs().map(Bson::Int64).unwrap_or(Bson::Double((x as f64).abs())), x => x } }
    match v {
        Bson::Document(o) => { let (k, x) = o.iter().next().unwrap(); match k.as_str() {
            "$abs" => match x { Bson::Document(_) => abs(eval_expr(d, x, n)), Bson::String(s) if s.starts_with('$') => abs(d.get(&s[1..]).cloned().unwrap_or(Bson::Null)), x => abs(x.clone()) },
            _ => { *n += 1; Bson::Int64(*n) }
        } }
        Bson::String(s) if s.starts_with('$') => d.get(&s[1..]).cloned().unwrap_or(Bson::Null),
        x => x.clone(),
    }
}
/// runs a pipeline whose order of documents is determined (generator's duty: sort on _id before skip, limit and $sum)
pub fn aggregate(c: Option<&Coll>, p: &[Document]) -> R<Vec<Document>> {
    let Some(c) = c else { return Ok(vec![]) };
    let mut ds: Vec<Document> = vec![];
    let mut st = p.iter().peekable();
    for s in p { if s.is_empty() || s.len() > 1 { return sem("stage"); } }
    if let Some(s) = st.peek() {
        if let Some(q) = s.get("$match") {
            let Bson::Document(q) = q else { return sem("$match") };
            check_query(q)?;
            st.next();
            for d in c.docs.values() { if matches(&d.d, q, true)? { ds.push(d.d.clone()); } }
        } else { ds = c.docs.values().map(|d| d.d.clone()).collect(); }
    } else { ds = c.docs.values().map(|d| d.d.clone()).collect(); }
    for s in st {
        let (k, v) = s.iter().next().unwrap();
        match (k.as_str(), v) {
            ("$count", Bson::String(n)) => ds = vec![doc! {n.as_str(): ds.len() as i64}],
            ("$skip", Bson::Int32(_) | Bson::Int64(_)) => { let n = v.as_i64().unwrap_or_else(|| v.as_i32().unwrap() as i64) as usize; ds = ds.split_off(n.min(ds.len())); }
            ("$limit", Bson::Int32(_) | Bson::Int64(_)) => { let n = v.as_i64().unwrap_or_else(|| v.as_i32().unwrap() as i64) as usize; ds.truncate(n); }
            ("$sort", Bson::Document(o)) => {
                for (_, x) in o { if !matches!(x, Bson::Int32(_) | Bson::Int64(_)) { return sem("sort value"); } }
                ds.sort_by(|a, b| sort_docs_cmp(a, b, o).unwrap_or(Ordering::Equal));
            }
            ("$addFields", Bson::Document(o)) => {
                let mut ns: BTreeMap<String, i64> = BTreeMap::new();
                for d in ds.iter_mut() {
                    let src = d.clone();
                    for (k, x) in o {
                        // an alias sees the fields added before, an operator does not
                        let val = match x { Bson::String(_) => eval_expr(d, x, &mut 0), x => if matches!(x, Bson::Document(_)) { eval_expr(&src, x, ns.entry(k.clone()).or_default()) } else { x.clone() } };
                        d.insert(k.clone(), val);
                    }
                }
            }
            ("$unset", Bson::String(f)) => for d in ds.iter_mut() { d.remove(f); },
            ("$unset", Bson::Array(a)) => { for x in a { if x.as_str().is_none() { return sem("$unset"); } } for d in ds.iter_mut() { for f in a { d.remove(f.as_str().unwrap()); } } }
            ("$group", Bson::Document(o)) => {
                if !o.contains_key("_id") { return sem("$group without _id"); }
                let mut r = Document::new();
                for (k, x) in o { if k == "_id" { r.insert(k.clone(), x.clone()); } else { let _ = x; r.insert(k.clone(), ds.len() as i64); } }
                ds = vec![r];
            }
            _ => return sem("stage"),
        }
    }
    Ok(ds)
}
/// does the pipeline fix the order of its output?
fn ordered(p: &[Document]) -> bool {
    p.iter().any(|s| s.contains_key("$count") || s.contains_key("$group")) || p.iter().any(|s| s.get("$sort").and_then(|x| x.as_document()).map(|x| x.contains_key("_id")).unwrap_or(false))
}
/// is `res` a right answer of the read `op` on this state?
pub fn read(db: &dyn Fn(&str) -> Option<Rc<Hc>>, names: &dyn Fn() -> Vec<String>, op: &Op, res: &Res) -> Result<(), String> {
    let er = |e: Er, res: &Res| if res.err_class() == e.0 { Ok(()) } else { Err(format!("error {}: {}", e.0, e.1)) };
    if let Op::List {} = op {
        let mut n = names();
        n.sort();
        return match res { Res::Names(x) if *x == n => Ok(()), _ => Err(format!("{n:?}")) };
    }
    let name = op.coll().unwrap_or("");
    if bad_name(name) { return er(Er("sem", "name".into()), res); }
    let c0 = db(name);
    let c = c0.as_ref().map(|c| &c.c);
    let find = |q: &Document| -> R<Vec<Rd>> {
        let Some(c) = c else { return Ok(vec![]) };
        check_query(q)?;
        let mut v = vec![];
        for d in c.docs.values() { if matches(&d.d, q, true)? { v.push(d.clone()); } }
        Ok(v)
    };
    match op {
        Op::Find { q, sort, skip, limit, .. } => match find(&q.0) {
            Err(e) => er(e, res),
            Ok(v) => match res {
                Res::Docs(g) => check_docs(v.iter().map(|d| &d.d).collect(), sort.as_ref().map(|s| &s.0), *skip, *limit, g),
                _ => Err(brief(&v.iter().map(|d| d.d.clone()).collect::<Vec<_>>())),
            },
        },
        Op::FindOne { q, .. } => match find(&q.0) {
            Err(e) => er(e, res),
            Ok(v) => match res {
                Res::Docs(g) => check_docs(v.iter().map(|d| &d.d).collect(), None, None, Some(1), g),
                _ => Err(brief(&v.iter().map(|d| d.d.clone()).collect::<Vec<_>>())),
            },
        },
        Op::Typed { q, .. } => match find(&q.0) {
            Err(e) => er(e, res),
            Ok(v) => if *res == Res::Cnt(v.len() as i64) { Ok(()) } else { Err(format!("{} documents", v.len())) },
        },
        Op::Count { .. } => { let n = c.map(|c| c.docs.len()).unwrap_or(0) as i64; if *res == Res::Cnt(n) { Ok(()) } else { Err(format!("count {n}")) } }
        Op::Agg { p, .. } => {
            let p: Vec<Document> = p.iter().map(|d| d.0.clone()).collect();
            match aggregate(c, &p) {
                Err(e) => er(e, res),
                Ok(w) => match res {
                    Res::Docs(g) => {
                        let (a, b): (Vec<u64>, Vec<u64>) = (w.iter().map(doc_hash).collect(), g.iter().map(doc_hash).collect());
                        let ok = if ordered(&p) { a == b } else { a.len() == b.len() && msub(&a, &b) };
                        if ok { Ok(()) } else { Err(brief(&w)) }
                    }
                    _ => Err(brief(&w)),
                },
            }
        }
        Op::Sweep { f, vs, .. } => {
            let Res::Sweep(g) = res else { return Err("a result for every value".into()) };
            if g.len() != vs.len() { return Err("a result for every value".into()); }
            for (x, got) in vs.iter().zip(g) {
                match find(&doc! {f.as_str(): x.0.clone()}) {
                    Err(e) => return Err(format!("error {}", e.1)),
                    Ok(v) => check_docs(v.iter().map(|d| &d.d).collect(), None, None, None, got).map_err(|e| format!("for {{{f}: {}}}: {e}", x.0))?,
                }
            }
            Ok(())
        }
        _ => Ok(()),
    }
}

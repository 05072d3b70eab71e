//! Clients that misbehave, each on a connection of its own.
use crate::rng::Rng;
use crate::sys;
use crate::wire::{bytes, header, op_msg, Conn};
use bson::{doc, Bson, Document};

fn put(c: &Conn, b: &[u8], us: u64) -> bool { unsafe { sys::ps_net_send(c.c, b.as_ptr() as *const _, b.len(), us) == b.len() as i64 } }
/// reads and forgets
fn drain(c: &mut Conn, us: u64) { let t0 = unsafe { sys::ps_now() }; while unsafe { sys::ps_now() } - t0 < us * 1000 { match c.pull(us) { Ok(0) | Err(_) => return, Ok(_) => {} } } }
fn leave(c: Conn, how: u64) {
    unsafe {
        match how % 4 { 0 => sys::ps_net_reset(c.c), 1 => { sys::ps_net_shut(c.c); sys::ps_sleep_us(3000); sys::ps_net_close(c.c) } _ => sys::ps_net_close(c.c) }
    }
}
fn nested(n: usize, arr: bool) -> Vec<u8> {
    // the innermost document is empty
    let mut len = 5usize;
    let mut lens = vec![];
    for _ in 0..n { len += 4 + 1 + 2 + 1; lens.push(len); }
    let mut v = vec![];
    for l in lens.iter().rev() { v.extend((*l as i32).to_le_bytes()); v.push(if arr { 4 } else { 3 }); v.extend(b"0\0"); }
    v.extend(5i32.to_le_bytes()); v.push(0);
    for _ in 0..n { v.push(0); }
    v
}
fn msg_of(sections: &[u8]) -> Vec<u8> { let mut v = header(16 + 4 + sections.len() as i32, 77, 0, 2013); v.extend(0u32.to_le_bytes()); v.extend(sections); v }
fn insert(r: &mut Rng, seq: bool) -> Vec<u8> {
    let d = doc! {"_id": (r.n(1000) as i32), "a": "x".repeat(r.n(60)), "b": {"c": [1, 2.5, Bson::Null, "y"]}};
    if seq { op_msg(5, 0, &doc! {"insert": "junk", "ordered": true, "$db": "db"}, Some(("documents", &[d])), false) }
    else { op_msg(5, 0, &doc! {"insert": "junk", "documents": [d], "$db": "db"}, None, false) }
}
pub const KINDS: u32 = 17;
pub fn bad(kind: u32, seed: u64) {
    let mut r = Rng::new(seed);
    let Ok(mut c) = Conn::open() else { return };
    let wait = *r.pick(&[0u64, 1000, 50_000, 1_000_000]);
    match kind % KINDS {
        0 => { let n = 1 + r.n(400); let b: Vec<u8> = (0..n).map(|_| r.u64() as u8).collect(); put(&c, &b, 100_000); drain(&mut c, wait); }
        1 => { let l = *r.pick(&[0, 1, 4, 15, 16, 17, 20, -1, -17, i32::MIN, 21]); let op = *r.pick(&[2013, 2013, 2004, 2012, 1]); let mut b = header(l, 9, 0, op); b.extend(vec![0u8; r.n(40)]); put(&c, &b, 100_000); drain(&mut c, wait); }
        2 => { let l = *r.pick(&[16 << 20, (16 << 20) + 1, 48_000_001, 1 << 30, i32::MAX]); let op = *r.pick(&[2013, 2004, 2012]); let mut b = header(l, 9, 0, op); b.extend(vec![7u8; r.n(30000)]); put(&c, &b, 100_000); drain(&mut c, wait.max(50_000)); }
        3 => { let mut b = insert(&mut r, true); let op = *r.pick(&[0i32, 2, 2001, 2002, 2005, 2010, 2014, -1, i32::MAX]); b[12..16].copy_from_slice(&op.to_le_bytes()); put(&c, &b, 100_000); drain(&mut c, wait); }
        4 | 5 => {
            // some bytes of the body differ
            let s = r.p(50);
            let mut b = insert(&mut r, s);
            let n = b.len();
            for _ in 0..1 + r.n(4) { let i = 16 + r.n(n - 16); b[i] = match r.n(4) { 0 => 0, 1 => 0xff, 2 => b[i] ^ (1 << r.n(8)), _ => r.u64() as u8 }; }
            put(&c, &b, 100_000); drain(&mut c, wait);
        }
        6 => {
            // the length of a document is wrong
            let mut b = insert(&mut r, false);
            let l = *r.pick(&[0i32, 1, 3, 4, 5, -1, -5, i32::MIN, i32::MAX, 1 << 24, 100]);
            b[21..25].copy_from_slice(&l.to_le_bytes());
            put(&c, &b, 100_000); drain(&mut c, wait);
        }
        7 => {
            // a section of a wrong kind, length or name
            let mut s = vec![0u8]; s.extend(bytes(&doc! {"insert": "junk", "$db": "db"}));
            s.push(*r.pick(&[1u8, 2, 3, 255, 0]));
            let l = *r.pick(&[0i32, 3, 4, 5, -1, i32::MIN, i32::MAX, 14, 40]);
            s.extend(l.to_le_bytes());
            let tail: Vec<u8> = if r.p(50) { b"documents\0".to_vec() } else { (0..r.n(30)).map(|_| 0x61 + r.n(3) as u8).collect() };
            s.extend(tail);
            if r.p(30) { s.extend(bytes(&doc! {"_id": 1})); }
            if r.p(20) { s.remove(0); }
            put(&c, &msg_of(&s), 100_000); drain(&mut c, wait);
        }
        8 => {
            // a request that never becomes complete
            let s = r.p(50); let b = insert(&mut r, s); let n = r.n(b.len());
            put(&c, &b[..n], 100_000); unsafe { sys::ps_sleep_us(*r.pick(&[0, 10_000, 3_000_000, 60_000_000])) };
        }
        9 => {
            // answers that nobody reads
            let q = op_msg(6, 0, &doc! {"find": "c", "filter": {}, "batchSize": 100_000, "$db": "db"}, None, false);
            let n = 1 + r.n(200);
            for _ in 0..n { if !put(&c, &q, 20_000) { break; } }
            unsafe { sys::ps_sleep_us(*r.pick(&[1_000, 100_000, 4_000_000, 60_000_000])) };
        }
        10 => { unsafe { sys::ps_sleep_us(*r.pick(&[0, 5_000_000, 60_000_000])) }; for _ in 0..r.n(12) { if let Ok(x) = Conn::open() { let h = r.u64(); leave(x, h); } } }
        11 => {
            // compressed: by an unknown method, or by none
            let body = &insert(&mut r, false)[16..];
            let mut v = header(16 + 9 + body.len() as i32, 8, 0, 2012);
            v.extend(2013i32.to_le_bytes());
            v.extend((*r.pick(&[body.len() as i32, 3, -1])).to_le_bytes());
            v.push(*r.pick(&[0u8, 1, 2, 3, 9, 255]));
            v.extend(body);
            put(&c, &v, 100_000); drain(&mut c, wait);
        }
        12 => {
            // documents within documents
            let deep = nested(*r.pick(&[50, 150, 300, 2000, 20_000]), r.p(30));
            let mut b = bytes(&doc! {"insert": "junk", "$db": "db"});
            if r.p(60) {
                let mut s = vec![0u8]; s.extend(&b); s.push(1); s.extend((4 + 10 + deep.len() as i32).to_le_bytes()); s.extend(b"documents\0"); s.extend(&deep);
                put(&c, &msg_of(&s), 1_000_000);
            } else {
                b = bytes(&doc! {"find": "junk", "$db": "db"});
                b.pop(); b.push(3); b.extend(b"filter\0"); b.extend(&deep); b.push(0);
                let l = b.len() as i32; b[..4].copy_from_slice(&l.to_le_bytes());
                let mut s = vec![0u8]; s.extend(&b);
                put(&c, &msg_of(&s), 1_000_000);
            }
            drain(&mut c, wait.max(100_000));
        }
        13 | 14 => {
            // commands whose arguments make no sense: each is answered
            let v = [Bson::Int32(5), Bson::Null, Bson::String("x".into()), Bson::Document(doc! {"a": 1}), Bson::Array(vec![Bson::Int32(1)]), Bson::Double(-1.5), Bson::Int64(-1), Bson::Boolean(true), Bson::Int64(i64::MIN), Bson::Document(doc! {"$gt": {"$in": 4}}), Bson::Array(vec![Bson::Document(doc! {"q": 3, "u": [], "limit": "a"})]), Bson::Array(vec![Bson::Document(doc! {"$match": 3}), Bson::Document(doc! {"$nothing": 3})])];
            let names = ["find", "getMore", "killCursors", "aggregate", "insert", "update", "delete", "hello", "commitTransaction", "abortTransaction", "ping", "nosuch", "drop"];
            let args = ["filter", "batchSize", "limit", "skip", "sort", "pipeline", "documents", "updates", "deletes", "cursors", "cursor", "collection", "lsid", "txnNumber", "$db", "singleBatch", "multi"];
            for _ in 0..1 + r.n(6) {
                let mut d = Document::new();
                let n = *r.pick(&names);
                d.insert(n, if r.p(60) { Bson::String("junk".into()) } else { r.pick(&v).clone() });
                for _ in 0..r.n(5) { d.insert(*r.pick(&args), r.pick(&v).clone()); }
                if r.p(80) { d.insert("$db", "db"); }
                let id = c.id();
                if !put(&c, &op_msg(id, 0, &d, None, false), 100_000) { break; }
                drain(&mut c, 2000);
            }
        }
        16 => {
            // a crowd that says nothing, or half of something
            let n = *r.pick(&[20usize, 70, 150]);
            let b = insert(&mut r, true);
            let part = if r.p(50) { 0 } else { r.n(b.len()) };
            let mut v = vec![];
            for _ in 0..n { if let Ok(x) = Conn::open() { if part > 0 { put(&x, &b[..part], 100_000); } v.push(x); } else { break; } }
            unsafe { sys::ps_sleep_us(*r.pick(&[10_000, 1_000_000, 90_000_000])) };
            for x in v { let h = r.u64(); leave(x, h % 4 & !1); }
        }
        _ => {
            // a legacy query
            let mut b = vec![];
            b.extend((r.u64() as u32 & 0xff).to_le_bytes());
            if r.p(70) { b.extend(b"admin.$cmd\0"); } else { b.extend(vec![0x61u8; r.n(30)]); }
            b.extend((*r.pick(&[0i32, 0, 1, -1])).to_le_bytes());
            b.extend((*r.pick(&[-1i32, -1, 0, 1, 7])).to_le_bytes());
            let mut q = bytes(&doc! {"isMaster": 1});
            if r.p(60) { let l = *r.pick(&[0i32, 3, 4, -1, i32::MAX, 400]); q[..4].copy_from_slice(&l.to_le_bytes()); }
            if r.p(70) { b.extend(q); }
            let mut v = header(16 + b.len() as i32, 3, 0, 2004); v.extend(b);
            put(&c, &v, 100_000); drain(&mut c, wait);
        }
    }
    let h = r.u64();
    leave(c, h);
}
/// an insert of one document, sent in part or completely, by a client that goes away
pub fn cut(col: &str, d: &Document, at: u32, how: u32, h: u64) {
    let Ok(mut c) = Conn::open() else { return };
    let body = doc! {"insert": col, "ordered": true, "$db": "db"};
    let b = if h % 2 == 0 { op_msg(4, 0, &body, Some(("documents", &[d.clone()])), h % 3 == 0) } else { let mut body = body; body.insert("documents", vec![Bson::Document(d.clone())]); op_msg(4, if how % 5 == 4 { 2 } else { 0 }, &body, None, false) };
    let n = if at >= 1000 { b.len() } else { (b.len() * at as usize / 1000).min(b.len() - 1) };
    put(&c, &b[..n], 60_000_000);
    if h % 7 < 3 { unsafe { sys::ps_sleep_us(h % 5000) }; }
    match how % 5 {
        0 => unsafe { sys::ps_net_reset(c.c) },
        1 => unsafe { sys::ps_net_shut(c.c); sys::ps_sleep_us(1 + h % 20_000); sys::ps_net_close(c.c) },
        2 => { unsafe { sys::ps_net_shut(c.c) }; drain(&mut c, 50_000); unsafe { sys::ps_net_close(c.c) } }
        _ => unsafe { sys::ps_net_close(c.c) },
    }
}

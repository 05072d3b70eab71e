//! Seeded generation of plans.
use bson::{doc, oid::ObjectId, Binary, Bson, DateTime, Document};
use polosim_exec::plan::*;
use polosim_exec::rng::{hash, hash_str, Rng};
use polosim_exec::sys;

/// Which faulty variants of a plan are derived from its undisturbed run.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Var { None, Crash, Iof }

#[derive(Clone)]
pub struct Style {
    pub cols: Vec<String>,
    pub nids: i64,
    /// ids that only this client writes; the others write them too if empty
    pub own: bool,
    /// one thread: every operation is allowed
    pub single: bool,
    pub explicit_ids: bool,
    pub pad: usize,
    pub txn: u32,
    pub bad: u32,
    pub w: W,
    pub idx: Vec<(&'static str, bool)>,
    pub exotic: bool,
    pub unique_u: bool,
    /// the update and delete of many documents by immutable fields
    pub multi_g: bool,
    /// which kind of id comes first
    pub id_off: i64,
    /// per mille of the operations that insert very many documents at once
    pub bulk: u32,
    /// strings may be hundreds of bytes long
    pub long: bool,
    /// ids of different types whose keys are alike (with `exotic`)
    pub twins: bool,
}
#[derive(Clone, Default)]
pub struct W { pub insert: u32, pub many: u32, pub update: u32, pub updmany: u32, pub upsert: u32, pub delete: u32, pub delmany: u32, pub find: u32, pub findone: u32, pub count: u32, pub agg: u32, pub list: u32, pub createcol: u32, pub dropcol: u32, pub cidx: u32, pub didx: u32, pub sleep: u32, pub cursor: u32 }
pub struct G { pub r: Rng, pub st: Style, pub cid: i64, txn: Option<u32>, next_t: u32, fresh: i64, vctr: i64, cur: u32 }

fn op_doc(k: &str, v: impl Into<Bson>) -> Document { let mut d = Document::new(); d.insert(k, v.into()); d }
const ZS: [&str; 5] = ["a\0", "a\0b", "\0", "a\0\u{10}", "a\0\0"];
/// an object id with the bytes of a key of a string
fn twin(b: i64) -> Bson { let mut x = [0_u8; 12]; x[0] = 2; x[1..11].copy_from_slice(format!("x{b:09}").as_bytes()); Bson::ObjectId(ObjectId::from_bytes(x)) }
pub const S: [&str; 8] = ["", "a", "ab", "b", "B", "ü", "z z", "$x"];
/// long strings, most with a long common beginning
pub const LONG: usize = 8;
fn long_s(i: usize) -> String { format!("{}{}", "lorem ipsum ".repeat([3, 9, 20, 20, 20, 40, 90, 5][i]), ["", "a", "", "a", "b", "", "x", "\0"][i]) }
impl G {
    pub fn new(seed: u64, st: Style, cid: i64) -> G { G { r: Rng::new(seed), st, cid, txn: None, next_t: 1, fresh: 0, vctr: 0, cur: 0 } }
    fn col(&mut self) -> String { let v = self.st.cols.clone(); self.r.pick(&v).clone() }
    pub fn id_of(&self, i: i64) -> Bson {
        let i2 = if self.st.own { i * 10 + self.cid } else { i };
        let k = i + self.st.id_off;
        if !self.st.exotic { return if k % 5 == 3 { Bson::String(if self.st.long { format!("{}k{i2}", "long".repeat(7 * (1 + i2 as usize % 12))) } else { format!("k{i2}") }) } else { Bson::Int32(i2 as i32) }; }
        if self.st.twins {
            let b = i2 / 6 + 1;
            return match i2 % 6 { 0 => Bson::Int64(b), 1 => Bson::DateTime(DateTime::from_millis(b)), 2 => Bson::Double(f64::from_bits(b as u64)), 3 => Bson::String(format!("x{b:09}")), 4 => twin(b), _ => Bson::Int32(b as i32) };
        }
        match k % 11 {
            0 | 6 => Bson::Int32(i2 as i32),
            1 => Bson::Double(i2 as f64 + 0.5),
            2 => Bson::Int64(i2),
            3 => Bson::String(format!("k{i2}")),
            4 | 7 => Bson::ObjectId(ObjectId::from_bytes([7, 7, 7, 7, 7, 7, 7, 7, 7, 7, (i2 >> 8) as u8, i2 as u8])),
            5 => Bson::DateTime(DateTime::from_millis((i2 - 2) * 86_400_000)),
            8 => Bson::String(["", "a b", "é", "x\0y"][(i2 & 3) as usize].to_string() + &"z".repeat((i2 >> 2) as usize + if self.st.long { 90 * (1 + i2 as usize % 5) } else { 0 })),
            9 => Bson::Int32(-1 - i2 as i32),
            _ => Bson::Int64(i64::MIN + i2),
        }
    }
    fn id(&mut self) -> Bson { let i = self.r.range(0, self.st.nids - 1); self.id_of(i) }
    fn new_id(&mut self) -> Bson { self.fresh += 1; Bson::Int32((100000 * (self.cid + 1) + self.fresh) as i32) }
    pub fn num(&mut self) -> Bson {
        // now and then a negative number, or one at a boundary of the representations
        if self.r.p(9) {
            return match self.r.n(if self.st.exotic { 5 } else { 4 }) { 0 | 1 => self.r.pick(&NEG).clone(), 2 => Bson::Int64(-self.r.range(1, 3)), 3 => self.r.pick(&BIG).clone(), _ => self.r.pick(&FRAC).clone() };
        }
        let x = self.r.range(0, 5);
        match self.r.n(if self.st.exotic { 8 } else { 5 }) { 0..=3 => Bson::Int32(x as i32), 4 | 5 => Bson::Int64(x), 6 => Bson::Double(x as f64), _ => Bson::Double(x as f64 + 0.5) }
    }
    fn uval(&mut self) -> Bson { let x = self.r.range(0, self.st.nids.max(4)); if x % 3 == 0 { Bson::String(format!("u{x}")) } else { Bson::Int32(x as i32) } }
    fn sval(&mut self) -> Bson {
        if self.st.exotic && self.r.p(12) { return Bson::String(self.r.pick(&ZS).to_string()); }
        if self.st.long && self.r.p(40) { return Bson::String(long_s(self.r.n(LONG))); }
        Bson::String(self.r.pick(&S).to_string())
    }
    fn exot(&mut self) -> Bson {
        if self.st.twins && self.r.p(40) { let b = 1 + self.r.n(2) as i64; return match self.r.n(5) { 0 => Bson::Int64(b), 1 => Bson::DateTime(DateTime::from_millis(b)), 2 => Bson::Double(f64::from_bits(b as u64)), 3 => Bson::String(format!("x{b:09}")), _ => twin(b) }; }
        match self.r.n(9) {
            0 => Bson::Boolean(self.r.p(50)),
            1 => Bson::Null,
            2 => Bson::DateTime(DateTime::from_millis(self.r.range(-5, 5) * 100_000_000_000)),
            3 => Bson::ObjectId(ObjectId::from_bytes([self.r.n(3) as u8; 12])),
            4 => Bson::Double(*self.r.pick(&[0.0, -0.0, 1e300, -2.5, f64::INFINITY])),
            5 => Bson::Int64(*self.r.pick(&[i64::MAX, i64::MIN, 1 << 40, -7])),
            6 => Bson::Int32(*self.r.pick(&[i32::MAX, i32::MIN, -1, 0])),
            7 => self.sval(),
            _ => Bson::Boolean(true),
        }
    }
    fn arr(&mut self) -> Bson { let n = self.r.n(4); Bson::Array((0..n).map(|_| if self.r.p(70) { Bson::Int32(self.r.range(0, 4) as i32) } else { self.sval() }).collect()) }
    fn pad(&mut self) -> Option<Bson> {
        if self.st.pad == 0 || !self.r.p(70) { return None; }
        let n = self.r.n(if self.st.bulk > 0 { self.st.pad.min(600) } else { self.st.pad });
        let c = (b'a' + self.r.n(26) as u8) as char;
        Some(Bson::String((0..n).map(|i| if i % 7 == 0 { (b'a' + (i % 23) as u8) as char } else { c }).collect()))
    }
    fn g_of(&self, id: &Bson) -> i32 { (hash_str(&format!("{id}")) % 4) as i32 }
    pub fn body(&mut self, id: Option<Bson>) -> Document {
        let mut d = Document::new();
        let front = self.r.p(70);
        if let (Some(i), true) = (&id, front) { d.insert("_id", i.clone()); }
        let g = match &id { Some(i) => self.g_of(i), None => self.r.n(4) as i32 };
        d.insert("g", g);
        d.insert("o", self.cid as i32);
        if self.r.p(80) { d.insert("k", self.r.n(2) as i32); }
        if self.r.p(85) { let n = self.num(); d.insert("n", n); }
        if self.r.p(60) { let s = self.sval(); d.insert("s", s); }
        if self.st.unique_u { if self.r.p(75) { let u = self.uval(); d.insert("u", u); } }
        if self.r.p(40) { d.insert("d", doc! {"x": self.r.range(0, 3) as i32, "y": S[self.r.n(5)]}); }
        if self.r.p(40) { let a = self.arr(); d.insert("a", a); }
        if self.st.exotic && self.r.p(50) { let e = self.exot(); d.insert("e", e); }
        if self.st.exotic && self.r.p(10) {
            let z = match self.r.n(6) { 0 => Bson::Document(doc! {"deep": {"er": [1, {"x": Bson::Null}]}}), 1 => Bson::Binary(Binary { subtype: bson::spec::BinarySubtype::Generic, bytes: vec![0, 1, 255, 0] }), 2 => Bson::Timestamp(bson::Timestamp { time: 4, increment: 9 }), 3 => Bson::Decimal128(bson::Decimal128::from_bytes([3; 16])), 4 => Bson::RegularExpression(bson::Regex { pattern: "^a".into(), options: "i".into() }), _ => Bson::JavaScriptCode("f()".into()) };
            d.insert("z", z);
        }
        if let Some(p) = self.pad() { d.insert("p", p); }
        if let (Some(i), false) = (id, front) { d.insert("_id", i); }
        d
    }
    fn doc(&mut self) -> Document {
        let id = if self.st.explicit_ids || self.r.p(75) { Some(self.id()) } else { None };
        let mut d = self.body(id);
        if !self.st.explicit_ids && self.r.p(3) && !d.contains_key("_id") { d.insert("_id", Bson::Null); }
        d
    }
    fn cond(&mut self) -> Document {
        // conditions without a condition
        if self.r.p(2) { return match self.r.n(4) { 0 => doc! {"$and": []}, 1 => doc! {"$or": []}, 2 => doc! {"n": {}}, _ => doc! {"s": {}} }; }
        let l = ["$gt", "$gte", "$lt", "$lte", "$eq", "$ne"];
        let fields: &[&str] = if self.st.unique_u { &["n", "n", "g", "s", "u", "d.x", "a", "e", "_id", "missing"] } else { &["n", "n", "g", "s", "d.x", "d.y", "a", "e", "_id", "missing"] };
        let f = *self.r.pick(fields);
        match f {
            "a" => match self.r.n(4) {
                0 => doc! {"a": {"$size": self.r.range(0, 3)}},
                1 => doc! {"a": {"$in": [self.r.range(0, 4) as i32, "a"]}},
                2 => doc! {"a": {"$all": [self.r.range(0, 3) as i32]}},
                _ => doc! {"a": {"$nin": [self.r.range(0, 4) as i32]}},
            },
            "e" if !self.st.exotic => doc! {},
            "e" => { let v = self.exot(); if self.r.p(50) { doc! {"e": v} } else { doc! {"e": {*self.r.pick(&l): v}} } }
            "_id" => match self.r.n(3) {
                0 => { let v = self.id(); doc! {"_id": v} }
                1 => { let v: Vec<Bson> = (0..3).map(|_| self.id()).collect(); doc! {"_id": {"$in": v}} }
                _ => { let v = self.id(); doc! {"_id": {*self.r.pick(&l): v}} }
            },
            "s" | "d.y" if self.r.p(15) => doc! {f: {"$regex": Bson::RegularExpression(bson::Regex { pattern: self.r.pick(&["^a", "b", "^$", "."]).to_string(), options: if self.r.p(30) { "i".into() } else { "".into() } })}},
            _ => {
                let v = |g: &mut G| match f { "s" | "d.y" => g.sval(), "u" => g.uval(), "g" => Bson::Int32(g.r.n(4) as i32), "d.x" => Bson::Int32(g.r.n(4) as i32), _ => g.num() };
                match self.r.n(10) {
                    0..=4 => { let x = v(self); doc! {f: x} }
                    5 | 6 => { let x = v(self); doc! {f: {*self.r.pick(&l): x}} }
                    7 => { let (x, y) = (v(self), v(self)); doc! {f: {"$gte": x, "$lte": y}} }
                    8 => { let (x, y) = (v(self), v(self)); if self.r.p(50) { doc! {f: {"$in": [x, y]}} } else { doc! {f: {"$nin": [x, y]}} } }
                    _ => { let x = v(self); doc! {f: {"$not": {*self.r.pick(&l): x}}} }
                }
            }
        }
    }
    pub fn query(&mut self) -> Document {
        if self.r.p(7) { return self.combo(); }
        match self.r.n(12) {
            0 | 1 => doc! {},
            2 => { let (a, b) = (self.cond(), self.cond()); let mut d = doc! {"$or": [a, b]}; if self.r.p(40) { let c = self.cond(); if !c.contains_key("$or") { d.extend(c); } } d }
            3 => { let (a, b) = (self.cond(), self.cond()); doc! {"$and": [a, b]} }
            4 | 5 => {
                let mut a = self.cond();
                for _ in 0..if self.r.p(35) { 2 + self.r.n(2) } else { 1 } {
                    // mostly ones that some documents meet
                    let b = if self.r.p(40) { match self.r.n(5) { 0 => doc! {"g": self.r.n(4) as i32}, 1 => doc! {"o": self.r.n(3) as i32}, 2 => doc! {"d.x": self.r.n(4) as i32}, 3 => { let s = self.sval(); doc! {"s": s} } _ => { let n = self.num(); doc! {"n": n} } } } else { self.cond() };
                    for (k, v) in b { if !a.contains_key(&k) { a.insert(k, v); } }
                }
                a
            }
            _ => self.cond(),
        }
    }
    /// values of several fields, as some documents have them
    fn combo(&mut self) -> Document {
        let mut v = vec![("g", Bson::Int32(self.r.n(4) as i32)), ("k", Bson::Int32(self.r.n(2) as i32)), ("o", Bson::Int32(if self.r.p(50) { self.cid as i32 } else { self.r.n(3) as i32 }))];
        match self.r.n(8) { 0 => { let s = self.sval(); v.push(("s", s)); } 1 => { let n = self.num(); v.push(("n", n)); } 2 => v.push(("d.x", Bson::Int32(self.r.n(4) as i32))), 3 => { v.pop(); } _ => {} }
        let mut d = Document::new();
        while !v.is_empty() { let (k, x) = v.swap_remove(self.r.n(v.len())); d.insert(k, x); }
        d
    }
    /// a query that names exactly one document
    fn one(&mut self) -> Document {
        let mut q = op_doc("_id", self.id());
        if self.r.p(25) { let v = self.num(); q.insert("n", v); }
        else if self.r.p(15) { q.insert("n", doc! {"$gt": self.r.range(0, 3) as i32}); }
        q
    }
    pub fn update(&mut self) -> Document {
        let mut u = Document::new();
        let k = match self.r.n(20) { 0..=13 => 1, 14..=18 => 2, _ => 3 };
        for _ in 0..k {
            let (op, v): (&str, Document) = match self.r.n(18) {
                0..=3 => ("$inc", op_doc("n", if self.r.p(80) { Bson::Int32(1) } else { self.num() })),
                4 => ("$mul", op_doc("n", if self.r.p(80) { Bson::Int32(2) } else { self.num() })),
                5 => ("$max", op_doc("n", self.num())),
                6 => ("$min", op_doc("n", self.num())),
                7 | 8 => ("$set", op_doc("n", self.num())),
                9 => ("$set", { let s = self.sval(); doc! {"s": s, "t": self.r.n(3) as i32} }),
                10 => ("$set", if self.st.unique_u { op_doc("u", self.uval()) } else { doc! {"d": {"x": self.r.range(0, 3) as i32, "y": S[self.r.n(5)]}} }),
                11 => ("$unset", op_doc(*self.r.pick(if self.st.unique_u { &["n", "u", "s", "a"] } else { &["n", "s", "d", "a"] }), "")),
                12 => ("$rename", if self.r.p(50) { doc! {"s": "t"} } else { doc! {"t": "s"} }),
                13 => ("$push", op_doc("a", Bson::Int32(self.r.range(0, 4) as i32))),
                14 => ("$pop", op_doc("a", if self.r.p(50) { 1 } else { -1 })),
                // several fields at once
                15 => match self.r.n(5) {
                    0 => ("$inc", { let x = self.num(); doc! {"n": 1, "w": x} }),
                    1 => ("$max", { let (x, y) = (self.num(), self.num()); doc! {"w": x, "n": y} }),
                    2 => ("$min", { let (x, y) = (self.num(), self.num()); doc! {"n": x, "w": y} }),
                    3 => ("$mul", doc! {"w": 3, "n": 2}),
                    _ => ("$set", { let (x, y) = (self.num(), self.num()); doc! {"n": x, "w": y, "k": self.r.n(2) as i32} }),
                },
                16 => match self.r.n(7) {
                    // no field at all
                    4 => (*self.r.pick(&["$set", "$inc", "$unset", "$rename", "$push", "$pop", "$max"]), doc! {}),
                    5 => ("$push", doc! {"a": if self.r.p(50) { Bson::Document(doc! {"q": 1}) } else { Bson::Array(vec![Bson::Int32(1), Bson::Null]) }}),
                    6 => ("$set", doc! {"a": [1, "x", 2.5]}),
                    0 => ("$unset", doc! {"s": "", "w": "", "n": ""}),
                    1 => ("$rename", doc! {"s": "w", "t": "s"}),
                    2 => ("$push", doc! {"a": self.r.n(4) as i32, "b": "x"}),
                    _ => ("$pop", doc! {"b": 1, "a": -1}),
                },
                _ => ("$set", { let mut d = Document::new(); if let Some(p) = self.pad() { d.insert("p", p); } else { d.insert("w", self.r.n(9) as i32); } d }),
            };
            match u.get_mut(op) {
                Some(Bson::Document(o)) => for (f, x) in v { if !o.contains_key(&f) { o.insert(f, x); } },
                _ => { u.insert(op, v); }
            }
        }
        if self.st.exotic && self.r.p(5) { u.insert("$set", op_doc("e", self.exot())); }
        if self.r.p(1) { u = doc! {}; }
        u
    }
    fn bad_update(&mut self) -> Document {
        match self.r.n(12) {
            7 => doc! {"n": 5}, 8 => doc! {"$inc": 5}, 9 => doc! {"$rename": {"s": "_id"}}, 10 => doc! {"$pop": {"a": 2}}, 11 => doc! {"$set": {"n": 1}, "$rename": {"s": 5}},
            0 => doc! {"$inc": {"s": 1}}, 1 => doc! {"$set": {"_id": 5}}, 2 => doc! {"$push": {"g": 1}}, 3 => doc! {"$unknown": {"n": 1}}, 4 => doc! {"$mul": {"s": 2}}, 5 => doc! {"$pop": {"s": 1}},
            _ => doc! {"$inc": {"n": "x"}},
        }
    }
    fn pipeline(&mut self) -> Vec<Document> {
        let mut p = vec![];
        if self.r.p(60) { let q = self.query(); p.push(op_doc("$match", q)); }
        let mut sorted = false;
        for _ in 0..self.r.n(4) {
            match self.r.n(9) {
                0 | 1 => {
                    let mut o = Document::new();
                    for _ in 0..1 + self.r.n(2) { let f = *self.r.pick(&["n", "s", "g", "k", "missing"]); if !o.contains_key(f) { o.insert(f, if self.r.p(50) { 1 } else { -1 }); } }
                    o.insert("_id", if self.r.p(70) { 1 } else { -1 });
                    p.push(doc! {"$sort": o});
                    sorted = true;
                }
                2 | 3 => {
                    let n = self.r.n(6) as i64;
                    let x = if self.r.p(50) { doc! {"$skip": n} } else { doc! {"$limit": n + 1} };
                    // how many there are does not depend on the order
                    if !sorted && self.r.p(15) { p.push(x); p.push(if self.r.p(50) { doc! {"$count": "total"} } else { doc! {"$group": {"_id": 1, "cnt": {"$sum": 1}}} }); break; }
                    if !sorted { p.push(doc! {"$sort": {"_id": if self.r.p(50) { 1 } else { -1 }}}); sorted = true; }
                    p.push(x);
                }
                4 => p.push(match self.r.n(5) {
                    0 | 1 => doc! {"$addFields": {"m": "$n", "c": 7}},
                    2 => doc! {"$addFields": {"m": {"$abs": "$n"}}},
                    3 => doc! {"$addFields": {"m": {"$abs": {"$abs": "$n"}}, "c": {"$abs": -3}, "s": "$m"}},
                    _ => doc! {"$addFields": {"n": "text", "x": Bson::Null, "y": [1, "$n"], "g": "$k"}},
                }),
                5 => p.push(if self.r.p(50) { doc! {"$unset": "s"} } else { doc! {"$unset": ["s", "n", "q"]} }),
                6 => { p.push(doc! {"$count": "total"}); break; }
                7 => { let v = self.r.pick(&[Bson::Null, Bson::Int32(3), Bson::String("all".into())]).clone(); p.push(if self.r.p(60) { doc! {"$group": {"_id": v, "cnt": {"$sum": 1}}} } else { doc! {"$group": {"a": {"$sum": 1}, "_id": v, "b": {"$sum": "$n"}, "c": {"$sum": 2}}} }); break; }
                _ if self.r.p(20) => { p.push(self.r.pick(&[doc! {"$match": {"n": 1}}, doc! {"$nosuchstage": 1}, doc! {"$skip": "x"}, doc! {"$unset": [1]}, doc! {"$group": {"cnt": {"$sum": 1}}}, doc! {"$sort": {"n": "x"}}, doc! {}, doc! {"$count": 1}, doc! {"$skip": 1, "$limit": 1}]).clone()); return p; }
                _ => {}
            }
        }
        // what comes after one document with the result
        if p.last().map(|x| x.contains_key("$count") || x.contains_key("$group")) == Some(true) && self.r.p(30) {
            p.push(match self.r.n(5) { 0 => doc! {"$addFields": {"m": {"$abs": "$total"}, "t": "$cnt"}}, 1 => doc! {"$unset": ["_id", "b"]}, 2 => doc! {"$skip": self.r.n(2) as i32}, 3 => doc! {"$limit": 1_i64}, _ => doc! {"$sort": {"total": -1}} });
        }
        p
    }
    fn fix_ids(d: &mut Document) -> bool { d.contains_key("_id") }
    pub fn sweep_fields(&mut self, c: &str) -> Vec<Op> {
        let mut v = vec![];
        let nums: Vec<B> = (0..6).flat_map(|x| [B(Bson::Int32(x)), B(Bson::Double(x as f64 + 0.5))]).chain(NEG.iter().chain(BIG.iter()).chain(FRAC.iter()).map(|x| B(x.clone()))).collect();
        for (f, _) in self.st.idx.clone() {
            let vs: Vec<B> = match f {
                "n" | "g" => nums.clone(),
                "d.x" | "t" | "w" | "o" | "x" | "k" | "m1" | "m2" => (0..4).map(|x| B(Bson::Int32(x))).collect(),
                "u" => (0..=self.st.nids.max(4)).map(|x| B(if x % 3 == 0 { Bson::String(format!("u{x}")) } else { Bson::Int32(x as i32) })).collect(),
                _ => {
                    let mut v: Vec<B> = S.iter().map(|s| B(Bson::String(s.to_string()))).collect();
                    if self.st.exotic { v.extend(ZS.iter().map(|s| B(Bson::String(s.to_string())))); }
                    if self.st.long { v.extend((0..LONG).map(|i| B(Bson::String(long_s(i))))); }
                    v
                }
            };
            v.push(Op::Sweep { c: c.into(), t: 0, f: f.into(), vs });
        }
        v
    }
    /// reads everything
    pub fn verify(&mut self) -> Vec<Op> {
        let mut v = vec![Op::List {}];
        for c in self.st.cols.clone() {
            v.push(Op::Find { c: c.clone(), t: 0, q: D(doc! {}), sort: None, skip: None, limit: None });
            v.push(Op::Count { c: c.clone(), t: 0 });
            v.extend(self.sweep_fields(&c));
        }
        v
    }
    pub fn setup(&mut self, docs: usize) -> Vec<Op> {
        let mut v = vec![];
        for c in self.st.cols.clone() {
            for (f, u) in self.st.idx.clone() { if self.r.p(75) { v.push(Op::CreateIndex { c: c.clone(), t: 0, key: f.into(), unique: u, name: None }); } }
            let mut ds = vec![];
            let n = if docs == 0 { 0 } else { self.r.n(docs + 1) };
            let mut used = std::collections::BTreeSet::new();
            for _ in 0..n {
                let i = self.r.range(0, self.st.nids - 1);
                if !used.insert(i) { continue; }
                let id = self.id_of(i);
                let mut d = self.body(Some(id));
                d.remove("u");
                if self.st.unique_u && self.r.p(60) { d.insert("u", if i % 3 == 0 { Bson::String(format!("u{i}")) } else { Bson::Int32(i as i32) }); }
                ds.push(D(d));
            }
            if !ds.is_empty() { v.push(Op::InsertMany { c: c.clone(), t: 0, ds }); }
        }
        v
    }
    /// like `setup`, for every client's own ids
    pub fn op(&mut self) -> Vec<Op> {
        let w = self.st.w.clone();
        if self.txn.is_none() && self.st.txn > 0 && self.r.p(self.st.txn) {
            let t = self.next_t; self.next_t += 1; self.txn = Some(t);
            return vec![Op::Begin { t }];
        }
        if let Some(t) = self.txn {
            if self.r.p(28) {
                self.txn = None;
                return vec![match self.r.n(10) { 0..=6 => Op::Commit { t }, 7 | 8 => Op::Rollback { t }, _ => Op::Abandon { t } }];
            }
        }
        let t = match self.txn { Some(t) if self.r.p(88) => t, _ => 0 };
        let c = self.col();
        let bad = self.st.bad > 0 && self.r.p(self.st.bad);
        let k = self.r.weighted(&[w.insert, w.many, w.update, w.updmany, w.upsert, w.delete, w.delmany, w.find, w.findone, w.count, w.agg, w.list, w.createcol, w.dropcol, w.cidx, w.didx, w.sleep, w.cursor]);
        if bad && self.r.p(25) {
            let c = self.r.pick(&["a.b", "$x", "a\nb", "\t", "x\0y", ""]).to_string();
            return vec![match self.r.n(5) { 0 => Op::Insert { c, t, d: D(self.doc()) }, 1 => Op::CreateCol { c }, 2 => Op::Update { c, t, q: D(self.one()), u: D(self.update()), many: false, upsert: false }, 3 => Op::CreateIndex { c, t, key: "n".into(), unique: false, name: None }, _ => Op::Delete { c, t, q: D(self.one()), many: false } }];
        }
        let op = match k {
            0 => { let mut d = self.doc(); if self.r.p(30) { let i = self.new_id(); d.insert("_id", i); } Op::Insert { c, t, d: D(d) } }
            1 if self.st.bulk > 0 && self.r.n(1000) < self.st.bulk as usize => {
                // a large insert, sometimes with a document at a random place that cannot be inserted
                let n = *self.r.pick(&[70, 150, 300, 600, 1100]);
                let mut ds: Vec<D> = (0..n).map(|i| { let id = self.new_id(); D(doc! {"_id": id, "g": 7, "o": self.cid as i32, "n": 10 + (i % 7) as i32}) }).collect();
                if self.r.p(60) {
                    let at = if self.r.p(50) { self.r.n(n) } else { n - 1 - self.r.n(n / 8) };
                    let bad = match self.r.n(3) { 0 => ds[self.r.n(n)].0.get("_id").unwrap().clone(), 1 => self.id(), _ => Bson::Array(vec![]) };
                    ds[at].0.insert("_id", bad);
                }
                Op::InsertMany { c, t, ds }
            }
            1 => {
                let n = if self.r.p(3) { 0 } else { 1 + self.r.n(5) };
                let ds = (0..n).map(|_| { let mut d = self.doc(); if self.r.p(60) && G::fix_ids(&mut d) { let i = self.new_id(); d.insert("_id", i); } D(d) }).collect();
                Op::InsertMany { c, t, ds }
            }
            2 => { let q = if self.st.single && self.r.p(50) { self.query() } else { self.one() }; let u = if bad { self.bad_update() } else { self.update() }; Op::Update { c, t, q: D(q), u: D(u), many: false, upsert: false } }
            3 => {
                let q = if self.st.single { self.query() } else if self.st.multi_g { doc! {"g": self.r.n(4) as i32} } else { let mut q = doc! {"o": self.cid as i32}; if self.st.own && self.r.p(70) { q.extend(self.cond()); q.insert("o", self.cid as i32); } q };
                let u = if bad { self.bad_update() } else { self.update() };
                Op::Update { c, t, q: D(q), u: D(u), many: true, upsert: false }
            }
            4 => {
                let mut q = op_doc("_id", self.id());
                if self.r.p(30) { let v = self.num(); q.insert("n", v); }
                // more equalities (what an upsert puts into a new document), and conditions that leave nothing behind
                if self.r.p(15) { q.insert("s", self.sval()); }
                if self.r.p(10) { q.insert("t", self.r.n(3) as i32); }
                if self.st.single && self.r.p(4) { q.insert("d", doc! {"x": self.r.range(0, 3) as i32, "y": S[self.r.n(5)]}); }
                if self.r.p(8) { q.insert("w", self.r.n(4) as i32); }
                let mut s = doc! {};
                if self.r.p(80) { let v = self.num(); s.insert("n", v); }
                if self.st.unique_u && self.r.p(50) { let v = self.uval(); s.insert("u", v); }
                if self.r.p(40) { let v = self.sval(); s.insert("s", v); }
                if s.is_empty() { s.insert("w", 1); }
                let mut u = doc! {"$set": s};
                if self.r.p(20) { u.insert("$inc", doc! {"x": 1}); }
                Op::Update { c, t, q: D(q), u: D(u), many: self.st.single && self.r.p(20), upsert: true }
            }
            5 => { let q = if self.st.single && self.r.p(40) { self.query() } else { self.one() }; Op::Delete { c, t, q: D(q), many: false } }
            6 => {
                let q = if self.st.single { if self.r.p(20) { doc! {} } else { self.query() } } else if self.st.multi_g { doc! {"g": self.r.n(4) as i32} } else { let mut q = doc! {"o": self.cid as i32}; if self.st.own && self.r.p(70) { q.extend(self.cond()); q.insert("o", self.cid as i32); } q };
                Op::Delete { c, t, q: D(q), many: true }
            }
            7 => {
                let q = self.query();
                let sort = if self.r.p(35) { Some(D(match self.r.n(4) { 0 => doc! {"n": 1}, 1 => doc! {"n": -1, "_id": 1}, 2 => doc! {"s": -1, "g": 1}, _ => doc! {"_id": -1} })) } else { None };
                let far = if self.r.p(10) { 100 } else { 5 };
                let skip = if self.r.p(15) { Some(self.r.n(far) as u64) } else { None };
                let limit = if self.r.p(15) { Some(self.r.n(12) as u64 * 5 / 11) } else { None };
                Op::Find { c, t, q: D(q), sort, skip, limit }
            }
            8 => { let q = if self.r.p(60) { self.one() } else { self.query() }; Op::FindOne { c, t, q: D(q) } }
            9 => Op::Count { c, t },
            10 => Op::Agg { c, t, p: self.pipeline().into_iter().map(D).collect() },
            11 => Op::List {},
            12 => Op::CreateCol { c },
            13 => Op::DropCol { c, t },
            14 => { let (f, u) = *self.r.pick(&if self.st.idx.is_empty() { vec![("n", false)] } else { self.st.idx.clone() }); Op::CreateIndex { c, t, key: f.into(), unique: u, name: if self.r.p(15) { Some(format!("my_{}", f.replace('.', "_"))) } else { None } } }
            15 => { let (f, _) = *self.r.pick(&if self.st.idx.is_empty() { vec![("n", false)] } else { self.st.idx.clone() }); let n = f.replace('.', "_"); Op::DropIndex { c, t, name: if self.r.p(15) { format!("my_{n}") } else { n + "_1" } } }
            16 => Op::Sleep { us: 1 + self.r.n(20_000) as u32 },
            _ => {
                self.cur += 1;
                let cur = self.cur;
                let q = self.query();
                let q = if t != 0 && self.r.p(50) { doc! {} } else { q };
                let mut v = vec![Op::CurOpen { cur, c, t, q: D(q), sort: None }];
                for _ in 0..2 + self.r.n(4) { v.push(Op::CurNext { cur, n: 1 + self.r.n(3) as u32 }); }
                if t != 0 && self.r.p(50) {
                    // the cursor outlives its transaction
                    self.txn = None;
                    let at = 1 + self.r.n(v.len());
                    v.insert(at, match self.r.n(5) { 0..=2 => Op::Commit { t }, 3 => Op::Rollback { t }, _ => Op::Abandon { t } });
                }
                if self.r.p(70) { v.push(Op::CurNext { cur, n: 1000 }); }
                v.push(Op::CurClose { cur });
                return v;
            }
        };
        vec![op]
    }
    pub fn ops(&mut self, n: usize) -> Vec<Op> {
        let mut v = vec![];
        while v.len() < n { v.extend(self.op()); }
        if let Some(t) = self.txn { if self.r.p(70) { self.txn = None; v.push(Op::Commit { t }); } }
        self.txn = None;
        v
    }
    pub fn vnext(&mut self) -> i64 { self.vctr += 1; (self.cid + 1) * 10000 + self.vctr }
}
const NEG: [Bson; 3] = [Bson::Int32(-1), Bson::Int32(-2), Bson::Int32(-3)];
const BIG: [Bson; 7] = [Bson::Int32(i32::MAX), Bson::Int32(i32::MIN), Bson::Int64(1 << 31), Bson::Int64((1 << 53) + 1), Bson::Int64(-(1 << 40)), Bson::Int64(i64::MAX), Bson::Int64(i64::MIN)];
const FRAC: [Bson; 8] = [Bson::Double(-0.0), Bson::Double(9223372036854775808.0), Bson::Double(-9223372036854775808.0), Bson::Double(-1.0), Bson::Double(-0.5), Bson::Double(9007199254740992.0), Bson::Double(2147483648.0), Bson::Double(-2147483648.0)];
pub fn base_w() -> W { W { insert: 12, many: 5, update: 14, updmany: 4, upsert: 4, delete: 6, delmany: 2, find: 8, findone: 3, count: 2, agg: 2, list: 1, createcol: 0, dropcol: 0, cidx: 0, didx: 0, sleep: 0, cursor: 0 } }
pub fn base_style() -> Style { Style { cols: vec!["c".into()], nids: 8, own: false, single: false, explicit_ids: true, pad: 0, txn: 12, bad: 0, w: base_w(), idx: vec![("n", false), ("s", false), ("d.x", false)], exotic: false, unique_u: false, multi_g: false, id_off: 0, bulk: 0, long: false, twins: false } }

/// schedule of one run
pub fn sched(r: &mut Rng, clients: usize) -> Cfg {
    let mut c = Cfg {
        seed_sched: r.u64(), seed_io: r.u64(), seed_entropy: r.u64(), policy: 0, ppm_api: 0, ppm_int: 0, pct_depth: 0, pct_len: 0, ppm_edge: 0,
        clock_mode: 0, small: 0, nocache: 0, ncpu: 4, io_lat_us: 100, max_steps: 3_000_000, net_frag: 0, net_delay_us: 0, mem_max_mb: 0, ppm_stall: 0,
    };
    match r.n(if clients > 1 { 10 } else { 4 }) {
        0 => {}
        1..=2 => { c.policy = 1; c.ppm_api = 100_000; c.ppm_int = 2_000; c.ppm_edge = 100; }
        3..=6 => { c.policy = 1; c.ppm_api = *r.pick(&[50_000, 200_000, 500_000]); c.ppm_int = *r.pick(&[0, 2_000, 20_000]); c.ppm_edge = *r.pick(&[0, 100, 1000, 5000]); }
        _ => { c.policy = 2; c.pct_depth = 1 + r.n(5) as u32; c.pct_len = *r.pick(&[2_000, 8_000, 30_000]); c.ppm_edge = *r.pick(&[0, 0, 50, 500]); }
    }
    if r.p(15) { c.io_lat_us = 20_000; }
    if r.p(10) { c.ncpu = 1; }
    let mut q = Rng::new(hash(c.seed_sched, 0x57a11, 1));
    if q.p(if clients > 1 { 40 } else { 15 }) { c.ppm_stall = *q.pick(&[1_000, 5_000, 5_000, 20_000]); }
    c
}
pub fn vary_sched(p: &mut Plan, k: u64) {
    let mut r = Rng::new(hash(p.seed, 0x5ced, k));
    let n = p.incs.iter().map(|i| i.clients.len()).max().unwrap_or(1);
    let o = p.cfg.clone();
    p.cfg = sched(&mut r, n);
    p.cfg.small = o.small; p.cfg.nocache = o.nocache; p.cfg.clock_mode = o.clock_mode; p.cfg.net_frag = o.net_frag; p.cfg.net_delay_us = o.net_delay_us; p.cfg.mem_max_mb = o.mem_max_mb;
}

/// How one property is exercised: base plan, and how many schedules or faulty variants to try with it.
pub fn generate(prop: &str, i: u64, vseed: u64) -> (Plan, Var, u32) {
    let seed = hash(vseed, hash_str(prop), i);
    let mut r = Rng::new(seed);
    let mut p = Plan { prop: prop.into(), profile: String::new(), seed, cfg: sched(&mut r, 3), incs: vec![], oracle: vec!["refine".into()], dev: None, note: Default::default() };
    let (var, k) = crate::profiles::fill(prop, &mut p, &mut r);
    (p, var, k)
}

/// The k-th variant of a plan with a crash, given the counts of its undisturbed run.
pub fn crash_variant(base: &Plan, pcnt: &[Vec<(u64, u64)>], k: u64) -> Plan {
    let mut p = base.clone();
    let mut r = Rng::new(hash(base.seed, 0xc4a5, k));
    if r.p(35) { vary_sched(&mut p, k); }
    let n = base.incs.len();
    // crash the first life, sometimes the recovering one too
    let mut lives = vec![0usize];
    if n > 2 && r.p(35) { lives.push(1); }
    if n > 3 && r.p(25) { lives.push(2); }
    if r.p(12) && n > 2 { lives = vec![1]; }
    for l in lives {
        let ph = match r.n(20) { 0..=13 => 1usize, 14..=16 => 0, 17 => 2, _ => 3 };
        let cnt = pcnt.get(l).and_then(|c| c.get(ph)).copied().unwrap_or((0, 0));
        let cnt = if cnt.0 < 2 { (20, 2000) } else { cnt };
        if r.p(65) {
            let io = 1 + r.u64() % cnt.0;
            let kind = *r.pick(&[sys::FK_CRASH_BEFORE, sys::FK_CRASH_AFTER, sys::FK_CRASH_TORN, sys::FK_CRASH_TORN]);
            let m = if kind == sys::FK_CRASH_TORN { sys::OP_WRITE } else { 0xffff_ffff };
            p.incs[l].faults.push(FaultP { phase: ph as u32, from: io as u32, to: u32::MAX, opmask: m, pathmask: 0xff, kind, arg: r.u64() as u32, ppm: 1_000_000, max: 1 });
        } else {
            p.incs[l].step_crash = 1 + r.u64() % cnt.1.max(1);
            p.incs[l].step_crash_phase = ph as u32;
        }
    }
    for inc in p.incs.iter_mut() {
        inc.power = r.p(65) as u32;
        inc.power_seed = r.u64();
        inc.power_mode = match r.n(10) { 0..=5 => 0, 6..=8 => 1, _ => 2 };
    }
    p
}
/// The k-th variant of a plan with failing I/O.
pub fn iof_variant(base: &Plan, pcnt: &[Vec<(u64, u64)>], k: u64) -> Plan {
    let mut p = base.clone();
    let mut r = Rng::new(hash(base.seed, 0x10f, k));
    if r.p(30) { vary_sched(&mut p, k); }
    let f = base.note.get("fault_life").and_then(|x| x.as_u64()).unwrap_or(0) as usize;
    let l = if base.incs.len() > f + 2 && r.p(15) { f + 1 } else { f };
    let nf = 1 + (r.n(10) / 7);
    for _ in 0..nf {
        let ph = match r.n(20) { 0..=15 => 1usize, 16 | 17 => 0, 18 => 2, _ => 3 };
        let cnt = pcnt.get(l).and_then(|c| c.get(ph)).map(|c| c.0).unwrap_or(0).max(4);
        let from = 1 + r.u64() % cnt;
        let (kind, opmask) = match r.n(12) {
            0..=2 => (sys::FK_EIO, sys::OP_WRITE),
            3 => (sys::FK_EIO, sys::OP_FSYNC),
            4 | 5 => (sys::FK_EIO, sys::OP_READ),
            6 => (sys::FK_EIO, sys::OP_OPEN | sys::OP_CREATE | sys::OP_RENAME | sys::OP_UNLINK | sys::OP_TRUNC | sys::OP_STAT | sys::OP_MKDIR | sys::OP_OPENDIR),
            7 => (sys::FK_ENOSPC, sys::OP_WRITE | sys::OP_CREATE),
            8 => (sys::FK_SHORT, sys::OP_WRITE),
            9 => (sys::FK_SHORT, sys::OP_READ),
            10 => (sys::FK_EINTR, sys::OP_READ | sys::OP_WRITE | sys::OP_OPEN | sys::OP_CREATE),
            _ => (sys::FK_EMFILE, sys::OP_OPEN | sys::OP_CREATE),
        };
        let mut pathmask = match r.n(6) { 0 => sys::PC_WAL, 1 | 2 => sys::PC_SST, 3 => sys::PC_MANIFEST, _ => 0xff };
        // what follows a broken MANIFEST is C09's
        if base.profile.starts_with("srv-") { pathmask = if pathmask == sys::PC_MANIFEST { sys::PC_WAL } else { pathmask & !sys::PC_MANIFEST }; }
        let (to, ppm, max) = match r.n(4) { 0 | 1 => (u32::MAX, 1_000_000, 1), 2 => (u32::MAX, 1_000_000, 1 + r.n(6) as u32), _ => (u32::MAX, *r.pick(&[50_000, 200_000, 1_000_000]), 0) };
        let ppm = if kind == sys::FK_EINTR && max == 0 { ppm.min(200_000) } else { ppm };
        p.incs[l].faults.push(FaultP { phase: ph as u32, from: from as u32, to, opmask, pathmask, kind, arg: r.u64() as u32, ppm, max });
    }
    if r.p(25) { for inc in p.incs.iter_mut() { inc.power = 1; inc.power_seed = r.u64(); inc.power_mode = r.n(2) as u32; } }
    p
}

//! The workloads of the properties of the embedded database.
use crate::gen::*;
use bson::{doc, Bson, Document};
use polosim_exec::plan::*;
use polosim_exec::rng::Rng;

fn find_all(c: &str) -> Op { Op::Find { c: c.into(), t: 0, q: D(doc! {}), sort: None, skip: None, limit: None } }
fn all_writable(st: &Style) -> Vec<Op> {
    // every document can be written again
    let mut v = vec![];
    let g = G::new(0, st.clone(), 0);
    for c in &st.cols { for i in 0..st.nids.min(4) { let q = { let mut d = Document::new(); d.insert("_id", g.id_of(i)); D(d) }; v.push(Op::Update { c: c.clone(), t: 0, q: q.clone(), u: D(doc! {"$set": {"post": 1}}), many: false, upsert: false }); if i == 0 { v.push(Op::Delete { c: c.clone(), t: 0, q: q.clone(), many: false }); v.push(Op::Insert { c: c.clone(), t: 0, d: D({ let mut d = q.0.clone(); d.insert("w", 77); d }) }); } } }
    v
}
/// lives: the first with `clients` clients, the others read everything, work a little, and read everything again
fn lives(r: &mut Rng, st: &Style, clients: usize, ops: usize, docs: usize, n: usize, close_p: u32) -> Vec<Inc> {
    let mut out = vec![];
    for l in 0..n {
        let mut inc = Inc::default();
        if l == 0 { let mut g = G::new(r.u64(), st.clone(), if st.own { 0 } else { 9 }); inc.setup = g.setup(docs); }
        else { let mut g = G::new(r.u64(), st.clone(), 9); inc.setup = g.verify(); }
        if l + 1 < n || l == 0 {
            let k = if l == 0 { clients } else { 1 + r.n(clients.max(1)) };
            let m = if l == 0 { ops } else { ops / 2 + 1 };
            for c in 0..k { let mut g = G::new(r.u64(), st.clone(), c as i64); let m2 = m / 2 + r.n(m / 2 + 1); inc.clients.push(g.ops(m2)); }
        }
        let mut g = G::new(r.u64(), st.clone(), 9);
        if l == 0 && r.p(70) { inc.post = g.verify(); }
        if l + 1 == n { inc.post = all_writable(st); inc.post.extend(g.verify()); }
        inc.close = r.p(close_p);
        out.push(inc);
    }
    out
}
fn big(r: &mut Rng, p: &mut Plan, st: &mut Style, percent: u32) {
    if r.p(percent) { p.cfg.small = 1; st.pad = *r.pick(&[300, 2000, 12000]); }
    if r.p(25) { p.cfg.nocache = 1; p.cfg.small = 1; }
}
pub fn fill(prop: &str, p: &mut Plan, r: &mut Rng) -> (Var, u32) {
    let mut st = base_style();
    st.id_off = r.n(11) as i64;
    // the unusual sizes, in some of the plans
    let mut sr = Rng::new(p.seed ^ 0x5ca1e);
    st.long = sr.p(8); st.twins = sr.p(14);
    if sr.p(5) && matches!(prop, "C01" | "C03" | "C05" | "C06" | "C11" | "C18" | "C20") { st.bulk = 100; }
    // a transaction goes on after an operation of it has failed
    if sr.p(60) { p.note.insert("cont".into(), true.into()); }
    let out = fill2(prop, p, r, &mut st);
    if sr.p(8) && matches!(prop, "C03" | "C04" | "C05" | "C06" | "C08" | "C11") && p.incs[0].clients.len() > 1 { share(&mut sr, p); }
    if sr.p(25) && !matches!(prop, "C12" | "C13" | "C16" | "C17" | "C18" | "C19" | "C20") {
        for inc in p.incs.iter_mut() { for o in inc.setup.iter_mut().chain(inc.clients.iter_mut().flatten()).chain(inc.post.iter_mut()) {
            if let Op::Find { c, t, q, sort: None, skip: None, limit: None } = o { if sr.p(25) { *o = Op::Typed { c: c.clone(), t: *t, q: q.clone() }; } }
        } }
    }
    if sr.p(15) && p.note.contains_key("cont") && matches!(prop, "C03" | "C04" | "C05" | "C06" | "C08" | "C11") { after(&mut sr, p); }
    if sr.p(6) && !matches!(prop, "C13" | "C16" | "C17" | "C19") {
        // hours pass between the operations
        for inc in p.incs.iter_mut() { for cl in inc.clients.iter_mut() { interleave(&mut sr, cl, 12, &mut |r| vec![Op::Sleep { us: *r.pick(&[2_000_000, 35_000_000, 130_000_000, 1_300_000_000, 4_000_000_000]) }]); } }
    }
    out
}
/// operations of transactions that have ended
fn after(r: &mut Rng, p: &mut Plan) {
    for inc in p.incs.iter_mut() { for cl in inc.clients.iter_mut() {
        let mut ended: Vec<u32> = vec![];
        for o in cl.iter_mut() {
            match o {
                Op::Begin { t } => ended.retain(|x| x != t),
                Op::Commit { t } => ended.push(*t),
                Op::Insert { t, .. } | Op::InsertMany { t, .. } | Op::Update { t, .. } | Op::Delete { t, .. } | Op::Find { t, .. } | Op::Count { t, .. }
                | Op::DropCol { t, .. } | Op::CreateIndex { t, .. } | Op::DropIndex { t, .. } if *t == 0 && !ended.is_empty() && r.p(40) => *t = *r.pick(&ended),
                _ => {}
            }
        }
        if !ended.is_empty() && r.p(30) { let t = *r.pick(&ended); let i = r.n(cl.len()); if !cl[i..].iter().any(|o| matches!(o, Op::Begin { .. })) { cl.push(Op::Commit { t }); } }
    } }
}
/// the clients work together in one or two transactions
fn share(r: &mut Rng, p: &mut Plan) {
    use polosim_exec::exec::SHARED;
    p.note.insert("cont".into(), true.into());
    let k = 1 + r.n(2) as u32;
    let many = r.p(40);
    for (i, cl) in p.incs[0].clients.iter_mut().enumerate() {
        let mut out = vec![];
        if i == 0 { out.extend((0..k).map(|x| Op::Begin { t: SHARED + x })); }
        for mut o in cl.drain(..) {
            let s = SHARED + r.n(k as usize) as u32;
            if r.p(50) {
                // nobody's documents: the own ones of a client would come and go with the commits of the others
                match &mut o { Op::Insert { t: 0, d, .. } => { d.0.insert("o", 8); } Op::InsertMany { t: 0, ds, .. } => for d in ds { d.0.insert("o", 8); }, _ => {} }
                match &mut o {
                Op::Insert { t, .. } | Op::InsertMany { t, .. } | Op::Update { t, .. } | Op::Delete { t, .. } | Op::Find { t, .. } | Op::FindOne { t, .. } | Op::Typed { t, .. } | Op::Count { t, .. } | Op::Agg { t, .. }
                | Op::DropCol { t, .. } | Op::CreateIndex { t, .. } | Op::DropIndex { t, .. } if *t == 0 => *t = s,
                _ => {}
            } }
            out.push(o);
            if r.p(if many { 22 } else { 8 }) {
                out.push(match r.n(10) { 0..=6 => Op::Commit { t: s }, 7 | 8 => Op::Rollback { t: s }, _ => Op::Abandon { t: s } });
                if r.p(75) { out.push(Op::Begin { t: s }); }
            }
        }
        *cl = out;
    }
}
/// an index over several hundred documents comes and goes while they change
fn index_bulk(p: &mut Plan, r: &mut Rng) {
    p.profile = "index-bulk".into();
    let c = "c".to_string();
    let docs = |r: &mut Rng, from: i32, n: i32| -> Vec<D> { let m = 3 + r.n(12) as i32; (0..n).map(|i| D(doc! {"_id": from + i, "n": i % m, "u": from + i, "g": i / 100})).collect() };
    let mut v = vec![];
    let n = *r.pick(&[120, 260, 300, 520, 700, 1100]) as i32;
    v.push(Op::InsertMany { c: c.clone(), t: 0, ds: docs(r, 0, n) });
    let (mut t, mut open, mut fresh) = (0u32, false, n);
    for _ in 0..7 + r.n(8) {
        let tt = if open { t } else { 0 };
        let cond = |r: &mut Rng| match r.n(4) { 0 => doc! {"g": r.n(8) as i32}, 1 => doc! {"n": r.n(10) as i32}, 2 => doc! {"_id": {"$gte": r.n(n as usize) as i32}}, _ => doc! {"u": {"$lt": r.n(n as usize) as i32}} };
        let (key, unique) = if r.p(70) { ("n", false) } else { ("u", true) };
        match r.n(20) {
            0..=4 => v.push(Op::CreateIndex { c: c.clone(), t: tt, key: key.into(), unique, name: None }),
            5..=8 => v.push(Op::DropIndex { c: c.clone(), t: tt, name: format!("{key}_1") }),
            9..=11 => { let q = cond(r); v.push(Op::Update { c: c.clone(), t: tt, q: D(q), u: D(if r.p(50) { doc! {"$inc": {"n": 1}} } else { doc! {"$set": {"n": r.n(10) as i32}} }), many: true, upsert: false }) }
            12 => { let q = cond(r); v.push(Op::Update { c: c.clone(), t: tt, q: D(q), u: D(doc! {"$inc": {"u": 5000}}), many: true, upsert: false }) }
            13 | 14 => { let q = cond(r); v.push(Op::Delete { c: c.clone(), t: tt, q: D(q), many: true }) }
            15 => { v.push(Op::DropCol { c: c.clone(), t: tt }); let k = *r.pick(&[10, 120, 300]); v.push(Op::InsertMany { c: c.clone(), t: tt, ds: docs(r, 0, k) }); }
            16 => { let k = *r.pick(&[10, 100, 300]); v.push(Op::InsertMany { c: c.clone(), t: tt, ds: docs(r, fresh, k) }); fresh += k; }
            17 | 18 => if open { v.push(if r.p(60) { Op::Commit { t } } else { Op::Rollback { t } }); open = false; } else { t += 1; open = true; v.push(Op::Begin { t }); },
            _ => v.push(Op::Sweep { c: c.clone(), t: tt, f: "n".into(), vs: (0..12).map(|x| B(Bson::Int32(x))).collect() }),
        }
    }
    if open { v.push(if r.p(60) { Op::Commit { t } } else { Op::Rollback { t } }); }
    let mut inc = Inc::default();
    let k = r.n(v.len() - 2);
    inc.clients.push(v.split_off(k)); inc.setup = v;
    let mut post = vec![];
    if r.p(60) { post.push(Op::CreateIndex { c: c.clone(), t: 0, key: "n".into(), unique: false, name: None }); }
    if r.p(40) { post.push(Op::CreateIndex { c: c.clone(), t: 0, key: "u".into(), unique: true, name: None }); }
    post.push(Op::Sweep { c: c.clone(), t: 0, f: "n".into(), vs: (0..18).map(|x| B(Bson::Int32(x))).collect() });
    post.push(Op::Sweep { c: c.clone(), t: 0, f: "u".into(), vs: (0..n).step_by(37).chain((5000..5000 + n).step_by(61)).map(|x| B(Bson::Int32(x))).collect() });
    post.push(Op::InsertMany { c: c.clone(), t: 0, ds: docs(r, 3000, 40) });
    post.push(Op::Find { c: c.clone(), t: 0, q: D(doc! {}), sort: None, skip: None, limit: None });
    inc.post = post;
    inc.close = r.p(50);
    p.incs = vec![inc];
    let mut inc = Inc::default();
    inc.post = p.incs[0].post.clone();
    p.incs.push(inc);
}
fn fill2(prop: &str, p: &mut Plan, r: &mut Rng, st: &mut Style) -> (Var, u32) {
    match prop {
        "C01" => {
            p.profile = "durability".into();
            st.exotic = r.p(20);
            big(r, p, st, 60);
            st.nids = 6 + r.n(10) as i64;
            st.txn = *r.pick(&[0, 12, 30]);
            st.own = r.p(30);
            st.unique_u = r.p(30);
            if st.unique_u { st.idx.push(("u", true)); }
            if r.p(40) { st.cols.push("c2".into()); }
            if r.p(50) { st.w.cidx = 2; st.w.didx = 1; st.w.createcol = 1; st.w.dropcol = 1; }
            st.w.find = 3; st.w.findone = 1; st.w.agg = 0; st.w.list = 0;
            let (c, ops) = (1 + r.n(3), 8 + r.n(10));
            p.incs = lives(r, st, c, ops, 10, 4, 30);
            (Var::Crash, 6)
        }
        "C02" => {
            p.profile = "atomicity".into();
            if r.p(30) { st.bulk = 60; }
            big(r, p, st, 50);
            st.nids = 8 + r.n(14) as i64;
            st.txn = *r.pick(&[5, 25, 40]);
            st.unique_u = r.p(30);
            if st.unique_u { st.idx.push(("u", true)); }
            if r.p(40) { st.cols.push("c2".into()); }
            st.w = W { insert: 4, many: 12, update: 6, updmany: 10, upsert: 3, delete: 3, delmany: 6, find: 1, findone: 0, count: 0, agg: 0, list: 0, createcol: 3, dropcol: 4, cidx: 5, didx: 3, sleep: 0, cursor: 0 };
            let (c, ops) = (1 + r.n(2), 6 + r.n(8));
            p.incs = lives(r, st, c, ops, 20, 4, 30);
            (Var::Crash, 6)
        }
        "C03" => {
            p.profile = "isolation".into();
            st.exotic = r.p(20);
            if r.p(20) { big(r, p, st, 100); }
            st.nids = 4 + r.n(6) as i64;
            st.txn = 40;
            st.bad = 6;
            st.unique_u = r.p(30);
            if st.unique_u { st.idx.push(("u", true)); }
            if r.p(50) { st.w.cidx = 2; st.w.didx = 1; st.w.dropcol = 2; st.w.createcol = 1; st.w.list = 4; st.cols.push("c2".into()); }
            st.w.count = 4; st.w.find = 14; st.w.findone = 5; st.w.agg = 3; st.w.cursor = *r.pick(&[0, 0, 3]);
            let (c, ops) = (2 + r.n(2), 8 + r.n(8));
            p.incs = lives(r, st, c, ops, 6, 2, 50);
            (Var::None, 3)
        }
        "C04" => {
            p.profile = "lost-update".into();
            st.exotic = r.p(20);
            st.nids = 2 + r.n(3) as i64;
            st.txn = *r.pick(&[0, 15, 40]);
            st.multi_g = r.p(50);
            st.idx = vec![("n", false), ("s", false)];
            st.w = W { insert: 0, many: 0, update: 40, updmany: 8, upsert: 0, delete: 3, delmany: 1, find: 6, findone: 4, count: 1, agg: 0, list: 0, createcol: 0, dropcol: 0, cidx: 0, didx: 0, sleep: 0, cursor: 0 };
            if !st.multi_g { st.w.insert = 6; st.w.upsert = 4; }
            let (c, ops) = (2 + r.n(3), 5 + r.n(8));
            p.incs = lives(r, st, c, ops, 8, 1, 60);
            (Var::None, 5)
        }
        "C05" => {
            p.profile = "one-id".into();
            st.nids = 2 + r.n(3) as i64;
            st.txn = *r.pick(&[0, 20, 40]);
            if r.p(30) { st.unique_u = true; st.idx.push(("u", true)); }
            if r.p(30) { st.cols.push("c2".into()); }
            if r.p(20) { st.w.dropcol = 2; st.w.createcol = 2; }
            st.exotic = r.p(60);
            st.w = W { insert: 30, many: 14, update: 4, updmany: 1, upsert: 10, delete: 9, delmany: 2, find: 5, findone: 4, ..st.w.clone() };
            let (c, ops) = (2 + r.n(3), 5 + r.n(7));
            let n = 1 + r.n(2); p.incs = lives(r, st, c, ops, 3, n, 60);
            (Var::None, 5)
        }
        "C06" => {
            p.profile = "unique".into();
            st.nids = 4 + r.n(4) as i64;
            st.txn = *r.pick(&[0, 15, 35]);
            st.unique_u = true;
            st.idx = vec![("u", true), ("n", false)];
            st.w = W { insert: 18, many: 6, update: 16, updmany: 2, upsert: 8, delete: 8, delmany: 2, find: 4, findone: 2, count: 1, agg: 0, list: 0, createcol: 0, dropcol: 0, cidx: 3, didx: 1, sleep: 0, cursor: 0 };
            let crash = r.p(25);
            let (c, ops) = (2 + r.n(3), 5 + r.n(8));
            p.incs = lives(r, st, c, ops, 8, if crash { 3 } else { 1 }, 60);
            if crash { (Var::Crash, 4) } else { (Var::None, 5) }
        }
        "C07" if r.p(7) => { index_bulk(p, r); if r.p(30) { (Var::Crash, 3) } else { (Var::None, 1) } }
        "C07" if r.p(12) => {
            // one index comes and goes while everybody looks for its values
            p.profile = "index-churn".into();
            st.nids = 4 + r.n(8) as i64;
            st.txn = if r.p(30) { 15 } else { 0 };
            st.idx = vec![("n", r.p(10))];
            st.w = W { insert: 6, many: 2, update: 6, updmany: 2, upsert: 0, delete: 2, delmany: 1, find: 30, findone: 6, count: 0, agg: 4, list: 0, createcol: 0, dropcol: 1, cidx: 10, didx: 10, sleep: 0, cursor: 0 };
            let (c, ops) = (2 + r.n(2), 8 + r.n(8));
            p.incs = lives(r, st, c, ops, 10, 1, 50);
            let mut g = G::new(r.u64(), st.clone(), 9);
            for o in p.incs[0].clients.iter_mut().flatten() {
                match o {
                    Op::Find { q, sort: None, .. } | Op::FindOne { q, .. } if r.p(75) => { let n = g.num(); *q = D(if r.p(70) { doc! {"n": n} } else { doc! {"n": n, "g": r.n(4) as i32} }); }
                    Op::Agg { p, .. } if r.p(75) => { let n = g.num(); p.insert(0, D(doc! {"$match": {"n": n}})); if p[1..].iter().any(|s| s.0.contains_key("$match")) { p.truncate(1); } }
                    _ => {}
                }
            }
            (Var::None, 6)
        }
        "C07" => {
            p.profile = "index".into();
            if r.p(20) { st.bulk = 60; }
            let single = r.p(45);
            st.single = single;
            st.nids = 5 + r.n(8) as i64;
            st.txn = 15;
            st.bad = 8;
            st.exotic = single && r.p(50);
            st.unique_u = r.p(40);
            st.idx = vec![("n", false), ("s", false), ("d.x", false), ("g", false), ("t", false)];
            if r.p(40) { st.idx.push(("k", false)); }
            if st.unique_u { st.idx.push(("u", r.p(60))); }
            if r.p(20) { st.idx.extend([("o", false), ("w", false), ("p", false), ("m1", false), ("m2", false), ("d.y", false), ("x", false)]); }
            st.w = W { insert: 10, many: 5, update: 16, updmany: 6, upsert: 4, delete: 6, delmany: 3, find: 12, findone: 3, count: 0, agg: 2, list: 0, createcol: 0, dropcol: 1, cidx: 4, didx: 2, sleep: 0, cursor: 0 };
            big(r, p, st, 25);
            let crash = r.p(25);
            let (c, ops) = if single { (1, 16 + r.n(20)) } else { (2 + r.n(2), 6 + r.n(8)) };
            let n = if crash { 3 } else { 1 + r.n(2) }; p.incs = lives(r, st, c, ops, 10, n, 50);
            if single { let mut g = G::new(r.u64(), st.clone(), 9); interleave(r, &mut p.incs[0].clients[0], 12, &mut |_| g.verify()); }
            if crash { (Var::Crash, 4) } else { (Var::None, if single { 1 } else { 4 }) }
        }
        "C08" => {
            p.profile = "failed-op".into();
            if r.p(25) { st.bulk = 80; } st.exotic = r.p(25);
            let single = r.p(60);
            st.single = single;
            st.nids = 4 + r.n(4) as i64;
            st.txn = 0;
            st.bad = 45;
            st.unique_u = true;
            st.idx = vec![("n", false), ("u", true), ("s", false)];
            st.w = W { insert: 10, many: 14, update: 12, updmany: 12, upsert: 6, delete: 3, delmany: 1, find: 3, findone: 1, count: 0, agg: 0, list: 0, createcol: 2, dropcol: 1, cidx: 4, didx: 2, sleep: 0, cursor: 0 };
            if r.p(40) { st.cols.push("c2".into()); }
            let io = r.p(30);
            if io { p.cfg.nocache = 1; p.cfg.small = 1; st.pad = 2000; }
            st.txn = if !single { 20 } else { *r.pick(&[0, 0, 12, 25]) };
            if r.p(85) { p.note.insert("cont".into(), true.into()); }
            let (c, ops) = if single { (1, 14 + r.n(14)) } else { (2 + r.n(2), 6 + r.n(6)) };
            p.incs = lives(r, st, c, ops, 10, if io { 3 } else { 2 }, 50);
            if single { let mut g = G::new(r.u64(), st.clone(), 9); interleave(r, &mut p.incs[0].clients[0], 25, &mut |_| g.verify()); }
            if io { (Var::Iof, 5) } else { (Var::None, if single { 1 } else { 4 }) }
        }
        "C09" => {
            p.profile = "io-errors".into();
            p.cfg.small = 1;
            p.cfg.nocache = r.p(70) as u32;
            st.pad = *r.pick(&[600, 3000, 12000]);
            st.nids = 8 + r.n(10) as i64;
            st.txn = *r.pick(&[0, 15]);
            st.unique_u = r.p(30);
            if st.unique_u { st.idx.push(("u", true)); }
            st.w.find = 14; st.w.count = 5; st.w.agg = 4; st.w.list = 2; st.w.findone = 6;
            if r.p(40) { st.w.cidx = 2; st.w.didx = 1; st.w.createcol = 1; st.w.dropcol = 1; }
            let (c, ops) = (1 + r.n(2), 10 + r.n(10));
            p.incs = lives(r, st, c, ops, 14, 3, 60);
            if r.p(50) {
                // the documents are on the disk: one life fills the database and closes it
                let mut first = Inc { setup: std::mem::take(&mut p.incs[0].setup), close: true, ..Default::default() };
                let mut g = G::new(r.u64(), st.clone(), 8);
                let mut s2 = g.st.w.clone(); s2.find = 0; s2.agg = 0; g.st.w = s2;
                first.setup.extend(g.ops(12));
                let mut g = G::new(r.u64(), st.clone(), 9);
                p.incs[0].setup = if r.p(30) { g.verify() } else { vec![] };
                p.incs.insert(0, first);
                p.note.insert("fault_life".into(), 1.into());
            }
            (Var::Iof, 7)
        }
        "C10" => { cursor(p, r, st) }
        "C11" => {
            p.profile = "liveness".into();
            st.nids = 2 + r.n(3) as i64;
            st.txn = 55;
            st.bad = 5;
            st.multi_g = r.p(50);
            if r.p(40) { st.unique_u = true; st.idx.push(("u", true)); }
            st.w = W { insert: 6, many: 2, update: 24, updmany: 6, upsert: 3, delete: 4, delmany: 1, find: 4, findone: 2, count: 1, agg: 2, list: 1, createcol: 1, dropcol: 1, cidx: 2, didx: 1, sleep: 8, cursor: 5 };
            if st.multi_g { st.w.insert = 0; st.w.many = 0; st.w.upsert = 0; }
            let (c, ops) = (2 + r.n(3), 6 + r.n(8));
            p.incs = lives(r, st, c, ops, 6, 1, 60);
            (Var::None, 5)
        }
        "C12" => {
            p.profile = "auto-id".into();
            st.explicit_ids = false;
            st.txn = *r.pick(&[0, 20]);
            st.nids = 1000;
            p.cfg.clock_mode = r.n(4) as u32;
            if r.p(40) { st.cols.push("c2".into()); }
            st.idx = vec![];
            st.w = W { insert: 24, many: 12, find: 2, count: 2, delete: 1, ..Default::default() };
            let c = 1 + r.n(4);
            let n = 1 + r.n(3);
            p.incs = lives(r, st, c, 10, 0, n, 50);
            for inc in p.incs.iter_mut() { for cl in inc.clients.iter_mut() { for op in cl.iter_mut() { match op {
                Op::Insert { d, .. } => strip(&mut d.0, r),
                Op::InsertMany { ds, .. } => { for d in ds.iter_mut() { strip(&mut d.0, r); } if r.p(30) && !ds.is_empty() { let d0 = ds[0].clone(); for i in 0..*r.pick(&[20, 20, 20, 20, 20, 20, 200, 900]) { let mut d = d0.clone(); d.0.insert("w", i); ds.push(d); } } }
                _ => {}
            } } } }
            (Var::None, 3)
        }
        "C13" => { lifecycle(p, r, st) }
        "C14" => {
            p.profile = "collections".into();
            if r.p(12) { st.bulk = 120; }
            let names = ["a", "ab", "a_", "abc", "é", "名前", " ", "a b", "A", "0", "c", "c2", "_id", "x-y/z", "aa"];
            st.cols.clear();
            for _ in 0..2 + r.n(3) { let n = r.pick(&names).to_string(); if !st.cols.contains(&n) { st.cols.push(n); } }
            st.single = r.p(25);
            st.nids = 3 + r.n(3) as i64;
            st.txn = *r.pick(&[0, 15, 30]);
            st.bad = 3;
            st.idx = vec![("n", false), ("s", false)];
            if r.p(30) { st.unique_u = true; st.idx.push(("u", true)); }
            st.w = W { insert: 14, many: 4, update: 4, updmany: 2, upsert: 4, delete: 3, delmany: 2, find: 10, findone: 1, count: 4, agg: 1, list: 10, createcol: 12, dropcol: 9, cidx: 4, didx: 2, sleep: 0, cursor: 0 };
            let (c, ops) = if st.single { (1, 30) } else { (2 + r.n(2), 6 + r.n(8)) };
            let n = 1 + r.n(2);
            let docs = if r.p(50) { 4 } else { 0 };
            p.incs = lives(r, st, c, ops, docs, n, 50);
            if docs == 0 { p.incs[0].setup.clear(); }
            if r.p(5) {
                // very many collections
                let n = 40 + r.n(120);
                let life = if r.p(70) { 0 } else { p.incs.len() - 1 };
                let v: Vec<Op> = (0..n).map(|i| { let c = format!("many{i}"); if i % 3 == 0 { Op::Insert { c, t: 0, d: D(doc! {"_id": i as i32, "n": 1}) } } else { Op::CreateCol { c } } }).collect();
                p.incs[life].setup.extend(v);
                let at = p.incs[life].post.len();
                p.incs[life].post.insert(at, Op::List {});
                for i in [0, 9, n / 3 * 3 - 3] { p.incs[life].post.push(find_all(&format!("many{i}"))); }
            }
            (Var::None, 4)
        }
        "C15" => {
            p.profile = "sequential".into();
            if r.p(20) { st.bulk = 120; }
            st.single = true;
            st.exotic = r.p(70);
            st.explicit_ids = r.p(50);
            st.unique_u = r.p(50);
            st.nids = 4 + r.n(10) as i64;
            st.txn = *r.pick(&[0, 6, 20]);
            st.bad = 10;
            st.idx = vec![("n", false), ("s", false), ("d.x", false), ("g", false), ("e", false)];
            if st.unique_u { st.idx.push(("u", true)); }
            if r.p(40) { st.cols.push("c2".into()); }
            st.w = W { insert: 12, many: 6, update: 16, updmany: 8, upsert: 6, delete: 5, delmany: 3, find: 18, findone: 4, count: 3, agg: 10, list: 2, createcol: 2, dropcol: 1, cidx: 4, didx: 2, sleep: 0, cursor: 0 };
            big(r, p, st, 35);
            let ops = if r.p(3) { 300 } else { 20 + r.n(40) };
            let n = 1 + r.n(3);
            p.incs = lives(r, st, 1, ops, 8, n, 50);
            (Var::None, 1)
        }
        "C16" => {
            p.profile = "srv-protocol".into();
            srv_style(r, p, st);
            st.txn = *r.pick(&[0, 0, 10]);
            st.bad = 8;
            let (c, ops) = (1 + r.n(3), 8 + r.n(10));
            p.incs = lives(r, st, c, ops, 8, 1, 0);
            for cl in p.incs[0].clients.iter_mut() { raws(r, cl, 30); pipes(r, cl, 20); }
            // messages as large as allowed, results that are larger
            if r.p(2) { let x = *r.pick(&[(1, 20, 1_000_000), (1, 47, 1_000_000), (1, 1, 16_000_000), (3, 30, 700_000), (2, 95, 490_000), (6, 2, 9_000_000)]); large(r, p, x); }
            if r.p(5) { let n = 1 + r.n(40); scenario(r, p, doc! {"k": "sta", "n": n as i32}); }
            srv(p);
            (Var::None, 4)
        }
        "C17" => {
            srv_style(r, p, st);
            let v = loop { let v = cursor(p, r, st); if p.profile == "cursor" { break v; } };
            p.profile = "srv-cursor".into();
            if r.p(50) {
                // clients that only read: many cursors at once
                let extra = 1 + r.n(2);
                for _ in 0..extra { let v = readers(r); p.incs[0].clients.push(v); }
            }
            match r.n(25) {
                0 => { let n = *r.pick(&[20, 80, 150, 300]); let docs = 4 + r.n(8) as i32; scenario(r, p, doc! {"k": "cursors", "n": n, "docs": docs}); }
                3 if r.p(20) => { let x = *r.pick(&[(1, 47, 1_000_000), (3, 30, 700_000), (2, 95, 490_000), (4, 3, 8_000_000)]); large(r, p, x); }
                1 | 2 => { let n = 2 + r.n(6) as i32; let docs = 10 + r.n(200) as i32; scenario(r, p, doc! {"k": "kill", "n": n, "docs": docs}); }
                _ => {}
            }
            srv(p);
            (v.0, 4)
        }
        "C18" => {
            p.profile = "srv-session".into();
            srv_style(r, p, st);
            st.nids = 4 + r.n(6) as i64;
            st.txn = 45;
            st.bad = 5;
            st.w.count = 4; st.w.find = 14; st.w.findone = 5; st.w.agg = 3; st.w.cursor = 4;
            let (c, ops) = (1 + r.n(3), 8 + r.n(10));
            let n = 1 + r.p(30) as usize;
            p.incs = lives(r, st, c, ops, 6, n, 0);
            if r.p(4) { let n = *r.pick(&[5, 20, 40, 80]); scenario(r, p, doc! {"k": "sessions", "n": n}); }
            srv(p);
            (Var::None, 4)
        }
        "C19" => {
            p.profile = "srv-hostile".into();
            srv_style(r, p, st);
            st.txn = 0;
            let (c, ops) = (1 + r.n(2), 8 + r.n(8));
            p.incs = lives(r, st, c, ops, 8, 1, 0);
            let only = if r.p(40) { Some(r.n(20) as u32) } else { None };
            for b in 0..1 + r.n(3) {
                let mut v = vec![];
                for _ in 0..2 + r.n(6) {
                    if r.p(20) { v.push(cut_op(r, b as i64)); } else { v.push(Op::Bad { kind: only.unwrap_or(r.n(10_000) as u32), seed: r.u64() >> 1 }); }
                    if r.p(30) { v.push(Op::Sleep { us: 1 + r.n(50_000) as u32 }); }
                }
                p.incs[0].clients.push(v);
            }
            if r.p(30) {
                let max = 1 + r.n(5) as u32;
                p.incs[0].faults.push(FaultP { phase: 1, from: 0, to: u32::MAX, opmask: 0, pathmask: 0, kind: polosim_exec::sys::FK_NETACCEPT, arg: r.n(4) as u32, ppm: *r.pick(&[100_000, 500_000, 1_000_000]), max });
            }
            // somebody new is served as well
            p.incs[0].post.insert(0, Op::Raw { d: D(doc! {"ping": 1}), expect: "ok".into() });
            p.note.insert("bound_s".into(), 20.into());
            // a machine with little memory
            if r.p(40) { p.cfg.mem_max_mb = 256; }
            srv(p);
            (Var::None, 4)
        }
        "C20" => {
            p.profile = "srv-crash".into();
            srv_style(r, p, st);
            st.nids = 6 + r.n(8) as i64;
            st.txn = *r.pick(&[0, 12, 35]);
            if r.p(40) { p.cfg.small = 1; st.pad = *r.pick(&[300, 2000]); }
            st.w.find = 4; st.w.agg = 0;
            let (c, ops) = (1 + r.n(3), 8 + r.n(8));
            p.incs = lives(r, st, c, ops, 8, 3, 0);
            if r.p(40) { let n = p.incs[0].clients.len(); for b in 0..n { if r.p(60) { let v = &mut p.incs[0].clients[b]; let at = r.n(v.len() + 1); v.insert(at, cut_op(r, b as i64)); } } }
            srv(p);
            if r.p(30) { p.cfg.nocache = r.p(60) as u32; return (Var::Iof, 5); }
            (Var::Crash, 5)
        }
        _ => (Var::None, 0),
    }
}
/// the server has no commands for collections and indexes
fn srv_style(r: &mut Rng, p: &mut Plan, st: &mut Style) {
    st.idx = vec![];
    st.w = W { insert: 12, many: 6, update: 14, updmany: 5, upsert: 5, delete: 7, delmany: 3, find: 12, findone: 4, count: 3, agg: 4, ..Default::default() };
    st.exotic = r.p(30);
    if r.p(40) { st.cols.push("c2".into()); }
    p.cfg.net_frag = *r.pick(&[0, 0, 1, 3, 17, 200, 1400]);
    p.cfg.net_delay_us = *r.pick(&[0, 0, 200, 1000, 50_000]);
    p.note.insert("workers".into(), (1 + r.n(4)).into());
}
fn srv(p: &mut Plan) {
    let keep = |v: &mut Vec<Op>| {
        for o in v.iter_mut() { if let Op::Find { limit, .. } = o { if *limit == Some(0) { *limit = None; } } }
        v.retain(|o| !matches!(o, Op::List {} | Op::CreateCol { .. } | Op::DropCol { .. } | Op::CreateIndex { .. } | Op::DropIndex { .. } | Op::Sweep { .. }) && !matches!(o, Op::InsertMany { ds, .. } if ds.is_empty()));
    };
    for inc in p.incs.iter_mut() { keep(&mut inc.setup); keep(&mut inc.post); inc.clients.iter_mut().for_each(keep); inc.close = false; }
}
fn cut_op(r: &mut Rng, who: i64) -> Op {
    let i = 900_000 + who * 10_000 + r.n(9_000) as i64;
    Op::Cut { c: "c".into(), d: D(doc! {"_id": i as i32, "g": r.n(4) as i32, "o": 77, "p": "q".repeat(r.n(400))}), at: *r.pick(&[0, 1, 10, 100, 300, 500, 700, 900, 990, 999, 1000, 1000, 1000]), how: r.n(20) as u32 }
}
/// commands as they are between the operations
fn raws(r: &mut Rng, v: &mut Vec<Op>, percent: u32) {
    interleave(r, v, percent, &mut |r| {
        let raw = |d: Document, e: &str| Op::Raw { d: D(d), expect: e.into() };
        (0..1 + r.n(2)).map(|_| match r.n(18) {
            0..=2 => raw(doc! {"ping": 1}, "ok"),
            3 => raw(doc! {"hello": 1}, "ok"),
            4 => raw(doc! {"isMaster": 1}, "ok"),
            5 => raw(doc! {"ismaster": 1, "helloOk": true}, "ok"),
            6 => raw(doc! {"nosuchcommand": 1}, "err"),
            7 => raw(doc! {"find": 5}, "err"),
            8 => raw(doc! {"getMore": 987_654_321_i64, "collection": "c"}, "err"),
            9 => raw(doc! {"killCursors": "c", "cursors": [987_654_321_i64]}, "any"),
            10 => raw(doc! {"delete": "c"}, "err"),
            11 => raw(doc! {"update": "c", "updates": [{"q": {}}]}, "err"),
            12 => raw(doc! {"aggregate": "c", "pipeline": [{"$nosuchstage": 1}], "cursor": {}}, "any"),
            13 => raw(doc! {"commitTransaction": 1, "lsid": {"id": 5}, "autocommit": false}, "err"),
            14 => raw(doc! {"find": "c", "filter": 5}, "err"),
            15 => raw(doc! {"insert": "c", "documents": [5]}, "err"),
            16 => raw(doc! {"find": "c", "filter": {}, "lsid": 7}, "any"),
            _ => raw(doc! {"find": "c", "filter": {}, "batchSize": 1}, "none"),
        }).collect()
    });
}
/// m inserts of n documents of s bytes, which are then read
fn large(r: &mut Rng, p: &mut Plan, (m, n, s): (i32, i32, i32)) {
    let v = &mut p.incs[0].clients[0];
    let at = r.n(v.len() + 1);
    v.insert(at, Op::Raw { d: D(doc! {"m": m, "n": n, "s": s}), expect: "big".into() });
    p.cfg.net_frag = 0;
    p.note.insert("bound_s".into(), 600.into());
}
/// a program of its own of the driver, at some place
fn scenario(r: &mut Rng, p: &mut Plan, d: Document) {
    let i = r.n(p.incs[0].clients.len());
    let v = &mut p.incs[0].clients[i];
    let at = r.n(v.len() + 1);
    v.insert(at, Op::Raw { d: D(d), expect: "scn".into() });
    if p.cfg.net_frag > 0 { p.cfg.net_frag = p.cfg.net_frag.max(200); }
    p.cfg.net_delay_us = p.cfg.net_delay_us.min(1000);
    p.note.insert("bound_s".into(), 600.into());
}
fn pipes(r: &mut Rng, v: &mut Vec<Op>, percent: u32) {
    let mut out = vec![];
    for o in v.drain(..) { if o.t() == 0 && r.p(percent) { out.push(Op::Pipe { n: 2 + r.n(5) as u32 }); } out.push(o); }
    *v = out;
}
/// cursors that are advanced in turn
fn readers(r: &mut Rng) -> Vec<Op> {
    let mut v = vec![];
    let mut open: Vec<u32> = vec![];
    let mut cur = 100;
    for _ in 0..12 + r.n(20) {
        match r.n(8) {
            0..=2 if open.len() < 5 => {
                cur += 1;
                open.push(cur);
                let q = match r.n(4) { 0 | 1 => doc! {}, 2 => doc! {"o": r.n(3) as i32}, _ => doc! {"g": {"$gte": 1}} };
                v.push(Op::CurOpen { cur, c: "c".into(), t: 0, q: D(q), sort: if r.p(15) { Some(D(doc! {"o": 1, "_id": -1})) } else { None } });
            }
            0..=5 => if !open.is_empty() { let c = *r.pick(&open); let n = if r.p(15) { 10_000 } else { 1 + r.n(4) as u32 }; v.push(Op::CurNext { cur: c, n }); },
            6 => if !open.is_empty() { let i = r.n(open.len()); let c = open.remove(i); v.push(Op::CurClose { cur: c }); },
            _ => v.push(find_all("c")),
        }
    }
    for c in open { if r.p(70) { v.push(Op::CurNext { cur: c, n: 10_000 }); } v.push(Op::CurClose { cur: c }); }
    v
}
fn strip(d: &mut Document, r: &mut Rng) { d.remove("_id"); d.remove("u"); if r.p(10) { d.insert("_id", Bson::Null); } }
/// after some operations, more operations
fn interleave(r: &mut Rng, ops: &mut Vec<Op>, percent: u32, f: &mut dyn FnMut(&mut Rng) -> Vec<Op>) {
    let mut out = vec![];
    for o in ops.drain(..) { out.push(o); if r.p(percent) { out.extend(f(r)); } }
    *ops = out;
}
fn cursor(p: &mut Plan, r: &mut Rng, st: &mut Style) -> (Var, u32) {
    p.profile = "cursor".into();
    let c = "c".to_string();
    if r.p(20) {
        // a multi-document update that changes what it searches by
        p.profile = "halloween".into();
        st.single = true;
        st.idx = vec![("n", false), ("g", false), ("d.x", false)];
        st.nids = 12;
        st.txn = 20;
        st.w = W { insert: 3, many: 3, update: 2, updmany: 30, upsert: 1, delete: 2, delmany: 3, find: 6, cidx: 2, ..Default::default() };
        let ops = 14 + r.n(14);
        p.incs = lives(r, st, 1, ops, 14, 1, 50);
        for op in p.incs[0].clients[0].iter_mut() { if let Op::Update { many: true, upsert: false, q, u, .. } = op { if r.p(70) {
            let f = *r.pick(&["n", "g", "d.x"]);
            q.0 = match r.n(3) { 0 => doc! {f: {"$gte": r.range(0, 3) as i32}}, 1 => doc! {f: r.range(0, 4) as i32}, _ => doc! {f: {"$lt": r.range(2, 9) as i32}} };
            if f != "d.x" { u.0 = doc! {"$inc": {f: r.range(1, 3) as i32}}; }
        } } }
        return (Var::None, 1);
    }
    p.oracle = vec!["cursor".into()];
    let mut inc = Inc::default();
    let indexed = r.p(60);
    if indexed { inc.setup.push(Op::CreateIndex { c: c.clone(), t: 0, key: "g".into(), unique: false, name: None }); }
    // some collections are large, with large steps of the cursors
    let (n, sc) = match r.n(20) { 0..=11 => (6 + r.n(22), 1), 12..=17 => (40 + r.n(100), 8), _ => (250 + r.n(700), 60) };
    let pad = if r.p(30) { p.cfg.small = 1; 3000 } else { 0 };
    let mk = |r: &mut Rng, i: i64, v: i64| { let mut d = doc! {"_id": i as i32, "g": r.n(3) as i32, "o": (i % 3) as i32, "k": 0, "v": v}; if pad > 0 && r.p(60) { d.insert("p", "x".repeat(r.n(pad))); } d };
    let ids: Vec<i64> = (0..n as i64).map(|i| i * 2).collect();
    let mut ds = vec![];
    for i in &ids { if r.p(85) { ds.push(D(mk(r, *i, 1))); } }
    inc.setup.push(Op::InsertMany { c: c.clone(), t: 0, ds });
    let kinds = r.n(4);
    let (readers, writers, multi) = match kinds { 0 => (1, 2, 0), 1 => (2, 1, 0), 2 => (1, 1, 1), _ => (0, 2, 1) };
    let q = |r: &mut Rng| match r.n(7) { 0 => doc! {}, 1..=3 => doc! {"g": r.n(3) as i32}, 4 => doc! {"g": {"$gte": 1}}, 5 => doc! {"o": r.n(3) as i32}, _ => doc! {"g": r.n(3) as i32, "o": {"$lt": 2}} };
    let mut cl = 0i64;
    for _ in 0..readers {
        let mut v = vec![];
        for cur in 0..1 + r.n(4) as u32 {
            let sort = if r.p(20) { Some(D(doc! {"g": 1, "_id": -1})) } else { None };
            v.push(Op::CurOpen { cur, c: c.clone(), t: 0, q: D(q(r)), sort });
            for _ in 0..1 + r.n(6) { v.push(Op::CurNext { cur, n: 1 + r.n(5 * sc) as u32 }); }
            if r.p(85) { v.push(Op::CurNext { cur, n: 10000 }); }
            v.push(Op::CurClose { cur });
            if r.p(30) { v.push(Op::Find { c: c.clone(), t: 0, q: D(q(r)), sort: None, skip: None, limit: None }); }
        }
        inc.clients.push(v); cl += 1;
    }
    for _ in 0..writers {
        let mut v = vec![];
        let mut vn = (cl + 1) * 1000;
        let mut txn = None;
        let mut nt = 1;
        let hot = r.p(50);
        let (mut at, w) = (r.n(n), 8 + r.n(12));
        for _ in 0..6 + r.n(14) * (1 + sc as usize / 6) {
            if hot && r.p(6) { at = r.n(n); }
            if txn.is_none() && r.p(12) { v.push(Op::Begin { t: nt }); txn = Some(nt); nt += 1; }
            else if let Some(t) = txn { if r.p(35) { v.push(if r.p(70) { Op::Commit { t } } else { Op::Rollback { t } }); txn = None; continue; } }
            let t = txn.unwrap_or(0);
            let i = if hot { ids[(at + r.n(w)) % n] } else { *r.pick(&ids) };
            vn += 1;
            match r.n(10) {
                0..=5 if !(hot && sc > 1 && r.p(40)) => v.push(Op::Update { c: c.clone(), t, q: D(doc! {"_id": i as i32}), u: D(doc! {"$set": {"g": r.n(3) as i32, "v": vn}}), many: false, upsert: false }),
                0..=7 => v.push(Op::Delete { c: c.clone(), t, q: D(doc! {"_id": i as i32}), many: false }),
                _ => { let i = if r.p(50) { i } else { i + 1 }; v.push(Op::Insert { c: c.clone(), t, d: D(mk(r, i, vn)) }); }
            }
        }
        if let Some(t) = txn { v.push(Op::Commit { t }); }
        inc.clients.push(v); cl += 1;
    }
    for _ in 0..multi {
        let mut v = vec![];
        for _ in 0..2 + r.n(4) {
            let q = match r.n(3) { 0 => doc! {"g": {"$gte": r.n(3) as i32}}, 1 => doc! {"o": r.n(3) as i32}, _ => doc! {"g": r.n(3) as i32} };
            if r.p(80) { v.push(Op::Update { c: c.clone(), t: 0, q: D(q), u: D(doc! {"$inc": {"k": 1}}), many: true, upsert: false }); }
            else { v.push(Op::Delete { c: c.clone(), t: 0, q: D(doc! {"g": r.n(3) as i32, "o": r.n(3) as i32}), many: true }); }
        }
        inc.clients.push(v); cl += 1;
    }
    inc.post = vec![find_all(&c)];
    inc.close = r.p(50);
    p.incs = vec![inc];
    (Var::None, 6)
}
fn lifecycle(p: &mut Plan, r: &mut Rng, st: &mut Style) -> (Var, u32) {
    p.profile = "lifecycle".into();
    p.oracle = vec!["lifecycle".into(), "refine".into()];
    p.cfg.small = r.p(20) as u32;
    st.idx = vec![];
    let c = "c".to_string();
    let lives = 1 + r.n(2);
    let mut id = 0;
    for l in 0..lives {
        let mut inc = Inc { manual: true, ..Default::default() };
        let shared = r.p(45);
        if shared { id += 1; inc.setup.push(Op::Open { h: 0 }); inc.setup.push(Op::HInsert { h: 0, c: c.clone(), d: D(doc! {"_id": id, "w": l as i32}) }); }
        let n = 1 + r.n(3);
        for cl in 0..n as u32 {
            let base = 10 * (cl + 1);
            let mut v = vec![];
            if shared && r.p(60) { v.push(Op::CloneDb { h: 0, to: base }); }
            for _ in 0..8 + r.n(10) {
                let h = base + r.n(3) as u32;
                let k = base + r.n(3) as u32;
                id += 1;
                v.push(match r.n(14) {
                    0..=2 => Op::Open { h },
                    3 => Op::CloneDb { h, to: base + r.n(3) as u32 },
                    4 | 5 => Op::DropDb { h },
                    6 | 7 => Op::GetCol { h, k, c: c.clone() },
                    8 | 9 => Op::ColInsert { k, d: D(doc! {"_id": id, "w": 1}) },
                    10 => Op::ColFind { k, q: D(doc! {}) },
                    11 | 12 => Op::HInsert { h, c: c.clone(), d: D(doc! {"_id": id, "w": 2, "p": "y".repeat(r.n(400))}) },
                    _ => Op::HFind { h, c: c.clone(), q: D(doc! {}) },
                });
            }
            inc.clients.push(v);
        }
        // nobody has the database open any more: it opens, and has everything
        inc.post.push(Op::DropDb { h: 0 });
        for cl in 0..n as u32 { for j in 0..3 { inc.post.push(Op::DropDb { h: 10 * (cl + 1) + j }); } }
        inc.post.push(Op::Open { h: 99 });
        inc.post.push(Op::HFind { h: 99, c: c.clone(), q: D(doc! {}) });
        for cl in 0..n as u32 { for j in 0..3 { inc.post.push(Op::ColFind { k: 10 * (cl + 1) + j, q: D(doc! {}) }); } }
        inc.post.push(Op::Open { h: 98 });
        if r.p(60) { inc.post.push(Op::DropDb { h: 99 }); inc.post.push(Op::Open { h: 97 }); inc.post.push(Op::HFind { h: 97, c: c.clone(), q: D(doc! {}) }); }
        inc.close = r.p(60);
        p.incs.push(inc);
    }
    p.incs.push(Inc { setup: vec![find_all(&c), Op::List {}], close: true, ..Default::default() });
    (Var::None, 3)
}

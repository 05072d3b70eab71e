//! The client's side of the wire protocol, over the simulated network.
use crate::sys;
use bson::{doc, Document};
use std::collections::VecDeque;

pub const PATIENCE: u64 = 120_000_000;
#[derive(Debug, Clone)]
pub enum Bad { Refused, Gone(String), Proto(String) }
pub struct Conn { pub c: i32, inb: VecDeque<u8>, next: i32, pub opq: bool }

fn crc32c(b: &[u8]) -> u32 {
    let mut c = !0u32;
    for x in b { c ^= *x as u32; for _ in 0..8 { c = if c & 1 != 0 { (c >> 1) ^ 0x82f6_3b78 } else { c >> 1 }; } }
    !c
}
pub fn bytes(d: &Document) -> Vec<u8> { let mut v = vec![]; d.to_writer(&mut v).unwrap(); v }
pub fn header(len: i32, id: i32, to: i32, op: i32) -> Vec<u8> { let mut v = vec![]; for x in [len, id, to, op] { v.extend(x.to_le_bytes()); } v }
/// an OP_MSG with one document and possibly one document sequence
pub fn op_msg(id: i32, flags: u32, body: &Document, seq: Option<(&str, &[Document])>, seq_first: bool) -> Vec<u8> {
    let mut sec = vec![0u8];
    sec.extend(bytes(body));
    if let Some((name, ds)) = seq {
        let mut s = vec![];
        s.extend(name.as_bytes()); s.push(0);
        for d in ds { s.extend(bytes(d)); }
        let mut k = vec![1u8];
        k.extend((s.len() as i32 + 4).to_le_bytes());
        k.extend(s);
        if seq_first { k.extend(sec); sec = k; } else { sec.extend(k); }
    }
    let n = 16 + 4 + sec.len() + if flags & 1 != 0 { 4 } else { 0 };
    let mut v = header(n as i32, id, 0, 2013);
    v.extend(flags.to_le_bytes());
    v.extend(sec);
    if flags & 1 != 0 { let c = crc32c(&v); v.extend(c.to_le_bytes()); }
    v
}
pub fn op_query(id: i32, d: &Document) -> Vec<u8> {
    let mut b = vec![];
    b.extend(0u32.to_le_bytes());
    b.extend(b"admin.$cmd\0");
    b.extend(0i32.to_le_bytes());
    b.extend((-1i32).to_le_bytes());
    b.extend(bytes(d));
    let mut v = header(16 + b.len() as i32, id, 0, 2004);
    v.extend(b);
    v
}
/// request ids are any 32 bits
fn first_id(c: i32) -> i32 {
    match (c as u32).wrapping_mul(2_654_435_761) >> 29 { 0 => -3, 1 => i32::MAX - 5, 2 => i32::MIN + 7 * c, 3 => c.wrapping_mul(0x3779_b97f), _ => 1 + c * 1000 }
}
impl Conn {
    pub fn open() -> Result<Conn, Bad> {
        let c = unsafe { sys::ps_net_connect() };
        if c < 0 { return Err(Bad::Refused); }
        Ok(Conn { c, inb: VecDeque::new(), next: first_id(c), opq: false })
    }
    pub fn id(&mut self) -> i32 { self.next = self.next.wrapping_add(1); self.next }
    /// reads what there is, for at most `us`
    pub fn pull(&mut self, us: u64) -> Result<usize, Bad> {
        let mut b = [0u8; 65536];
        let r = unsafe { sys::ps_net_recv(self.c, b.as_mut_ptr() as *mut _, b.len(), us) };
        if r > 0 { self.inb.extend(&b[..r as usize]); return Ok(r as usize); }
        if r == 0 { return Err(Bad::Gone("the server closed the connection".into())); }
        if r == -(libc::ETIMEDOUT as i64) { return Ok(0); }
        Err(Bad::Gone("the server reset the connection".into()))
    }
    pub fn send(&mut self, b: &[u8]) -> Result<(), Bad> {
        let mut o = 0;
        let t0 = unsafe { sys::ps_now() };
        while o < b.len() {
            let r = unsafe { sys::ps_net_send(self.c, b[o..].as_ptr() as *const _, b.len() - o, 200) };
            if r < 0 { return Err(Bad::Gone(format!("sending failed with error {}", -r))); }
            o += r as usize;
            // a client that sends more than the buffers hold reads what comes meanwhile
            if o < b.len() { self.pull(0)?; }
            if unsafe { sys::ps_now() } - t0 > PATIENCE * 1000 { return Err(Bad::Proto("the server does not read the request".into())); }
        }
        Ok(())
    }
    fn need(&mut self, n: usize) -> Result<(), Bad> {
        let t0 = unsafe { sys::ps_now() };
        while self.inb.len() < n {
            if self.pull(PATIENCE)? == 0 && unsafe { sys::ps_now() } - t0 >= PATIENCE * 1000 {
                return Err(Bad::Proto(format!("no reply within {} s ({} bytes of it)", PATIENCE / 1_000_000, self.inb.len())));
            }
        }
        Ok(())
    }
    pub fn buffered(&self) -> usize { self.inb.len() }
    /// one reply to the request `id`
    pub fn reply(&mut self, id: i32) -> Result<Document, Bad> {
        self.need(16)?;
        let h: Vec<u8> = self.inb.iter().take(16).copied().collect();
        let g = |b: &[u8], i: usize| i32::from_le_bytes([b[i], b[i + 1], b[i + 2], b[i + 3]]);
        let n = g(&h, 0);
        if !(21..=48_000_000).contains(&n) { return Err(Bad::Proto(format!("a reply of {n} bytes"))); }
        self.need(n as usize)?;
        let m: Vec<u8> = self.inb.drain(..n as usize).collect();
        let p = |s: String| Err(Bad::Proto(s));
        if g(&m, 8) != id { return p(format!("a reply to request {} was expected, this one is to {}", id, g(&m, 8))); }
        let doc = match g(&m, 12) {
            2013 => {
                let f = g(&m, 16) as u32;
                if f != 0 { return p(format!("a reply with flags {f:#x}")); }
                if m[20] != 0 { return p(format!("the first section of a reply is of kind {}", m[20])); }
                &m[21..]
            }
            1 if self.opq => {
                if m.len() < 36 || g(&m, 32) != 1 { return p("a malformed OP_REPLY".into()); }
                &m[36..]
            }
            x => return p(format!("a reply with opcode {x}")),
        };
        if doc.len() < 5 || g(doc, 0) as usize != doc.len() { return p(format!("a reply whose length is off: {} bytes for a document of {}", doc.len(), if doc.len() >= 4 { g(doc, 0) } else { 0 })); }
        let d = match Document::from_reader(doc) { Ok(d) => d, Err(e) => return p(format!("a reply that is not BSON: {e}")) };
        match num(d.get("ok")) {
            Some(1) => Ok(d),
            Some(0) => { if d.get_str("errmsg").map(|s| s.is_empty()).unwrap_or(true) { return p(format!("an error reply without errmsg: {d}")); } Ok(d) }
            _ => p(format!("a reply without ok: {d}")),
        }
    }
    pub fn close(self) { unsafe { sys::ps_net_close(self.c) } }
    /// a usable connection: connect and greet
    pub fn greet(how: u64) -> Result<Conn, Bad> {
        let t0 = unsafe { sys::ps_now() };
        loop {
            let late = unsafe { sys::ps_now() } - t0 > 10_000_000_000;
            let mut c = match Conn::open() {
                Ok(c) => c,
                Err(_) if late => return Err(Bad::Refused),
                Err(_) => { unsafe { sys::ps_sleep_us(1000) }; continue; }
            };
            let id = c.id();
            let m = match how % 4 {
                0 => { c.opq = true; op_query(id, &doc! {"isMaster": 1, "helloOk": true, "client": {"driver": {"name": "sim", "version": "1"}}}) }
                1 => { c.opq = true; op_query(id, &doc! {"ismaster": 1}) }
                2 => op_msg(id, 0, &doc! {"hello": 1, "helloOk": true, "$db": "admin"}, None, false),
                _ => op_msg(id, 0, &doc! {"hello": 1, "$db": "admin"}, None, false),
            };
            let r = c.send(&m).and_then(|_| c.reply(id));
            match r {
                Ok(d) => {
                    c.opq = false;
                    if num(d.get("ok")) != Some(1) { return Err(Bad::Proto(format!("the greeting was refused: {d}"))); }
                    for k in ["minWireVersion", "maxWireVersion", "maxBsonObjectSize", "maxMessageSizeBytes"] { if num(d.get(k)).is_none() { return Err(Bad::Proto(format!("a greeting without {k}: {d}"))); } }
                    if !d.get_bool("ismaster").or(d.get_bool("isWritablePrimary")).unwrap_or(false) { return Err(Bad::Proto(format!("a greeting that does not accept writes: {d}"))); }
                    return Ok(c);
                }
                // refused in the end: the server could not accept
                Err(Bad::Gone(_)) if !late => { c.close(); unsafe { sys::ps_sleep_us(1000) }; }
                Err(e) => return Err(e),
            }
        }
    }
}
pub fn num(b: Option<&bson::Bson>) -> Option<i64> {
    match b { Some(bson::Bson::Int32(i)) => Some(*i as i64), Some(bson::Bson::Int64(i)) => Some(*i), Some(bson::Bson::Double(f)) if *f == f.trunc() => Some(*f as i64), Some(bson::Bson::Boolean(b)) => Some(*b as i64), _ => None }
}

//! Seeded generator of every random choice of the harness.
#[derive(Clone)]
pub struct Rng(u64);
pub fn mix(mut x: u64) -> u64 {
    x ^= x >> 30; x = x.wrapping_mul(0xbf58476d1ce4e5b9); x ^= x >> 27; x = x.wrapping_mul(0x94d049bb133111eb); x ^ (x >> 31)
}
pub fn hash(a: u64, b: u64, c: u64) -> u64 { mix(mix(mix(a.wrapping_add(0x9e3779b97f4a7c15)) ^ b).wrapping_add(0x9e3779b97f4a7c15u64.wrapping_mul(c + 1))) }
pub fn hash_str(s: &str) -> u64 { s.bytes().fold(0xcbf29ce484222325, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3)) }
impl Rng {
    pub fn new(seed: u64) -> Rng { Rng(mix(seed ^ 0x1234567)) }
    pub fn u64(&mut self) -> u64 { self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15); mix(self.0) }
    pub fn n(&mut self, n: usize) -> usize { (self.u64() % n.max(1) as u64) as usize }
    pub fn range(&mut self, a: i64, b: i64) -> i64 { a + (self.u64() % ((b - a + 1) as u64)) as i64 }
    pub fn p(&mut self, percent: u32) -> bool { self.u64() % 100 < percent as u64 }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.n(v.len())] }
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let s: u32 = w.iter().sum();
        let mut x = (self.u64() % s.max(1) as u64) as u32;
        for (i, v) in w.iter().enumerate() { if x < *v { return i; } x -= v; }
        w.len() - 1
    }
}

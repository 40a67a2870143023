//! The choice sequence: every decision of a run is one call of `choose`. A run is a pure function of the code
//! and this sequence; 0 is always the most benign outcome.
use crate::shm;

#[derive(Clone, Debug)]
pub struct Rng(u64, u64);
impl Rng {
    pub fn new(seed: u64) -> Self { let mut r = Rng(seed ^ 0x6a09e667f3bcc908, 0); for _ in 0..2 { r.next(); } r }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 { if n <= 1 { 0 } else { ((self.next() as u128 * n as u128) >> 64) as u64 } }
    pub fn fill(&mut self, buf: &mut [u8]) { for b in buf { *b = self.byte(); } }
    /// A byte stream independent of how it is split into calls.
    pub fn byte(&mut self) -> u8 {
        let k = self.1 & 7;
        if k == 0 { self.next(); }
        self.1 += 1;
        let mut z = self.0;
        z = (z ^ (z >> 33)).wrapping_mul(0xff51afd7ed558ccd);
        z = (z ^ (z >> 33)).wrapping_mul(0xc4ceb9fe1a85ec53);
        ((z ^ (z >> 33)) >> (8 * k)) as u8
    }
}
pub fn mix(a: u64, b: u64) -> u64 { let mut r = Rng::new(a.wrapping_mul(0x9e3779b97f4a7c15) ^ b.rotate_left(32)); r.next() }

pub struct Choices { pub prefix: Vec<u32>, pub pos: usize, pub rng: Option<Rng>,
    /// A digest of all choices made so far.
    pub digest: u64 }
impl Choices {
    pub fn choose(&mut self, n: u32) -> u32 {
        if n <= 1 { return 0; }
        let v = if self.pos < self.prefix.len() { self.prefix[self.pos].min(n - 1) }
            else if let Some(r) = &mut self.rng { r.below(n as u64) as u32 } else { 0 };
        self.pos += 1;
        self.digest = (self.digest ^ v as u64).wrapping_mul(0x100000001b3).rotate_left(23);
        shm::record(v);
        v
    }
}

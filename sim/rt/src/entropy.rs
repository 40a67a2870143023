//! The simulated operating-system entropy source, one per node.
use crate::choice::Rng;
use std::collections::VecDeque;

#[derive(Clone, Debug)]
pub enum Mode {
    Uniform,
    /// Every 32-bit word is this one.
    Word(u32),
    /// Words around the limits of the ternary sampler, including rejected ones.
    Boundary,
    /// Mostly values that the ternary sampler must reject.
    Rejecting,
    /// A short random pattern that repeats.
    Period(u8),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum EFault { Eintr, Short(usize), Fail(i32) }

pub const I: u32 = (u32::MAX - 2) / 3;
const EDGES: [u32; 16] = [0, 1, I - 1, I, I + 1, I + 2, 2 * I - 1, 2 * I, 2 * I + 1, 2 * I + 2, 3 * I - 1, 3 * I, 3 * I + 1, u32::MAX - 1, u32::MAX, 1 << 31];

#[derive(Clone, Debug)]
pub struct Entropy {
    pub mode: Mode,
    pub rng: Rng,
    pub script: VecDeque<u8>,
    pub pos: u64,
    pub calls: u64,
    /// Faults at given call numbers (counted from when the plan was set).
    pub plan: Vec<(u64, EFault)>,
    /// Rate of benign faults (EINTR, short) in 1/256 of the calls.
    pub flaky: u32,
    /// Every call fails while this is set.
    pub dead: Option<i32>,
    word: u32,
    pattern: Vec<u32>,
}
impl Entropy {
    pub fn new(seed: u64, mode: Mode) -> Self {
        let mut rng = Rng::new(seed);
        let n = if let Mode::Period(k) = mode { k.max(1) as usize } else { 0 };
        let pattern = (0..n).map(|_| rng.next() as u32).collect();
        Entropy { mode, rng, script: VecDeque::new(), pos: 0, calls: 0, plan: vec![], flaky: 0, dead: None, word: 0, pattern }
    }
    pub fn uniform(seed: u64) -> Self { Self::new(seed, Mode::Uniform) }
    fn next_byte(&mut self) -> u8 {
        if let Some(b) = self.script.pop_front() { return b; }
        let k = (self.pos & 3) as u32;
        let idx = self.pos / 4;
        self.pos += 1;
        if let Mode::Uniform = self.mode { return self.rng.byte(); }
        if k == 0 {
            self.word = match &self.mode {
                Mode::Uniform => 0,
                Mode::Word(w) => *w,
                Mode::Boundary => EDGES[self.rng.below(16) as usize],
                Mode::Rejecting => if self.rng.below(4) != 0 { [3 * I + 1, u32::MAX - 1, u32::MAX][self.rng.below(3) as usize] } else { self.rng.next() as u32 },
                Mode::Period(_) => self.pattern[idx as usize % self.pattern.len()],
            };
        }
        (self.word >> (8 * k)) as u8
    }
    pub fn fill(&mut self, buf: &mut [u8]) { for b in buf { *b = self.next_byte(); } }
}

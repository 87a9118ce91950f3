//! The choice tape: every random decision of a case is drawn from it, so a case is a list of
//! numbers; an exhausted tape yields 0, the simplest choice. Shrinking edits the list.
use crate::det::splitmix;

pub struct Tape {
    fixed: Option<Vec<u32>>,
    seed: u64,
    pub used: Vec<u32>,
    pub hash_seed: u64,
}

pub const MAX_DRAWS: usize = 200_000;

impl Tape {
    pub fn from_seed(seed: u64) -> Self {
        Tape { fixed: None, seed, used: vec![], hash_seed: seed }
    }
    pub fn fixed(v: Vec<u32>, hash_seed: u64) -> Self {
        Tape { fixed: Some(v), seed: 0, used: vec![], hash_seed }
    }
    /// Uniform in 0..n (n >= 1).
    pub fn draw(&mut self, n: u32) -> u32 {
        let n = n.max(1);
        let i = self.used.len();
        if i >= MAX_DRAWS {
            return 0;
        }
        let v = match &self.fixed {
            Some(f) => f.get(i).copied().unwrap_or(0).min(n - 1),
            None => (splitmix(self.seed ^ splitmix(i as u64 + 1)) % n as u64) as u32,
        };
        self.used.push(v);
        v
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.draw((hi - lo + 1) as u32) as u64
    }
    /// true with probability num/den; 0 on the tape means false.
    pub fn chance(&mut self, num: u32, den: u32) -> bool {
        let v = self.draw(den);
        v >= den - num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.draw(v.len() as u32) as usize;
        &v[i]
    }
    /// Index drawn with the given weights; index 0 is the simplest.
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let s: u32 = w.iter().sum();
        let mut v = self.draw(s.max(1));
        for (i, x) in w.iter().enumerate() {
            if v < *x {
                return i;
            }
            v -= x;
        }
        0
    }
    pub fn u64(&mut self) -> u64 {
        match self.draw(8) {
            0..=3 => self.draw(8) as u64,
            4 => u64::MAX - self.draw(4) as u64,
            5 => 1u64 << self.draw(64),
            6 => (self.draw(1 << 16) as u64) << 32,
            _ => ((self.draw(u32::MAX) as u64) << 32) | self.draw(u32::MAX) as u64,
        }
    }
    pub fn u32x(&mut self) -> u32 {
        match self.draw(6) {
            0..=2 => self.draw(8),
            3 => u32::MAX - self.draw(4),
            4 => 1u32 << self.draw(32),
            _ => self.draw(u32::MAX),
        }
    }
    pub fn bytes(&mut self, max: u32) -> Vec<u8> {
        let n = match self.draw(6) {
            0 => 0,
            1 => 1,
            2 => 32.min(max),
            3 => max,
            _ => self.draw(max + 1),
        };
        (0..n).map(|_| self.draw(256) as u8).collect()
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = i - self.draw(i as u32 + 1) as usize;
            v.swap(i, j);
        }
    }
    pub fn subset(&mut self, n: usize) -> Vec<usize> {
        (0..n).filter(|_| self.draw(2) == 1).collect()
    }
}

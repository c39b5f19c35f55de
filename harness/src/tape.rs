//! Every random choice is one number of a tape made by a proptest strategy.
//! Zero always means the simplest choice, and a tape that runs out reads as
//! zeros, so making a tape shorter or its numbers smaller makes a simpler case.
use proptest::prelude::*;
use proptest::strategy::ValueTree;
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};

#[derive(Clone, Debug)]
pub struct Tape {
    data: Vec<u32>,
    pos: usize,
}

impl Tape {
    pub fn new(data: Vec<u32>) -> Self {
        Self { data, pos: 0 }
    }
    pub fn raw(&mut self) -> u32 {
        let v = self.data.get(self.pos).copied().unwrap_or(0);
        self.pos += 1;
        v
    }
    /// How many numbers were read.
    pub fn used(&self) -> usize {
        self.pos.min(self.data.len())
    }
    /// `0..n`
    pub fn below(&mut self, n: usize) -> usize {
        ((u64::from(self.raw()) * n as u64) >> 32) as usize
    }
    /// `lo..=hi`
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    /// True `percent` out of 100 times; false when zero.
    pub fn chance(&mut self, percent: usize) -> bool {
        self.below(100) >= 100 - percent.min(100)
    }
    pub fn pick<'a, T>(&mut self, of: &'a [T]) -> &'a T {
        &of[self.below(of.len())]
    }
    /// Index by weight; weights of 0 are never picked.
    pub fn weighted(&mut self, weights: &[usize]) -> usize {
        let total: usize = weights.iter().sum();
        let mut at = self.below(total.max(1));
        for (i, w) in weights.iter().enumerate() {
            if at < *w {
                return i;
            }
            at -= w;
        }
        0
    }
    /// Small number, most often low.
    pub fn small(&mut self, max: usize) -> usize {
        let a = self.below(max + 1);
        let b = self.below(max + 1);
        a.min(b)
    }
    pub fn shuffle<T>(&mut self, items: &mut [T]) {
        // zero keeps the order
        for i in 0..items.len().saturating_sub(1) {
            let j = i + self.below(items.len() - i);
            items[i..=j].rotate_right(1);
        }
    }
}

/// A deterministic proptest runner for this seed and purpose.
pub fn runner(seed: u64, purpose: &str) -> TestRunner {
    let mut bytes = [0u8; 32];
    bytes[..8].copy_from_slice(&seed.to_le_bytes());
    for (i, b) in purpose.bytes().enumerate() {
        bytes[8 + i % 24] = bytes[8 + i % 24].wrapping_mul(31).wrapping_add(b);
    }
    let config = Config {
        failure_persistence: None,
        ..Config::default()
    };
    TestRunner::new_with_rng(config, TestRng::from_seed(RngAlgorithm::ChaCha, &bytes))
}

/// Draws `n` tapes of length `len`.
pub fn tapes(seed: u64, purpose: &str, n: usize, len: usize) -> Vec<Vec<u32>> {
    let mut runner = runner(seed, purpose);
    let strategy = proptest::collection::vec(any::<u32>(), len..=len);
    (0..n)
        .map(|_| strategy.new_tree(&mut runner).expect("no filters").current())
        .collect()
}

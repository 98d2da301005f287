//! Choice tape: every random decision of a generated case is read from a finite vector of u32
//! drawn by proptest. Smaller numbers and shorter tapes give simpler cases, and an exhausted tape
//! answers 0 (the simplest choice), so a failing case is shrunk by deleting/zeroing/lowering
//! entries and rerunning the decoder.
pub struct Tape<'a> {
    data: &'a [u32],
    pos: usize,
}

impl<'a> Tape<'a> {
    pub fn new(data: &'a [u32]) -> Self {
        Self { data, pos: 0 }
    }
    pub fn raw(&mut self) -> u32 {
        let v = self.data.get(self.pos).copied().unwrap_or(0);
        self.pos += 1;
        v
    }
    /// Number of entries consumed so far.
    pub fn used(&self) -> usize {
        self.pos
    }
    /// Uniform in 0..n
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 {
            // still consumes an entry so that alignment does not depend on n
            self.raw();
            return 0;
        }
        (self.raw() as usize) % n
    }
    /// Uniform in lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn irange(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as usize) as i64
    }
    /// true with probability num/den; 0 => false
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) >= den - num
    }
    pub fn bool(&mut self) -> bool {
        self.chance(1, 2)
    }
    pub fn pick<'b, T>(&mut self, xs: &'b [T]) -> &'b T {
        let i = self.below(xs.len());
        &xs[i]
    }
    /// Weighted index: weights[i]/sum. Index 0 is the simplest.
    pub fn weighted(&mut self, weights: &[usize]) -> usize {
        let total: usize = weights.iter().sum();
        let mut x = self.below(total);
        for (i, w) in weights.iter().enumerate() {
            if x < *w {
                return i;
            }
            x -= *w;
        }
        weights.len() - 1
    }
    pub fn subset<T: Clone>(&mut self, xs: &[T], num: usize, den: usize) -> Vec<T> {
        xs.iter().filter(|_| self.chance(num, den)).cloned().collect()
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = i - self.below(i + 1);
            xs.swap(i, j);
        }
    }
    /// A small size, biased to small values, up to max.
    pub fn size(&mut self, max: usize) -> usize {
        match self.weighted(&[3, 4, 2, 1]) {
            0 => self.below(2.min(max + 1)),
            1 => self.below(6.min(max + 1)),
            2 => self.below((max / 3).max(1) + 1),
            _ => self.below(max + 1),
        }
    }
}

//! The source of every random choice of a case: a finite tape of words, drawn and shrunk by
//! proptest. Past its end a tape continues with words mixed from its last word, or with zeros
//! when that is zero, so shorter tapes and smaller words mean simpler cases. Bulk data is expanded from one tape word by a fixed bit mixer.

#[derive(Clone)]
enum Src<'t> {
    Tape(&'t [u64]),
    Mix(u64),
}

#[derive(Clone)]
pub struct Gen<'t> {
    src: Src<'t>,
    pos: usize,
    /// Items that collections may still spend.
    pub budget: usize,
    pub depth: u32,
}

fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

impl<'t> Gen<'t> {
    pub fn new(tape: &'t [u64]) -> Self {
        Gen { src: Src::Tape(tape), pos: 0, budget: 60_000, depth: 0 }
    }
    pub fn u(&mut self) -> u64 {
        let p = self.pos;
        self.pos += 1;
        match self.src {
            Src::Tape(t) => match (t.get(p), t.last()) {
                (Some(w), _) => *w,
                (None, None | Some(0)) => 0,
                (None, Some(s)) => mix(s.wrapping_add((p as u64 + 1).wrapping_mul(0x9E3779B97F4A7C15))),
            },
            Src::Mix(s) => mix(s.wrapping_add((p as u64 + 1).wrapping_mul(0x9E3779B97F4A7C15))),
        }
    }
    /// A generator expanded from one word of this one.
    pub fn sub(&mut self) -> Gen<'static> {
        let s = self.u();
        Gen { src: Src::Mix(s), pos: 0, budget: self.budget, depth: self.depth }
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { self.u() % n }
    }
    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.idx(hi - lo + 1)
    }
    pub fn flag(&mut self) -> bool {
        self.below(2) == 1
    }
    /// True with probability n/d; false when the tape is exhausted.
    pub fn chance(&mut self, n: u64, d: u64) -> bool {
        self.below(d) >= d - n
    }
    pub fn pick<'x, T>(&mut self, xs: &'x [T]) -> &'x T {
        let i = self.idx(xs.len());
        &xs[i]
    }

    /// Length of a collection inside a field; `bulk` collections may be long.
    pub fn len(&mut self, item_cost: usize) -> usize {
        let deep = self.depth >= 2;
        let c = self.below(if deep { 10 } else { 16 });
        let n = match c {
            0 => 0,
            1 => 1,
            2 => 2,
            3..=6 => self.range(3, 9),
            7..=9 => self.range(8, 40),
            10..=12 => self.range(20, 600),
            // around the sizes where a shard of 4 KiB or 128 KiB fills up
            13 => {
                let unit = (4096 / item_cost.max(1)).max(1);
                let k = self.range(1, 5);
                (k * unit + 2).saturating_sub(self.idx(5))
            }
            14 => self.range(600, 6000),
            _ => {
                let unit = (131_072 / item_cost.max(1)).max(1);
                (unit * self.range(1, 4) / 2 + 2).saturating_sub(self.idx(5))
            }
        };
        let n = n.min(self.budget / item_cost.clamp(1, 64).div_ceil(4).max(1));
        self.budget -= n.min(self.budget);
        n
    }

    pub fn int(&mut self) -> u64 {
        match self.below(10) {
            0 | 1 => self.below(4),
            2..=4 => self.below(256),
            5 => *self.pick(&[250, 251, 252, 253, 254, 255, 256, 65_535, 65_536, u32::MAX as u64, u32::MAX as u64 + 1, u64::MAX, u64::MAX / 2, i64::MAX as u64 + 1]),
            6 => self.below(1 << 16),
            7 => self.below(1 << 32),
            8 => u64::MAX - self.below(300),
            _ => self.u(),
        }
    }
}

//! Small seeded PRNG (xoshiro256**), serialisable so that a run can be continued in a new process.
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Rng {
    s: [u64; 4],
}

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut x = a ^ b.rotate_left(32).wrapping_mul(0xD6E8FEB86659FD93);
    splitmix(&mut x)
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut x = seed;
        Rng { s: [splitmix(&mut x), splitmix(&mut x), splitmix(&mut x), splitmix(&mut x)] }
    }
    pub fn next(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    /// uniform in 0..n (n > 0)
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
    /// uniform in a..=b
    pub fn range(&mut self, a: u64, b: u64) -> u64 {
        if a >= b {
            return a;
        }
        a + self.below(b - a + 1)
    }
    pub fn ppm(&mut self, p: u32) -> bool {
        p > 0 && self.below(1_000_000) < p as u64
    }
    pub fn per_mille(&mut self, p: u64) -> bool {
        self.below(1000) < p
    }
    pub fn pct(&mut self, p: u32) -> bool {
        p > 0 && self.below(100) < p as u64
    }
    /// log-uniform in a..=b, a >= 1
    pub fn logrange(&mut self, a: u64, b: u64) -> u64 {
        let (la, lb) = (64 - a.max(1).leading_zeros() as u64, 64 - b.max(1).leading_zeros() as u64);
        let k = self.range(la, lb);
        let lo = (1u64 << (k - 1)).max(a);
        let hi = ((1u64 << (k - 1)) - 1 + (1u64 << (k - 1))).min(b);
        if hi < lo {
            return a;
        }
        self.range(lo, hi)
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.below(v.len() as u64) as usize;
        &v[i]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i as u64 + 1) as usize;
            v.swap(i, j);
        }
    }
}

//! Choice-sequence based generation: every random decision is a bounded draw that is recorded, so
//! that any failing case can be replayed and shrunk by editing the list of draws.

use std::collections::BTreeMap;

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e37_79b9_7f4a_7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x0000_0100_0000_01b3);
    }
    mix(h)
}

pub struct Gen {
    state: u64,
    replay: Option<Vec<u32>>,
    pos: usize,
    pub rec: Vec<u32>,
    pub labels: BTreeMap<&'static str, u64>,
    pub nontrivial: Option<u64>,
    pub desc: Option<String>,
    want_desc: bool,
    pub checks: u64,
}

impl Gen {
    pub fn seeded(seed: u64, want_desc: bool) -> Gen {
        Gen {
            state: seed,
            replay: None,
            pos: 0,
            rec: Vec::new(),
            labels: BTreeMap::new(),
            nontrivial: None,
            desc: None,
            want_desc,
            checks: 0,
        }
    }
    pub fn replay(data: Vec<u32>, want_desc: bool) -> Gen {
        let mut g = Gen::seeded(0, want_desc);
        g.replay = Some(data);
        g
    }
    fn raw(&mut self) -> u32 {
        self.state = self.state.wrapping_add(0x9e37_79b9_7f4a_7c15);
        (mix(self.state) >> 32) as u32
    }
    /// A draw in `0..n` (0 is the simplest).
    pub fn below(&mut self, n: u32) -> u32 {
        assert!(n > 0);
        let v = match &self.replay {
            Some(d) => {
                let v = d.get(self.pos).copied().unwrap_or(0);
                v.min(n - 1)
            }
            None => ((self.raw() as u64 * n as u64) >> 32) as u32,
        };
        self.pos += 1;
        self.rec.push(v);
        v
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below((hi - lo + 1) as u32) as usize
    }
    pub fn u32(&mut self) -> u32 {
        let a = self.below(1 << 16);
        let b = self.below(1 << 16);
        a << 16 | b
    }
    pub fn u64(&mut self) -> u64 {
        (self.u32() as u64) << 32 | self.u32() as u64
    }
    /// true with probability num/den; false is the simpler outcome
    pub fn chance(&mut self, num: u32, den: u32) -> bool {
        self.below(den) >= den - num
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len() as u32) as usize]
    }
    /// Index chosen with the given weights
    pub fn weighted(&mut self, ws: &[u32]) -> usize {
        let total: u32 = ws.iter().sum();
        let mut v = self.below(total);
        for (i, w) in ws.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= w;
        }
        unreachable!()
    }
    /// Geometric-ish small count in lo..=hi
    pub fn small(&mut self, lo: usize, hi: usize) -> usize {
        let mut n = lo;
        while n < hi && self.chance(3, 5) {
            n += 1;
        }
        n
    }
    pub fn label(&mut self, l: &'static str) {
        *self.labels.entry(l).or_insert(0) += 1;
    }
    pub fn describe(&mut self, f: impl FnOnce() -> String) {
        if self.want_desc {
            self.desc = Some(f());
        }
    }
    /// Marks the case as non-trivial, `key` identifying it
    pub fn nontrivial(&mut self, key: u64) {
        self.nontrivial = Some(key);
    }
}

//! The one source of nondeterminism: labelled streams of decisions.
//!
//! Every decision has a default (0), which is the "nothing special happens"
//! alternative. A run is identified by the set of its non-default decisions:
//! replaying that set reproduces the run, and deleting elements from it
//! (delta debugging) minimises it.
use std::collections::BTreeMap;
use std::collections::HashMap;
use std::hash::BuildHasherDefault;
use std::hash::Hasher;

#[derive(Clone, Debug)]
pub struct Rng(u64, u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut s = seed ^ 0x9E37_79B9_7F4A_7C15;
        let a = splitmix(&mut s);
        let b = splitmix(&mut s);
        Rng(a | 1, b)
    }
    pub fn next(&mut self) -> u64 {
        // xorshift128+
        let mut x = self.0;
        let y = self.1;
        self.0 = y;
        x ^= x << 23;
        self.1 = x ^ y ^ (x >> 17) ^ (y >> 26);
        self.1.wrapping_add(y)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
    pub fn unit(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn range(&mut self, lo: f64, hi: f64) -> f64 {
        lo + (hi - lo) * self.unit()
    }
    pub fn chance(&mut self, p: f64) -> bool {
        self.unit() < p
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i as u64 + 1) as usize;
            v.swap(i, j);
        }
    }
}

pub fn splitmix(s: &mut u64) -> u64 {
    *s = s.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *s;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn mix(h: u64, v: u64) -> u64 {
    let mut s = h ^ v.wrapping_mul(0xff51_afd7_ed55_8ccd);
    splitmix(&mut s)
}

/// Deterministic hasher for the simulator's own maps.
#[derive(Default, Clone)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, bytes: &[u8]) {
        for b in bytes {
            self.0 = (self.0.rotate_left(5) ^ *b as u64).wrapping_mul(0x517c_c1b7_2722_0a95);
        }
    }
}
pub type DetMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

pub type Trace = BTreeMap<String, BTreeMap<u64, u64>>;

#[derive(Clone)]
enum Mode {
    Random(Rng),
    Replay(Trace),
}

#[derive(Clone)]
pub struct Choices {
    mode: Mode,
    counters: BTreeMap<&'static str, u64>,
    pub taken: Trace,
    pub num_decisions: u64,
    pub num_nondefault: u64,
}

impl Choices {
    pub fn random(seed: u64) -> Self {
        Self::with(Mode::Random(Rng::new(seed)))
    }
    pub fn replay(trace: Trace) -> Self {
        Self::with(Mode::Replay(trace))
    }
    fn with(mode: Mode) -> Self {
        Self {
            mode,
            counters: BTreeMap::new(),
            taken: Trace::new(),
            num_decisions: 0,
            num_nondefault: 0,
        }
    }
    /// A decision among 0..n; a nonzero one with probability p.
    pub fn choose(&mut self, label: &'static str, n: u64, p: f64) -> u64 {
        self.num_decisions += 1;
        let c = self.counters.entry(label).or_insert(0);
        let idx = *c;
        *c += 1;
        let v = match &mut self.mode {
            Mode::Random(r) => {
                if n > 1 && p > 0.0 && r.unit() < p {
                    1 + r.below(n - 1)
                } else {
                    0
                }
            }
            Mode::Replay(t) => {
                let v = t.get(label).and_then(|m| m.get(&idx)).copied().unwrap_or(0);
                if n == 0 {
                    0
                } else {
                    v.min(n - 1)
                }
            }
        };
        if v != 0 {
            self.num_nondefault += 1;
            self.taken
                .entry(label.to_string())
                .or_default()
                .insert(idx, v);
        }
        v
    }
    /// A uniform integer in lo..=hi; lo is the default.
    pub fn int(&mut self, label: &'static str, lo: u64, hi: u64) -> u64 {
        let n = hi - lo + 1;
        lo + self.choose(label, n, 1.0 - 1.0 / n as f64)
    }
    pub fn chance(&mut self, label: &'static str, p: f64) -> bool {
        self.choose(label, 2, p) == 1
    }
    pub fn pick<T: Clone>(&mut self, label: &'static str, items: &[T]) -> T {
        let i = self.int(label, 0, items.len() as u64 - 1);
        items[i as usize].clone()
    }
    /// A seed for bulk data.
    pub fn seed(&mut self, label: &'static str) -> u64 {
        self.int(label, 0, u32::MAX as u64)
    }
}

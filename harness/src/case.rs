use crate::rng::Rng;
use std::collections::BTreeMap;
use std::hash::{Hash, Hasher};

/// Panic payload of a monitored assertion.
pub struct Violation {
    pub sig: String,
    pub msg: String,
}

/// FNV-1a, stable across runs and platforms.
#[derive(Clone)]
pub struct Fnv(pub u64);
impl Default for Fnv {
    fn default() -> Self {
        Fnv(0xcbf2_9ce4_8422_2325)
    }
}
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        let mut x = self.0;
        crate::rng::splitmix(&mut x)
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ *x as u64).wrapping_mul(0x0000_0100_0000_01B3);
        }
    }
}
pub fn hash_of<T: Hash + ?Sized>(x: &T) -> u64 {
    let mut h = Fnv::default();
    x.hash(&mut h);
    h.finish()
}

/// One execution of one scenario: its random choices, its event counters and its digest.
pub struct Case {
    pub rng: Rng,
    pub seed: u64,
    pub tracing: bool,
    pub trace: Vec<String>,
    pub digest: Fnv,
    pub nontrivial: bool,
    pub counters: BTreeMap<&'static str, u64>,
    /// reduced sizes (interpreter runs)
    pub small: bool,
    /// thorough tier: allow bigger sizes
    pub thorough: bool,
}

impl Case {
    pub fn new(seed: u64, tracing: bool) -> Self {
        Case {
            rng: Rng::new(seed),
            seed,
            tracing,
            trace: Vec::new(),
            digest: Fnv::default(),
            nontrivial: false,
            counters: BTreeMap::new(),
            small: std::env::var_os("VCMON_SMALL").is_some(),
            thorough: std::env::var("VERIF_TIER").map(|x| x == "thorough").unwrap_or(false),
        }
    }
    /// record a step of the history (text only produced on replay or for samples)
    pub fn log(&mut self, f: impl FnOnce() -> String) {
        if self.tracing {
            let s = f();
            if self.trace.len() < 4000 {
                self.trace.push(s);
            }
        }
    }
    /// feed something observed into the digest that distinguishes cases
    pub fn note<T: Hash + ?Sized>(&mut self, x: &T) {
        x.hash(&mut self.digest);
    }
    pub fn count(&mut self, k: &'static str, n: u64) {
        *self.counters.entry(k).or_insert(0) += n;
    }
    pub fn maxc(&mut self, k: &'static str, n: u64) {
        let e = self.counters.entry(k).or_insert(0);
        if *e < n {
            *e = n
        }
    }
    pub fn fail(&self, sig: &str, msg: String) -> ! {
        std::panic::panic_any(Violation {
            sig: sig.to_string(),
            msg,
        })
    }
    /// collection size: mostly small, often near interesting thresholds, sometimes large
    pub fn size(&mut self, large: usize) -> usize {
        if self.small {
            return self.rng.below(large.min(12) + 1);
        }
        if large >= 200 && self.rng.chance(1, 500) {
            // once in a while far beyond any threshold an implementation might have
            return match self.rng.below(24) {
                0..=7 => self.rng.range(large, large * 6),
                8..=15 => self.rng.range(4090, 4200),
                // beyond 16 bits
                16 => self.rng.range(65_530, 66_000),
                _ => self.rng.range(1000, 9000),
            };
        }
        if (50..200).contains(&large) && self.rng.chance(1, 500) {
            return if self.rng.bool() { self.rng.range(120, 600) } else { self.rng.range(1000, 1100) };
        }
        let r = self.rng.below(100);
        let n = match r {
            0..=34 => self.rng.below(7),
            35..=59 => self.rng.range(6, 20),
            60..=79 => self.rng.range(14, 40),
            80..=94 => self.rng.below(130),
            _ => self.rng.below(large.max(2)),
        };
        n.min(large)
    }
    pub fn steps(&mut self, max: usize) -> usize {
        let max = if self.small { max.min(10) } else { max };
        1 + self.rng.below(max)
    }
    pub fn cap(&mut self) -> usize {
        *self.rng.pick(&crate::CAPS)
    }
}

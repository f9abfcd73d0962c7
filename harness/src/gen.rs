//! Workload generators.
use crate::case::Case;
use std::collections::BTreeSet;

/// universe bound for keys, so that collisions range from constant to rare
pub fn universe(c: &mut Case, n: usize) -> usize {
    let n = n.max(1);
    match c.rng.below(6) {
        0 => (n / 4).max(1),
        1 => (n / 2).max(1),
        2 => n,
        3 => n * 2,
        4 => n * 8,
        _ => 1_000_000,
    }
}

/// n distinct sorted keys from 0..u (fewer if u < n)
pub fn keys(c: &mut Case, n: usize, u: usize) -> Vec<u32> {
    let n = n.min(u);
    let mut s = BTreeSet::new();
    if n * 2 > u {
        // choose by exclusion
        let mut all: Vec<u32> = (0..u as u32).collect();
        c.rng.shuffle(&mut all);
        all.truncate(n);
        s.extend(all);
    } else {
        while s.len() < n {
            s.insert(c.rng.below(u) as u32);
        }
    }
    s.into_iter().collect()
}

/// Two sorted distinct key lists in one of many relations.
pub fn pair(c: &mut Case, large: usize) -> (Vec<u32>, Vec<u32>) {
    let n = c.size(large);
    let m = if c.rng.chance(1, 3) {
        // asymmetric
        let r = c.size(large);
        if c.rng.bool() { r / 8 } else { r }
    } else {
        c.size(large)
    };
    let (a, b) = match c.rng.below(9) {
        0 | 1 | 2 => {
            let u = universe(c, n.max(m));
            (keys(c, n, u), keys(c, m, u))
        }
        3 => {
            // equal, or equal except a few
            let u = universe(c, n);
            let a = keys(c, n, u);
            let mut b = a.clone();
            for _ in 0..c.rng.below(3) {
                if !b.is_empty() {
                    let i = c.rng.below(b.len());
                    b.remove(i);
                }
            }
            (a, b)
        }
        4 => {
            // subset with extras
            let u = universe(c, n);
            let a = keys(c, n, u);
            let p = 1 + c.rng.below(10);
            let mut b: Vec<u32> = a.iter().copied().filter(|_| c.rng.chance(p, 10)).collect();
            if c.rng.chance(1, 3) {
                b.push(c.rng.below(u * 2) as u32);
                b.sort();
                b.dedup();
            }
            (a, b)
        }
        5 => {
            // separated ranges (touching or not)
            let a = keys(c, n, n.max(1) * 2);
            let hi = a.last().copied().unwrap_or(0) + c.rng.below(2) as u32;
            let b: Vec<u32> = keys(c, m, m.max(1) * 2).iter().map(|x| x + hi).collect();
            (a, b)
        }
        6 => {
            // alternating
            ((0..n as u32).map(|x| x * 2).collect(), (0..m as u32).map(|x| x * 2 + 1).collect())
        }
        7 => {
            // alternating runs of random length, sometimes shared
            let (mut a, mut b) = (vec![], vec![]);
            let mut k = 0u32;
            while a.len() + b.len() < n + m {
                let l = 1 + c.rng.below(12);
                let w = c.rng.below(4);
                for _ in 0..l {
                    if w != 1 {
                        a.push(k)
                    }
                    if w != 0 {
                        b.push(k)
                    }
                    k += 1 + c.rng.below(2) as u32;
                }
            }
            (a, b)
        }
        _ => {
            let u = 64.max(n);
            let a = keys(c, n, u);
            // b inside a gap of a or around it
            let lo = c.rng.below(u) as u32;
            let b: Vec<u32> = keys(c, m, m.max(1) * 2).iter().map(|x| x + lo).collect();
            (a, b)
        }
    };
    if c.rng.bool() { (a, b) } else { (b, a) }
}

/// An input sequence of keys with some run structure.
pub fn sequence(c: &mut Case, n: usize) -> Vec<u32> {
    let u = universe(c, n);
    let mut v: Vec<u32> = (0..n).map(|_| c.rng.below(u) as u32).collect();
    match c.rng.below(12) {
        0 => v.sort(),
        1 => {
            v.sort();
            v.reverse()
        }
        2 => {
            // organ pipe
            v.sort();
            let k = n / 2;
            v[k..].reverse();
        }
        3 => {
            // sawtooth
            let p = 1 + c.rng.below(n.max(1));
            for (i, x) in v.iter_mut().enumerate() {
                *x = (i % p) as u32
            }
        }
        4 => {
            // sorted with a few late disturbances
            v.sort();
            for _ in 0..1 + c.rng.below(4) {
                if n > 1 {
                    let (i, j) = (c.rng.below(n), c.rng.below(n));
                    v.swap(i, j)
                }
            }
        }
        5 => {
            // sorted prefix then random tail
            let k = c.rng.below(n + 1);
            v[..k].sort()
        }
        6 => {
            let x = c.rng.below(3) as u32;
            v.iter_mut().for_each(|y| *y = x)
        }
        7 => {
            // runs of equal elements
            v.sort();
            let l = 1 + c.rng.below(6);
            for i in 0..n {
                v[i] = v[i - i % l]
            }
        }
        8 => {
            // block-wise sorted
            let l = 1 + c.rng.below(40);
            for b in v.chunks_mut(l) {
                b.sort()
            }
        }
        9 => {
            // same block repeated
            let l = 1 + c.rng.below(24);
            for i in 0..n {
                if i >= l {
                    v[i] = v[i - l]
                }
            }
        }
        _ => {}
    }
    v
}

/// iterator wrapper reporting an arbitrary (possibly misleading) size hint
pub struct Hinted<I> {
    pub i: I,
    pub hint: (usize, Option<usize>),
}
impl<I: Iterator> Iterator for Hinted<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.i.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.hint
    }
}
/// exact, absent or merely lower-bounded hints (all lawful), see `lying` for others
pub fn hint(c: &mut Case, n: usize) -> (usize, Option<usize>) {
    match c.rng.below(5) {
        0 => (0, None),
        1 => (n, Some(n)),
        2 => (c.rng.below(n + 1), Some(n + c.rng.below(5))),
        3 => (0, Some(n)),
        _ => (n, None),
    }
}

/// Element types used by generic scenarios.
pub trait Elem: Ord + Clone + std::fmt::Debug + std::hash::Hash + 'static {
    fn mk(k: u32) -> Self;
}
impl Elem for u32 {
    fn mk(k: u32) -> Self {
        k
    }
}
impl Elem for u8 {
    fn mk(k: u32) -> Self {
        k as u8
    }
}
impl Elem for i64 {
    fn mk(k: u32) -> Self {
        match k % 17 {
            0 => i64::MAX - k as i64,
            1 => i64::MIN + k as i64,
            _ => k as i64 - 40,
        }
    }
}
impl Elem for String {
    fn mk(k: u32) -> Self {
        if k == 0 { String::new() } else { format!("{k}") }
    }
}
impl Elem for Box<str> {
    fn mk(k: u32) -> Self {
        String::mk(k).into_boxed_str()
    }
}
impl Elem for () {
    fn mk(_: u32) -> Self {}
}
impl Elem for (u8, u32) {
    fn mk(k: u32) -> Self {
        ((k % 5) as u8, k / 5)
    }
}
impl Elem for u128 {
    fn mk(k: u32) -> Self {
        (k as u128) << 64 | (k as u128 % 3)
    }
}
impl Elem for crate::tok::Tok {
    fn mk(k: u32) -> Self {
        crate::tok::Tok::new(k, 0)
    }
}
impl Elem for std::cmp::Reverse<u32> {
    fn mk(k: u32) -> Self {
        std::cmp::Reverse(k)
    }
}
impl Elem for Option<Vec<u8>> {
    fn mk(k: u32) -> Self {
        if k == 0 { None } else { Some(k.to_be_bytes()[4 - (k % 4 + 1) as usize..].to_vec()) }
    }
}
impl Elem for char {
    fn mk(k: u32) -> Self {
        char::from_u32('a' as u32 + k % 2000).unwrap()
    }
}
impl Elem for bool {
    fn mk(k: u32) -> Self {
        k % 2 == 1
    }
}

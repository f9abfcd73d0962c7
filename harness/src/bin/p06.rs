//! P06: bulk building sorts, deduplicates and keeps the promised duplicate. Oracle: first/last position
//! of every key in the input.
use smallvec::{Array, SmallVec};
use std::cmp::Ordering;
use std::collections::BTreeMap;
use vcmon::*;
use vec_collections::{sort_dedup, sort_dedup_by_key, Keep, VecMap, VecSet};

/// ordered by key only; pos tells instances apart
#[derive(Clone, Debug)]
struct E {
    key: u32,
    pos: u32,
}
impl Ord for E {
    fn cmp(&self, o: &E) -> Ordering {
        self.key.cmp(&o.key)
    }
}
impl PartialOrd for E {
    fn partial_cmp(&self, o: &E) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl PartialEq for E {
    fn eq(&self, o: &E) -> bool {
        self.key == o.key
    }
}
impl Eq for E {}

/// any hint at all, misleading ones included
fn any_hint(c: &mut Case, n: usize) -> (usize, Option<usize>) {
    match c.rng.below(9) {
        0 => (usize::MAX, None),
        1 => (usize::MAX, Some(0)),
        2 => (n + 1 + c.rng.below(40), Some(n / 2)),
        3 => (0, Some(0)),
        4 => (15 + c.rng.below(4), Some(17)),
        _ => gen::hint(c, n),
    }
}

fn oracle(keys: &[u32], keep: Keep) -> Vec<(u32, u32)> {
    let mut m = BTreeMap::new();
    for (i, k) in keys.iter().enumerate() {
        match keep {
            Keep::First => {
                m.entry(*k).or_insert(i as u32);
            }
            Keep::Last => {
                m.insert(*k, i as u32);
            }
        }
    }
    m.into_iter().collect()
}
fn judge(c: &mut Case, what: &str, keys: &[u32], keep: Keep, got: Vec<(u32, u32)>) {
    let want = oracle(keys, keep);
    c.count("builds_checked", 1);
    if got != want {
        let same_keys = got.iter().map(|x| x.0).eq(want.iter().map(|x| x.0));
        c.fail(
            if same_keys { "wrong duplicate kept" } else { "not the distinct keys in ascending order" },
            format!("{what} {keep:?}: input keys {keys:?}, got (key, position) {got:?}, expected {want:?}"),
        )
    }
}

fn input(c: &mut Case) -> Vec<u32> {
    let n = match c.rng.below(10) {
        0 => c.rng.range(14, 19),
        1 => c.rng.range(30, 36),
        2 if !c.small => c.rng.below(if c.thorough { 20_000 } else { 3000 }),
        _ => c.size(400),
    };
    if c.rng.chance(1, 6) {
        // sorted part of chosen length followed by late duplicates of it
        let s = c.rng.below(n + 1);
        let mut v: Vec<u32> = (0..s as u32).map(|x| x * 2).collect();
        while v.len() < n {
            let x = c.rng.below(2 * s + 3) as u32;
            v.push(x)
        }
        v
    } else {
        gen::sequence(c, n)
    }
}

fn run<A: Array<Item = E>, M: Array<Item = (E, u32)>>(c: &mut Case) {
    let keys = input(c);
    c.note(&keys);
    let distinct = oracle(&keys, Keep::First).len();
    c.nontrivial = distinct < keys.len() && distinct > 1;
    c.maxc("max_input", keys.len() as u64);
    c.log(|| format!("keys {keys:?} inline {}", A::size()));
    let items = || keys.iter().enumerate().map(|(i, k)| E { key: *k, pos: i as u32 }).collect::<Vec<_>>();
    macro_rules! it {
        () => {{
            let hint = any_hint(c, keys.len());
            gen::Hinted { i: items().into_iter(), hint }
        }};
    }
    let es = |v: &[E]| -> Vec<(u32, u32)> { v.iter().map(|e| (e.key, e.pos)).collect() };
    let s: VecSet<A> = it!().collect();
    judge(c, "set from iterator", &keys, Keep::First, es(s.as_ref()));
    let s: VecSet<A> = items().into();
    judge(c, "set from Vec", &keys, Keep::First, es(s.as_ref()));
    let m: VecMap<M> = it!().map(|e| (E { key: e.key, pos: 0 }, e.pos)).collect();
    judge(c, "map from iterator", &keys, Keep::Last, m.as_ref().iter().map(|(k, v)| (k.key, *v)).collect());
    for keep in [Keep::First, Keep::Last] {
        let v: Vec<E> = sort_dedup(it!(), keep);
        judge(c, "sort_dedup into Vec", &keys, keep, es(&v));
        let v: SmallVec<A> = sort_dedup(it!(), keep);
        judge(c, "sort_dedup into SmallVec", &keys, keep, es(&v));
        let v: Vec<(u32, u32)> = sort_dedup_by_key(it!().map(|e| (e.key, e.pos)), keep, |x| &x.0);
        judge(c, "sort_dedup_by_key into Vec", &keys, keep, v);
        // a key that is not the natural order of the elements
        let v: SmallVec<[(u32, std::cmp::Reverse<u32>); 3]> = sort_dedup_by_key(it!().map(|e| (e.pos, std::cmp::Reverse(e.key))), keep, |x| &x.1);
        let mut v: Vec<(u32, u32)> = v.into_iter().map(|x| (x.1 .0, x.0)).collect();
        v.reverse();
        judge(c, "sort_dedup_by_key, reversed key", &keys, keep, v);
    }
    // extending keeps what was there: a set its first, a map its last
    let cut = c.rng.below(keys.len() + 1);
    let all = items();
    let mut s: VecSet<A> = all[..cut].iter().cloned().collect();
    s.extend(all[cut..].iter().cloned());
    judge(c, "set built and extended", &keys, Keep::First, es(s.as_ref()));
    let mut m: VecMap<[(u32, u32); 2]> = all[..cut].iter().map(|e| (e.key, e.pos)).collect();
    m.extend(all[cut..].iter().map(|e| (e.key, e.pos)));
    judge(c, "map built and extended", &keys, Keep::Last, m.as_ref().to_vec());
}
fn histories(c: &mut Case) {
    match c.rng.below(6) {
        0 => run::<[E; 0], [(E, u32); 2]>(c),
        1 => run::<[E; 1], [(E, u32); 1]>(c),
        2 => run::<[E; 2], [(E, u32); 0]>(c),
        3 => run::<[E; 4], [(E, u32); 4]>(c),
        4 => run::<[E; 8], [(E, u32); 3]>(c),
        _ => run::<[E; 16], [(E, u32); 16]>(c),
    }
}
/// all arrangements of few keys over short inputs that straddle the compaction threshold
fn arrangements(c: &mut Case) {
    let pre = c.rng.range(8, 17);
    let k = c.rng.range(1, 4);
    let len = 5;
    c.note(&(pre, k));
    c.nontrivial = true;
    let shift = c.rng.below(pre + 1) as u32;
    for code in 0..k.pow(len as u32) {
        let mut x = code;
        let mut keys: Vec<u32> = (0..pre as u32).map(|i| if i < shift { i } else { i + 4 }).collect();
        for _ in 0..len {
            keys.push(shift + (x % k) as u32);
            x /= k;
        }
        if c.rng.bool() {
            let r = c.rng.below(keys.len());
            keys.rotate_left(r);
        }
        for keep in [Keep::First, Keep::Last] {
            let v: Vec<(u32, u32)> = sort_dedup_by_key(keys.iter().enumerate().map(|(i, k)| (*k, i as u32)), keep, |x| &x.0);
            judge(c, "arrangement", &keys, keep, v);
        }
    }
}

fn main() {
    vcmon::main("P06", &[Scenario { name: "inputs", weight: 20, run: histories }, Scenario { name: "arrangements", weight: 1, run: arrangements }])
}

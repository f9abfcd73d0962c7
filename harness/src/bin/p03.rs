//! P03: set relations, equality, hashing and ordering. Oracle: the key lists themselves.
use smallvec::Array;
use std::cmp::Ordering;
use vcmon::case::hash_of;
use vcmon::sets::*;
use vcmon::tok::Tok;
use vcmon::*;
use vec_collections::{AbstractVecMap, AbstractVecSet, VecMap, VecSet};

fn subset(a: &[u32], b: &[u32]) -> bool {
    a.iter().all(|x| b.binary_search(x).is_ok())
}
fn disjoint(a: &[u32], b: &[u32]) -> bool {
    a.iter().all(|x| b.binary_search(x).is_err())
}

fn rels<T: Ord>(c: &mut Case, form: &str, a: &impl AbstractVecSet<T>, b: &impl AbstractVecSet<T>, ka: &[u32], kb: &[u32]) {
    for (x, y, kx, ky, d) in [(0, 1, ka, kb, "left/right"), (1, 0, kb, ka, "right/left"), (0, 0, ka, ka, "left/left"), (1, 1, kb, kb, "right/right")] {
        let (s, p, j) = match (x, y) {
            (0, 1) => (a.is_subset(b), a.is_superset(b), a.is_disjoint(b)),
            (1, 0) => (b.is_subset(a), b.is_superset(a), b.is_disjoint(a)),
            (0, 0) => (a.is_subset(a), a.is_superset(a), a.is_disjoint(a)),
            _ => (b.is_subset(b), b.is_superset(b), b.is_disjoint(b)),
        };
        let (es, ep, ej) = (subset(kx, ky), subset(ky, kx), disjoint(kx, ky));
        c.count("relations_checked", 3);
        c.count("relations_true", s as u64 + p as u64 + j as u64);
        ensure!(c, s == es, "is_subset wrong", "{form} {d}: {kx:?} subset of {ky:?} said {s}");
        ensure!(c, p == ep, "is_superset wrong", "{form} {d}: {kx:?} superset of {ky:?} said {p}");
        ensure!(c, j == ej, "is_disjoint wrong", "{form} {d}: {kx:?} disjoint from {ky:?} said {j}");
    }
    ensure!(c, a.is_empty() == ka.is_empty() && b.is_empty() == kb.is_empty(), "is_empty wrong", "{form}");
}

fn check<A: Array<Item = Tok>, B: Array<Item = Tok>>(c: &mut Case) {
    let (ka, kb) = gen::pair(c, 800);
    c.note(&(&ka, &kb));
    c.nontrivial = !ka.is_empty() && !kb.is_empty();
    c.log(|| format!("left {ka:?} right {kb:?} inline {} {}", A::size(), B::size()));
    let a: VecSet<A> = build(c, &ka, 1);
    let b: VecSet<B> = build(c, &kb, 2);
    rels(c, "vec/vec", &a, &b, &ka, &kb);
    let s = SliceSet(kb.iter().map(|k| Tok::new(*k, 3)).collect());
    rels(c, "vec/foreign", &a, &s, &ka, &kb);
    let (a0, b0) = (kts(&a), kts(&b));
    ensure!(c, a0.len() == ka.len() && b0.len() == kb.len(), "operand changed");
    // equality and order between equal capacities, other history
    let b2: VecSet<A> = build(c, &kb, 4);
    let a2: VecSet<A> = build(c, &ka, 5);
    eqord(c, &a, &b2, &ka, &kb);
    eqord(c, &a, &a2, &ka, &ka);
}
fn eqord<T: Ord + std::hash::Hash + std::fmt::Debug, M: Ord + std::fmt::Debug + ?Sized>(c: &mut Case, a: &T, b: &T, ma: &M, mb: &M) {
    let o = ma.cmp(mb);
    c.count("comparisons_checked", 1);
    ensure!(c, (a == b) == (o == Ordering::Equal) && (a != b) == (o != Ordering::Equal), "equality wrong", "{ma:?} and {mb:?}");
    ensure!(c, a.cmp(b) == o && b.cmp(a) == o.reverse() && a.partial_cmp(b) == Some(o), "order wrong", "{ma:?} and {mb:?}: {:?}, expected {o:?}", a.cmp(b));
    ensure!(c, (a < b) == (o == Ordering::Less) && (a >= b) == (o != Ordering::Less), "order wrong", "operators on {ma:?} and {mb:?}");
    if o == Ordering::Equal {
        ensure!(c, hash_of(a) == hash_of(b), "equal values hash differently", "{ma:?}");
    }
}
fn tagged(c: &mut Case) {
    let (n, m) = (c.cap(), c.cap());
    with_caps!(n, m, Tok, Tok, check(c))
}

fn archived(c: &mut Case) {
    let (ka, kb) = gen::pair(c, 800);
    c.note(&(&ka, &kb, 7));
    c.nontrivial = !ka.is_empty() && !kb.is_empty();
    c.log(|| format!("left {ka:?} right {kb:?}"));
    type S = VecSet<[u32; 4]>;
    let (a, b): (S, VecSet<[u32; 2]>) = (ka.iter().copied().collect(), kb.iter().copied().collect());
    let (ab, bb) = (arch::to_bytes(&a), arch::to_bytes(&b));
    let (aa, ba) = (arch::root::<S>(&ab), arch::root::<VecSet<[u32; 2]>>(&bb));
    rels(c, "archived/vec", aa, &b, &ka, &kb);
    rels(c, "vec/archived", &a, ba, &ka, &kb);
    rels(c, "archived/archived", aa, ba, &ka, &kb);
}

fn elem<A: Array>(c: &mut Case)
where
    A::Item: gen::Elem,
{
    use gen::Elem;
    use std::collections::BTreeSet;
    let (ka, kb) = gen::pair(c, 100);
    let ma: BTreeSet<A::Item> = ka.into_iter().map(A::Item::mk).collect();
    let mb: BTreeSet<A::Item> = kb.into_iter().map(A::Item::mk).collect();
    c.note(&(&ma, &mb));
    c.nontrivial = !ma.is_empty() && !mb.is_empty();
    let a: VecSet<A> = ma.iter().cloned().collect();
    let mut b: VecSet<A> = mb.iter().rev().cloned().collect();
    if c.rng.bool() {
        b.shrink_to_fit()
    }
    c.count("relations_checked", 3);
    ensure!(c, AbstractVecSet::is_subset(&a, &b) == ma.is_subset(&mb), "is_subset wrong", "{ma:?} {mb:?}");
    ensure!(c, AbstractVecSet::is_superset(&a, &b) == ma.is_superset(&mb), "is_superset wrong", "{ma:?} {mb:?}");
    ensure!(c, AbstractVecSet::is_disjoint(&a, &b) == ma.is_disjoint(&mb), "is_disjoint wrong", "{ma:?} {mb:?}");
    eqord(c, &a, &b, &ma, &mb);
}
fn types(c: &mut Case) {
    match c.rng.below(7) {
        0 => elem::<[String; 2]>(c),
        1 => elem::<[u8; 16]>(c),
        2 => elem::<[i64; 2]>(c),
        3 => elem::<[(); 2]>(c),
        4 => elem::<[(u8, u32); 4]>(c),
        5 => elem::<[Option<Vec<u8>>; 1]>(c),
        _ => elem::<[u128; 3]>(c),
    }
}

/// Two maps with related keys and related values.
fn map_contents(c: &mut Case) -> (Vec<(u32, u32)>, Vec<(u32, u32)>) {
    let (ka, kb) = gen::pair(c, 200);
    let v = 1 + c.rng.below(3) as u32;
    let a: Vec<(u32, u32)> = ka.iter().map(|k| (*k, c.rng.below(v as usize) as u32)).collect();
    let mut b: Vec<(u32, u32)> = if c.rng.chance(1, 3) { a.clone() } else { kb.iter().map(|k| (*k, c.rng.below(v as usize) as u32)).collect() };
    if c.rng.chance(1, 3) && !b.is_empty() {
        let i = c.rng.below(b.len());
        b[i].1 ^= 1;
    }
    (a, b)
}
fn mapcheck<A: Array<Item = (u32, u32)>>(c: &mut Case) {
    let (a, b) = map_contents(c);
    c.note(&(&a, &b));
    c.nontrivial = !a.is_empty() && !b.is_empty();
    c.log(|| format!("left {a:?} right {b:?} inline {}", A::size()));
    let mk = |c: &mut Case, m: &Vec<(u32, u32)>| -> VecMap<A> {
        match c.rng.below(4) {
            0 => m.iter().copied().collect(),
            1 => {
                let mut r = VecMap::empty();
                let mut m = m.clone();
                c.rng.shuffle(&mut m);
                for (k, v) in m {
                    r.insert(k, v ^ 1);
                    r.insert(k, v);
                }
                r
            }
            2 => m.iter().copied().collect::<std::collections::BTreeMap<_, _>>().into(),
            _ => {
                // heap memory that is no longer needed
                let top = m.last().map(|x| x.0).unwrap_or(0);
                let mut r: VecMap<A> = m.iter().copied().chain((1..20).map(|i| (top + i, 9))).collect();
                r.retain(|(k, _)| *k <= top && m.binary_search_by_key(k, |x| x.0).is_ok());
                r
            }
        }
    };
    let (x, y) = (mk(c, &a), mk(c, &b));
    eqord(c, &x, &y, &a, &b);
    let z = mk(c, &a);
    eqord(c, &x, &z, &a, &a);
    ensure!(c, AbstractVecMap::is_empty(&x) == a.is_empty(), "is_empty wrong");
    // partially ordered values
    let f = |m: &Vec<(u32, u32)>| -> Vec<(u32, f64)> { m.iter().map(|(k, v)| (*k, if *v == 2 { f64::NAN } else { *v as f64 })).collect() };
    let (fa, fb) = (f(&a), f(&b));
    let (ga, gb): (VecMap<[(u32, f64); 2]>, VecMap<[(u32, f64); 2]>) = (fa.iter().copied().collect(), fb.iter().copied().collect());
    ensure!(c, (ga == gb) == (fa == fb), "equality wrong", "{fa:?} {fb:?}");
    ensure!(c, ga.partial_cmp(&gb) == fa.partial_cmp(&fb), "order wrong", "{fa:?} {fb:?}");
}
fn maps(c: &mut Case) {
    let n = c.cap();
    with_cap!(n, (u32, u32), mapcheck(c))
}

/// a family of values: the order is total, equality an equivalence
fn family(c: &mut Case) {
    type S = VecSet<[u32; 3]>;
    let n = 2 + c.rng.below(7);
    let mut sets: Vec<S> = vec![];
    for _ in 0..n {
        let k = c.rng.below(8);
        sets.push((0..k).map(|_| c.rng.below(4) as u32).collect());
    }
    c.note(&sets);
    c.nontrivial = true;
    let mut lists: Vec<Vec<u32>> = sets.iter().map(|s| s.iter().copied().collect()).collect();
    let mut sorted = sets.clone();
    sorted.sort();
    lists.sort();
    ensure!(c, sorted.iter().map(|s| s.iter().copied().collect::<Vec<_>>()).eq(lists.iter().cloned()), "order wrong", "sorting {sets:?}");
    // sets as keys of a set: everything is reachable again
    let all: VecSet<[S; 2]> = sets.iter().cloned().collect();
    lists.dedup();
    ensure!(c, all.len() == lists.len(), "equality wrong", "set of sets {sets:?}");
    for s in &sets {
        ensure!(c, all.contains(s), "order wrong", "set of sets {sets:?} lost {s:?}");
    }
    let h: std::collections::HashSet<S> = sets.iter().cloned().collect();
    ensure!(c, h.len() == lists.len(), "equal values hash differently", "{sets:?}");
    c.count("comparisons_checked", n as u64);
}

/// all pairs of subsets of a six element universe
fn exhaustive(c: &mut Case) {
    let x = c.rng.below(64);
    let far = c.rng.below(2) as u32 * 30;
    let set = |x: usize| -> Vec<u32> { (0..6).filter(|i| x >> i & 1 == 1).map(|i| i * 2).chain((0..far).map(|i| 20 + i)).collect() };
    c.note(&(x, far));
    c.nontrivial = true;
    let ka = set(x);
    let a: VecSet<[u32; 4]> = ka.iter().copied().collect();
    for y in 0..64 {
        let mut kb = set(y);
        if far > 0 && c.rng.bool() {
            let i = c.rng.below(kb.len());
            kb.remove(i);
        }
        let b: VecSet<[u32; 2]> = kb.iter().copied().collect();
        rels(c, "exhaustive", &a, &b, &ka, &kb);
    }
}

fn main() {
    vcmon::main(
        "P03",
        &[
            Scenario { name: "tagged", weight: 6, run: tagged },
            Scenario { name: "archived", weight: 3, run: archived },
            Scenario { name: "types", weight: 3, run: types },
            Scenario { name: "maps", weight: 4, run: maps },
            Scenario { name: "family", weight: 2, run: family },
            Scenario { name: "exhaustive", weight: 2, run: exhaustive },
        ],
    )
}

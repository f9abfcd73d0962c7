//! P29: radix trees are searched, cut and edited at the cost of the path. Oracle: counted symbol
//! comparisons, clones of values and allocations against explicit bounds made of the key's length and
//! the numbers of children on its path.
use std::collections::BTreeMap;
use vcmon::radix::*;
use vcmon::tok::{self, Sy};
use vcmon::*;

type K = Sy;

fn lg(n: usize) -> u64 {
    (usize::BITS - n.max(1).leading_zeros()) as u64
}
/// keys with many siblings, long labels, deep paths
fn model(c: &mut Case, next: &mut u32) -> (Keys<K>, Model<K>) {
    let n = tree_size(c);
    if c.small || c.rng.chance(1, 3) {
        let keys = Keys::<K>::new(c, n);
        let m = keys.model(c, next);
        return (keys, m);
    }
    let base = word::<K>(c, 5, 30);
    let depth = c.rng.range(1, 3);
    let wide = c.rng.range(20, 256) as u32;
    let tail = c.rng.below(25);
    let mut pool = vec![];
    let n = if depth == 1 { wide as usize } else { c.rng.range(wide as usize, if c.thorough { 8000 } else { 1500 }) };
    for i in 0..n {
        let mut k = base.clone();
        for d in 0..depth {
            let s = if depth == 1 { i as u32 } else { c.rng.below(wide as usize) as u32 };
            k.push(Sy(s as u8));
            if d + 1 < depth && c.rng.chance(1, 9) {
                break;
            }
            for _ in 0..c.rng.below(tail + 1) {
                k.push(Sy(7))
            }
        }
        pool.push(k);
    }
    let keys = Keys { alpha: wide, pool };
    let mut m = Model::new();
    for k in &keys.pool {
        m.insert(k.clone(), *next);
        *next += 1;
    }
    (keys, m)
}
/// what an operation along the path of a key meets: (nodes, sum of logarithms of their numbers of children, values in these lists)
#[derive(Debug, Clone, Copy)]
struct Path {
    nodes: u64,
    logs: u64,
}
fn path<T: AbstractRadixTree<K, Cv>>(t: &T, k: &[K]) -> Path {
    let mut r = Path { nodes: 1, logs: 0 };
    let mut t = t;
    let mut k = k;
    loop {
        let p = t.prefix();
        if !k.starts_with(p) {
            return r;
        }
        k = &k[p.len()..];
        r.logs += lg(t.children().len()) + 1;
        let Some(f) = k.first() else { return r };
        let Some(x) = t.children().iter().find(|x| x.prefix()[0] == *f) else { return r };
        t = x;
        r.nodes += 1;
    }
}
fn search_bound(p: Path, k: usize) -> u64 {
    3 * k as u64 + 2 * p.logs + 3 * p.nodes + 6
}
fn edit_bound(p: Path, k: usize) -> u64 {
    3 * k as u64 + 4 * p.logs + 7 * p.nodes + 16
}

struct Cost {
    cmps: u64,
    clones: u64,
    allocs: u64,
}
fn cost<R>(f: impl FnOnce() -> R) -> (R, Cost) {
    let n = cv_clones();
    tok::reset_cmps();
    let (r, allocs) = alloc::count_allocs(f);
    (r, Cost { cmps: tok::cmps(), clones: cv_clones() - n, allocs })
}
fn seen(c: &mut Case, kind: &'static str, x: &Cost, bound: u64) {
    c.count("comparisons", x.cmps);
    c.count("operations_watched", 1);
    c.maxc(kind, x.cmps * 100 / bound.max(1));
}

fn search_in<T: AbstractRadixTree<K, Cv>>(c: &mut Case, t: &T, keys: &Keys<K>, m: &Model<K>, name: &str) {
    // everything lazy is loaded
    let all = contents(t);
    for _ in 0..c.steps(10) {
        let k = keys.probe(c);
        let p = path(t, &k);
        let bound = search_bound(p, k.len());
        let d = |x: &Cost| format!("{} comparisons, {} clones, {} allocations; key of {} symbols, {p:?}, bound {bound}, {} entries, {name}", x.cmps, x.clones, x.allocs, k.len(), m.len());
        let (g, x) = cost(|| t.get(&k).map(|v| v.id()));
        seen(c, "max_search_percent_of_bound", &x, bound);
        ensure_eq!(c, g, m.get(&k).copied(), "wrong lookup", "{k:?}");
        ensure!(c, x.cmps <= bound, "too many comparisons", "get: {}", d(&x));
        ensure!(c, x.clones == 0 && x.allocs == 0, "lookup copies", "get: {}", d(&x));
        let (g, x) = cost(|| t.contains_key(&k));
        seen(c, "max_search_percent_of_bound", &x, bound);
        ensure_eq!(c, g, m.contains_key(&k), "wrong lookup", "{k:?}");
        ensure!(c, x.cmps <= bound, "too many comparisons", "contains_key: {}", d(&x));
        ensure!(c, x.clones == 0 && x.allocs == 0, "lookup copies", "contains_key: {}", d(&x));
        // a scan: finding the place costs the path, going on costs nothing
        let (g, x) = cost(|| t.scan_prefix(&k).map(|(_, v)| v.id()).collect::<Vec<u32>>());
        seen(c, "max_search_percent_of_bound", &x, bound);
        let w: Vec<u32> = m.iter().filter(|(q, _)| q.starts_with(&k)).map(|(_, v)| *v).collect();
        ensure!(c, g == w, "wrong prefix scan", "{k:?}: {} items, expected {}", g.len(), w.len());
        ensure!(c, x.cmps <= bound, "too many comparisons", "scan_prefix: {}", d(&x));
        ensure!(c, x.clones == 0, "scan clones values", "{}", d(&x));
        c.note(&(&k, x.cmps));
        c.count("searches", 1);
    }
    let (g, x) = cost(|| (t.iter().count(), t.values().count()));
    ensure!(c, g == (all.len(), all.len()), "wrong iteration", "{g:?} of {}", all.len());
    ensure!(c, x.cmps == 0 && x.clones == 0, "iteration compares or clones", "{} comparisons, {} clones, {name}", x.cmps, x.clones);
}
fn search<T: Flavour<K, Cv>>(c: &mut Case) {
    start();
    cv_reset();
    let mut next = 1;
    let (keys, m) = model(c, &mut next);
    let t: T = build(c, &m);
    c.note(&(T::NAME, m.len()));
    c.nontrivial = m.len() > 3;
    c.maxc("max_fan_out", fan(&shape(&t)) as u64);
    search_in(c, &t, &keys, &m, T::NAME);
    if c.rng.chance(1, 3) {
        c.count("archived", 1);
        search_in(c, t.arch(), &keys, &m, "archived");
    }
}
fn fan(s: &Shape<K>) -> usize {
    s.2.iter().map(fan).max().unwrap_or(0).max(s.2.len())
}

/// cutting out a prefix, prepending one
fn cut<T: Flavour<K, Cv>>(c: &mut Case, shared: bool) {
    start();
    cv_reset();
    let mut next = 1;
    let (keys, m) = model(c, &mut next);
    let t: T = build(c, &m);
    let loaded = contents(&t).len();
    c.note(&(T::NAME, loaded));
    c.nontrivial = m.len() > 3;
    for _ in 0..c.steps(8) {
        let mut k = keys.probe(c);
        if c.rng.bool() {
            let l = c.rng.below(k.len() + 1);
            k.truncate(l);
        }
        let p = path(&t, &k);
        let bound = search_bound(p, k.len());
        let (mut f, x) = cost(|| t.filter_prefix(&k));
        seen(c, "max_cut_percent_of_bound", &x, bound);
        let w: Vec<(Vec<K>, u32)> = m.iter().filter(|(q, _)| q.starts_with(&k)).map(|(q, v)| (q.clone(), *v)).collect();
        let d = |x: &Cost| format!("{} comparisons, {} clones, {} allocations; prefix of {} symbols, {p:?}, bound {bound}, {} of {} entries match, {}", x.cmps, x.clones, x.allocs, k.len(), w.len(), m.len(), T::NAME);
        ensure!(c, contents(&f) == w, "wrong filter_prefix", "{k:?}: {}", diff(&contents(&f), &w));
        ensure!(c, x.cmps <= bound, "too many comparisons", "filter_prefix: {}", d(&x));
        if shared {
            ensure!(c, x.clones <= 1, "filtering by prefix copies shared parts", "{}", d(&x));
            ensure!(c, x.allocs <= 8, "filtering by prefix copies shared parts", "{}", d(&x));
        } else {
            ensure!(c, x.clones <= w.len() as u64, "filtering by prefix copies more than what matches", "{}", d(&x));
        }
        // the result has its loaded parts; prepending does not look at them
        let q = if c.rng.bool() { word::<K>(c, 4, 3) } else { word::<K>(c, 4, 60) };
        let ((), x) = cost(|| f.prepend(&q));
        ensure!(c, x.cmps == 0 && x.clones == 0 && x.allocs <= 4, "prepending copies or compares", "{} symbols: {}", q.len(), d(&x));
        let w: Vec<(Vec<K>, u32)> = w.into_iter().map(|(k, v)| (q.iter().copied().chain(k).collect(), v)).collect();
        ensure!(c, contents(&f) == w, "wrong prepend", "{q:?}: {}", diff(&contents(&f), &w));
        c.count("cuts", 1);
        c.note(&(&k, w.len()));
    }
}

/// edits by a few entries: along their paths, without copying what the tree has
fn edit<T: Flavour<K, Cv>>(c: &mut Case) {
    start();
    cv_reset();
    let mut next = 1;
    let (keys, m) = model(c, &mut next);
    c.note(&(T::NAME, m.len()));
    c.nontrivial = m.len() > 3;
    for _ in 0..c.steps(6) {
        let t0: T = build(c, &m);
        // a tree of its own, sharing nothing
        let mut t = {
            let mut f = RadixTree::empty();
            for (k, v) in contents(&t0) {
                f.insert(&k, Cv::new(v))
            }
            drop(t0);
            T::of(f)
        };
        let mut o: BTreeMap<Vec<K>, u32> = BTreeMap::new();
        let insert = c.rng.bool();
        for _ in 0..if insert { 1 } else { c.rng.range(1, 3) } {
            o.insert(keys.probe(c), 10_000 + next);
            next += 1;
        }
        let bound: u64 = o.keys().map(|k| edit_bound(path(&t, k), k.len())).sum();
        let r = build_flat::<K, Cv>(c, &o);
        let r = T::of(r);
        let per0: u64 = o.values().map(|v| cv_per(*v) as u64).sum();
        let (what, x) = if insert {
            let (k, v) = o.iter().next().unwrap();
            let v = Cv::new(*v);
            ("insert", cost(|| t.insert(k, v)).1)
        } else {
            match c.rng.below(8) {
                0 => ("union_with", cost(|| t.union_with(&r)).1),
                1 => ("intersection_with", cost(|| t.intersection_with(&r)).1),
                2 => ("difference_with", cost(|| t.difference_with(&r)).1),
                3 => ("outer_combine_with", cost(|| t.outer_combine_with(&r, |_, _| false)).1),
                4 => ("inner_combine_with", cost(|| t.inner_combine_with(&r, |_, _| true)).1),
                5 => ("left_combine_with", cost(|| t.left_combine_with(&r, |_, _| true)).1),
                6 => ("remove_prefix_with", cost(|| t.remove_prefix_with(&r, |_| true)).1),
                _ => ("retain_prefix_with", cost(|| t.retain_prefix_with(&r, |_| true)).1),
            }
        };
        let others = x.clones - (o.values().map(|v| cv_per(*v) as u64).sum::<u64>() - per0);
        seen(c, "max_edit_percent_of_bound", &x, bound);
        c.count("edits", 1);
        let d = || format!("{what}: {} comparisons, bound {bound}, {others} clones of the tree's own values; {} entries, edited by {o:?}, {}", x.cmps, m.len(), T::NAME);
        c.log(d);
        c.note(&(what, &o, x.cmps));
        ensure!(c, x.cmps <= bound, "too many comparisons", "{}", d());
        ensure!(c, others == 0, "editing copies the tree's own values", "{}", d());
    }
}

fn labels<T: AbstractRadixTree<K, Cv>>(t: &T) -> u64 {
    1 + t.prefix().len() as u64 + t.children().iter().map(labels).sum::<u64>()
}
/// two trees of any size: linear in nodes and label symbols
fn combine<T: Flavour<K, Cv>>(c: &mut Case) {
    start();
    cv_reset();
    let mut next = 1;
    let (keys, m) = model(c, &mut next);
    let mut o = keys.model(c, &mut next);
    if c.rng.bool() {
        o.retain(|k, _| m.contains_key(k));
    }
    let (a, b): (T, T) = (build(c, &m), build(c, &o));
    let bound = 3 * (labels(&a) + labels(&b)) + 16;
    c.note(&(T::NAME, m.len(), o.len()));
    c.nontrivial = m.len() > 3 && o.len() > 3;
    fn see(c: &mut Case, what: &str, bound: u64, sizes: (usize, usize), f: impl FnOnce()) {
        let x = cost(f).1;
        seen(c, "max_combine_percent_of_bound", &x, bound);
        c.note(&(what, x.cmps));
        c.count("combinations", 1);
        ensure!(c, x.cmps <= bound, "too many comparisons", "{what} of trees with {sizes:?} entries: {} comparisons, bound {bound}", x.cmps);
    }
    let s = (m.len(), o.len());
    see(c, "union", bound, s, || drop(a.union(&b)));
    see(c, "intersection", bound, s, || drop(a.intersection(&b)));
    see(c, "difference", bound, s, || drop(a.difference(&b)));
    see(c, "is_subset", bound, s, || drop(a.is_subset(&b)));
    see(c, "is_subset", bound, s, || drop(b.is_subset(&a)));
    see(c, "intersects", bound, s, || drop(a.intersects(&b)));
    let mut x = a.clone();
    match c.rng.below(6) {
        0 => see(c, "union_with", bound, s, || x.union_with(&b)),
        1 => see(c, "intersection_with", bound, s, || x.intersection_with(&b)),
        2 => see(c, "difference_with", bound, s, || x.difference_with(&b)),
        3 => see(c, "remove_prefix_with", bound, s, || x.remove_prefix_with(&b, |_| true)),
        4 => see(c, "retain_prefix_with", bound, s, || x.retain_prefix_with(&b, |_| true)),
        _ => see(c, "left_combine_with", bound, s, || x.left_combine_with(&b, |_, _| true)),
    }
}

/// a counterexample near the start is found without looking at the rest
fn early<T: Flavour<K, Cv>>(c: &mut Case) {
    start();
    cv_reset();
    let w = if c.small { 12 } else { c.rng.range(60, 250) };
    let d = if c.rng.bool() { 1 } else { 12 };
    let at = c.rng.below(5);
    let kind = c.rng.below(6);
    let key = |i: usize, j: usize| -> Vec<K> { vec![Sy(i as u8), Sy(j as u8), Sy(3)] };
    let mut a = RadixTree::<K, Cv>::empty();
    let mut b = RadixTree::<K, Cv>::empty();
    for i in 0..w {
        for j in 0..d {
            let first = i == at && j == 0;
            let k = key(i, j);
            match kind {
                // equal but for one key missing on the right
                0 => {
                    a.insert(&k, Cv::new(1));
                    if !first {
                        b.insert(&k, Cv::new(2));
                    }
                }
                1 => {
                    b.insert(&k, Cv::new(1));
                    if !first {
                        a.insert(&k, Cv::new(2));
                    }
                }
                // all of one side below one child of the other
                3 => {
                    a.insert(&k, Cv::new(1));
                    if i == w - 1 - at {
                        b.insert(&k, Cv::new(2));
                    }
                }
                4 => {
                    a.insert(&k, Cv::new(1));
                    if i == at {
                        b.insert(&k, Cv::new(2));
                    }
                }
                5 => {
                    b.insert(&k, Cv::new(1));
                    if i == at {
                        a.insert(&k, Cv::new(2));
                    }
                }
                _ => {
                    // nothing in common but one key
                    a.insert(&k, Cv::new(1));
                    b.insert(&key(i, if first { j } else { j + 100 }), Cv::new(1));
                }
            }
        }
    }
    let (a, b) = (T::of(a), T::of(b));
    let l = lg(2 * w);
    // what comes before the counterexample is looked at
    let bound = l * l + 12 * (at as u64 + 1) * (d as u64 + 1) + 32;
    let (g, x) = match kind {
        0 | 3 => cost(|| a.is_subset(&b)),
        1 => cost(|| a.is_superset(&b)),
        _ => cost(|| a.is_disjoint(&b)),
    };
    seen(c, "max_early_percent_of_bound", &x, bound);
    c.count("early_exits", 1);
    c.note(&(w, d, at, kind));
    c.nontrivial = true;
    ensure!(c, !g, "wrong relation", "kind {kind}, {w} children");
    ensure!(c, x.cmps <= bound, "counterexample near the start not found early", "kind {kind}, {w} children with {d} keys each, counterexample in child {at}: {} comparisons, bound {bound}, {}", x.cmps, T::NAME);
}

macro_rules! flavours {
    ($name:ident, $f:ident $(, $x:expr, $y:expr)?) => {
        fn $name(c: &mut Case) {
            match c.rng.below(3) {
                0 => $f::<RadixTree<K, Cv>>(c $(, $x)?),
                1 => $f::<ArcRadixTree<K, Cv>>(c $(, $y)?),
                _ => $f::<LazyRadixTree<'static, K, Cv>>(c $(, $y)?),
            }
        }
    };
}
flavours!(searches, search);
flavours!(cuts, cut, false, true);
flavours!(edits, edit);
flavours!(combinations, combine);
flavours!(early_exits, early);

fn main() {
    vcmon::main(
        "P29",
        &[
            Scenario { name: "searches", weight: 4, run: searches },
            Scenario { name: "cuts", weight: 3, run: cuts },
            Scenario { name: "edits", weight: 4, run: edits },
            Scenario { name: "combinations", weight: 3, run: combinations },
            Scenario { name: "early", weight: 1, run: early_exits },
        ],
    )
}

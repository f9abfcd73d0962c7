//! P24: snapshots of shared trees are isolated and cheap. Oracle: the contents recorded for every snapshot;
//! identity of child lists, clones of values and allocations.
use std::collections::BTreeMap;
use std::sync::Arc;
use vcmon::radix::*;
use vcmon::*;

type Arcs<T> = BTreeMap<usize, Arc<Vec<T>>>;
trait Shared<K: Sym, V: Val>: Flavour<K, V> {
    fn arcs(&self) -> Arcs<Self>;
}
impl<K: Sym, V: Val> Shared<K, V> for ArcRadixTree<K, V> {
    fn arcs(&self) -> Arcs<Self> {
        let mut m = BTreeMap::new();
        self.all_arcs(&mut m);
        m
    }
}
impl<K: Sym, V: Val> Shared<K, V> for LazyRadixTree<'static, K, V> {
    fn arcs(&self) -> Arcs<Self> {
        let mut m = BTreeMap::new();
        self.all_arcs(&mut m);
        m
    }
}

/// histories that branch: any copy is changed by any operation, all other copies keep their contents
fn branches<K: Sym, T: Shared<K, u32>>(c: &mut Case) {
    start();
    let n = tree_size(c).min(120);
    let keys = Keys::<K>::new(c, n);
    let mut next = fresh() + 10_000;
    let m = keys.model(c, &mut next);
    let t: T = build(c, &m);
    let mut all = vec![(t, m)];
    // pinned child lists, with what they contained
    let mut pins: Vec<(Arcs<T>, Vec<Vec<(Vec<K>, u32)>>)> = vec![];
    let steps = c.steps(if n > 60 { 10 } else { 30 });
    c.note(&(T::NAME, K::NAME, n));
    let mut changes = 0;
    for s in 0..steps {
        let i = c.rng.below(all.len());
        match c.rng.below(12) {
            0..=3 => {
                let x = (all[i].0.clone(), all[i].1.clone());
                c.log(|| format!("{} = clone of {i}", all.len()));
                if all.len() < 10 {
                    all.push(x)
                } else {
                    // replaces (and drops) another copy
                    let j = c.rng.below(all.len());
                    all[j] = x
                }
                c.count("snapshots", 1);
            }
            4 if pins.len() < 3 => {
                let a = all[i].0.arcs();
                let v = a.values().map(|l| l.iter().flat_map(|t| contents(t)).collect()).collect();
                c.count("pinned_lists", a.len() as u64);
                pins.push((a, v));
            }
            5 if all.len() > 1 => {
                // one copy is an operand of an operation on another
                let j = c.rng.below(all.len());
                let (b, mb) = all[j].clone();
                let (t, m) = &mut all[i];
                match c.rng.below(3) {
                    0 => {
                        t.union_with(&b);
                        for (k, v) in mb {
                            m.entry(k).or_insert(v);
                        }
                    }
                    1 => {
                        t.outer_combine_with(&b, |x, y| {
                            *x = x.wrapping_add(*y);
                            true
                        });
                        for (k, v) in mb {
                            m.entry(k).and_modify(|x| *x = x.wrapping_add(v)).or_insert(v);
                        }
                    }
                    _ => {
                        t.difference_with(&b);
                        m.retain(|k, _| !mb.contains_key(k));
                    }
                }
                c.log(|| format!("{i} combined with {j}"));
                changes += 1;
            }
            6 if all.len() > 1 && c.rng.bool() => {
                all.swap_remove(i);
                c.count("dropped", 1);
            }
            _ => {
                let (t, m) = &mut all[i];
                let name = step(c, t, m, &keys);
                c.log(|| format!("{i}: {name}"));
                c.note(&(i, name, all[i].1.len()));
                if name != "skip" {
                    changes += 1
                }
            }
        }
        for (j, (t, m)) in all.iter().enumerate() {
            let (g, w) = (contents(t), normed::<K, u32>(m));
            if g != w {
                c.fail(if i == j { "wrong contents" } else { "snapshot changed" }, format!("copy {j} after a change of copy {i} (step {s}, {}): {}", T::NAME, diff(&g, &w)))
            }
            c.count("copies_checked", 1);
        }
        for (a, v) in &pins {
            for (l, w) in a.values().zip(v) {
                let g: Vec<(Vec<K>, u32)> = l.iter().flat_map(|t| contents(t)).collect();
                ensure!(c, g == *w, "pinned list changed", "{}: {}", T::NAME, diff(&g, w));
            }
        }
    }
    c.count("changes", changes);
    c.nontrivial = changes > 2;
    c.maxc("max_copies", all.len() as u64);
}

/// address of the child list and length, by full path
fn lists<K: Sym, T: AbstractRadixTree<K, Cv>>(t: &T) -> BTreeMap<Vec<K>, (usize, usize)> {
    fn go<K: Sym, T: AbstractRadixTree<K, Cv>>(t: &T, path: &mut Vec<K>, r: &mut BTreeMap<Vec<K>, (usize, usize)>) {
        let l = path.len();
        path.extend_from_slice(t.prefix());
        r.insert(path.clone(), (t.children().as_ptr() as usize, t.children().len()));
        for c in t.children() {
            go(c, path, r)
        }
        path.truncate(l);
    }
    let mut r = BTreeMap::new();
    go(t, &mut vec![], &mut r);
    r
}

/// what snapshots and insertions below snapshots cost
fn cost<K: Sym, T: Shared<K, Cv>>(c: &mut Case) {
    start();
    cv_reset();
    let n = tree_size(c);
    let keys = Keys::<K>::new(c, n);
    let mut next = fresh() + 10_000;
    let mut m = keys.model(c, &mut next);
    let mut t: T = build(c, &m);
    c.note(&(T::NAME, K::NAME, &m));
    let mut snaps: Vec<(T, Vec<(Vec<K>, u32)>)> = vec![];
    let steps = c.steps(12);
    for _ in 0..steps {
        let loaded = c.rng.chance(4, 5);
        let before = if loaded { Some(lists(&t)) } else { None };
        // snapshot
        let n0 = cv_clones();
        let (snap, allocs) = alloc::count_allocs(|| t.clone());
        let n1 = cv_clones() - n0;
        let root = t.value().is_some() as u64;
        ensure!(c, n1 <= root, "snapshot clones values", "{} cloned {n1} values, {} at the root ({} pairs)", T::NAME, root, m.len());
        // a long prefix may need its own allocation
        ensure!(c, allocs <= 1, "snapshot copies nodes", "{} allocations for a snapshot of {} pairs, {}", allocs, m.len(), T::NAME);
        c.count("snapshots", 1);
        if let Some(b) = &before {
            let l = lists(&snap);
            ensure!(c, l == *b, "snapshot copies nodes", "{} of {} child lists of a fresh snapshot are not shared", b.iter().filter(|(k, v)| l.get(*k) != Some(*v)).count(), b.len());
        }
        let now = contents(&snap);
        ensure!(c, !loaded || now == normed::<K, Cv>(&m), "wrong contents", "of a snapshot: {}", diff(&now, &normed::<K, Cv>(&m)));
        snaps.push((snap, now));
        if snaps.len() > 4 {
            let i = c.rng.below(4);
            snaps.remove(i);
        }
        // insertion into the tree that has (at least) this snapshot
        let k = keys.key(c);
        let v = fresh();
        let (n0, p0) = (cv_clones(), cv_per(v) as u64);
        t.insert(&k, Cv::new(v));
        // of other values than the new one, which is copied at every level
        let n1 = cv_clones() - n0 - (cv_per(v) as u64 - p0);
        c.log(|| format!("insert({k:?}, {v}): {n1} clones"));
        c.note(&(&k, n1));
        let replaced = m.insert(k.clone(), v).is_some();
        c.count(if replaced { "replaced" } else { "inserted" }, 1);
        if let Some(b) = before {
            let a = lists(&t);
            // nodes on the path to the key
            let on: usize = b.iter().filter(|(p, _)| k.starts_with(p)).map(|(_, x)| x.1).sum();
            ensure!(c, n1 as usize <= on, "insertion clones too many values", "{n1} clones inserting {k:?}, child lists on the path have {on} nodes of {}", b.len());
            for (p, x) in &a {
                if !k.starts_with(p) {
                    if let Some(y) = b.get(p) {
                        ensure!(c, x == y, "insertion copies parts off its path", "child list of {p:?} was copied inserting {k:?} ({})", T::NAME);
                        c.count("shared_lists", 1);
                    }
                }
            }
        }
        for (i, (s, w)) in snaps.iter().enumerate() {
            let g = contents(s);
            ensure!(c, g == *w, "snapshot changed", "snapshot {i} after inserting {k:?}: {}", diff(&g, w));
        }
        let g = contents(&t);
        ensure!(c, g == normed::<K, Cv>(&m), "wrong contents", "after insert({k:?}): {}", diff(&g, &normed::<K, Cv>(&m)));
    }
    c.nontrivial = m.len() > 3;
    c.maxc("max_pairs", m.len() as u64);
    drop((t, snaps));
}

fn arc_branches(c: &mut Case) {
    match c.rng.below(4) {
        0 => branches::<u16, ArcRadixTree<u16, u32>>(c),
        1 => branches::<(), ArcRadixTree<(), u32>>(c),
        _ => branches::<u8, ArcRadixTree<u8, u32>>(c),
    }
}
fn lazy_branches(c: &mut Case) {
    match c.rng.below(4) {
        0 => branches::<u16, LazyRadixTree<'static, u16, u32>>(c),
        1 => branches::<(), LazyRadixTree<'static, (), u32>>(c),
        _ => branches::<u8, LazyRadixTree<'static, u8, u32>>(c),
    }
}
fn arc_cost(c: &mut Case) {
    match c.rng.below(4) {
        0 => cost::<char, ArcRadixTree<char, Cv>>(c),
        _ => cost::<u8, ArcRadixTree<u8, Cv>>(c),
    }
}
fn lazy_cost(c: &mut Case) {
    match c.rng.below(4) {
        0 => cost::<char, LazyRadixTree<'static, char, Cv>>(c),
        _ => cost::<u8, LazyRadixTree<'static, u8, Cv>>(c),
    }
}
fn main() {
    vcmon::main(
        "P24",
        &[
            Scenario { name: "arc_branches", weight: 3, run: arc_branches },
            Scenario { name: "lazy_branches", weight: 3, run: lazy_branches },
            Scenario { name: "arc_cost", weight: 3, run: arc_cost },
            Scenario { name: "lazy_cost", weight: 3, run: lazy_cost },
        ],
    )
}

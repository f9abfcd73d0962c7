//! P26: lazily loaded trees equal their source and load only what is touched. Oracle: the same operations
//! on a fully loaded flat tree; clones of values and loaded child lists.
use std::collections::{BTreeMap, BTreeSet};
use vcmon::radix::*;
use vcmon::*;

type Lz<K, V> = LazyRadixTree<'static, K, V>;

fn parts<K: Sym, V: Val>(t: &Lz<K, V>) -> usize {
    let mut m = BTreeMap::new();
    t.all_arcs(&mut m);
    m.len()
}

/// histories on a lazy tree, in every order of access, against the map
fn equal<K: Sym>(c: &mut Case) {
    start();
    let n = tree_size(c);
    let keys = Keys::<K>::new(c, n);
    let mut next = fresh() + 10_000;
    let m0 = keys.model(c, &mut next);
    let flat: RadixTree<K, u32> = build_flat(c, &m0);
    let a = archived(&Lz::from(flat.clone()));
    c.note(&(K::NAME, &m0));
    // several trees over one archive; some of them snapshots of others in any state of loading
    let mut all: Vec<(Lz<K, u32>, Model<K>)> = vec![(a.into(), m0.clone())];
    let steps = c.steps(20);
    let mut ops = 0;
    for _ in 0..steps {
        let i = c.rng.below(all.len());
        match c.rng.below(10) {
            0 if all.len() < 6 => all.push((a.into(), m0.clone())),
            1 | 2 if all.len() < 6 => {
                let x = (all[i].0.clone(), all[i].1.clone());
                all.push(x);
                c.count("snapshots", 1);
            }
            3 | 4 => {
                // partial reads of all kinds
                let (t, m) = &all[i];
                let k = keys.probe(c);
                match c.rng.below(6) {
                    0 => ensure_eq!(c, t.get(&k).copied(), m.get(&k).copied(), "wrong lookup", "{k:?}"),
                    1 => ensure_eq!(c, t.contains_key(&k), m.contains_key(&k), "wrong lookup", "{k:?}"),
                    2 => {
                        let j = c.rng.below(6);
                        let g: Vec<(Vec<K>, u32)> = t.iter().take(j).map(|(k, v)| (k.as_ref().to_vec(), *v)).collect();
                        let w: Vec<(Vec<K>, u32)> = listed(m).into_iter().take(j).collect();
                        ensure!(c, g == w, "wrong iteration", "{}", diff(&g, &w));
                    }
                    3 => {
                        let g: Vec<(Vec<K>, u32)> = t.scan_prefix(&k).take(5).map(|(k, v)| (k.as_ref().to_vec(), *v)).collect();
                        let w: Vec<(Vec<K>, u32)> = listed(&prefixed(m, &k)).into_iter().take(5).collect();
                        ensure!(c, g == w, "wrong prefix scan", "{k:?}: {}", diff(&g, &w));
                    }
                    4 => {
                        let f = t.filter_prefix(&k);
                        let (g, w) = (contents(&f), listed(&prefixed(m, &k)));
                        ensure!(c, g == w, "wrong filter_prefix", "{k:?}: {}", diff(&g, &w));
                    }
                    _ => {
                        let o = keys.model(c, &mut next);
                        let b: Right<K, u8> = Right::random(c, &o);
                        let common = m.keys().any(|k| o.contains_key(k));
                        let sub = m.keys().all(|k| o.contains_key(k));
                        let g = with_right!(b, x => (t.intersects(x), t.is_subset(x)));
                        ensure_eq!(c, g, (common, sub), "wrong relation", "with {}", b.name());
                    }
                }
                c.count("reads", 1);
            }
            5 => {
                // archive of a partly loaded tree
                let (t, m) = &all[i];
                let b = archived(t);
                let t: Lz<K, u32> = b.into();
                let (g, w) = (contents(&t), listed(m));
                ensure!(c, g == w, "wrong contents", "of a second archive: {}", diff(&g, &w));
                ensure!(c, contents(b) == w, "wrong contents", "of a second archive");
                c.count("second_archives", 1);
            }
            _ => {
                let (t, m) = &mut all[i];
                let name = step(c, t, m, &keys);
                c.log(|| format!("{i}: {name}"));
                c.note(&(i, name, all[i].1.len()));
                if name != "skip" {
                    ops += 1;
                }
            }
        }
        // looking at a copy of a tree does not load the tree itself
        if c.rng.chance(1, 3) {
            let (t, m) = &all[i];
            let x = t.clone();
            let (g, w) = (contents(&x), listed(m));
            ensure!(c, g == w, "wrong contents", "of copy {i}: {}", diff(&g, &w));
            c.count("compared", 1);
        }
    }
    for (i, (t, m)) in all.iter().enumerate() {
        check_reads(c, t, m, &keys, "the end");
        let (g, w) = (shape(t), minimal(&listed(m)));
        ensure!(c, g == w, "not minimal", "lazy tree {i}: {g:?}, minimal {w:?}");
        c.count("compared", 1);
    }
    // the archive itself is unchanged
    ensure!(c, contents(a) == listed(&m0), "archive changed", "");
    c.count("operations", ops);
    c.nontrivial = !m0.is_empty() && ops > 0;
}

/// what is loaded: values are cloned when their node is loaded, and only then
fn laziness<K: Sym>(c: &mut Case) {
    start();
    let n = tree_size(c);
    let keys = Keys::<K>::new(c, n);
    let mut next = 1;
    let m = keys.model(c, &mut next);
    let a = archived(&Lz::<K, Cv>::from(build_flat::<K, Cv>(c, &m)));
    c.note(&(K::NAME, &m));
    cv_reset();
    let (t, mem, _) = alloc::peak(|| Lz::<K, Cv>::from(a));
    let root = AbstractRadixTree::value(a).is_some() as u64;
    ensure!(c, cv_clones() <= root, "opening loads values", "{} of {}", cv_clones(), m.len());
    ensure_eq!(c, parts(&t), 0, "opening loads nodes", "{} pairs", m.len());
    let own = std::mem::size_of_val(AbstractRadixTree::prefix(a)) as i64 * 2 + 256;
    ensure!(c, mem <= own, "opening loads nodes", "opening allocated {mem} bytes for {} pairs", m.len());
    c.count("opened", 1);
    // nodes of the archive by path: (values in its child list, child list is empty)
    let mut kids: BTreeMap<Vec<K>, (Vec<u32>, usize)> = BTreeMap::new();
    fn go<K: Sym, T: AbstractRadixTree<K, Cv>>(t: &T, path: &mut Vec<K>, r: &mut BTreeMap<Vec<K>, (Vec<u32>, usize)>) {
        let l = path.len();
        path.extend_from_slice(t.prefix());
        r.insert(path.clone(), (t.children().iter().filter_map(|c| c.value().map(|v| v.id())).collect(), t.children().len()));
        for c in t.children() {
            go(c, path, r)
        }
        path.truncate(l);
    }
    go(a, &mut vec![], &mut kids);
    // lookups load at most the child lists of the nodes that are prefixes of the key
    let mut may: BTreeSet<Vec<K>> = BTreeSet::new();
    let mut loads: BTreeMap<u32, u32> = BTreeMap::new();
    let looks = c.steps(15);
    for _ in 0..looks {
        let k = keys.probe(c);
        let (n0, p0) = (cv_clones(), parts(&t));
        let mut fresh_lists = 0;
        let mut bound = 0;
        for (p, (vs, _)) in &kids {
            if k.starts_with(p) {
                bound += vs.len() as u64;
                fresh_lists += 1;
                if may.insert(p.clone()) {
                    for v in vs {
                        *loads.entry(*v).or_insert(0) += 1
                    }
                }
            }
        }
        let g = match c.rng.below(2) {
            0 => t.get(&k).map(|v| v.id()),
            _ => {
                ensure_eq!(c, t.contains_key(&k), m.contains_key(&k), "wrong lookup", "{k:?}");
                m.get(&k).copied()
            }
        };
        ensure_eq!(c, g, m.get(&k).copied(), "wrong lookup", "{k:?}");
        let (n1, p1) = (cv_clones() - n0, parts(&t) - p0);
        c.log(|| format!("{k:?}: {n1} values, {p1} lists"));
        if m.contains_key(&k) {
            // every list on the way to the key is loaded now, so it is listed
            let need = kids.iter().filter(|(p, (_, n))| *n > 0 && k.len() > p.len() && k.starts_with(p)).count();
            ensure!(c, parts(&t) >= need, "all_arcs does not hold the loaded child lists", "{} lists, {need} on the way to {k:?}", parts(&t));
        }
        ensure!(c, n1 <= bound, "lookup loads too much", "{n1} values loaded looking up {k:?}, {bound} in the child lists on its path, {} in all", m.len());
        ensure!(c, p1 <= fresh_lists, "lookup loads too much", "{p1} child lists loaded looking up {k:?}, {fresh_lists} on its path");
        ensure!(c, parts(&t) <= may.len(), "lookup loads too much", "{} child lists loaded, {} on the paths of all lookups so far", parts(&t), may.len());
        c.count("lookups", 1);
        c.count("lists_loaded", p1 as u64);
        c.note(&(k, n1));
    }
    // nothing is loaded twice
    for v in m.values() {
        let (g, w) = (cv_per(*v), loads.get(v).copied().unwrap_or(0) + (root == 1 && AbstractRadixTree::value(a).unwrap().id() == *v) as u32);
        ensure!(c, g <= w, "loaded more than once", "value {v} cloned {g} times, expected at most {w}");
    }
    c.count("left_unloaded", (kids.len() - parts(&t).min(kids.len())) as u64);
    // after everything was read, reading again loads nothing
    let x = contents(&t);
    ensure!(c, x == normed::<K, Cv>(&m), "wrong contents", "{}", diff(&x, &normed::<K, Cv>(&m)));
    let n0 = cv_clones();
    ensure!(c, n0 <= m.len() as u64, "loaded more than once", "{n0} clones of {} values", m.len());
    // now every child list is loaded: the tree lists exactly these, under their addresses, and keeps them alive
    let mut pins = BTreeMap::new();
    t.all_arcs(&mut pins);
    let mut want = BTreeSet::new();
    fn lists<K: Sym>(t: &Lz<K, Cv>, out: &mut BTreeSet<usize>) {
        if !t.children().is_empty() && out.insert(t.children().as_ptr() as usize) {
            t.children().iter().for_each(|x| lists(x, out))
        }
    }
    lists(&t, &mut want);
    let got: BTreeSet<usize> = pins.values().filter(|x| !x.is_empty()).map(|x| x.as_ptr() as usize).collect();
    ensure!(c, got == want, "all_arcs does not hold the loaded child lists", "{} of {} lists", got.len(), want.len());
    for (k, v) in &pins {
        ensure!(c, *k == std::sync::Arc::as_ptr(v) as usize, "all_arcs has a list under another address", "{}", m.len());
    }
    c.count("lists_listed", got.len() as u64);
    let _ = contents(&t);
    let s = t.clone();
    let n1 = cv_clones();
    let _ = contents(&s);
    ensure!(c, cv_clones() == n1 && n1 <= n0 + root, "loaded more than once", "reading again");
    c.nontrivial = m.len() > 3;
    c.maxc("max_pairs", m.len() as u64);
}

/// results of operations on archived trees do not depend on the archive
fn detached<K: Sym>(c: &mut Case) {
    start();
    let n = tree_size(c).min(60);
    let keys = Keys::<K>::new(c, n);
    let mut next = fresh() + 10_000;
    let (m0, m1) = (keys.model(c, &mut next), keys.model(c, &mut next));
    c.note(&(K::NAME, &m0, &m1));
    let (x, y) = (Lz::<K, u32>::from(build_flat(c, &m0)), Lz::<K, u32>::from(build_flat(c, &m1)));
    let (b0, b1) = (arch::to_bytes(&x), arch::to_bytes(&y));
    let (r, w): (Lz<K, u32>, Model<K>) = {
        let (a0, a1) = (arch::root::<Lz<K, u32>>(&b0), arch::root::<Lz<K, u32>>(&b1));
        match c.rng.below(7) {
            0 => (a0.outer_combine(a1, |a, _| Some(*a)), {
                let mut m = m1.clone();
                m.extend(m0.clone());
                m
            }),
            1 => (a0.inner_combine(a1, |a, _| Some(*a)), m0.iter().filter(|(k, _)| m1.contains_key(*k)).map(|(k, v)| (k.clone(), *v)).collect()),
            2 => (a0.left_combine(a1, |a, b| if b.is_some() { None } else { Some(*a) }), m0.iter().filter(|(k, _)| !m1.contains_key(*k)).map(|(k, v)| (k.clone(), *v)).collect()),
            3 => {
                let mut t = x.clone();
                t.union_with(a1);
                let mut m = m1.clone();
                m.extend(m0.clone());
                (t, m)
            }
            4 => {
                let mut t = x.clone();
                t.outer_combine_with(a1, |a, b| {
                    *a = *b;
                    true
                });
                let mut m = m0.clone();
                m.extend(m1.clone());
                (t, m)
            }
            5 => {
                let mut t = x.clone();
                t.intersection_with(a1);
                (t, m0.iter().filter(|(k, _)| m1.contains_key(*k)).map(|(k, v)| (k.clone(), *v)).collect())
            }
            _ => (x.outer_combine(a1, |a, _| Some(*a)), {
                let mut m = m1.clone();
                m.extend(m0.clone());
                m
            }),
        }
    };
    // the bytes go away (and are overwritten first)
    let (mut b0, mut b1) = (b0, b1);
    b0.iter_mut().chain(b1.iter_mut()).for_each(|b| *b = 0xA5);
    drop((b0, b1));
    let g = contents(&r);
    ensure!(c, g == listed(&w), "wrong contents", "after the archive is gone: {}", diff(&g, &listed(&w)));
    let mut r2 = r.clone();
    drop(r);
    r2.insert(&keys.key(c), 1);
    let _ = contents(&r2);
    c.count("detached", 1);
    c.nontrivial = !m0.is_empty() && !m1.is_empty();
}

macro_rules! keyed {
    ($n:ident, $f:ident) => {
        fn $n(c: &mut Case) {
            match c.rng.below(7) {
                0 => $f::<u16>(c),
                1 => $f::<char>(c),
                2 => $f::<()>(c),
                _ => $f::<u8>(c),
            }
        }
    };
}
keyed!(equality, equal);
keyed!(lazy, laziness);
keyed!(detach, detached);
fn main() {
    vcmon::main(
        "P26",
        &[
            Scenario { name: "equality", weight: 4, run: equality },
            Scenario { name: "laziness", weight: 3, run: lazy },
            Scenario { name: "detached", weight: 2, run: detach },
        ],
    )
}

//! P28: iterators are sorted, complete and yield items that stay valid. Oracle: the list of contents in order;
//! items kept while the iteration goes on, and after the iterator and the collection are gone.
use smallvec::Array;
use sorted_iter::{multiway_union, SortedIterator, SortedPairIterator};
use std::borrow::Borrow;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Debug;
use vcmon::gen::Elem;
use vcmon::radix::*;
use vcmon::tok::{self, Tok};
use vcmon::*;
use vec_collections::btree_map::AbstractBTreeMap;
use vec_collections::{AbstractVecMap, AbstractVecSet, VecMap, VecSet};

/// One iteration, advanced a step at a time, with some of its items kept.
struct Walk<I: Iterator, X, F> {
    what: &'static str,
    it: I,
    at: usize,
    want: Vec<X>,
    kept: Vec<(usize, I::Item)>,
    see: F,
    over: bool,
}
impl<I: Iterator, X: PartialEq + Debug, F: Fn(&I::Item) -> X> Walk<I, X, F> {
    fn new(what: &'static str, it: I, want: Vec<X>, see: F) -> Self {
        Walk { what, it, at: 0, want, kept: vec![], see, over: false }
    }
    fn hint(&self, c: &mut Case) {
        let (lo, hi) = self.it.size_hint();
        let left = self.want.len() - self.at;
        ensure!(c, lo <= left && hi.is_none_or(|h| left <= h), "wrong size hint", "{}: {lo}..{hi:?} with {left} of {} left", self.what, self.want.len());
        c.count("hints", 1);
    }
    fn item(&mut self, c: &mut Case, x: Option<I::Item>, keep: bool) {
        match x {
            None => {
                ensure!(c, self.at >= self.want.len(), "items missing", "{} ended after {} of {}: {:?} missing", self.what, self.at, self.want.len(), self.want[self.at]);
                self.over = true;
            }
            Some(x) => {
                let s = (self.see)(&x);
                ensure!(c, self.at < self.want.len(), "too many items", "{}: {s:?} after all {}", self.what, self.want.len());
                ensure!(c, s == self.want[self.at], "wrong item", "{}: item {} is {s:?}, expected {:?}", self.what, self.at, self.want[self.at]);
                if keep {
                    self.kept.push((self.at, x));
                    c.count("kept", 1);
                }
                self.at += 1;
                c.count("items", 1);
            }
        }
    }
    fn step(&mut self, c: &mut Case) {
        let left = self.want.len() - self.at;
        let (what, at) = (self.what, self.at);
        let way = c.rng.below(10);
        c.log(|| format!("{what}: at {at}, {}", ["nth", "take", "next"][way.min(2)]));
        match way {
            0 => {
                // nth skips n
                let n = if c.rng.chance(1, 8) { c.rng.below(left + 3) } else { c.rng.below(4) };
                let x = self.it.nth(n);
                self.at += n.min(left);
                self.item(c, x, true);
                c.count("skipped", n.min(left) as u64);
            }
            1 => {
                let n = c.rng.below(5);
                let v: Vec<I::Item> = self.it.by_ref().take(n).collect();
                ensure_eq!(c, v.len(), n.min(left), "items missing", "{}: take({n})", self.what);
                for x in v {
                    self.item(c, Some(x), true)
                }
            }
            _ => {
                let keep = c.rng.bool();
                let x = self.it.next();
                self.item(c, x, keep);
            }
        }
        if c.rng.chance(1, 6) && !self.kept.is_empty() {
            let i = c.rng.below(self.kept.len());
            self.kept.swap_remove(i);
        }
        if c.rng.chance(1, 4) {
            self.check(c, "while the iteration goes on")
        }
        if c.rng.chance(1, 3) {
            self.hint(c)
        }
    }
    fn check(&self, c: &mut Case, when: &str) {
        for (i, x) in &self.kept {
            let s = (self.see)(x);
            ensure!(c, s == self.want[*i], "kept item changed", "{}: item {i} became {s:?}, was {:?}, {when}", self.what, self.want[*i]);
            c.count("kept_checked", 1);
        }
    }
    /// ends the iteration in one of several ways; what was kept
    fn finish(mut self, c: &mut Case) -> Kept<I::Item, X, F> {
        match c.rng.below(12) {
            6 => {
                // inner iteration
                let v = self.it.by_ref().fold(vec![], |mut v, x| {
                    v.push(x);
                    v
                });
                ensure_eq!(c, v.len(), self.want.len() - self.at, "items missing", "{}: fold", self.what);
                for x in v {
                    self.item(c, Some(x), true)
                }
            }
            7 => {
                let mut v = vec![];
                self.it.by_ref().for_each(|x| v.push(x));
                ensure_eq!(c, v.len(), self.want.len() - self.at, "items missing", "{}: for_each", self.what);
                for x in v {
                    self.item(c, Some(x), true)
                }
            }
            8 => {
                // stops in the middle and goes on
                let n = c.rng.below(self.want.len() - self.at + 2);
                let mut i = 0;
                let x = self.it.by_ref().find(|_| {
                    i += 1;
                    i > n
                });
                let left = self.want.len() - self.at;
                self.at += n.min(left);
                self.item(c, x, true);
                while !self.over {
                    let x = self.it.next();
                    self.item(c, x, false);
                }
            }
            9 => {
                // passes by value: skip, step_by
                let (s, k) = (c.rng.below(4), c.rng.range(1, 4));
                let at = self.at;
                let v: Vec<I::Item> = self.it.by_ref().skip(s).step_by(k).collect();
                let idx: Vec<usize> = (at..self.want.len()).skip(s).step_by(k).collect();
                ensure_eq!(c, v.len(), idx.len(), "items missing", "{}: skip({s}).step_by({k})", self.what);
                for (i, x) in idx.into_iter().zip(v) {
                    self.at = i;
                    self.item(c, Some(x), true);
                }
                self.at = self.want.len();
            }
            10 => {
                // whether all/any/position look at each item once and stop in time
                let n = c.rng.below(self.want.len() - self.at + 2);
                let mut i = 0;
                let p = self.it.by_ref().position(|_| {
                    i += 1;
                    i > n
                });
                let left = self.want.len() - self.at;
                ensure_eq!(c, p, (n < left).then_some(n), "items missing", "{}: position", self.what);
                self.at += (n + 1).min(left);
                let x = self.it.next();
                self.item(c, x, true);
            }
            11 => {
                let left = self.want.len() - self.at;
                let n = left + c.rng.below(3);
                let x = self.it.nth(n);
                ensure!(c, x.is_none(), "too many items", "{}: nth({n}) of {left} left", self.what);
                self.at = self.want.len();
            }
            0 | 1 => {
                while !self.over {
                    let keep = c.rng.bool();
                    let x = self.it.next();
                    self.item(c, x, keep);
                }
                self.hint(c);
                let x = self.it.next();
                ensure!(c, x.is_none(), "too many items", "{}: another item after the end", self.what);
                self.check(c, "at the end");
                c.count("complete", 1);
            }
            2 => {
                let n = if c.rng.bool() { self.it.by_ref().count() } else { self.it.by_ref().map(|_| 1).sum::<usize>() };
                ensure_eq!(c, n, self.want.len() - self.at, "items missing", "{}: count", self.what);
            }
            3 => {
                let x = self.it.by_ref().last();
                let g = x.as_ref().map(|x| (self.see)(x));
                ensure_eq!(c, g.as_ref(), if self.at < self.want.len() { self.want.last() } else { None }, "wrong item", "{}: last", self.what);
                if let Some(x) = x {
                    self.kept.push((self.want.len() - 1, x))
                }
            }
            4 => {
                let v: Vec<I::Item> = self.it.by_ref().collect();
                ensure_eq!(c, v.len(), self.want.len() - self.at, "items missing", "{}: collect", self.what);
                for x in v {
                    self.item(c, Some(x), true)
                }
            }
            _ => {}
        }
        c.count("iterations", 1);
        // the iterator goes away, the items stay
        let k = Kept { what: self.what, kept: self.kept, want: self.want, see: self.see };
        drop(self.it);
        k.check(c, "after the iterator is gone");
        k
    }
    fn run(mut self, c: &mut Case) -> Kept<I::Item, X, F> {
        self.hint(c);
        let n = c.rng.below(self.want.len() + 3);
        for _ in 0..n {
            if self.over {
                break;
            }
            self.step(c)
        }
        self.finish(c)
    }
}
struct Kept<T, X, F> {
    what: &'static str,
    kept: Vec<(usize, T)>,
    want: Vec<X>,
    see: F,
}
impl<T, X: PartialEq + Debug, F: Fn(&T) -> X> Kept<T, X, F> {
    fn check(&self, c: &mut Case, when: &str) {
        for (i, x) in &self.kept {
            let s = (self.see)(x);
            ensure!(c, s == self.want[*i], "kept item changed", "{}: item {i} became {s:?}, was {:?}, {when}", self.what, self.want[*i]);
            c.count("kept_checked", 1);
        }
    }
}

// ------------------------------------------------------------------------------------ sets and maps
fn ledger(c: &mut Case, live: i64, what: &str) {
    if let Some(e) = tok::error() {
        c.fail("element misused", format!("{e}, {what}"))
    }
    ensure_eq!(c, tok::live() as i64, live, "elements lost or leaked", "{what}");
}
fn tok_sets<A: Array<Item = Tok>>(c: &mut Case) {
    tok::reset();
    let n = c.size(150);
    let ks: BTreeSet<u32> = (0..n).map(|_| c.rng.below(n * 2 + 1) as u32).collect();
    let ks: Vec<u32> = ks.into_iter().collect();
    c.note(&(&ks, A::size()));
    c.log(|| format!("set of {ks:?}, inline {}", A::size()));
    c.nontrivial = ks.len() > 1;
    let s: VecSet<A> = ks.iter().map(|k| Tok::new(*k, 7)).collect();
    let want: Vec<(u32, u32)> = ks.iter().map(|k| (*k, 7)).collect();
    let mut a = Walk::new("VecSet iter", s.iter(), want.clone(), |t: &&Tok| t.kt());
    let mut b = Walk::new("VecSet trait iter", AbstractVecSet::iter(&s), want.clone(), |t: &&Tok| t.kt());
    for _ in 0..c.rng.below(20) {
        a.step(c);
        b.step(c);
    }
    let (a, b) = (a.finish(c), b.finish(c));
    a.check(c, "later");
    b.check(c, "later");
    drop((a, b));
    Walk::new("&VecSet into_iter", (&s).into_iter(), want.clone(), |t: &&Tok| t.kt()).run(c);
    ledger(c, ks.len() as i64, "after iterations by reference");
    let k = Walk::new("VecSet into_iter", s.into_iter(), want, |t: &Tok| t.kt()).run(c);
    ledger(c, k.kept.len() as i64, "after an owned iteration, counting the kept ones");
    k.check(c, "later");
    drop(k);
    ledger(c, 0, "at the end");
}
fn tok_maps<A: Array<Item = (Tok, Tok)>>(c: &mut Case) {
    tok::reset();
    let n = c.size(100);
    let ks: BTreeSet<u32> = (0..n).map(|_| c.rng.below(n * 2 + 1) as u32).collect();
    let ks: Vec<u32> = ks.into_iter().collect();
    c.note(&(&ks, A::size()));
    c.nontrivial = ks.len() > 1;
    let s: VecMap<A> = ks.iter().map(|k| (Tok::new(*k, 7), Tok::new(k * 3, 8))).collect();
    let want: Vec<((u32, u32), (u32, u32))> = ks.iter().map(|k| ((*k, 7), (k * 3, 8))).collect();
    let mut a = Walk::new("VecMap iter", s.iter(), want.clone(), |t: &&(Tok, Tok)| (t.0.kt(), t.1.kt()));
    let mut b = Walk::new("&VecMap into_iter", (&s).into_iter(), want.clone(), |t: &&(Tok, Tok)| (t.0.kt(), t.1.kt()));
    for _ in 0..c.rng.below(20) {
        a.step(c);
        b.step(c);
    }
    let (a, b) = (a.finish(c), b.finish(c));
    a.check(c, "later");
    b.check(c, "later");
    drop((a, b));
    ledger(c, 2 * ks.len() as i64, "after iterations by reference");
    let k = Walk::new("VecMap into_iter", s.into_iter(), want, |t: &(Tok, Tok)| (t.0.kt(), t.1.kt())).run(c);
    ledger(c, 2 * k.kept.len() as i64, "after an owned iteration, counting the kept ones");
    k.check(c, "later");
    drop(k);
    ledger(c, 0, "at the end");
}
fn sets(c: &mut Case) {
    let n = *c.rng.pick(&CAPS);
    with_cap!(n, Tok, tok_sets(c))
}
fn maps(c: &mut Case) {
    let n = *c.rng.pick(&CAPS);
    with_cap!(n, (Tok, Tok), tok_maps(c))
}

/// archived sets, maps and ordered maps
fn archived_collections(c: &mut Case) {
    start();
    let n = c.size(150);
    let ks: BTreeSet<u32> = (0..n).map(|_| c.rng.below(n * 2 + 1) as u32).collect();
    let m: BTreeMap<u32, char> = ks.iter().map(|k| (*k, char::from_u32(97 + k % 1000).unwrap())).collect();
    c.note(&m);
    c.nontrivial = ks.len() > 1;
    let s: VecSet<[u32; 4]> = ks.iter().copied().collect();
    let v: VecMap<[(u32, char); 2]> = m.clone().into_iter().collect();
    let (s, v) = (archived(&s), archived(&v));
    let want: Vec<u32> = ks.iter().copied().collect();
    let pairs: Vec<(u32, char)> = m.clone().into_iter().collect();
    Walk::new("archived VecSet iter", s.iter(), want, |t: &&u32| **t).run(c);
    Walk::new("archived VecMap iter", v.iter(), pairs.clone(), |t: &&(u32, char)| **t).run(c);
    Walk::new("BTreeMap iter", AbstractBTreeMap::iter(&m), pairs.clone(), |t: &(&u32, &char)| (*t.0, *t.1)).run(c);
    if !m.is_empty() || c.rng.bool() {
        let a = archived(&m);
        Walk::new("archived BTreeMap iter", AbstractBTreeMap::iter(a), pairs, |t: &(&u32, &char)| (*t.0, *t.1)).run(c);
    }
}

// ------------------------------------------------------------------------------------ sorted merges
fn merged<T: Elem, A: Array<Item = T>, B: Array<Item = T>>(c: &mut Case) {
    let (ka, kb) = gen::pair(c, 200);
    let a: BTreeSet<T> = ka.iter().map(|k| T::mk(*k)).collect();
    let b: BTreeSet<T> = kb.iter().map(|k| T::mk(*k)).collect();
    let (x, y): (VecSet<A>, VecSet<B>) = (a.iter().cloned().collect(), b.iter().cloned().collect());
    c.note(&(&ka, &kb));
    c.nontrivial = !a.is_empty() && !b.is_empty();
    macro_rules! same {
        ($what:expr, $got:expr, $want:expr) => {{
            let g: Vec<T> = $got.cloned().collect();
            let w: Vec<T> = $want.cloned().collect();
            ensure_eq!(c, g, w, "wrong sorted merge", "{}", $what);
            c.count("merges", 1);
        }};
    }
    same!("union", x.iter().union(y.iter()), a.union(&b));
    same!("intersection", x.iter().intersection((&y).into_iter()), a.intersection(&b));
    same!("difference", (&x).into_iter().difference(y.iter()), a.difference(&b));
    same!("symmetric_difference", x.iter().symmetric_difference(y.iter()), a.symmetric_difference(&b));
    same!("union with a std set", x.iter().union(b.iter()), a.union(&b));
    same!("multiway union", multiway_union(vec![x.iter(), x.iter(), x.iter()]), a.iter());
    ensure_eq!(c, SortedIterator::is_subset(x.iter(), y.iter()), a.is_subset(&b), "wrong sorted merge", "is_subset");
    ensure_eq!(c, SortedIterator::is_disjoint(x.iter(), y.iter()), a.is_disjoint(&b), "wrong sorted merge", "is_disjoint");
    ensure_eq!(c, SortedIterator::is_superset(x.iter(), y.iter()), a.is_superset(&b), "wrong sorted merge", "is_superset");
    // owned
    let skip = c.rng.below(3);
    let mut i = x.clone().into_iter();
    for _ in 0..skip {
        i.next();
    }
    let rest: BTreeSet<T> = a.iter().skip(skip).cloned().collect();
    let g: Vec<T> = i.union(y.clone().into_iter()).collect();
    let w: Vec<T> = rest.union(&b).cloned().collect();
    ensure_eq!(c, g, w, "wrong sorted merge", "of owned iterators");
    // merged iterators make sets again
    let z: VecSet<A> = x.clone().into_iter().symmetric_difference(y.clone().into_iter()).collect();
    ensure_eq!(c, z.iter().cloned().collect::<Vec<T>>(), a.symmetric_difference(&b).cloned().collect::<Vec<T>>(), "wrong sorted merge", "collected");
    // pairs
    let p: VecMap<[(T, u32); 2]> = a.iter().cloned().zip(100..).collect();
    let q: VecMap<[(T, u32); 4]> = b.iter().cloned().zip(500..).collect();
    let (mp, mq): (BTreeMap<T, u32>, BTreeMap<T, u32>) = (p.iter().cloned().collect(), q.iter().cloned().collect());
    let g: Vec<(T, (u32, u32))> = p.clone().into_iter().join(q.clone().into_iter()).collect();
    let w: Vec<(T, (u32, u32))> = mp.iter().filter_map(|(k, v)| mq.get(k).map(|w| (k.clone(), (*v, *w)))).collect();
    ensure_eq!(c, g, w, "wrong sorted join", "inner");
    let g: Vec<(T, (u32, Option<u32>))> = p.clone().into_iter().left_join(q.clone().into_iter()).collect();
    let w: Vec<(T, (u32, Option<u32>))> = mp.iter().map(|(k, v)| (k.clone(), (*v, mq.get(k).copied()))).collect();
    ensure_eq!(c, g, w, "wrong sorted join", "left");
    let g: Vec<(T, (Option<u32>, u32))> = p.clone().into_iter().right_join(q.clone().into_iter()).collect();
    let w: Vec<(T, (Option<u32>, u32))> = mq.iter().map(|(k, v)| (k.clone(), (mp.get(k).copied(), *v))).collect();
    ensure_eq!(c, g, w, "wrong sorted join", "right");
    let g: Vec<(T, (Option<u32>, Option<u32>))> = p.clone().into_iter().outer_join(q.clone().into_iter()).collect();
    let w: Vec<(T, (Option<u32>, Option<u32>))> = a.union(&b).map(|k| (k.clone(), (mp.get(k).copied(), mq.get(k).copied()))).collect();
    ensure_eq!(c, g, w, "wrong sorted join", "outer");
    let g: Vec<T> = p.clone().into_iter().keys().intersection(y.clone().into_iter()).collect();
    ensure_eq!(c, g, a.intersection(&b).cloned().collect::<Vec<T>>(), "wrong sorted merge", "keys of a map with a set");
    c.count("joins", 5);
}
fn merges(c: &mut Case) {
    match c.rng.below(6) {
        0 => merged::<String, [String; 2], [String; 4]>(c),
        1 => merged::<i64, [i64; 4], [i64; 1]>(c),
        2 => merged::<(u8, u32), [(u8, u32); 2], [(u8, u32); 2]>(c),
        3 => merged::<std::cmp::Reverse<u32>, [std::cmp::Reverse<u32>; 8], [std::cmp::Reverse<u32>; 0]>(c),
        _ => merged::<u32, [u32; 4], [u32; 8]>(c),
    }
}

// ------------------------------------------------------------------------------------ radix trees
type Pair<K> = (Vec<K>, u32);
fn see<K: Sym, V: Val>(x: &(IterKeyOf<K>, &V)) -> Pair<K> {
    (x.0.to_vec(), x.1.id())
}
/// the key type is not exported; whatever the iterator yields
type IterKeyOf<K> = vec_collections::radix_tree::IterKey<K>;

fn own<K: Sym, V: Val>(k: &impl AsRef<[K]>, v: &impl Borrow<V>) -> Pair<K> {
    (k.as_ref().to_vec(), v.borrow().id())
}

fn reads<K: Sym, V: Val, T: AbstractRadixTree<K, V>>(c: &mut Case, t: &T, m: &Model<K>, keys: &Keys<K>) {
    let all = normed::<K, V>(m);
    let p = keys.probe(c);
    let part = normed::<K, V>(&prefixed(m, &p));
    // several iterations at the same time
    let mut a = Walk::new("iter", t.iter(), all.clone(), see::<K, V>);
    let mut b = Walk::new("scan_prefix", t.scan_prefix(&p), part, see::<K, V>);
    let mut v = Walk::new("values", t.values(), all.iter().map(|x| x.1).collect(), |v: &&V| v.id());
    for _ in 0..c.rng.below(25) {
        match c.rng.below(3) {
            0 => a.step(c),
            1 => b.step(c),
            _ => v.step(c),
        }
    }
    let b = b.finish(c);
    let a = a.finish(c);
    let v = v.finish(c);
    // all ways to look at a key agree, and copies of keys are independent
    let keep: Vec<(usize, IterKeyOf<K>)> = a.kept.iter().map(|(i, (k, _))| (*i, k.clone())).collect();
    for (i, (k, _)) in &a.kept {
        let s: &[K] = Borrow::<[K]>::borrow(k);
        ensure!(c, s == k.as_ref() && s == &**k && s == &all[*i].0[..], "kept item changed", "views of a key differ");
    }
    b.check(c, "later");
    v.check(c, "later");
    a.check(c, "later");
    drop(a);
    for (i, k) in keep {
        ensure!(c, *k == all[i].0[..], "kept item changed", "copy of key {i}");
        c.count("kept_checked", 1);
    }
}

fn trees<K: Sym, V: Val, T: Flavour<K, V>>(c: &mut Case) {
    start();
    let n = tree_size(c).min(if c.small { 8 } else { 150 });
    let keys = Keys::<K>::new(c, n);
    let mut next = fresh() + 10_000;
    let m = keys.model(c, &mut next);
    c.note(&(K::NAME, T::NAME, &m));
    c.nontrivial = m.len() > 1;
    c.count(T::NAME, 1);
    c.log(|| format!("{} tree: {m:?}", T::NAME));
    let t: T = build(c, &m);
    if c.rng.chance(1, 3) {
        reads(c, t.arch(), &m, &keys);
    }
    if c.rng.chance(2, 3) {
        reads(c, &t, &m, &keys);
    }
    let want = normed::<K, V>(&m);
    // items of a snapshot, while the original is changed and dropped
    if c.rng.bool() {
        let s = t.clone();
        let mut o = t.clone();
        let mut w = Walk::new("iter of a snapshot", s.iter(), want.clone(), see::<K, V>);
        for _ in 0..c.rng.below(8) {
            w.step(c);
            let k = keys.key(c);
            match c.rng.below(3) {
                0 => o.insert(&k, V::mk(1)),
                1 => o = o.filter_prefix(&k),
                _ => o.difference_with(&T::single(&k, V::mk(1))),
            }
        }
        drop(o);
        w.finish(c).check(c, "the original is gone");
    }
    // owned iteration: items outlive the iterator (and with it the tree)
    let k = Walk::new("into_iter", t.into_iter(), want, |x| own::<K, V>(&x.0, &x.1)).run(c);
    // the freed memory is used again
    let noise: Vec<Box<[u8]>> = (0..20).map(|i| vec![0xEEu8; 8 * i + 8].into_boxed_slice()).collect();
    k.check(c, "after the iterator, and with it the tree, is gone");
    drop(noise);
}
/// results are the same when the tree is moved around
fn moved<K: Sym, V: Val, T: Flavour<K, V>>(c: &mut Case) {
    start();
    let n = tree_size(c).min(30);
    let keys = Keys::<K>::new(c, n);
    let mut next = fresh() + 10_000;
    let m = keys.model(c, &mut next);
    c.note(&(K::NAME, T::NAME, &m));
    c.nontrivial = m.len() > 1;
    let want = normed::<K, V>(&m);
    let t: T = build(c, &m);
    let it = Box::new(t.into_iter());
    let mut it = *it;
    let mut v = vec![];
    for _ in 0..c.rng.below(4) {
        v.extend(it.next())
    }
    let mut its = vec![it];
    its.reserve(10);
    let rest: Vec<_> = its.pop().unwrap().collect();
    v.extend(rest);
    let g: Vec<Pair<K>> = v.iter().map(|x| own::<K, V>(&x.0, &x.1)).collect();
    ensure!(c, g == want, "wrong item", "into_iter, moved: {}", diff(&g, &want));
    c.count("iterations", 1);
}
fn radix(c: &mut Case) {
    match c.rng.below(9) {
        0 => trees::<u8, Tok, RadixTree<u8, Tok>>(c),
        1 => trees::<u8, Tok, ArcRadixTree<u8, Tok>>(c),
        2 => trees::<u8, Tok, LazyRadixTree<'static, u8, Tok>>(c),
        3 => trees::<u16, u32, RadixTree<u16, u32>>(c),
        4 => trees::<char, u128, ArcRadixTree<char, u128>>(c),
        5 => trees::<(), u32, LazyRadixTree<'static, (), u32>>(c),
        6 => trees::<u8, u32, RadixTree<u8, u32>>(c),
        7 => trees::<u8, u32, ArcRadixTree<u8, u32>>(c),
        _ => trees::<u8, u32, LazyRadixTree<'static, u8, u32>>(c),
    }
}
fn moving(c: &mut Case) {
    match c.rng.below(3) {
        0 => moved::<u8, Tok, RadixTree<u8, Tok>>(c),
        1 => moved::<u8, Tok, ArcRadixTree<u8, Tok>>(c),
        _ => moved::<u16, Tok, LazyRadixTree<'static, u16, Tok>>(c),
    }
}
fn main() {
    vcmon::main(
        "P28",
        &[
            Scenario { name: "sets", weight: 2, run: sets },
            Scenario { name: "maps", weight: 2, run: maps },
            Scenario { name: "archived", weight: 1, run: archived_collections },
            Scenario { name: "merges", weight: 2, run: merges },
            Scenario { name: "radix", weight: 6, run: radix },
            Scenario { name: "moved", weight: 1, run: moving },
        ],
    )
}

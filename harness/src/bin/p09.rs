//! P09: every element is owned exactly once; memory stays valid. Oracle: a ledger of all instances, the
//! allocator's books, and (in the sanitizer and interpreter passes) the memory checkers.
use smallvec::Array;
use std::cell::Cell;
use std::cmp::Ordering;
use vcmon::own::*;
use vcmon::radix::{ArcRadixTree, LazyRadixTree, RadixTree};
use vcmon::tok::{self, Sy, Tok};
use vcmon::*;
use vec_collections::{AbstractVecMap, AbstractVecSet, VecMap, VecSet};

/// random history; after every operation exactly the elements held are alive
fn ledger<W: World>(c: &mut Case) {
    tok::reset();
    let mut w = W::make(c);
    let n = c.steps(25);
    for i in 0..n {
        let op = w.pick(c);
        c.log(|| format!("{op:?}"));
        w.exec(&op);
        let name = W::name(&op);
        c.count("operations", 1);
        if let Some(e) = tok::error() {
            c.fail("element misused", format!("{e}, after {op:?}"))
        }
        let s = w.sizes();
        c.note(&(name, s));
        if i % 4 == 0 || i + 1 == n {
            if let Some(h) = w.held() {
                let l = tok::live();
                c.count("balances", 1);
                ensure!(c, l >= h, "fewer elements alive than held", "{l} alive, {h} held, after {op:?}");
                ensure!(c, l <= h, "elements leaked", "{l} alive, {h} held, after {op:?}");
            }
        }
        c.maxc("max_held", (s.0 + s.1) as u64);
        c.nontrivial |= s.0 > 1 && i > 0;
    }
    if c.rng.bool() {
        let d = w.dup();
        drop(w);
        if let Some(e) = tok::error() {
            c.fail("element misused", e)
        }
        if let Some(h) = d.held() {
            ensure_eq!(c, tok::live(), h, "drop of the original affects the clone");
        }
        if let Err(e) = d.verify(&d.dup(), &d.pick(c)) {
            // comparing a world with its own duplicate reads everything
            c.fail("clone unreadable", e)
        }
        drop(d);
    } else {
        drop(w);
    }
    if let Some(e) = tok::error() {
        c.fail("element misused", format!("{e}, at the end"))
    }
    ensure_eq!(c, tok::live(), 0, "elements leaked", "all collections are gone");
    c.count("instances", tok::created() as u64);
}

fn sets(c: &mut Case) {
    match c.rng.below(7) {
        0 => ledger::<SetW<[Tok; 1], [Tok; 4]>>(c),
        1 => ledger::<SetW<[Tok; 0], [Tok; 2]>>(c),
        2 => ledger::<SetW<[Tok; 2], [Tok; 2]>>(c),
        3 => ledger::<SetW<[Tok; 4], [Tok; 0]>>(c),
        4 => ledger::<SetW<[Tok; 8], [Tok; 1]>>(c),
        5 => ledger::<SetW<[Tok; 16], [Tok; 16]>>(c),
        _ => ledger::<SetW<[Tok; 3], [Tok; 8]>>(c),
    }
}
fn maps(c: &mut Case) {
    match c.rng.below(6) {
        0 => ledger::<MapW<[P; 1], [P; 4]>>(c),
        1 => ledger::<MapW<[P; 0], [P; 2]>>(c),
        2 => ledger::<MapW<[P; 2], [P; 2]>>(c),
        3 => ledger::<MapW<[P; 4], [P; 0]>>(c),
        4 => ledger::<MapW<[P; 8], [P; 1]>>(c),
        _ => ledger::<MapW<[P; 16], [P; 16]>>(c),
    }
}
fn totals(c: &mut Case) {
    match c.rng.below(3) {
        0 => ledger::<TotalW<[Tok; 0]>>(c),
        1 => ledger::<TotalW<[Tok; 2]>>(c),
        _ => ledger::<TotalW<[Tok; 8]>>(c),
    }
}
fn ordered(c: &mut Case) {
    ledger::<OrdW>(c)
}
fn flat(c: &mut Case) {
    ledger::<TreeW<RadixTree<Sy, Tok>>>(c)
}
fn arc(c: &mut Case) {
    ledger::<TreeW<ArcRadixTree<Sy, Tok>>>(c)
}
fn lazy(c: &mut Case) {
    ledger::<TreeW<LazyRadixTree<'static, Sy, Tok>>>(c)
}

thread_local! { static ALIVE: Cell<i64> = const { Cell::new(0) }; }
fn alive() -> i64 {
    ALIVE.with(|a| a.get())
}
fn add(n: i64) {
    ALIVE.with(|a| a.set(a.get() + n))
}
/// element types with unusual layouts, counted
trait Odd: Ord + Clone + 'static {
    fn mk(k: u32) -> Self;
    fn k(&self) -> u32;
    /// address as it should be
    fn placed(&self) -> bool {
        (self as *const Self as usize) % std::mem::align_of::<Self>() == 0
    }
}
struct Zst;
impl Odd for Zst {
    fn mk(_: u32) -> Self {
        add(1);
        Zst
    }
    fn k(&self) -> u32 {
        0
    }
}
#[repr(align(64))]
struct Wide(u32, Box<u32>);
impl Odd for Wide {
    fn mk(k: u32) -> Self {
        add(1);
        Wide(k, Box::new(k))
    }
    fn k(&self) -> u32 {
        if *self.1 != self.0 {
            return u32::MAX;
        }
        self.0
    }
}
/// big element: moves are real work
struct Big(u32, [u64; 40], String);
impl Odd for Big {
    fn mk(k: u32) -> Self {
        add(1);
        Big(k, [k as u64; 40], format!("{k}"))
    }
    fn k(&self) -> u32 {
        if self.1.iter().any(|x| *x != self.0 as u64) || self.2 != format!("{}", self.0) {
            return u32::MAX;
        }
        self.0
    }
}
macro_rules! odd {
    ($t:ident) => {
        impl Drop for $t {
            fn drop(&mut self) {
                add(-1)
            }
        }
        impl Clone for $t {
            fn clone(&self) -> Self {
                Self::mk(self.k())
            }
        }
        impl PartialEq for $t {
            fn eq(&self, o: &Self) -> bool {
                self.k() == o.k()
            }
        }
        impl Eq for $t {}
        impl PartialOrd for $t {
            fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
                Some(self.cmp(o))
            }
        }
        impl Ord for $t {
            fn cmp(&self, o: &Self) -> Ordering {
                self.k().cmp(&o.k())
            }
        }
        impl std::fmt::Debug for $t {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                write!(f, "{}", self.k())
            }
        }
    };
}
odd!(Zst);
odd!(Wide);
odd!(Big);

fn odd_layouts<T: Odd, A: Array<Item = T>, B: Array<Item = T>, C: Array<Item = (T, T)>, D: Array<Item = (u32, T)>>(c: &mut Case) {
    let start = alive();
    let n = c.size(if c.small { 8 } else { 80 });
    let m = c.size(60);
    let (x, y) = (gen::sequence(c, n), gen::sequence(c, m));
    c.note(&(std::mem::size_of::<T>(), &x, &y));
    {
        let mut a: VecSet<A> = x.iter().map(|k| T::mk(*k)).collect();
        let mut b: VecSet<B> = y.iter().map(|k| T::mk(*k)).collect();
        let mut p: VecMap<C> = x.iter().map(|k| (T::mk(*k), T::mk(k + 1))).collect();
        let mut q: VecMap<D> = y.iter().map(|k| (*k, T::mk(*k))).collect();
        let mut s: std::collections::BTreeSet<u32> = x.iter().map(|k| T::mk(*k).k()).collect();
        let steps = c.steps(12);
        for _ in 0..steps {
            let k = c.rng.below(60) as u32;
            match c.rng.below(10) {
                0 => {
                    a.insert(T::mk(k));
                    s.insert(T::mk(k).k());
                }
                1 => {
                    a.remove(&T::mk(k));
                    s.remove(&T::mk(k).k());
                }
                2 => {
                    a |= &b;
                    s.extend(b.iter().map(|t| t.k()));
                }
                3 => {
                    let o = c.rng.below(4);
                    let bb = std::mem::replace(&mut b, VecSet::empty());
                    let t: Vec<u32> = bb.iter().map(|t| t.k()).collect();
                    match o {
                        0 => {
                            a |= bb;
                            s.extend(t)
                        }
                        1 => {
                            a &= bb;
                            s.retain(|k| t.contains(k))
                        }
                        2 => {
                            a -= bb;
                            s.retain(|k| !t.contains(k))
                        }
                        _ => {
                            a ^= bb;
                            for k in t {
                                if !s.remove(&k) {
                                    s.insert(k);
                                }
                            }
                        }
                    }
                }
                4 => {
                    p.insert(T::mk(k), T::mk(k));
                }
                5 => {
                    q.insert(k, T::mk(k));
                    q.retain(|(k, v)| k % 2 == 0 || v.k() % 2 == 0);
                }
                6 => {
                    let r: VecMap<C> = p.outer_join(&p.clone(), |x| match x {
                        vec_collections::OuterJoinArg::Both(_, v, _) => Some(v.clone()),
                        _ => None,
                    });
                    p = r;
                }
                7 => {
                    let r = p.clone();
                    p.combine_with(r, |a, _| a)
                }
                8 => {
                    a.shrink_to_fit();
                    let mut it = std::mem::replace(&mut a, VecSet::empty()).into_iter();
                    let first = it.next();
                    drop(it);
                    s = first.iter().map(|t| t.k()).collect();
                    a.extend(first);
                }
                _ => {
                    b = a.iter().cloned().collect();
                }
            }
            c.count("operations", 1);
            ensure!(c, a.iter().all(|t| t.placed()), "misplaced element");
            ensure!(c, a.iter().map(|t| t.k()).eq(s.iter().copied()), "wrong content", "{:?}, expected {s:?}", a.iter().map(|t| t.k()).collect::<Vec<_>>());
            ensure!(c, (&p).into_iter().all(|(k, v)| k.placed() && v.placed() && k.k() != u32::MAX && v.k() != u32::MAX), "damaged pair");
            ensure!(c, (&q).into_iter().all(|(_, v)| v.placed() && v.k() != u32::MAX), "damaged pair");
            let held = a.len() + b.len() + 2 * p.len() + q.len();
            ensure_eq!(c, alive() - start, held as i64, "alive against held");
            c.count("balances", 1);
        }
    }
    ensure_eq!(c, alive(), start, "elements leaked", "all collections are gone");
    c.nontrivial = n > 1 && m > 1;
}
fn zst(c: &mut Case) {
    odd_layouts::<Zst, [Zst; 2], [Zst; 0], [(Zst, Zst); 1], [(u32, Zst); 4]>(c)
}
fn wide(c: &mut Case) {
    odd_layouts::<Wide, [Wide; 2], [Wide; 4], [(Wide, Wide); 2], [(u32, Wide); 4]>(c)
}
fn big(c: &mut Case) {
    odd_layouts::<Big, [Big; 1], [Big; 4], [(Big, Big); 2], [(u32, Big); 0]>(c)
}

/// the allocator's books balance over a whole history (memory that is not an element)
fn books(c: &mut Case) {
    fn go(c: &mut Case) {
        match c.rng.below(4) {
            0 => ledger::<SetW<[Tok; 2], [Tok; 4]>>(c),
            1 => ledger::<MapW<[P; 2], [P; 4]>>(c),
            2 => ledger::<TreeW<ArcRadixTree<Sy, Tok>>>(c),
            _ => ledger::<TreeW<LazyRadixTree<'static, Sy, Tok>>>(c),
        }
        radix::start();
        tok::reset();
    }
    // twice the same: what the first run allocates for good (buffers of the harness) is there in the second
    let seed = c.rng.u64();
    let mut before = 0;
    for round in 0..2 {
        let mut d = Case::new(seed, false);
        go(&mut d);
        c.digest = d.digest.clone();
        c.nontrivial |= d.nontrivial;
        for (k, v) in &d.counters {
            if !k.starts_with("max_") {
                c.count(k, *v)
            }
        }
        drop(d);
        let now = alloc::snap().live;
        if round == 1 {
            // the counters of this case itself may have grown by a few entries in the first round only
            ensure!(c, now <= before, "memory leaked", "{} bytes after an identical history", now - before);
        }
        before = now;
    }
    c.count("books", 1);
}

fn main() {
    vcmon::main(
        "P09",
        &[
            Scenario { name: "sets", weight: 5, run: sets },
            Scenario { name: "maps", weight: 5, run: maps },
            Scenario { name: "totals", weight: 2, run: totals },
            Scenario { name: "ordered", weight: 1, run: ordered },
            Scenario { name: "flat", weight: 2, run: flat },
            Scenario { name: "arc", weight: 2, run: arc },
            Scenario { name: "lazy", weight: 2, run: lazy },
            Scenario { name: "zst", weight: 1, run: zst },
            Scenario { name: "wide", weight: 1, run: wide },
            Scenario { name: "big", weight: 1, run: big },
            Scenario { name: "books", weight: 2, run: books },
        ],
    )
}

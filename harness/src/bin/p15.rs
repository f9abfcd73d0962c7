//! P15: archives round trip and archived collections act like native ones.
//! Oracle: the original collection, and every operation's result on it.
use rkyv::{Archive, Deserialize, Infallible, Serialize};
use smallvec::Array;
use vcmon::arch::{self, Many, Ser};
use vcmon::gen::{self, Elem};
use vcmon::radix::*;
use vcmon::*;
use vec_collections::{AbstractVecMap, AbstractVecSet, OuterJoinArg, VecMap, VecSet};

trait AElem: Elem + Archive + Serialize<Ser>
where
    Self::Archived: Ord,
{
    /// index of the element, from the archived form
    fn same(&self, a: &Self::Archived) -> bool;
}
macro_rules! plain { ($($t:ty),*) => { $(impl AElem for $t { fn same(&self, a: &$t) -> bool { self == a } })* } }
plain!(u32, u8, i64, u128, (), (u8, u32));
impl AElem for String {
    fn same(&self, a: &rkyv::string::ArchivedString) -> bool {
        self.as_str() == a.as_str()
    }
}

fn set_case<T: AElem, A: Array<Item = T>, B: Array<Item = T>>(c: &mut Case)
where
    T::Archived: Ord + Deserialize<T, Infallible>,
{
    let (ka, kb) = gen::pair(c, 300);
    c.note(&(&ka, &kb));
    c.log(|| format!("sets {ka:?} {kb:?}"));
    let a: VecSet<A> = ka.iter().map(|k| T::mk(*k)).collect();
    let b: VecSet<B> = kb.iter().map(|k| T::mk(*k)).collect();
    let mut m = Many::default();
    if c.rng.bool() {
        let n = c.rng.below(9);
        m.junk(n)
    }
    let pa = m.add(&a);
    let pb = m.add(&b);
    let pa2 = m.add(&a);
    let bytes = m.done();
    let x = arch::at::<VecSet<A>>(&bytes, pa);
    let y = arch::at::<VecSet<B>>(&bytes, pb);
    let x2 = arch::at::<VecSet<A>>(&bytes, pa2);
    // contents
    let sl = AbstractVecSet::as_slice(x);
    ensure!(c, sl.len() == a.len() && a.iter().zip(sl).all(|(p, q)| p.same(q)), "archived elements differ", "{} of {}", sl.len(), a.len());
    ensure!(c, AbstractVecSet::iter(x).zip(a.iter()).all(|(q, p)| p.same(q)) && AbstractVecSet::iter(x).count() == a.len(), "archived iteration differs");
    ensure!(c, AbstractVecSet::is_empty(x) == a.is_empty(), "archived is_empty differs");
    // relations and operations of archived with archived
    ensure!(c, x.is_subset(y) == a.is_subset(&b), "archived is_subset differs");
    ensure!(c, x.is_superset(y) == a.is_superset(&b), "archived is_superset differs");
    ensure!(c, x.is_disjoint(y) == a.is_disjoint(&b), "archived is_disjoint differs");
    ensure!(c, x.is_subset(x2) && x2.is_superset(x), "archived set is not a subset of its twin");
    for k in ka.iter().chain(&kb).take(40) {
        let e = T::mk(*k);
        let at = arch::to_bytes(&VecSet::<[T; 1]>::single(e.clone()));
        let q = &AbstractVecSet::as_slice(arch::root::<VecSet<[T; 1]>>(&at))[0];
        ensure!(c, AbstractVecSet::contains(x, q) == AbstractVecSet::contains(&a, &e), "archived membership differs", "{e:?}");
    }
    // deserialisation, into any inline capacity
    let r: VecSet<A> = x.deserialize(&mut Infallible).unwrap();
    ensure!(c, r == a, "deserialised set differs", "{r:?}, original {a:?}");
    let r: VecSet<B> = x.deserialize(&mut Infallible).unwrap();
    ensure!(c, r.iter().eq(a.iter()), "deserialised set differs", "{r:?}, original {a:?}");
    c.count("round_trips", 2);
    c.count("reads", 9);
    c.nontrivial = a.len() > 1;
}
/// element types that are their own archived form: mixed operands
fn set_mixed<T: AElem + Archive<Archived = T>, A: Array<Item = T>, B: Array<Item = T>>(c: &mut Case) {
    let (ka, kb) = gen::pair(c, 300);
    c.note(&(&ka, &kb, 1));
    let a: VecSet<A> = ka.iter().map(|k| T::mk(*k)).collect();
    let b: VecSet<B> = kb.iter().map(|k| T::mk(*k)).collect();
    let (ba, bb) = (arch::to_bytes(&a), arch::to_bytes(&b));
    let (x, y) = (arch::root::<VecSet<A>>(&ba), arch::root::<VecSet<B>>(&bb));
    macro_rules! agree {
        ($op:ident) => {{
            let e: VecSet<A> = AbstractVecSet::$op(&a, &b);
            let p: VecSet<A> = AbstractVecSet::$op(x, &b);
            let q: VecSet<A> = AbstractVecSet::$op(&a, y);
            let r: VecSet<A> = AbstractVecSet::$op(x, y);
            ensure!(c, p == e && q == e && r == e, concat!("archived ", stringify!($op), " differs"), "{p:?} {q:?} {r:?}, native {e:?}");
            c.count("reads", 3);
        }};
    }
    agree!(union);
    agree!(intersection);
    agree!(difference);
    agree!(symmetric_difference);
    ensure!(c, a.is_subset(y) == a.is_subset(&b) && x.is_subset(&b) == a.is_subset(&b), "mixed is_subset differs");
    ensure!(c, a.is_superset(y) == a.is_superset(&b) && x.is_superset(&b) == a.is_superset(&b), "mixed is_superset differs");
    ensure!(c, a.is_disjoint(y) == a.is_disjoint(&b) && x.is_disjoint(&b) == a.is_disjoint(&b), "mixed is_disjoint differs");
    for k in ka.iter().chain(&kb).take(60) {
        let e = T::mk(*k);
        ensure!(c, AbstractVecSet::contains(x, &e) == AbstractVecSet::contains(&a, &e), "archived membership differs", "{e:?}");
        c.count("reads", 1);
    }
    // in place with an archived operand
    let mut w = a.clone();
    w.union_with(y);
    let e: VecSet<A> = AbstractVecSet::union(&a, &b);
    ensure!(c, w == e, "in place union with archived operand differs");
    let mut w = a.clone();
    w.difference_with(y);
    let e: VecSet<A> = AbstractVecSet::difference(&a, &b);
    ensure!(c, w == e, "in place difference with archived operand differs");
    c.nontrivial = a.len() > 1 && !b.is_empty();
}

fn map_case<K: AElem + Archive<Archived = K> + Deserialize<K, Infallible>, A: Array<Item = (K, u32)>, B: Array<Item = (K, u32)>>(c: &mut Case) {
    let (ka, kb) = gen::pair(c, 200);
    c.note(&(&ka, &kb, 2));
    c.log(|| format!("maps {ka:?} {kb:?}"));
    let a: VecMap<A> = ka.iter().enumerate().map(|(i, k)| (K::mk(*k), i as u32)).collect();
    let b: VecMap<B> = kb.iter().enumerate().map(|(i, k)| (K::mk(*k), 1000 + i as u32)).collect();
    let mut m = Many::default();
    let (pa, pb) = (m.add(&a), m.add(&b));
    let bytes = m.done();
    let (x, y) = (arch::at::<VecMap<A>>(&bytes, pa), arch::at::<VecMap<B>>(&bytes, pb));
    ensure!(c, AbstractVecMap::as_slice(x) == AbstractVecMap::as_slice(&a), "archived pairs differ");
    ensure!(c, AbstractVecMap::iter(x).eq(AbstractVecMap::iter(&a)), "archived iteration differs");
    ensure!(c, AbstractVecMap::is_empty(x) == a.is_empty(), "archived is_empty differs");
    for k in ka.iter().chain(&kb).take(60) {
        let k = K::mk(*k);
        ensure!(c, AbstractVecMap::get(x, &k) == AbstractVecMap::get(&a, &k), "archived lookup differs", "{k:?}");
        c.count("reads", 1);
    }
    type R<K> = VecMap<[(K, (Option<u32>, Option<u32>)); 2]>;
    let keep = 1 + c.rng.below(4) as u32;
    macro_rules! agree {
        ($op:ident, $f:expr) => {{
            let e: R<K> = AbstractVecMap::$op(&a, &b, $f);
            let p: R<K> = AbstractVecMap::$op(x, &b, $f);
            let q: R<K> = AbstractVecMap::$op(&a, y, $f);
            let r: R<K> = AbstractVecMap::$op(x, y, $f);
            ensure!(c, p == e && q == e && r == e, concat!("archived ", stringify!($op), " differs"), "{p:?} {q:?} {r:?}, native {e:?}");
            c.count("reads", 3);
        }};
    }
    let drop = |v: u32| keep > 1 && v % keep == 0;
    agree!(outer_join, |j: OuterJoinArg<&K, &u32, &u32>| match j {
        OuterJoinArg::Left(_, v) => Some((Some(*v), None)).filter(|_| !drop(*v)),
        OuterJoinArg::Right(_, w) => Some((None, Some(*w))),
        OuterJoinArg::Both(_, v, w) => Some((Some(*v), Some(*w))).filter(|_| !drop(v + w)),
    });
    agree!(left_join, |_: &K, v: &u32, w: Option<&u32>| Some((Some(*v), w.copied())).filter(|_| !drop(*v)));
    agree!(right_join, |_: &K, v: Option<&u32>, w: &u32| Some((v.copied(), Some(*w))).filter(|_| !drop(*w)));
    agree!(inner_join, |_: &K, v: &u32, w: &u32| Some((Some(*v), Some(*w))).filter(|_| !drop(v + w)));
    let r: VecMap<A> = x.deserialize(&mut Infallible).unwrap();
    ensure!(c, r == a, "deserialised map differs", "{r:?}, original {a:?}");
    let r: VecMap<B> = x.deserialize(&mut Infallible).unwrap();
    ensure!(c, AbstractVecMap::as_slice(&r) == AbstractVecMap::as_slice(&a), "deserialised map differs");
    c.count("round_trips", 2);
    c.nontrivial = !ka.is_empty() && !kb.is_empty();
}
/// keys and values with own archived forms; collections within collections
fn map_strings(c: &mut Case) {
    let n = c.size(120);
    let u = gen::universe(c, n);
    let ks = gen::keys(c, n, u);
    c.note(&(&ks, 3));
    let a: VecMap<[(String, Vec<u8>); 2]> = ks.iter().map(|k| (String::mk(*k), vec![*k as u8; (k % 5) as usize])).collect();
    let by = arch::to_bytes(&a);
    let x = arch::root::<VecMap<[(String, Vec<u8>); 2]>>(&by);
    for (k, v) in AbstractVecMap::iter(&a) {
        let g = AbstractVecMap::get(x, k.as_str());
        ensure!(c, g.map(|g| g.as_slice()) == Some(v.as_slice()), "archived lookup differs", "{k}");
        c.count("reads", 1);
    }
    for p in ["", "zzz", "5x", "1"] {
        ensure!(c, AbstractVecMap::get(x, p).is_some() == AbstractVecMap::get(&a, p).is_some(), "archived lookup differs", "{p}");
    }
    let r: VecMap<[(String, Vec<u8>); 2]> = x.deserialize(&mut Infallible).unwrap();
    ensure!(c, r == a, "deserialised map differs", "{r:?}");
    let n: VecMap<[(u32, VecSet<[u32; 2]>); 1]> = ks.iter().map(|k| (*k, ks.iter().filter(|j| **j % 7 < *k % 7).copied().collect())).collect();
    let by = arch::to_bytes(&n);
    let x = arch::root::<VecMap<[(u32, VecSet<[u32; 2]>); 1]>>(&by);
    for (k, v) in AbstractVecMap::iter(&n).take(20) {
        ensure!(c, AbstractVecMap::get(x, k).map(|s| AbstractVecSet::as_slice(s)) == Some(v.as_ref()), "nested archived set differs", "{k}");
    }
    let r: VecMap<[(u32, VecSet<[u32; 2]>); 1]> = x.deserialize(&mut Infallible).unwrap();
    ensure!(c, r == n, "deserialised nested map differs", "{r:?}");
    c.count("round_trips", 2);
    c.nontrivial = ks.len() > 1;
}

fn tree<K: Sym, V: Val, T: Flavour<K, V>>(c: &mut Case)
where
    T::Arch: Deserialize<T, De>,
{
    start();
    let n = tree_size(c);
    let keys = Keys::<K>::new(c, n);
    let mut next = 10;
    let m = keys.model(c, &mut next);
    let o = keys.model(c, &mut next);
    c.note(&(&m, T::NAME));
    c.log(|| format!("{} {}: {:?}", T::NAME, K::NAME, listed(&m)));
    let t: T = build(c, &m);
    let u: T = build(c, &o);
    let x = t.arch();
    ensure!(c, shape(x) == shape(&t), "archived tree has other nodes", "{:?}, original {:?}", shape(x), shape(&t));
    check_reads(c, x, &m, &keys, "archiving");
    let r: T = x.deserialize(&mut De::new()).unwrap();
    ensure!(c, shape(&r) == shape(&t), "deserialised tree differs", "{:?}, original {:?}", shape(&r), shape(&t));
    let r = T::reopen(x);
    ensure!(c, shape(&r) == shape(&t), "reopened tree differs", "{:?}, original {:?}", shape(&r), shape(&t));
    c.count("round_trips", 2);
    agree(c, &t, x, &u, u.arch());
    // twice over
    let z = r.arch();
    ensure!(c, shape(z) == shape(&t), "tree archived twice differs", "{:?}, original {:?}", shape(z), shape(&t));
    c.nontrivial = m.len() > 1;
    c.count(T::NAME, 1);
}
/// operations with native and archived operands on both sides
fn agree<K: Sym, V: Val, T: Flavour<K, V>>(c: &mut Case, t: &T, x: &T::Arch, u: &T, y: &T::Arch) {
    let k2 = c.rng.bool();
    let f = move |a: &V, b: &V| if (a.id() + b.id()) % 3 == 0 { None } else if k2 { Some(a.clone()) } else { Some(b.clone()) };
    let g = move |a: &V, b: Option<&V>| match b {
        Some(b) => f(a, b),
        None if a.id() % 5 == 0 => None,
        None => Some(a.clone()),
    };
    macro_rules! same {
        ($what:literal, $nat:expr, $($alt:expr),+) => {{
            let e = shape(&$nat);
            $( let r = shape(&$alt); ensure!(c, r == e, concat!("archived ", $what, " differs"), "{r:?}, native {e:?}"); c.count("reads", 1); )+
        }};
    }
    same!("outer_combine", t.outer_combine(u, f), x.outer_combine(u, f), t.outer_combine(y, f), x.outer_combine(y, f));
    same!("inner_combine", t.inner_combine(u, f), x.inner_combine(u, f), t.inner_combine(y, f), x.inner_combine(y, f));
    same!("left_combine", t.left_combine(u, g), x.left_combine(u, g), t.left_combine(y, g), x.left_combine(y, g));
    same!("union", t.union(u), t.union(y));
    same!("intersection", t.intersection(u), t.intersection(y));
    same!("difference", t.difference(u), t.difference(y));
    ensure!(c, [x.is_subset(u), t.is_subset(y), x.is_subset(y)] == [t.is_subset(u); 3], "archived is_subset differs");
    ensure!(c, [x.is_superset(u), t.is_superset(y), x.is_superset(y)] == [t.is_superset(u); 3], "archived is_superset differs");
    ensure!(c, [x.intersects(u), t.intersects(y), x.intersects(y)] == [t.intersects(u); 3], "archived intersects differs");
    ensure!(c, [x.is_disjoint(u), t.is_disjoint(y), x.is_disjoint(y)] == [t.is_disjoint(u); 3], "archived is_disjoint differs");
    c.count("reads", 12);
}
/// lazy trees have no deserialisation of their own: they are opened
fn tree_lazy<K: Sym, V: Val>(c: &mut Case) {
    start();
    let n = tree_size(c);
    let keys = Keys::<K>::new(c, n);
    let mut next = 10;
    let m = keys.model(c, &mut next);
    let o = keys.model(c, &mut next);
    c.note(&(&m, "lazy"));
    let t: LazyRadixTree<'static, K, V> = build(c, &m);
    let u: LazyRadixTree<'static, K, V> = build(c, &o);
    let x = t.arch();
    ensure!(c, shape(x) == shape(&t), "archived tree has other nodes", "{:?}, original {:?}", shape(x), shape(&t));
    check_reads(c, x, &m, &keys, "archiving");
    let r = LazyRadixTree::reopen(x);
    check_reads(c, &r, &m, &keys, "opening");
    // partly loaded, then archived again
    let r = LazyRadixTree::reopen(x);
    let k = keys.probe(c);
    let _ = r.get(&k);
    let z = r.arch();
    ensure!(c, shape(z) == shape(&t), "tree archived twice differs", "{:?}, original {:?}", shape(z), shape(&t));
    agree(c, &t, x, &u, u.arch());
    c.count("round_trips", 2);
    c.nontrivial = m.len() > 1;
    c.count("lazy", 1);
}
/// several collections of different types in one archive, at arbitrary positions, sharing parts
fn bundle(c: &mut Case) {
    start();
    let n = tree_size(c).min(40);
    let keys = Keys::<u8>::new(c, n);
    let mut next = 10;
    let m1 = keys.model(c, &mut next);
    let m2 = keys.model(c, &mut next);
    c.note(&(&m1, &m2));
    let a: ArcRadixTree<u8, u32> = build(c, &m1);
    let mut a2 = a.clone();
    let mut ma2 = m1.clone();
    for _ in 0..c.rng.below(4) {
        let (k, v) = (keys.key(c), 7000 + c.rng.below(100) as u32);
        a2.insert(&k, v);
        ma2.insert(k, v);
    }
    let b: ArcRadixTree<u8, ()> = build(c, &m2);
    let d: ArcRadixTree<u8, u128> = build(c, &m2);
    let k16 = Keys::<u16>::new(c, n);
    let m3 = k16.model(c, &mut next);
    let e: ArcRadixTree<u16, u8> = build(c, &m3);
    let f: RadixTree<u8, u32> = build_flat(c, &m1);
    let s: VecSet<[u128; 2]> = m1.values().map(|x| *x as u128).collect();
    let mut order: Vec<usize> = (0..7).collect();
    c.rng.shuffle(&mut order);
    let mut many = Many::default();
    let mut pos = [0; 7];
    for i in order {
        if c.rng.chance(1, 4) {
            let n = 1 + c.rng.below(5);
            many.junk(n)
        }
        pos[i] = match i {
            0 => many.add(&a),
            1 => many.add(&a2),
            2 => many.add(&b),
            3 => many.add(&d),
            4 => many.add(&e),
            5 => many.add(&f),
            _ => many.add(&s),
        };
    }
    let by = hold(many.done());
    let mut de = De::new();
    macro_rules! chk {
        ($i:expr, $t:ty, $m:expr) => {{
            let x = arch::at::<$t>(by, pos[$i]);
            ensure!(c, (x as *const _ as usize) % std::mem::align_of_val(x) == 0, "archived collection misaligned");
            check_contents(c, x, $m, "archived bundle member differs", stringify!($t));
            let r: $t = x.deserialize(&mut de).unwrap();
            check_contents(c, &r, $m, "deserialised bundle member differs", stringify!($t));
            for ch in x.children() {
                ensure!(c, (ch.children().as_ptr() as usize) % std::mem::align_of_val(ch) == 0, "archived children misaligned", stringify!($t));
            }
            c.count("round_trips", 1);
        }};
    }
    chk!(0, ArcRadixTree<u8, u32>, &m1);
    chk!(1, ArcRadixTree<u8, u32>, &ma2);
    chk!(2, ArcRadixTree<u8, ()>, &m2);
    chk!(3, ArcRadixTree<u8, u128>, &m2);
    chk!(4, ArcRadixTree<u16, u8>, &m3);
    chk!(5, RadixTree<u8, u32>, &m1);
    let x = arch::at::<VecSet<[u128; 2]>>(by, pos[6]);
    ensure!(c, AbstractVecSet::as_slice(x) == s.as_ref(), "archived bundle member differs", "set");
    c.nontrivial = m1.len() > 1 && !m2.is_empty();
}
/// values with an archived form of their own
fn tree_strings(c: &mut Case) {
    start();
    let n = tree_size(c);
    let keys = Keys::<u8>::new(c, n);
    let mut next = 10;
    let m = keys.model(c, &mut next);
    c.note(&(&m, "strings"));
    let t: RadixTree<u8, String> = m.iter().map(|(k, v)| (k.clone(), v.to_string())).collect();
    let by = arch::to_bytes(&t);
    let r: RadixTree<u8, String> = arch::root::<RadixTree<u8, String>>(&by).deserialize(&mut Infallible).unwrap();
    ensure!(c, r == t, "deserialised tree differs", "{r:?}, original {t:?}");
    let a: ArcRadixTree<u8, String> = t.clone().into();
    let by = arch::to_bytes(&a);
    let r: ArcRadixTree<u8, String> = arch::root::<ArcRadixTree<u8, String>>(&by).deserialize(&mut De::new()).unwrap();
    let l = |i: &ArcRadixTree<u8, String>| i.iter().map(|(k, v)| (k.to_vec(), v.clone())).collect::<Vec<_>>();
    ensure!(c, l(&r) == l(&a), "deserialised tree differs", "{:?}, original {:?}", l(&r), l(&a));
    c.count("round_trips", 2);
    c.nontrivial = m.len() > 1;
}

fn sets(c: &mut Case) {
    match c.rng.below(7) {
        0 => set_case::<String, [String; 2], [String; 4]>(c),
        1 => set_case::<u128, [u128; 1], [u128; 2]>(c),
        2 => set_case::<(), [(); 2], [(); 1]>(c),
        3 => set_mixed::<(u8, u32), [(u8, u32); 4], [(u8, u32); 1]>(c),
        4 => set_mixed::<u8, [u8; 16], [u8; 2]>(c),
        5 => set_mixed::<i64, [i64; 1], [i64; 8]>(c),
        _ => {
            let (n, m) = (c.cap(), c.cap());
            with_caps!(n, m, u32, u32, set32(c))
        }
    }
}
fn set32<A: Array<Item = u32>, B: Array<Item = u32>>(c: &mut Case) {
    if c.rng.bool() {
        set_case::<u32, A, B>(c)
    } else {
        set_mixed::<u32, A, B>(c)
    }
}
fn maps(c: &mut Case) {
    match c.rng.below(5) {
        0 => map_strings(c),
        1 => map_case::<u128, [(u128, u32); 1], [(u128, u32); 4]>(c),
        2 => map_case::<u8, [(u8, u32); 4], [(u8, u32); 1]>(c),
        _ => map_case::<u32, [(u32, u32); 2], [(u32, u32); 8]>(c),
    }
}
fn trees(c: &mut Case) {
    match c.rng.below(10) {
        0 => tree_lazy::<u8, u32>(c),
        1 => tree_lazy::<u16, Cv>(c),
        2 | 3 => tree::<u8, u32, RadixTree<u8, u32>>(c),
        4 => tree::<u16, u128, RadixTree<u16, u128>>(c),
        5 | 6 => tree::<u8, u32, ArcRadixTree<u8, u32>>(c),
        7 => tree::<u16, u128, ArcRadixTree<u16, u128>>(c),
        8 => tree::<u128, (), ArcRadixTree<u128, ()>>(c),
        _ => tree_strings(c),
    }
}
fn main() {
    vcmon::main(
        "P15",
        &[
            Scenario { name: "sets", weight: 3, run: sets },
            Scenario { name: "maps", weight: 2, run: maps },
            Scenario { name: "trees", weight: 3, run: trees },
            Scenario { name: "bundle", weight: 1, run: bundle },
        ],
    )
}

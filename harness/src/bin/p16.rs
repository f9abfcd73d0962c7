//! P16: archive validation accepts what was written and rejects bad order.
//! Oracle: order and labels of what the archive holds, known from how it was made or read off it.
use rkyv::{check_archived_root, check_archived_value};
use smallvec::Array;
use vcmon::arch::{self, Many};
use vcmon::gen;
use vcmon::radix::*;
use vcmon::*;
use vec_collections::{AbstractVecMap, AbstractVecSet, VecMap, VecSet};

// ---- sets and maps: any sequence of elements is laid out as a Vec is

fn disturb<T: Clone>(c: &mut Case, v: &mut Vec<T>) {
    match c.rng.below(6) {
        0 => {}
        1 if v.len() > 1 => {
            // adjacent swap
            let i = c.rng.below(v.len() - 1);
            v.swap(i, i + 1)
        }
        2 if !v.is_empty() => {
            // duplicate next to itself
            let i = c.rng.below(v.len());
            let x = v[i].clone();
            v.insert(i, x)
        }
        3 if v.len() > 1 => {
            let (i, j) = (c.rng.below(v.len()), c.rng.below(v.len()));
            v.swap(i, j)
        }
        4 if v.len() > 1 => {
            // last pair
            let n = v.len();
            v.swap(n - 1, n - 2)
        }
        5 if v.len() > 1 => v.swap(0, 1),
        _ => {}
    }
}
trait VElem: gen::Elem + rkyv::Archive + rkyv::Serialize<arch::Ser>
where
    Self::Archived: Ord + rkyv::Archive + for<'a> bytecheck::CheckBytes<rkyv::validation::validators::DefaultValidator<'a>>,
{
}
impl VElem for u32 {}
impl VElem for u8 {}
impl VElem for u128 {}
impl VElem for () {}
impl VElem for char {}
impl VElem for bool {}

fn set_of<T: VElem + rkyv::Archive<Archived = T> + for<'a> bytecheck::CheckBytes<rkyv::validation::validators::DefaultValidator<'a>>, A: Array<Item = T> + 'static>(c: &mut Case) {
    let n = c.size(300);
    let u = gen::universe(c, n);
    let mut v: Vec<T> = gen::keys(c, n, u).into_iter().map(T::mk).collect();
    v.sort();
    v.dedup();
    disturb(c, &mut v);
    let good = v.windows(2).all(|w| w[0] < w[1]);
    c.note(&(&v, good));
    c.log(|| format!("set of {v:?}"));
    let b = arch::to_bytes(&v);
    match check_archived_root::<VecSet<A>>(&b) {
        Ok(x) => {
            ensure!(c, good, "disordered set accepted", "{v:?}");
            ensure!(c, AbstractVecSet::as_slice(x) == &v[..], "accepted set has other elements");
            for e in v.iter().take(50) {
                ensure!(c, AbstractVecSet::contains(x, e), "accepted set lacks an element it lists", "{e:?}");
            }
            c.count("accepted", 1);
        }
        Err(e) => {
            ensure!(c, !good, "valid set rejected", "{e} {v:?}");
            c.count("rejected", 1);
        }
    }
    if good {
        let s: VecSet<A> = v.iter().cloned().collect();
        let b = arch::to_bytes(&s);
        ensure!(c, check_archived_root::<VecSet<A>>(&b).is_ok(), "written set rejected", "{v:?}");
        c.count("accepted", 1);
    }
    c.nontrivial = v.len() > 1;
}
fn map_of<K: VElem + rkyv::Archive<Archived = K> + for<'a> bytecheck::CheckBytes<rkyv::validation::validators::DefaultValidator<'a>>, A: Array<Item = (K, u16)> + 'static>(c: &mut Case)
where
    (K, u16): rkyv::Archive<Archived = (K, u16)>,
{
    let n = c.size(300);
    let u = gen::universe(c, n);
    let mut v: Vec<K> = gen::keys(c, n, u).into_iter().map(K::mk).collect();
    v.sort();
    v.dedup();
    disturb(c, &mut v);
    let good = v.windows(2).all(|w| w[0] < w[1]);
    let m: Vec<(K, u16)> = v.iter().cloned().enumerate().map(|(i, k)| (k, if c.rng.bool() { i as u16 } else { 50000u16.wrapping_sub(i as u16) })).collect();
    c.note(&(&m, good));
    c.log(|| format!("map of {m:?}"));
    let b = arch::to_bytes(&m);
    match check_archived_root::<VecMap<A>>(&b) {
        Ok(x) => {
            ensure!(c, good, "disordered map accepted", "{m:?}");
            for e in m.iter().take(50) {
                ensure!(c, AbstractVecMap::get(x, &e.0) == Some(&e.1), "accepted map lacks a pair it lists", "{e:?}");
            }
            c.count("accepted", 1);
        }
        Err(e) => {
            ensure!(c, !good, "valid map rejected", "{e} {m:?}");
            c.count("rejected", 1);
        }
    }
    c.nontrivial = v.len() > 1;
}
// ---- trees: patched in place

/// addresses of all nodes, depth first, of a well formed archived tree
fn nodes<K: Sym, V: Val, T: AbstractRadixTree<K, V>>(t: &T) -> Vec<&T> {
    let mut r = vec![t];
    let mut i = 0;
    while i < r.len() {
        let x = r[i];
        r.extend(x.children().iter());
        i += 1;
    }
    r
}
/// bounded because a patched tree may contain itself
fn cyclic<K: Sym, V: Val, T: AbstractRadixTree<K, V>>(t: &T, depth: usize) -> bool {
    depth == 0 || t.children().iter().any(|x| cyclic(x, depth - 1))
}
/// of the archived form of a tree with shared structure: where a node points to its list of children
#[repr(C)]
struct Layout<K: Sym, V: Val> {
    prefix: rkyv::Archived<Vec<K>>,
    value: rkyv::Archived<Option<V>>,
    children: i32,
}
/// lets a node of a written shared tree have the children of another one
fn redirected<K: Sym, V: Val>(c: &mut Case) {
    start();
    let n = tree_size(c).clamp(2, 60);
    let keys = Keys::<K>::new(c, n);
    let mut next = 10;
    let m = keys.model(c, &mut next);
    let t: ArcRadixTree<K, V> = build_flat(c, &m).into();
    let mut by = arch::to_bytes(&t);
    let base = by.as_ptr() as usize;
    let (from, to, count) = {
        let all = nodes(arch::root::<ArcRadixTree<K, V>>(&by));
        let at = |x| x as *const _ as usize - base + std::mem::offset_of!(Layout<K, V>, children);
        let (a, b) = (at(*c.rng.pick(&all)), at(*c.rng.pick(&all)));
        (a, (b as isize + i32::from_le_bytes(by[b..b + 4].try_into().unwrap()) as isize) - a as isize, all.len())
    };
    c.note(&(&m, from, to));
    c.log(|| format!("{} {}: node with its pointer at {from} gets the children at offset {to}: {:?}", K::NAME, std::any::type_name::<V>(), listed(&m)));
    by[from..from + 4].copy_from_slice(&(to as i32).to_le_bytes());
    let root = arch::root::<ArcRadixTree<K, V>>(&by);
    let (cyc, good) = if cyclic(root, count + 1) { (true, false) } else { (false, well_formed(root)) };
    c.count("redirected", 1);
    c.count("cycles", cyc as u64);
    match check_archived_root::<ArcRadixTree<K, V>>(&by) {
        Ok(x) => {
            ensure!(c, !cyc, "tree that contains itself accepted", "from {from} to {to}: {:?}", listed(&m));
            ensure!(c, good, "malformed tree accepted", "from {from} to {to}: {:?}", shape(root));
            consistent(c, x);
            c.count("accepted", 1);
        }
        Err(_) => c.count("rejected", 1),
    }
    c.nontrivial = m.len() > 1;
}
fn well_formed<K: Sym, V: Val, T: AbstractRadixTree<K, V>>(t: &T) -> bool {
    t.children().iter().all(|x| !x.prefix().is_empty()) && t.children().windows(2).all(|w| w[0].prefix()[0] < w[1].prefix()[0]) && t.children().iter().all(well_formed)
}
/// whatever is accepted iterates in strictly ascending order and answers lookups accordingly
fn consistent<K: Sym, V: Val, T: AbstractRadixTree<K, V>>(c: &mut Case, t: &T) {
    let mut last: Option<Vec<K>> = None;
    let mut n = 0;
    for (k, v) in t.iter().take(3000) {
        if let Some(l) = &last {
            ensure!(c, l.as_slice() < k.as_ref(), "accepted tree iterates out of order", "{l:?} before {:?}", k.as_ref());
        }
        if n < 200 {
            let g = t.get(&k).map(|x| x.id());
            ensure!(c, g == Some(v.id()), "accepted tree does not find a key it lists", "{:?}: {g:?}, expected {}", k.as_ref(), v.id());
            ensure!(c, t.contains_key(&k), "accepted tree does not contain a key it lists", "{:?}", k.as_ref());
            let mut q = k.to_vec();
            q.push(K::mk(3));
            let listed = t.iter().take(3000).any(|(x, _)| x.as_ref() == &q[..]);
            if n < 8 {
                ensure!(c, t.contains_key(&q) == listed, "accepted tree contains a key it does not list", "{q:?}");
            }
        }
        last = Some(k.to_vec());
        n += 1;
    }
    c.count("pairs_consistent", n);
}

macro_rules! tree_patch {
    ($name:ident, $tree:ident) => {
        fn $name<K: Sym, V: Val>(c: &mut Case) {
            start();
            let n = tree_size(c).max(2);
            let keys = Keys::<K>::new(c, n);
            let mut next = 10;
            let m = keys.model(c, &mut next);
            let t: $tree<K, V> = build_flat(c, &m).into();
            let mut by = arch::to_bytes(&t);
            ensure!(c, check_archived_root::<$tree<K, V>>(&by).is_ok(), "written tree rejected", "{:?}: {:?}", listed(&m), check_archived_root::<$tree<K, V>>(&by).err());
            c.count("accepted", 1);
            let base = by.as_ptr() as usize;
            let (at, what): (Vec<(usize, Vec<u8>)>, String) = {
                let root = arch::root::<$tree<K, V>>(&by);
                let all = nodes(root);
                let parents: Vec<_> = all.iter().filter(|x| x.children().len() > 1).collect();
                let inner: Vec<_> = all.iter().filter(|x| x.prefix().as_ptr() as usize != 0 && !x.prefix().is_empty()).collect();
                let w = std::mem::size_of::<K>();
                let off = |p: &[K], i: usize| p.as_ptr() as usize - base + i * w;
                let raw = |k: &K| unsafe { std::slice::from_raw_parts(k as *const K as *const u8, w) }.to_vec();
                match c.rng.below(6) {
                    // two siblings exchange their first symbols
                    0 if !parents.is_empty() => {
                        let p = *c.rng.pick(&parents);
                        let i = c.rng.below(p.children().len() - 1);
                        let (x, y) = (p.children()[i].prefix(), p.children()[i + 1].prefix());
                        (vec![(off(x, 0), raw(&y[0])), (off(y, 0), raw(&x[0]))], format!("siblings {i} swapped"))
                    }
                    // equal first symbols
                    1 if !parents.is_empty() => {
                        let p = *c.rng.pick(&parents);
                        let i = c.rng.below(p.children().len() - 1);
                        let (x, y) = (p.children()[i].prefix(), p.children()[i + 1].prefix());
                        (vec![(off(x, 0), raw(&y[0]))], format!("siblings {i} made equal"))
                    }
                    // a first symbol replaced by a random one
                    2 | 3 if !inner.is_empty() => {
                        let p = *c.rng.pick(&inner);
                        let s = K::mk(c.rng.below(keys.alpha as usize + 2) as u32);
                        let i = if c.rng.chance(3, 4) { 0 } else { c.rng.below(p.prefix().len()) };
                        (vec![(off(p.prefix(), i), raw(&s))], format!("symbol {i} of a label replaced"))
                    }
                    // an empty label below the root: the length follows the relative pointer of the label, which comes first
                    4 if all.len() > 1 => {
                        let i = 1 + c.rng.below(all.len() - 1);
                        let p = all[i] as *const _ as usize - base;
                        (vec![(p + 4, vec![0, 0, 0, 0])], format!("label of node {i} emptied"))
                    }
                    // fewer symbols in a label
                    5 if !inner.is_empty() => {
                        let p = *c.rng.pick(&inner);
                        let l = c.rng.below(p.prefix().len()) as u32;
                        (vec![(*p as *const _ as usize - base + 4, l.to_le_bytes().to_vec())], format!("label cut to {l}"))
                    }
                    _ => (vec![], "nothing".into()),
                }
            };
            for (o, b) in &at {
                by[*o..*o + b.len()].copy_from_slice(b);
            }
            let root = arch::root::<$tree<K, V>>(&by);
            let good = well_formed(root);
            c.note(&(&m, &what));
            c.log(|| format!("{} {}: {what}: {:?}", stringify!($tree), K::NAME, listed(&m)));
            match check_archived_root::<$tree<K, V>>(&by) {
                Ok(x) => {
                    ensure!(c, good, "malformed tree accepted", "{what}: {:?}", shape(root));
                    consistent(c, x);
                    c.count("accepted", 1);
                }
                Err(e) => {
                    ensure!(c, !good, "well formed tree rejected", "{what}: {e}: {:?}", shape(root));
                    c.count("rejected", 1);
                }
            }
            c.nontrivial = m.len() > 1;
        }
    };
}
tree_patch!(patch_flat, RadixTree);
tree_patch!(patch_arc, ArcRadixTree);

/// random bytes of a written archive changed: whatever is still accepted is consistent
fn mutated<K: Sym>(c: &mut Case) {
    start();
    let n = tree_size(c).min(60);
    let keys = Keys::<K>::new(c, n);
    let mut next = 10;
    let m = keys.model(c, &mut next);
    let t: RadixTree<K, u32> = build_flat(c, &m);
    let a: ArcRadixTree<K, u32> = t.clone().into();
    let b1 = arch::to_bytes(&t);
    let b2 = arch::to_bytes(&a);
    for (arc, b) in [(false, b1), (true, b2)] {
        for _ in 0..6 {
            let mut by = arch::exact(&b);
            for _ in 0..1 + c.rng.below(3) {
                let i = c.rng.below(by.len());
                by[i] = match c.rng.below(4) {
                    0 => by[i].wrapping_add(1),
                    1 => by[i].wrapping_sub(*c.rng.pick(&[1, 4, 8, 16, 24, 32])),
                    2 => by[i] ^ 1 << c.rng.below(8),
                    _ => c.rng.below(256) as u8,
                };
            }
            c.note(&c.digest.0.clone());
            c.note(&by[..]);
            c.count("mutations", 1);
            if arc {
                if let Ok(x) = check_archived_root::<ArcRadixTree<K, u32>>(&by) {
                    consistent(c, x);
                    c.count("mutations_accepted", 1);
                }
            } else if let Ok(x) = check_archived_root::<RadixTree<K, u32>>(&by) {
                consistent(c, x);
                c.count("mutations_accepted", 1);
            }
        }
    }
    c.nontrivial = m.len() > 1;
}

#[derive(rkyv::Archive, rkyv::Serialize)]
#[archive_attr(derive(bytecheck::CheckBytes))]
pub struct Mixed {
    a: ArcRadixTree<u8, ()>,
    b: ArcRadixTree<u16, u128>,
    c: ArcRadixTree<u8, u32>,
    d: ArcRadixTree<u8, ()>,
    e: ArcRadixTree<u8, u32>,
}
/// trees sharing structure and collections of other types in one archive
fn bundle(c: &mut Case) {
    start();
    let n = tree_size(c).min(60);
    let keys = Keys::<u8>::new(c, n);
    let mut next = 10;
    let m = keys.model(c, &mut next);
    let mut versions: Vec<(ArcRadixTree<u8, u32>, Model<u8>)> = vec![(build(c, &m), m.clone())];
    for _ in 0..c.rng.below(5) {
        let (mut t, mut m) = versions[c.rng.below(versions.len())].clone();
        if c.rng.chance(1, 3) {
            let p = keys.probe(c);
            t = t.filter_prefix(&p);
            m = prefixed(&m, &p);
        } else {
            let (k, v) = (keys.key(c), fresh() + 5000);
            t.insert(&k, v);
            m.insert(k, v);
        }
        versions.push((t, m));
    }
    c.note(&versions.iter().map(|v| &v.1).collect::<Vec<_>>());
    let other: ArcRadixTree<u16, u128> = {
        let k = Keys::<u16>::new(c, n);
        let m = k.model(c, &mut next);
        build(c, &m)
    };
    let unit: ArcRadixTree<u8, ()> = build(c, &m);
    // a list of versions, validated as one
    let list: Vec<ArcRadixTree<u8, u32>> = versions.iter().map(|v| v.0.clone()).collect();
    let by = arch::to_bytes(&list);
    match check_archived_root::<Vec<ArcRadixTree<u8, u32>>>(&by) {
        Ok(x) => {
            for (i, x) in x.iter().enumerate() {
                check_contents(c, x, &versions[i].1, "accepted version differs", "validating a list of versions");
                consistent(c, x);
            }
            c.count("accepted", list.len() as u64);
        }
        Err(e) => c.fail("written trees with shared structure rejected", format!("{e}: {:?}", versions.iter().map(|v| listed(&v.1)).collect::<Vec<_>>())),
    }
    // different types under one root
    let root = Mixed { a: unit.clone(), b: other.clone(), c: versions[0].0.clone(), d: unit, e: versions.last().unwrap().0.clone() };
    let by = arch::to_bytes(&root);
    if let Err(e) = check_archived_root::<Mixed>(&by) {
        c.fail("written trees of several types rejected", format!("{e}: {:?}", versions.iter().map(|v| listed(&v.1)).collect::<Vec<_>>()))
    }
    c.count("accepted", 5);
    // one after the other in one archive
    let mut many = Many::default();
    let s: VecSet<[u32; 2]> = m.values().copied().collect();
    let pos: Vec<usize> = versions.iter().map(|v| many.add(&v.0)).collect();
    let po = many.add(&other);
    let ps = many.add(&s);
    let by = many.done();
    for (i, p) in pos.iter().enumerate() {
        match check_archived_value::<ArcRadixTree<u8, u32>>(&by, *p) {
            Ok(x) => check_contents(c, x, &versions[i].1, "accepted version differs", "validating successive versions"),
            // rkyv's validator wants what is reached first to be stored first; a version that shares parts with several
            // earlier ones may not be
            Err(e) if i > 0 && e.to_string().contains("subtree") => c.count("out_of_subtree", 1),
            Err(e) if i > 0 => {
                let _ = e;
                c.count("later_version_rejected", 1)
            }
            Err(e) => c.fail("written tree rejected", format!("{e}")),
        }
    }
    ensure!(c, check_archived_value::<ArcRadixTree<u16, u128>>(&by, po).is_ok(), "written tree rejected", "behind others");
    ensure!(c, check_archived_value::<VecSet<[u32; 2]>>(&by, ps).is_ok(), "written set rejected", "behind others");
    c.count("accepted", 2);
    c.nontrivial = m.len() > 1;
}

fn flat_things(c: &mut Case) {
    match c.rng.below(10) {
        0 => set_of::<u8, [u8; 4]>(c),
        1 => set_of::<u128, [u128; 1]>(c),
        2 => set_of::<(), [(); 1]>(c),
        3 => set_of::<char, [char; 2]>(c),
        4 => set_of::<bool, [bool; 2]>(c),
        5 => map_of::<u8, [(u8, u16); 4]>(c),
        6 => map_of::<u128, [(u128, u16); 1]>(c),
        7 => map_of::<u32, [(u32, u16); 2]>(c),
        _ => set_of::<u32, [u32; 2]>(c),
    }
}
fn patch(c: &mut Case) {
    match c.rng.below(12) {
        8..=9 => redirected::<u8, u32>(c),
        10 => redirected::<u16, u128>(c),
        11 => redirected::<u8, ()>(c),
        0 => patch_flat::<u16, u128>(c),
        1 => patch_arc::<u16, u128>(c),
        2 => patch_flat::<char, ()>(c),
        3 => patch_arc::<u128, u8>(c),
        4 | 5 => patch_arc::<u8, u32>(c),
        _ => patch_flat::<u8, u32>(c),
    }
}
fn mutate(c: &mut Case) {
    if c.rng.chance(1, 3) {
        mutated::<u16>(c)
    } else {
        mutated::<u8>(c)
    }
}
fn main() {
    vcmon::main(
        "P16",
        &[
            Scenario { name: "sets_maps", weight: 4, run: flat_things },
            Scenario { name: "patched", weight: 4, run: patch },
            Scenario { name: "mutated", weight: 2, run: mutate },
            Scenario { name: "bundle", weight: 2, run: bundle },
        ],
    )
}

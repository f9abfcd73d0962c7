//! P17: validating, reading and deserialising arbitrary aligned buffers is memory safe.
//! Oracle: AddressSanitizer and Miri on exactly sized buffers; every reference handed out lies within the buffer;
//! validation never panics.
use bytecheck::CheckBytes;
use rkyv::{
    check_archived_value,
    de::deserializers::SharedDeserializeMap,
    validation::{
        check_archived_value_with_context,
        validators::{ArchiveValidator, DefaultValidator, DefaultValidatorError, SharedValidator},
        ArchiveContext, SharedContext,
    },
    Archive, Archived, Deserialize, Fallible, Infallible,
};
use smallvec::Array;
use std::{alloc::Layout, any::TypeId, collections::BTreeMap};
use vcmon::arch::{self, AlignedVec};
use vcmon::gen::{self, Elem};
use vcmon::radix::*;
use vcmon::*;
use vec_collections::{AbstractVecMap, AbstractVecSet, VecMap, VecSet};

const WORDS: [i32; 14] = [0, 1, 2, 3, 4, 7, 8, 16, -1, -4, -8, i32::MAX, i32::MIN, 0x4000_0000];

/// a damaged copy, and a position at or near which the root was
fn damage(c: &mut Case, b: &[u8], root: usize, size: usize) -> (AlignedVec, usize) {
    let mut v: Vec<u8> = b.to_vec();
    let mut pos = root;
    let rounds = match c.rng.below(8) {
        0 => 0,
        1..=4 => 1,
        5 | 6 => 2,
        _ => 1 + c.rng.below(8),
    };
    for _ in 0..rounds {
        if v.len() < 8 {
            break;
        }
        let words = v.len() / 4;
        // near the end are the nodes closest to the root
        let w = |c: &mut Case| if c.rng.chance(1, 3) { words - 1 - c.rng.below(words.min(24)) } else { c.rng.below(words) };
        match c.rng.below(12) {
            0 => {
                let i = c.rng.below(v.len());
                v[i] ^= 1 << c.rng.below(8)
            }
            1 => {
                let i = c.rng.below(v.len());
                v[i] = c.rng.below(256) as u8
            }
            2 | 3 => {
                let i = w(c) * 4;
                let x = *c.rng.pick(&WORDS);
                v[i..i + 4].copy_from_slice(&x.to_le_bytes())
            }
            // nudge a word
            4 | 5 => {
                let i = w(c) * 4;
                let x = i32::from_le_bytes(v[i..i + 4].try_into().unwrap());
                let d = *c.rng.pick(&[1, -1, 4, -4, 8, -8, 12, -12, 16, -16, 24, -24, 32]);
                v[i..i + 4].copy_from_slice(&x.wrapping_add(d).to_le_bytes())
            }
            // relative pointer to anywhere in the buffer, to its end, or just outside
            6 | 7 => {
                let i = w(c) * 4;
                let to = match c.rng.below(4) {
                    0 => v.len() as i64,
                    1 => v.len() as i64 - 4 * c.rng.below(8) as i64,
                    2 => -4,
                    _ => 4 * c.rng.below(words) as i64,
                };
                v[i..i + 4].copy_from_slice(&((to - i as i64) as i32).to_le_bytes())
            }
            8 => {
                let (i, j) = (w(c) * 4, w(c) * 4);
                for k in 0..4 {
                    v.swap(i + k, j + k)
                }
            }
            // copy a block
            9 => {
                let l = (1 + c.rng.below(8)) * 4;
                if v.len() > l {
                    let (i, j) = (c.rng.below((v.len() - l) / 4) * 4, c.rng.below((v.len() - l) / 4) * 4);
                    let t = v[i..i + l].to_vec();
                    v[j..j + l].copy_from_slice(&t)
                }
            }
            // cut the front or the back
            10 => {
                let n = c.rng.below(v.len() / 4) * 4;
                if c.rng.bool() {
                    v.drain(..n);
                    pos = pos.saturating_sub(n)
                } else {
                    v.truncate(v.len() - n)
                }
            }
            _ => {
                let step = *c.rng.pick(&[4, 8, 16]);
                pos = if c.rng.bool() { pos.saturating_sub(step) } else { pos + step }
            }
        }
    }
    if c.rng.chance(1, 25) {
        let n = c.rng.below(if c.small { 80 } else { 400 });
        let style = c.rng.below(4);
        v = (0..n).map(|_| if style == 0 { c.rng.below(256) as u8 } else { 0 }).collect();
        if style >= 2 {
            for i in 0..v.len() / 4 {
                let x = if c.rng.bool() { c.rng.below(5) as i32 } else { -4 * c.rng.below(i + 1) as i32 };
                v[i * 4..i * 4 + 4].copy_from_slice(&x.to_le_bytes())
            }
        }
        pos = v.len().saturating_sub(size);
    }
    let last = v.len().saturating_sub(size) & !3;
    // mostly the place the format expects, sometimes one that does not fit
    if c.rng.chance(3, 4) {
        pos = pos.min(last)
    }
    (arch::exact(&v), pos)
}
/// x lies within the buffer
fn inside<T: ?Sized>(c: &mut Case, b: &[u8], x: &T, what: &str) {
    let n = std::mem::size_of_val(x);
    let a = x as *const T as *const u8 as usize;
    let (lo, hi) = (b.as_ptr() as usize, b.as_ptr() as usize + b.len());
    ensure!(c, n == 0 || (a >= lo && a + n <= hi), "accepted data lies outside the buffer", "{what}: {n} bytes at offset {}", a as i64 - lo as i64);
    c.count("references_checked", 1);
}

trait FElem: Elem + Archive<Archived = Self> + rkyv::Serialize<arch::Ser> + for<'a> bytecheck::CheckBytes<DefaultValidator<'a>> + Deserialize<Self, Infallible> {}
impl FElem for u8 {}
impl FElem for u32 {}
impl FElem for u128 {}
impl FElem for char {}
impl FElem for bool {}
impl FElem for (u8, u32) {}

fn set_of<T: FElem, A: Array<Item = T> + 'static>(c: &mut Case) {
    let n = c.size(60);
    let u = gen::universe(c, n);
    let s: VecSet<A> = gen::keys(c, n, u).into_iter().map(T::mk).collect();
    let other: VecSet<[T; 2]> = gen::keys(c, n, u).into_iter().map(T::mk).collect();
    let orig = arch::to_bytes(&s);
    let size = std::mem::size_of::<Archived<VecSet<A>>>();
    let rounds = if c.small { 4 } else { 12 };
    for _ in 0..rounds {
        let (b, pos) = damage(c, &orig, orig.len() - size, size);
        c.note(&b[..]);
        c.count("buffers", 1);
        c.log(|| format!("set of {}: root at {pos} in {:?}", std::any::type_name::<T>(), &b[..]));
        if pos > b.len() {
            continue;
        }
        let x = match check_archived_value::<VecSet<A>>(&b, pos) {
            Err(_) => {
                c.count("rejected", 1);
                continue;
            }
            Ok(x) => x,
        };
        c.count("accepted", 1);
        let sl = AbstractVecSet::as_slice(x);
        inside(c, &b, sl, "elements");
        ensure!(c, sl.windows(2).all(|w| w[0] < w[1]), "accepted set is disordered", "{sl:?}");
        let hits = s.iter().chain(other.iter()).filter(|e| AbstractVecSet::contains(x, e)).count();
        let r: VecSet<A> = x.deserialize(&mut Infallible).unwrap();
        ensure!(c, r.iter().eq(sl), "deserialised set differs", "{r:?}");
        let un: VecSet<[T; 3]> = AbstractVecSet::union(x, &other);
        let di: VecSet<[T; 0]> = AbstractVecSet::difference(&other, x);
        ensure!(c, un.len() == sl.len() + di.len(), "operation on accepted set", "{hits} {un:?} {di:?}");
        ensure!(c, x.is_subset(&un) && AbstractVecSet::is_superset(&un, x), "relation of accepted set", "{sl:?}");
        c.count("reads", 6);
        c.nontrivial = true;
    }
}
fn map_of<K: FElem, V: FElem, A: Array<Item = (K, V)> + 'static>(c: &mut Case)
where
    (K, V): Archive<Archived = (K, V)> + rkyv::Serialize<arch::Ser>,
{
    let n = c.size(60);
    let u = gen::universe(c, n);
    let s: VecMap<A> = gen::keys(c, n, u).into_iter().map(|k| (K::mk(k), V::mk(k ^ 1))).collect();
    let other: VecMap<[(K, V); 2]> = gen::keys(c, n, u).into_iter().map(|k| (K::mk(k), V::mk(k ^ 2))).collect();
    let orig = arch::to_bytes(&s);
    let size = std::mem::size_of::<Archived<VecMap<A>>>();
    let rounds = if c.small { 4 } else { 12 };
    for _ in 0..rounds {
        let (b, pos) = damage(c, &orig, orig.len() - size, size);
        c.note(&b[..]);
        c.count("buffers", 1);
        c.log(|| format!("map of {} {}: root at {pos} in {:?}", std::any::type_name::<K>(), std::any::type_name::<V>(), &b[..]));
        if pos > b.len() {
            continue;
        }
        let x = match check_archived_value::<VecMap<A>>(&b, pos) {
            Err(_) => {
                c.count("rejected", 1);
                continue;
            }
            Ok(x) => x,
        };
        c.count("accepted", 1);
        let sl = AbstractVecMap::as_slice(x);
        inside(c, &b, sl, "pairs");
        ensure!(c, sl.windows(2).all(|w| w[0].0 < w[1].0), "accepted map is disordered", "{sl:?}");
        for (k, _) in s.iter().chain(other.iter()) {
            if let Some(v) = AbstractVecMap::get(x, k) {
                inside(c, &b, v, "value");
            }
        }
        let j: VecMap<[(K, (Option<V>, Option<V>)); 1]> = AbstractVecMap::outer_join(x, &other, |a| {
            Some(match a {
                vec_collections::OuterJoinArg::Left(_, v) => (Some(v.clone()), None),
                vec_collections::OuterJoinArg::Right(_, w) => (None, Some(w.clone())),
                vec_collections::OuterJoinArg::Both(_, v, w) => (Some(v.clone()), Some(w.clone())),
            })
        });
        ensure!(c, j.len() >= sl.len() && j.len() <= sl.len() + other.len(), "join of accepted map", "{j:?}");
        let r: VecMap<A> = x.deserialize(&mut Infallible).unwrap();
        ensure!(c, r.iter().zip(sl).all(|(a, b)| a.0 == b.0 && a.1 == b.1) && r.len() == sl.len(), "deserialised map differs", "{r:?}");
        c.count("reads", 4);
        c.nontrivial = true;
    }
}

/// nodes up to a limit (shared lists may be reachable in exponentially many ways)
fn walk<K: Sym, V: Val, T: AbstractRadixTree<K, V>>(c: &mut Case, b: &[u8], t: &T, left: &mut usize) {
    if *left == 0 {
        return;
    }
    *left -= 1;
    inside(c, b, t, "node");
    inside(c, b, t.prefix(), "label");
    if let Some(v) = t.value() {
        inside(c, b, v, "value");
        let _ = format!("{v:?}");
    }
    let _ = format!("{:?}", t.prefix());
    inside(c, b, t.children(), "children");
    for x in t.children() {
        walk(c, b, x, left)
    }
}
fn read_tree<K: Sym, V: Val, T: AbstractRadixTree<K, V, Materialized = F>, F: Flavour<K, V>>(c: &mut Case, b: &[u8], x: &T, keys: &Keys<K>, other: &RadixTree<K, u32>, own: &F) {
    let limit = if c.small { 300 } else { 3000 };
    let mut left = limit;
    walk(c, b, x, &mut left);
    let mut last: Option<Vec<K>> = None;
    let mut seen = BTreeMap::new();
    for (k, v) in x.iter().take(limit) {
        inside(c, b, v, "iterated value");
        ensure!(c, last.as_ref().map(|l| l[..] < k[..]).unwrap_or(true), "accepted tree iterates out of order", "{last:?} before {:?}", &k[..]);
        last = Some(k.to_vec());
        seen.insert(k.to_vec(), v.id());
    }
    for v in x.values().take(limit) {
        inside(c, b, v, "iterated value");
    }
    for k in keys.pool.iter().take(20) {
        if let Some(v) = x.get(k) {
            inside(c, b, v, "value");
        }
        x.contains_key(k);
        for (_, v) in x.scan_prefix(&k[..k.len() / 2]).take(50) {
            inside(c, b, v, "scanned value");
        }
    }
    c.count("reads", 5);
    if left == 0 {
        c.count("many_nodes", 1);
        return;
    }
    // complete reads
    ensure!(c, x.is_subset(x) && other.is_subset(x) == x.is_superset(other), "relation of accepted tree", "{seen:?}");
    let (i, d) = (x.intersects(other), other.is_disjoint(x));
    ensure!(c, i != d, "relation of accepted tree", "{seen:?}");
    let got = contents(&x.inner_combine(other, |a, _| Some(a.clone())));
    ensure!(c, got.iter().all(|(k, v)| seen.get(k) == Some(v)), "combination of accepted tree", "{got:?} {seen:?}");
    let got = contents(&x.left_combine(other, |a, b| if b.is_some() { None } else { Some(a.clone()) }));
    ensure!(c, got.iter().all(|(k, v)| seen.get(k) == Some(v)), "combination of accepted tree", "{got:?} {seen:?}");
    let mut o = own.clone();
    o.union_with(x);
    let u = contents(&x.outer_combine(own, |_, b| Some(b.clone())));
    ensure!(c, contents(&o) == u, "combination of accepted tree", "{u:?} {:?}", contents(&o));
    let mut o = own.clone();
    o.intersection_with(x);
    o.difference_with(x);
    ensure!(c, o.is_empty(), "combination of accepted tree", "{:?}", contents(&o));
    let mut o = own.clone();
    o.remove_prefix_with(x, |v| v.id() % 2 == 0);
    let mut o = own.clone();
    o.retain_prefix_with(x, |v| v.id() % 2 == 0);
    c.count("reads", 9);
}

macro_rules! tree {
    ($name:ident, $tree:ident, $extra:expr) => {
        fn $name<K: Sym, V: Val>(c: &mut Case) {
            start();
            let n = if c.small { c.rng.below(6) } else { tree_size(c).min(60) };
            let keys = Keys::<K>::new(c, n);
            let mut next = 10;
            let m = keys.model(c, &mut next);
            let mo = keys.model(c, &mut next);
            let t: $tree<K, V> = build_flat(c, &m).into();
            let own: $tree<K, V> = build_flat(c, &mo).into();
            let other: RadixTree<K, u32> = build_flat(c, &mo);
            let orig = arch::to_bytes(&t);
            let size = std::mem::size_of::<Archived<$tree<K, V>>>();
            let rounds = if c.small { 3 } else { 12 };
            for _ in 0..rounds {
                let (b, pos) = damage(c, &orig, orig.len() - size, size);
                c.note(&b[..]);
                c.count("buffers", 1);
                c.log(|| format!("{} {} {}: root at {pos} in {:?}", stringify!($tree), K::NAME, std::any::type_name::<V>(), &b[..]));
                if pos > b.len() {
                    continue;
                }
                let x = match check_archived_value::<$tree<K, V>>(&b, pos) {
                    Err(e) => {
                        c.count("rejected", 1);
                        // the error has a readable form of reasonable size
                        let l = e.to_string().len();
                        ensure!(c, l <= 200_000, "error of a rejected archive is huge", "{l} bytes for {} bytes of archive", b.len());
                        c.maxc("max_error_length", l as u64);
                        continue;
                    }
                    Ok(x) => x,
                };
                c.count("accepted", 1);
                read_tree(c, &b, x, &keys, &other, &own);
                // sharing makes this cheap for shared trees, however many ways lead to a list
                if x.values().take(2000).count() < 2000 {
                    let r: $tree<K, V> = x.deserialize(&mut SharedDeserializeMap::new()).unwrap();
                    ensure!(c, contents(&r) == contents(x), "deserialised tree differs", "{:?}", contents(x));
                    #[allow(clippy::redundant_closure_call)]
                    $extra(c, x);
                }
                c.count("reads", 1);
                c.nontrivial = true;
            }
        }
    };
}
tree!(flat, RadixTree, |_: &mut Case, _: &_| {});
tree!(arc, ArcRadixTree, |c: &mut Case, x: &Archived<ArcRadixTree<K, V>>| {
    let mut left = 3000;
    count(x, &mut left);
    if left > 0 {
        let r = ArcRadixTree::<K, V>::from(x);
        ensure!(c, contents(&r) == contents(x), "converted tree differs", "{:?}", contents(x));
    }
});
fn count<K: Sym, V: Val, T: AbstractRadixTree<K, V>>(t: &T, left: &mut usize) {
    if *left > 0 {
        *left -= 1;
        t.children().iter().for_each(|x| count(x, left))
    }
}

fn sets(c: &mut Case) {
    match c.rng.below(6) {
        0 => set_of::<u8, [u8; 4]>(c),
        1 => set_of::<u128, [u128; 1]>(c),
        2 => set_of::<char, [char; 2]>(c),
        3 => set_of::<bool, [bool; 2]>(c),
        4 => set_of::<(u8, u32), [(u8, u32); 1]>(c),
        _ => set_of::<u32, [u32; 2]>(c),
    }
}
fn maps(c: &mut Case) {
    match c.rng.below(5) {
        0 => map_of::<u8, u8, [(u8, u8); 4]>(c),
        1 => map_of::<u8, u128, [(u8, u128); 1]>(c),
        2 => map_of::<char, bool, [(char, bool); 2]>(c),
        3 => map_of::<bool, u32, [(bool, u32); 2]>(c),
        _ => map_of::<u32, char, [(u32, char); 2]>(c),
    }
}
fn flats(c: &mut Case) {
    match c.rng.below(8) {
        0 => flat::<u16, u128>(c),
        1 => flat::<char, ()>(c),
        2 => flat::<bool, u32>(c),
        3 => flat::<u128, u8>(c),
        4 => flat::<u8, char>(c),
        5 => flat::<u8, bool>(c),
        _ => flat::<u8, u32>(c),
    }
}
fn arcs(c: &mut Case) {
    match c.rng.below(8) {
        0 => arc::<u16, u128>(c),
        1 => arc::<char, ()>(c),
        2 => arc::<bool, u32>(c),
        3 => arc::<u128, u8>(c),
        4 => arc::<u8, char>(c),
        5 => arc::<u8, bool>(c),
        _ => arc::<u8, u32>(c),
    }
}
/// rkyv's validator with a limit on the depth of nesting, what its users have against stack exhaustion
struct Limited<'a> {
    archive: ArchiveValidator<'a>,
    shared: SharedValidator,
    refused: bool,
}
impl<'a> Fallible for Limited<'a> {
    type Error = DefaultValidatorError;
}
impl<'a> ArchiveContext for Limited<'a> {
    type PrefixRange = <ArchiveValidator<'a> as ArchiveContext>::PrefixRange;
    type SuffixRange = <ArchiveValidator<'a> as ArchiveContext>::SuffixRange;
    unsafe fn bounds_check_ptr(&mut self, base: *const u8, offset: isize) -> Result<*const u8, Self::Error> {
        self.archive.bounds_check_ptr(base, offset).map_err(DefaultValidatorError::ArchiveError)
    }
    unsafe fn bounds_check_layout(&mut self, a: *const u8, layout: &Layout) -> Result<(), Self::Error> {
        self.archive.bounds_check_layout(a, layout).map_err(DefaultValidatorError::ArchiveError)
    }
    unsafe fn bounds_check_subtree_ptr_layout(&mut self, a: *const u8, layout: &Layout) -> Result<(), Self::Error> {
        self.archive.bounds_check_subtree_ptr_layout(a, layout).map_err(DefaultValidatorError::ArchiveError)
    }
    unsafe fn push_prefix_subtree_range(&mut self, root: *const u8, end: *const u8) -> Result<Self::PrefixRange, Self::Error> {
        let r = self.archive.push_prefix_subtree_range(root, end).map_err(DefaultValidatorError::ArchiveError);
        self.refused |= r.is_err();
        r
    }
    fn pop_prefix_range(&mut self, range: Self::PrefixRange) -> Result<(), Self::Error> {
        self.archive.pop_prefix_range(range).map_err(DefaultValidatorError::ArchiveError)
    }
    unsafe fn push_suffix_subtree_range(&mut self, start: *const u8, root: *const u8) -> Result<Self::SuffixRange, Self::Error> {
        self.archive.push_suffix_subtree_range(start, root).map_err(DefaultValidatorError::ArchiveError)
    }
    fn pop_suffix_range(&mut self, range: Self::SuffixRange) -> Result<(), Self::Error> {
        self.archive.pop_suffix_range(range).map_err(DefaultValidatorError::ArchiveError)
    }
    fn finish(&mut self) -> Result<(), Self::Error> {
        self.archive.finish().map_err(DefaultValidatorError::ArchiveError)
    }
}
impl<'a> SharedContext for Limited<'a> {
    fn register_shared_ptr(&mut self, ptr: *const u8, type_id: TypeId) -> Result<bool, Self::Error> {
        self.shared.register_shared_ptr(ptr, type_id).map_err(DefaultValidatorError::SharedError)
    }
}
fn limited<'a, T: Archive>(b: &'a [u8], depth: usize) -> (bool, bool)
where
    T::Archived: CheckBytes<Limited<'a>>,
{
    let mut v = Limited { archive: ArchiveValidator::with_max_depth(b, depth), shared: SharedValidator::new(), refused: false };
    let ok = check_archived_value_with_context::<T, _>(b, b.len() - std::mem::size_of::<T::Archived>(), &mut v).is_ok();
    (ok, v.refused)
}
macro_rules! deep_tree {
    ($c:ident, $tree:ident, $flat:expr, $depth:expr) => {{
        let (c, flat, depth) = (&mut *$c, $flat, $depth);
        let t: $tree<u8, u32> = flat.into();
        let b = arch::exact(&arch::to_bytes(&t));
        // every level needs at most a range for its child list and one for what it is stored in, and a label
        let enough = 2 * depth + 4;
        let (ok, refused) = limited::<$tree<u8, u32>>(&b, enough);
        ensure!(c, ok && !refused, "validation refuses a deep archive within the depth limit", "{} depth {depth} limit {enough}", stringify!($tree));
        let less = c.rng.below(depth);
        let (ok, refused) = limited::<$tree<u8, u32>>(&b, less);
        ensure!(c, !ok && refused, "validation ignores the depth limit", "{} depth {depth} limit {less}", stringify!($tree));
        c.count("limited", 2);
        // damaged and with a limit: an error or something that can be read
        let (d, _) = damage(c, &b, b.len() - std::mem::size_of::<Archived<$tree<u8, u32>>>(), std::mem::size_of::<Archived<$tree<u8, u32>>>());
        if d.len() >= std::mem::size_of::<Archived<$tree<u8, u32>>>() && limited::<$tree<u8, u32>>(&d, enough).0 {
            let x = check_archived_value::<$tree<u8, u32>>(&d, d.len() - std::mem::size_of::<Archived<$tree<u8, u32>>>());
            ensure!(c, x.is_ok(), "verdict depends on the limit", "depth {depth}");
            let n = x.unwrap().iter().take(10_000).count();
            c.note(&n);
            c.count("accepted_deep", 1);
        }
    }};
}
/// chains of nodes far deeper than the generated trees
fn deep(c: &mut Case) {
    start();
    let depth = if c.small { 1 + c.rng.below(6) } else { 1 + c.rng.below(1200) };
    let branch = c.rng.bool();
    let mut t: RadixTree<u8, u32> = RadixTree::single(&[7], 0);
    for i in 0..depth {
        t.prepend(&[(i % 5) as u8]);
        if branch {
            t.union_with(&RadixTree::single(&[9], i as u32));
        } else {
            t.insert(&[], i as u32);
        }
    }
    c.log(|| format!("chain of depth {depth}, {}", if branch { "branching" } else { "a value at every node" }));
    c.note(&(depth, branch));
    let levels = t.iter().map(|(k, _)| k.len()).max().unwrap_or(0);
    ensure!(c, levels == depth + 1, "harness: chain", "{levels} {depth}");
    if c.rng.bool() {
        deep_tree!(c, RadixTree, t, depth)
    } else {
        deep_tree!(c, ArcRadixTree, t, depth)
    }
    c.count("buffers", 1);
    c.nontrivial = true;
}

fn main() {
    vcmon::main(
        "P17",
        &[
            Scenario { name: "sets", weight: 2, run: sets },
            Scenario { name: "maps", weight: 2, run: maps },
            Scenario { name: "flat", weight: 4, run: flats },
            Scenario { name: "arc", weight: 5, run: arcs },
            Scenario { name: "deep", weight: 1, run: deep },
        ],
    )
}

//! P18: joins of standard ordered maps.
//! Oracle: the relational definition, evaluated key by key over the union of the keys, and counted
//! comparisons against those of the lookups a join needs.
use rkyv::{Archive, Archived};
use std::cell::{Cell, RefCell};
use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet};
use vcmon::arch;
use vcmon::gen::{self, Elem};
use vcmon::*;
use vec_collections::btree_map::{AbstractBTreeMap, InPlaceRelationalOps};
use vec_collections::OuterJoinArg;

type Call<K> = (K, Option<u32>, Option<u64>);

/// what a combining function answers: nothing for some keys or values, else something that depends on everything
fn answer(mode: usize, a: Option<u32>, b: Option<u64>) -> Option<u32> {
    let x = a.map(|x| x.wrapping_mul(3)).unwrap_or(1).wrapping_add(b.map(|x| x as u32 * 2 + 1).unwrap_or(0));
    match mode {
        0 => Some(x),
        1 => a,
        2 => None,
        3 if x % 2 == 0 => None,
        4 if a.is_none() => None,
        5 if b.is_none() => None,
        6 if a.is_some() && b.is_some() => None,
        7 if x % 5 != 0 => None,
        _ => Some(x ^ 0x55),
    }
}
const MODES: usize = 9;

fn check<K: Ord + Clone + std::fmt::Debug>(c: &mut Case, what: &str, got: BTreeMap<K, u32>, want: &BTreeMap<K, u32>, calls: Option<(Vec<Call<K>>, Vec<Call<K>>)>) {
    c.count("results", 1);
    ensure!(c, got == *want && got.iter().eq(want.iter()), &format!("wrong {what}"), "got {got:?}\nexpected {want:?}");
    if let Some((mut got, mut want)) = calls {
        got.sort();
        want.sort();
        c.count("combiner_calls", got.len() as u64);
        ensure!(c, got == want, &format!("{what} consulted the function wrongly"), "got {got:?}\nexpected {want:?}");
    }
}

/// all joins of a with b, as whatever they are
fn joins<K: Elem, A: AbstractBTreeMap<K, u32>, B: AbstractBTreeMap<K, u64>>(c: &mut Case, x: &A, y: &B, a: &BTreeMap<K, u32>, b: &BTreeMap<K, u64>, who: &str) {
    let mode = c.rng.below(MODES);
    let keys: BTreeSet<&K> = a.keys().chain(b.keys()).collect();
    let call = |k: &K| (k.clone(), a.get(k).copied(), b.get(k).copied());
    let expect = |p: &dyn Fn(bool, bool) -> bool| {
        let calls: Vec<Call<K>> = keys.iter().filter(|k| p(a.contains_key(**k), b.contains_key(**k))).map(|k| call(k)).collect();
        let res: BTreeMap<K, u32> = calls.iter().filter_map(|(k, v, w)| answer(mode, *v, *w).map(|r| (k.clone(), r))).collect();
        (calls, res)
    };
    let seen: RefCell<Vec<Call<K>>> = RefCell::default();
    let f = |k: &K, v: Option<u32>, w: Option<u64>| {
        seen.borrow_mut().push((k.clone(), v, w));
        answer(mode, v, w)
    };
    let outer = x.outer_join(y, |arg| match arg {
        OuterJoinArg::Left(k, v) => f(k, Some(*v), None),
        OuterJoinArg::Right(k, w) => f(k, None, Some(*w)),
        OuterJoinArg::Both(k, v, w) => f(k, Some(*v), Some(*w)),
    });
    let (calls, want) = expect(&|_, _| true);
    check(c, &format!("outer join of {who}"), outer, &want, Some((seen.take(), calls)));
    let left = x.left_join(y, |k, v, w| f(k, Some(*v), w.copied()));
    let (calls, want) = expect(&|l, _| l);
    check(c, &format!("left join of {who}"), left, &want, Some((seen.take(), calls)));
    let right = x.right_join(y, |k, v, w| f(k, v.copied(), Some(*w)));
    let (calls, want) = expect(&|_, r| r);
    check(c, &format!("right join of {who}"), right, &want, Some((seen.take(), calls)));
    let inner = x.inner_join::<_, _, _, ()>(y, |k, v, w| f(k, Some(*v), Some(*w)));
    let (calls, want) = expect(&|l, r| l && r);
    check(c, &format!("inner join of {who}"), inner, &want, Some((seen.take(), calls)));
    // reads
    ensure!(c, AbstractBTreeMap::iter(x).map(|(k, v)| (k.clone(), *v)).eq(a.iter().map(|(k, v)| (k.clone(), *v))), "wrong iteration", "{who}");
    for k in keys.iter().take(40) {
        ensure!(c, AbstractBTreeMap::get(x, *k) == a.get(*k) && AbstractBTreeMap::get(y, *k) == b.get(*k), "wrong lookup", "{who} {k:?}");
    }
}
/// a map joined with the very same map: every key is on both sides
fn itself<K: Elem, A: AbstractBTreeMap<K, u32>>(c: &mut Case, x: &A, a: &BTreeMap<K, u32>, who: &str) {
    let mode = c.rng.below(MODES);
    let f = |v: u32, w: u32| answer(mode, Some(v), Some(w as u64));
    let want: BTreeMap<K, u32> = a.iter().filter_map(|(k, v)| f(*v, *v).map(|r| (k.clone(), r))).collect();
    let outer = x.outer_join(x, |arg| match arg {
        OuterJoinArg::Both(_, v, w) => f(*v, *w),
        _ => Some(0),
    });
    check(c, &format!("outer join of a {who} with itself"), outer, &want, None);
    let left = x.left_join(x, |_, v, w| w.map_or(Some(0), |w| f(*v, *w)));
    check(c, &format!("left join of a {who} with itself"), left, &want, None);
    let right = x.right_join(x, |_, v, w| v.map_or(Some(0), |v| f(*v, *w)));
    check(c, &format!("right join of a {who} with itself"), right, &want, None);
    let inner = x.inner_join::<_, _, _, ()>(x, |_, v, w| f(*v, *w));
    check(c, &format!("inner join of a {who} with itself"), inner, &want, None);
    c.count("joined_with_itself", 4);
}
fn inplace<K: Elem, B: AbstractBTreeMap<K, u64>>(c: &mut Case, y: &B, a: &BTreeMap<K, u32>, b: &BTreeMap<K, u64>, who: &str) {
    let mode = c.rng.below(MODES);
    let both = |k: &K| (a.get(k).copied(), b.get(k).copied());
    let seen: RefCell<Vec<Call<K>>> = RefCell::default();
    // the value as the function left it
    let upd = |k: &K, v: &mut u32, w: Option<u64>| {
        seen.borrow_mut().push((k.clone(), Some(*v), w));
        match answer(mode, Some(*v), w) {
            Some(r) => {
                *v = r;
                true
            }
            None => {
                *v = u32::MAX;
                false
            }
        }
    };
    let keep = |p: &dyn Fn(&K) -> bool| -> (Vec<Call<K>>, BTreeMap<K, u32>) {
        let calls: Vec<Call<K>> = a.keys().filter(|k| p(k)).map(|k| (k.clone(), both(k).0, both(k).1)).collect();
        let r = calls.iter().filter_map(|(k, v, w)| answer(mode, *v, *w).map(|r| (k.clone(), r))).collect();
        (calls, r)
    };
    let mut t = a.clone();
    t.inner_join_with(y, |k, v, w| upd(k, v, Some(*w)));
    let (calls, want) = keep(&|k| b.contains_key(k));
    check(c, &format!("in place inner join with {who}"), t, &want, Some((seen.take(), calls)));
    let mut t = a.clone();
    t.left_join_with(y, |k, v, w| upd(k, v, w.copied()));
    let (calls, want) = keep(&|_| true);
    check(c, &format!("in place left join with {who}"), t, &want, Some((seen.take(), calls)));
    let mut t = a.clone();
    let none = c.rng.bool();
    t.right_join_with(y, |k, v, w| match v {
        Some(v) => upd(k, v, Some(*w)),
        None => {
            seen.borrow_mut().push((k.clone(), None, Some(*w)));
            none
        }
    });
    let (mut calls, want) = keep(&|k| b.contains_key(k));
    calls.extend(b.iter().filter(|(k, _)| !a.contains_key(k)).map(|(k, w)| (k.clone(), None, Some(*w))));
    check(c, &format!("in place right join with {who}"), t, &want, Some((seen.take(), calls)));
    let mut t = a.clone();
    t.outer_join_with(
        y,
        |k, v, w| upd(k, v, w.copied()),
        |k, w| {
            seen.borrow_mut().push((k.clone(), None, Some(*w)));
            answer(mode, None, Some(*w))
        },
    );
    let (mut calls, mut want) = keep(&|_| true);
    for (k, w) in b.iter().filter(|(k, _)| !a.contains_key(k)) {
        calls.push((k.clone(), None, Some(*w)));
        if let Some(r) = answer(mode, None, Some(*w)) {
            want.insert(k.clone(), r);
        }
    }
    check(c, &format!("in place outer join with {who}"), t, &want, Some((seen.take(), calls)));
}

fn maps<K: Elem>(c: &mut Case) -> (BTreeMap<K, u32>, BTreeMap<K, u64>) {
    let (ka, kb) = gen::pair(c, 300);
    c.note(&(&ka, &kb));
    c.log(|| format!("{}: {ka:?} with {kb:?}", std::any::type_name::<K>()));
    let a: BTreeMap<K, u32> = ka.into_iter().map(|k| (K::mk(k), c.rng.below(50) as u32)).collect();
    let b: BTreeMap<K, u64> = kb.into_iter().map(|k| (K::mk(k), c.rng.below(50) as u64)).collect();
    c.nontrivial = !a.is_empty() && !b.is_empty();
    (a, b)
}
fn native<K: Elem>(c: &mut Case) {
    let (a, b) = maps::<K>(c);
    joins(c, &a, &b, &a, &b, "native with native");
    if c.rng.chance(1, 4) {
        itself(c, &a, &a, "map");
    }
    inplace(c, &b, &a, &b, "native");
}
fn archived<K: Elem + Archive<Archived = K> + rkyv::Serialize<arch::Ser>>(c: &mut Case) {
    let (a, b) = maps::<K>(c);
    let (ba, bb) = (arch::to_bytes(&a), arch::to_bytes(&b));
    let x: &Archived<BTreeMap<K, u32>> = arch::root::<BTreeMap<K, u32>>(&ba);
    let y: &Archived<BTreeMap<K, u64>> = arch::root::<BTreeMap<K, u64>>(&bb);
    joins(c, &a, y, &a, &b, "native with archived");
    joins(c, x, &b, &a, &b, "archived with native");
    joins(c, x, y, &a, &b, "archived with archived");
    if c.rng.chance(1, 4) {
        itself(c, x, &a, "archived map");
    }
    inplace(c, y, &a, &b, "archived");
    inplace(c, &b, &a, &b, "native");
}
fn any_native(c: &mut Case) {
    match c.rng.below(4) {
        0 => native::<String>(c),
        1 => native::<std::cmp::Reverse<u32>>(c),
        2 => native::<i64>(c),
        _ => native::<u32>(c),
    }
}
fn any_archived(c: &mut Case) {
    match c.rng.below(5) {
        0 => archived::<u8>(c),
        1 => archived::<u128>(c),
        2 => archived::<(u8, u32)>(c),
        3 => archived::<char>(c),
        _ => archived::<u32>(c),
    }
}
/// key that counts its comparisons
#[derive(Clone, Copy, Debug)]
#[repr(transparent)]
struct Ck(u32);
thread_local! {
    static CMPS: Cell<u64> = const { Cell::new(0) };
}
fn spent<R>(f: impl FnOnce() -> R) -> (u64, R) {
    CMPS.with(|c| c.set(0));
    let r = f();
    (CMPS.with(|c| c.get()), r)
}
impl Ord for Ck {
    fn cmp(&self, o: &Ck) -> Ordering {
        CMPS.with(|c| c.set(c.get() + 1));
        self.0.cmp(&o.0)
    }
}
impl PartialOrd for Ck {
    fn partial_cmp(&self, o: &Ck) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl PartialEq for Ck {
    fn eq(&self, o: &Ck) -> bool {
        self.cmp(o) == Ordering::Equal
    }
}
impl Eq for Ck {}
impl Archive for Ck {
    type Archived = Ck;
    type Resolver = ();
    unsafe fn resolve(&self, _: usize, _: (), out: *mut Ck) {
        out.write(*self)
    }
}
impl<S: rkyv::Fallible + ?Sized> rkyv::Serialize<S> for Ck {
    fn serialize(&self, _: &mut S) -> Result<(), S::Error> {
        Ok(())
    }
}

/// what it costs to look up all keys of one map in another one
fn lookups<V, W>(of: &BTreeMap<Ck, V>, y: &impl AbstractBTreeMap<Ck, W>) -> u64 {
    spent(|| of.keys().filter(|k| y.get(*k).is_some()).count()).0
}
/// what it costs to build a map key by key
fn building<'a>(keys: impl Iterator<Item = &'a Ck>) -> u64 {
    let keys: BTreeSet<Ck> = keys.copied().collect();
    spent(|| {
        let mut r = BTreeMap::new();
        for k in keys {
            r.insert(k, ());
        }
    })
    .0
}
/// joins within a small multiple of the lookups and insertions they need, whatever a lookup costs
fn costs<A: AbstractBTreeMap<Ck, u32>, B: AbstractBTreeMap<Ck, u64>>(c: &mut Case, x: &A, y: &B, a: &BTreeMap<Ck, u32>, b: &BTreeMap<Ck, u64>, who: &str) {
    let (l, r) = (lookups(a, y), lookups(b, x));
    let build = building(a.keys().chain(b.keys()));
    let within = |c: &mut Case, what: &str, got: u64, need: u64| {
        let bound = 6 * need + 96;
        c.count("costs_bounded", 1);
        c.maxc("max_cost_percent_of_bound", got * 100 / bound);
        ensure!(c, got <= bound, &format!("{what} of {who} costs too much"), "{} keys with {}: {got} comparisons, needed {need}, bound {bound}", a.len(), b.len());
    };
    let (n, _) = spent(|| x.outer_join(y, |_| Some(())));
    within(c, "outer join", n, l + r + build);
    let (n, _) = spent(|| x.left_join(y, |_, _, _| Some(())));
    within(c, "left join", n, l + building(a.keys()));
    let (n, _) = spent(|| x.right_join(y, |_, _, _| Some(())));
    within(c, "right join", n, r + building(b.keys()));
    let common = building(a.keys().filter(|k| b.contains_key(*k)));
    let (n, _) = spent(|| x.inner_join::<_, _, _, ()>(y, |_, _, _| Some(())));
    within(c, "inner join", n, if a.len() < b.len() { l } else { r } + common);
    c.count("smaller_side_left", (a.len() < b.len()) as u64);
}
fn costs_inplace<B: AbstractBTreeMap<Ck, u64>>(c: &mut Case, y: &B, a: &BTreeMap<Ck, u32>, b: &BTreeMap<Ck, u64>, who: &str) {
    let (l, r) = (lookups(a, y), lookups(b, a));
    // a removal costs a lookup, and the searches go through a map that changes
    let build = building(a.keys().chain(b.keys()));
    let within = |c: &mut Case, what: &str, got: u64, need: u64| {
        let bound = 6 * need + 96;
        c.count("costs_bounded", 1);
        c.maxc("max_cost_percent_of_bound", got * 100 / bound);
        ensure!(c, got <= bound, &format!("in place {what} with {who} costs too much"), "{} keys with {}: {got} comparisons, needed {need}, bound {bound}", a.len(), b.len());
    };
    let m = c.rng.range(1, 4) as u32;
    let keep = |k: &Ck| k.0 % m == 0;
    let mut t = a.clone();
    let (n, _) = spent(|| t.inner_join_with(y, |k, _, _| keep(k)));
    within(c, "inner join", n, l);
    let mut t = a.clone();
    let (n, _) = spent(|| t.left_join_with(y, |k, _, _| keep(k)));
    within(c, "left join", n, l);
    let mut t = a.clone();
    let (n, _) = spent(|| t.right_join_with(y, |k, _, _| keep(k)));
    within(c, "right join", n, l + 2 * r);
    let mut t = a.clone();
    let (n, _) = spent(|| t.outer_join_with(y, |k, _, _| keep(k), |k, _| if keep(k) { Some(1) } else { None }));
    within(c, "outer join", n, 2 * l + 3 * r + build);
}
fn cost(c: &mut Case) {
    let small = c.rng.range(1, 6);
    let top = if c.rng.below(4) == 0 { 6000 } else { 2000 };
    let large = c.rng.range(1200, top);
    let (n, m) = match c.rng.below(5) {
        0 | 1 => (small, large),
        2 | 3 => (large, small),
        _ => (large, c.rng.range(500, 1500)),
    };
    let of = c.rng.range(2, 4) * n.max(m);
    let mut keys = |n: usize| -> Vec<u32> { (0..n).map(|_| c.rng.below(of) as u32).collect() };
    let (ka, kb) = (keys(n), keys(m));
    c.note(&(&ka, &kb));
    c.log(|| format!("{n} keys with {m}"));
    let a: BTreeMap<Ck, u32> = ka.into_iter().map(|k| (Ck(k), k)).collect();
    let b: BTreeMap<Ck, u64> = kb.into_iter().map(|k| (Ck(k), k as u64)).collect();
    c.nontrivial = true;
    let (ba, bb) = (arch::to_bytes(&a), arch::to_bytes(&b));
    let x: &Archived<BTreeMap<Ck, u32>> = arch::root::<BTreeMap<Ck, u32>>(&ba);
    let y: &Archived<BTreeMap<Ck, u64>> = arch::root::<BTreeMap<Ck, u64>>(&bb);
    costs(c, &a, &b, &a, &b, "native with native");
    costs(c, &a, y, &a, &b, "native with archived");
    costs(c, x, &b, &a, &b, "archived with native");
    costs(c, x, y, &a, &b, "archived with archived");
    costs_inplace(c, &b, &a, &b, "native");
    costs_inplace(c, y, &a, &b, "archived");
}
fn main() {
    vcmon::main("P18", &[Scenario { name: "native", weight: 2, run: any_native }, Scenario { name: "archived", weight: 3, run: any_archived }, Scenario { name: "cost", weight: 1, run: cost }])
}

//! P08: small collections never touch the heap. Oracle: a counting global allocator.
use smallvec::Array;
use vcmon::*;
use vec_collections::{total_vec_map::TotalVecMap, total_vec_set::TotalVecSet, AbstractVecMap, AbstractVecSet, OuterJoinArg, VecMap, VecSet};

fn quiet<R>(c: &mut Case, what: &str, detail: impl Fn() -> String, f: impl FnOnce() -> R) -> R {
    let (r, n) = alloc::count_allocs(f);
    c.count("operations_watched", 1);
    c.log(|| format!("{what}: {n} allocations; {}", detail()));
    ensure!(c, n == 0, "unexpected heap allocation", "{what}: {n} allocations; {}", detail());
    r
}

fn small_set<A: Array<Item = u32>>(c: &mut Case) {
    let cap = A::size();
    let u = 2 * cap + 3;
    let mut s: VecSet<A> = quiet(c, "empty", String::new, VecSet::empty);
    for _ in 0..c.steps(20) {
        let k = c.rng.below(u) as u32;
        let before: Vec<u32> = s.iter().copied().collect();
        let d = || format!("inline {cap}, {before:?}, key {k}");
        match c.rng.below(7) {
            0 | 1 => {
                if before.len() < cap || before.contains(&k) {
                    quiet(c, "insert", d, || s.insert(k));
                    c.count("fitting_inserts", 1);
                }
            }
            2 => {
                quiet(c, "remove", d, || s.remove(&k));
            }
            3 => {
                quiet(c, "contains", d, || s.contains(&k));
            }
            4 => {
                let q = c.rng.range(1, 4) as u32;
                quiet(c, "retain", d, || s.retain(|x| x % q != 0));
            }
            5 => {
                let n = c.rng.below(cap + 1);
                let ks = gen::sequence(c, n);
                let h = gen::hint(c, n);
                let h = (h.0, h.1);
                s = quiet(c, "collect", || format!("inline {cap}, {ks:?}"), || gen::Hinted { i: ks.iter().copied(), hint: h }.collect());
                c.count("fitting_collects", 1);
            }
            _ => {
                let t = quiet(c, "clone", d, || s.clone());
                quiet(c, "equality", d, || s == t);
                quiet(c, "iteration", d, || s.iter().count());
                s = quiet(c, "owned", d, || t);
            }
        }
        c.note(&(cap, s.as_ref()));
        c.nontrivial |= s.len() > 1;
    }
}
fn small_map<A: Array<Item = (u32, u64)>>(c: &mut Case) {
    let cap = A::size();
    let u = 2 * cap + 3;
    let mut s: VecMap<A> = quiet(c, "empty", String::new, VecMap::empty);
    for i in 0..c.steps(20) as u64 {
        let k = c.rng.below(u) as u32;
        let before: Vec<(u32, u64)> = s.as_ref().to_vec();
        let d = || format!("inline {cap}, {before:?}, key {k}");
        match c.rng.below(8) {
            0 | 1 => {
                if before.len() < cap || before.iter().any(|x| x.0 == k) {
                    quiet(c, "map insert", d, || s.insert(k, i));
                    c.count("fitting_inserts", 1);
                }
            }
            2 => {
                quiet(c, "map get_mut", d, || s.get_mut(&k).map(|x| *x += 1));
            }
            3 => {
                quiet(c, "map get", d, || s.get(&k).copied());
            }
            4 => {
                let q = c.rng.range(1, 4) as u32;
                quiet(c, "map retain", d, || s.retain(|x| x.0 % q != 0));
            }
            5 => {
                let n = c.rng.below(cap + 1);
                let ks = gen::sequence(c, n);
                let h = gen::hint(c, n);
                s = quiet(c, "map collect", || format!("inline {cap}, {ks:?}"), || gen::Hinted { i: ks.iter().map(|k| (*k, i)), hint: h }.collect());
                c.count("fitting_collects", 1);
            }
            6 => {
                s = quiet(c, "map_values", d, || s.clone().map_values(|x| x + 1));
            }
            _ => {
                let t = quiet(c, "clone", d, || s.clone());
                quiet(c, "equality", d, || s == t);
                quiet(c, "iteration", d, || s.iter().count());
            }
        }
        c.note(&(cap, s.as_ref()));
        c.nontrivial |= s.len() > 1;
    }
}

/// key lists whose result (and left side) fits into cap
fn small_pair(c: &mut Case, cap: usize) -> (Vec<u32>, Vec<u32>) {
    let u = (cap * 2).max(2);
    let n = c.rng.below(cap + 1);
    let big = c.rng.chance(1, 3);
    let m = if big { c.rng.below(60) } else { c.rng.below(cap + 1) };
    let v = if big { 60.max(u) } else { u };
    (gen::keys(c, n, u), gen::keys(c, m, v))
}

fn combine_sets<A: Array<Item = u32>, B: Array<Item = u32>>(c: &mut Case) {
    let cap = A::size();
    let (ka, kb) = small_pair(c, cap);
    c.note(&(cap, &ka, &kb));
    let a: VecSet<A> = ka.iter().copied().collect();
    let b: VecSet<B> = kb.iter().copied().collect();
    for op in 0..4 {
        let res = sets::expected(op, &ka, &kb);
        let union = sets::expected(0, &ka, &kb).len();
        let d = || format!("{} of {ka:?} and {kb:?}, inline {cap} and {}", sets::OPS[op], B::size());
        if res.len() <= cap {
            c.nontrivial = true;
            c.count("fitting_results", 1);
            for f in 0..sets::REF_FORMS {
                quiet(c, "set operation by reference", d, || sets::by_ref(op, f, &a, &b).len());
            }
        }
        // while an in place operation is under way it holds what it has of the result and what is left of the left side
        if union <= cap || op == 1 || op == 2 {
            let (mut x, y) = (a.clone(), b.clone());
            quiet(c, "set operation in place, owned", d, || sets::assign_owned(op, &mut x, y));
            let mut x = a.clone();
            quiet(c, "set operation in place, borrowed", d, || sets::assign_ref(op, &mut x, &b));
            let mut x = a.clone();
            quiet(c, "set operation in place, method", d, || sets::with_op(op, &mut x, &b));
        }
        if union <= cap && kb.len() <= cap {
            let mut x = a.clone();
            quiet(c, "extend", d, || x.extend(kb.iter().copied()));
        }
    }
}
fn combine_maps<A: Array<Item = (u32, u64)>, B: Array<Item = (u32, u64)>>(c: &mut Case) {
    let cap = A::size();
    let (ka, kb) = small_pair(c, cap);
    c.note(&(cap, &ka, &kb, 1));
    let a: VecMap<A> = ka.iter().map(|k| (*k, *k as u64)).collect();
    let b: VecMap<B> = kb.iter().map(|k| (*k, *k as u64)).collect();
    let union = sets::expected(0, &ka, &kb).len();
    let inner = sets::expected(1, &ka, &kb).len();
    let q = c.rng.range(1, 4) as u32;
    let keep = |k: u32| k % q != 1 || q == 1;
    let fits = |n: usize| n <= cap;
    let d = || format!("joins of {ka:?} and {kb:?}, inline {cap} and {}", B::size());
    if fits(union) {
        c.nontrivial = true;
        c.count("fitting_results", 1);
        quiet(c, "outer_join", d, || {
            let r: VecMap<A> = a.outer_join(&b, |x| match x {
                OuterJoinArg::Left(k, v) | OuterJoinArg::Right(k, v) | OuterJoinArg::Both(k, v, _) => keep(*k).then_some(*v),
            });
            r.len()
        });
        let mut x = a.clone();
        quiet(c, "outer_join_with", d, || {
            x.outer_join_with(&b, |x| match x {
                OuterJoinArg::Left(k, v) => keep(*k).then_some(v),
                OuterJoinArg::Right(k, v) => keep(*k).then_some(*v),
                OuterJoinArg::Both(k, v, _) => keep(*k).then_some(v),
            })
        });
        let mut x = a.clone();
        quiet(c, "right_join_with", d, || x.right_join_with(&b, |k, _, w| keep(*k).then_some(*w)));
        let (mut x, y) = (a.clone(), b.clone());
        quiet(c, "merge_with", d, || x.merge_with(y));
        let (mut x, y) = (a.clone(), b.clone());
        quiet(c, "combine_with", d, || x.combine_with(y, |p, q| p + q));
        if fits(kb.len()) {
            let mut x = a.clone();
            quiet(c, "map extend", d, || x.extend(kb.iter().map(|k| (*k, 1))));
        }
    }
    if fits(kb.len()) {
        quiet(c, "right_join", d, || {
            let r: VecMap<A> = a.right_join(&b, |k, _, w| keep(*k).then_some(*w));
            r.len()
        });
    }
    if fits(inner) {
        c.nontrivial = true;
        quiet(c, "inner_join", d, || {
            let r: VecMap<A> = a.inner_join(&b, |k, _, w| keep(*k).then_some(*w));
            r.len()
        });
    }
    quiet(c, "left_join", d, || {
        let r: VecMap<A> = a.left_join(&b, |k, v, _| keep(*k).then_some(*v));
        r.len()
    });
    let mut x = a.clone();
    quiet(c, "inner_join_with", d, || x.inner_join_with(&b, |k, v, _| keep(*k).then_some(v)));
    let mut x = a.clone();
    quiet(c, "left_join_with", d, || x.left_join_with(&b, |k, v, _| keep(*k).then_some(v)));
    quiet(c, "map comparison", d, || (a == a.clone(), a.cmp(&a)));
}

/// any size: in place intersection and difference, comparisons, lookups and removals do not allocate
fn any_size<A: Array<Item = u32>, B: Array<Item = u32>>(c: &mut Case) {
    let (ka, kb) = gen::pair(c, 600);
    c.note(&(&ka, &kb, 2));
    c.nontrivial = !ka.is_empty() && !kb.is_empty();
    let d = || format!("{ka:?} and {kb:?}, inline {} and {}", A::size(), B::size());
    let a: VecSet<A> = ka.iter().copied().collect();
    let b: VecSet<B> = kb.iter().copied().collect();
    let b2: VecSet<A> = kb.iter().copied().collect();
    for op in [1, 2] {
        let (mut x, y) = (a.clone(), b.clone());
        quiet(c, "in place, owned", d, || sets::assign_owned(op, &mut x, y));
        let mut x = a.clone();
        quiet(c, "in place, borrowed", d, || sets::assign_ref(op, &mut x, &b));
        let mut x = a.clone();
        quiet(c, "in place, method", d, || sets::with_op(op, &mut x, &b));
    }
    quiet(c, "relations", d, || (a.is_subset(&b), a.is_superset(&b), a.is_disjoint(&b)));
    quiet(c, "comparison", d, || (a == b2, a.cmp(&b2), a < b2));
    let mut x = a.clone();
    let k = c.rng.below(100) as u32;
    quiet(c, "removal", d, || (x.contains(&k), x.remove(&k), x.retain(|v| *v != k + 1)));
    let ma: VecMap<[(u32, u64); 2]> = ka.iter().map(|k| (*k, 0)).collect();
    let mb: VecMap<[(u32, u64); 4]> = kb.iter().map(|k| (*k, 0)).collect();
    let mut x = ma.clone();
    quiet(c, "inner_join_with", d, || x.inner_join_with(&mb, |_, v, _| Some(v)));
    let mut x = ma.clone();
    quiet(c, "left_join_with", d, || x.left_join_with(&mb, |k, v, _| (k % 3 > 0).then_some(v)));
    quiet(c, "map comparison", d, || (ma == ma, ma.cmp(&ma), ma.get(&k)));
    c.count("any_size", 1);
}

/// total sets and maps hold what they store as sets and maps do
fn total_sets<A: Array<Item = u32>>(c: &mut Case) {
    let cap = A::size();
    let (mut ka, mut kb) = small_pair(c, cap);
    if c.rng.chance(1, 3) {
        // two large ones with little difference, or little in common
        ka = kb.clone();
        if c.rng.bool() {
            ka.retain(|x| x % 7 > 0);
        } else {
            ka.iter_mut().for_each(|x| *x += 55);
        }
    }
    if c.rng.bool() {
        std::mem::swap(&mut ka, &mut kb)
    }
    let (fa, fb) = (c.rng.bool(), c.rng.bool());
    c.note(&(cap, &ka, &kb, fa, fb));
    c.nontrivial = ka.len() + kb.len() > 1;
    let d = || format!("{}{ka:?} and {}{kb:?}, inline {cap}", if fa { "!" } else { "" }, if fb { "!" } else { "" });
    let mk = |c: &mut Case, k: &[u32], f: bool| -> TotalVecSet<A> {
        let s: VecSet<A> = k.iter().copied().collect();
        quiet(c, "total set of a set, complement", d, || {
            let t: TotalVecSet<A> = s.into();
            if f {
                !t
            } else {
                t
            }
        })
    };
    let (a, b) = (mk(c, &ka, fa), mk(c, &kb, fb));
    quiet(c, "constant total sets", d, || drop((TotalVecSet::<A>::all(), TotalVecSet::<A>::empty(), TotalVecSet::<A>::constant(true))));
    // what an operation stores, by the two signs: union, intersection, left or right difference, xor
    let e = |op: usize| sets::expected(op, &ka, &kb).len();
    let rd = sets::expected(2, &kb, &ka).len();
    let stored = [
        // and, or, xor, sub
        match (fa, fb) {
            (false, false) => e(1),
            (false, true) => e(2),
            (true, false) => rd,
            _ => e(0),
        },
        match (fa, fb) {
            (false, false) => e(0),
            (false, true) => rd,
            (true, false) => e(2),
            _ => e(1),
        },
        e(3),
        match (fa, fb) {
            (false, false) => e(2),
            (false, true) => e(1),
            (true, false) => e(0),
            _ => rd,
        },
    ];
    for (op, n) in stored.into_iter().enumerate() {
        if n <= cap {
            c.count("fitting_results", 1);
            quiet(c, ["total &", "total |", "total ^", "total -"][op], d, || {
                drop(match op {
                    0 => &a & &b,
                    1 => &a | &b,
                    2 => &a ^ &b,
                    _ => &a - &b,
                })
            });
        }
        if e(0) <= cap {
            let (mut x, y) = (a.clone(), b.clone());
            quiet(c, ["total &=", "total |=", "total ^=", "total -="][op], d, || match op {
                0 => x &= y,
                1 => x |= y,
                2 => x ^= y,
                _ => x -= y,
            });
        }
    }
    quiet(c, "total relations", d, || (a.is_subset(&b), a.is_superset(&b), a.is_disjoint(&b), a == b, a.is_all(), a.is_empty()));
    let mut t = a.clone();
    let u = 130;
    for _ in 0..8 {
        let k = c.rng.below(u) as u32;
        quiet(c, "total contains", d, || t.contains(&k));
        // the stored elements: members, or holes
        let n = (0..u as u32).filter(|x| t.contains(x) != fa).count();
        if fa || n < cap || t.contains(&k) {
            quiet(c, "total insert", d, || t.insert(k));
            c.count("fitting_inserts", 1);
        }
        let k = c.rng.below(u) as u32;
        let n = (0..u as u32).filter(|x| t.contains(x) != fa).count();
        if !fa || n < cap || !t.contains(&k) {
            quiet(c, "total remove", d, || t.remove(&k));
        }
    }
    c.count("totals", 1);
}
fn total_maps<A: Array<Item = (u32, u64)>>(c: &mut Case) {
    let cap = A::size();
    let (ka, kb) = small_pair(c, cap);
    c.note(&(cap, &ka, &kb, 5));
    c.nontrivial = ka.len() + kb.len() > 1;
    let d = || format!("{ka:?} and {kb:?}, inline {cap}");
    let mk = |c: &mut Case, k: &[u32]| -> TotalVecMap<u64, A> {
        let m: VecMap<A> = k.iter().map(|k| (*k, (*k % 3) as u64)).collect();
        quiet(c, "total map of a map", d, || TotalVecMap::new(m, 1))
    };
    let (a, b) = (mk(c, &ka), mk(c, &kb));
    // what is stored of a result: keys with a value other than the new default
    let keys: std::collections::BTreeSet<u32> = ka.iter().chain(&kb).copied().collect();
    let stored = |f: &dyn Fn(&u64, &u64) -> u64| keys.iter().filter(|k| f(&a[*k], &b[*k]) != f(&1, &1)).count();
    let f = |x: &u64, y: &u64| (x * 2 + y) % 3;
    let g = |x: &u64, y: &u64| x * y % 2;
    let counts = [stored(&f), stored(&|x, y| *x.max(y)), stored(&|x, y| *x.min(y)), stored(&|x, y| x + y), stored(&g)];
    for (op, n) in counts.into_iter().enumerate() {
        if n > cap {
            continue;
        }
        c.count("fitting_results", 1);
        match op {
            0 => quiet(c, "combine_ref", d, || drop(a.combine_ref(&b, f))),
            1 => quiet(c, "supremum", d, || drop(a.supremum(&b))),
            2 => quiet(c, "infimum", d, || drop(a.infimum(&b))),
            3 => {
                let (x, y) = (a.clone(), b.clone());
                quiet(c, "total map +", d, || drop(x + y))
            }
            _ => quiet(c, "combine_ref", d, || drop(a.combine_ref(&b, g))),
        }
    }
    quiet(c, "total map_values", d, || drop(a.map_values::<u64, _, A>(|x| (x + 1) % 3)));
    let k = c.rng.below(2 * cap + 3) as u32;
    quiet(c, "total map index", d, || a[&k]);
    quiet(c, "total map comparison", d, || (a == b, a.cmp(&b), a.clone() == a));
    quiet(c, "constant total map", d, || drop(TotalVecMap::<u64, A>::constant(7)));
    c.count("totals", 1);
}
/// a collection that fits is inline after shrinking, any other is one allocation of just its elements
fn shrunk<A: Array<Item = u64>>(c: &mut Case) {
    let cap = A::size();
    let n = if c.rng.bool() { c.rng.below(cap + 3) } else { c.size(300) };
    let extra = c.rng.below(2 * n + 3);
    c.note(&(cap, n, extra));
    c.nontrivial = n > 1;
    let total = c.rng.bool();
    let live = |f: &mut dyn FnMut()| {
        let b = alloc::snap().live;
        f();
        alloc::snap().live - b
    };
    let mut s: Option<VecSet<A>> = None;
    let mut t: Option<TotalVecSet<A>> = None;
    let held = live(&mut || {
        let mut x: VecSet<A> = (0..(n + extra) as u64).collect();
        x.retain(|y| *y < n as u64);
        if total {
            let mut y: TotalVecSet<A> = x.into();
            y = !y;
            y.shrink_to_fit();
            t = Some(y);
        } else {
            x.shrink_to_fit();
            s = Some(x);
        }
    });
    let want = if n <= cap { 0 } else { n * 8 };
    let d = format!("{n} elements after {extra} more, inline {cap}, total {total}: {held} bytes");
    c.log(|| d.clone());
    ensure!(c, held == want as i64, "shrunk collection does not hold just its elements", "{d}, expected {want}");
    if let Some(s) = &s {
        ensure!(c, s.len() == n && s.iter().copied().eq(0..n as u64), "shrinking changed the contents", "{d}");
    }
    if let Some(t) = &t {
        ensure!(c, (0..(n + extra) as u64).all(|x| t.contains(&x) == (x >= n as u64)), "shrinking changed the contents", "{d}");
    }
    c.count("shrunk", 1);
}

fn totals1(c: &mut Case) {
    let n = c.cap();
    with_cap!(n, u32, total_sets(c))
}
fn totals2(c: &mut Case) {
    let n = c.cap();
    with_cap!(n, (u32, u64), total_maps(c))
}
fn shrinks(c: &mut Case) {
    let n = c.cap();
    with_cap!(n, u64, shrunk(c))
}
fn sets1(c: &mut Case) {
    let n = c.cap();
    with_cap!(n, u32, small_set(c))
}
fn maps1(c: &mut Case) {
    let n = c.cap();
    with_cap!(n, (u32, u64), small_map(c))
}
fn sets2(c: &mut Case) {
    let (n, m) = (c.cap(), c.cap());
    with_caps!(n, m, u32, u32, combine_sets(c))
}
fn maps2(c: &mut Case) {
    let (n, m) = (c.cap(), c.cap());
    with_caps!(n, m, (u32, u64), (u32, u64), combine_maps(c))
}
fn sets3(c: &mut Case) {
    let (n, m) = (c.cap(), c.cap());
    with_caps!(n, m, u32, u32, any_size(c))
}

fn main() {
    vcmon::main(
        "P08",
        &[
            Scenario { name: "one_set", weight: 3, run: sets1 },
            Scenario { name: "one_map", weight: 3, run: maps1 },
            Scenario { name: "two_sets", weight: 4, run: sets2 },
            Scenario { name: "two_maps", weight: 4, run: maps2 },
            Scenario { name: "total_sets", weight: 3, run: totals1 },
            Scenario { name: "total_maps", weight: 2, run: totals2 },
            Scenario { name: "shrunk", weight: 2, run: shrinks },
            Scenario { name: "any_size", weight: 3, run: sets3 },
        ],
    )
}

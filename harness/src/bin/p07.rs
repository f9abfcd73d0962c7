//! P07: building, merging and lookup stay within their cost. Oracle: counted comparisons and live
//! elements (ledger of Tok) against explicit bounds; the constants leave room above what the
//! algorithms need, the growth rates are the promised ones.
use smallvec::Array;
use vcmon::sets::*;
use vcmon::tok::{self, KeyRef, Tok};
use vcmon::*;
use rkyv::Archived;
use vec_collections::{total_vec_map::TotalVecMap, total_vec_set::TotalVecSet, AbstractVecMap, AbstractVecSet, OuterJoinArg, VecMap, VecSet};

fn lg(n: usize) -> u64 {
    (usize::BITS - n.max(1).leading_zeros()) as u64
}
fn big(c: &mut Case) -> usize {
    if c.small {
        return c.rng.below(40);
    }
    match c.rng.below(8) {
        0 => c.rng.below(40),
        1 => c.rng.below(8000),
        2 => c.rng.below(if c.thorough { 60_000 } else { 12_000 }),
        _ => c.rng.below(1500),
    }
}

fn build_cost<A: Array<Item = Tok>, M: Array<Item = (Tok, u32)>>(c: &mut Case) {
    let n = big(c);
    let mut keys = gen::sequence(c, n);
    if c.rng.chance(1, 4) {
        // few distinct elements, many inputs
        let u = 1 + c.rng.below(40) as u32;
        keys.iter_mut().for_each(|k| *k %= u);
    }
    let sorted = keys.windows(2).all(|w| w[0] <= w[1]);
    c.note(&keys);
    let map = c.rng.chance(1, 3);
    c.log(|| format!("{} keys, sorted {sorted}, map {map}: {:?}", n, &keys[..n.min(50)]));
    tok::reset_cmps();
    tok::reset_max_live();
    let base = tok::live();
    let hint = gen::hint(c, n);
    let it = gen::Hinted { i: keys.iter().map(|k| Tok::new(*k, 0)), hint };
    let len = if map {
        let m: VecMap<M> = it.map(|k| (k, 0)).collect();
        m.len()
    } else {
        let s: VecSet<A> = it.collect();
        s.len()
    };
    let (cmps, held) = (tok::cmps(), tok::max_live() - base);
    c.nontrivial = n > 16 && len > 1;
    c.count("builds", 1);
    c.count("comparisons", cmps);
    if n > 64 {
        c.maxc("max_held_percent_of_result", (held * 100 / (len + 16)) as u64);
    }
    ensure!(c, held <= 2 * len + 24, "too much intermediate storage", "{held} elements held at once for {len} results from {n} inputs");
    let n = n as u64;
    if sorted {
        c.count("sorted_inputs", 1);
        ensure!(c, cmps <= 4 * n + 64, "too many comparisons for sorted input", "{cmps} for {n} sorted inputs");
    }
    let worst = n * lg(n as usize) * lg(n as usize) + 64;
    if n > 64 {
        c.maxc("max_build_cmps_percent_of_n_log2", cmps * 100 / (n * lg(n as usize)));
    }
    ensure!(c, cmps <= worst, "too many comparisons to build", "{cmps} for {n} inputs, bound {worst}");
}
fn building(c: &mut Case) {
    if c.rng.bool() {
        build_cost::<[Tok; 2], [(Tok, u32); 1]>(c)
    } else {
        build_cost::<[Tok; 16], [(Tok, u32); 8]>(c)
    }
}
/// memory, not only elements, stays proportional to the result
fn memory(c: &mut Case) {
    let n = big(c);
    let u = 1 + c.rng.below(n.max(1));
    let keys: Vec<u64> = gen::sequence(c, n).into_iter().map(|x| x as u64 % u as u64).collect();
    c.note(&keys);
    let (s, peak, _) = alloc::peak(|| keys.iter().copied().collect::<VecSet<[u64; 2]>>());
    c.nontrivial = n > 16;
    c.count("builds", 1);
    // vector capacity up to twice the 2r elements held, old buffer while it grows, merge buffer of the sort
    let bound = 8 * 8 * (s.len() as i64 + 32) + 8192;
    ensure!(c, peak <= bound, "too much intermediate memory", "{peak} bytes for {} results of 8 bytes from {n} inputs, bound {bound}", s.len());
}

fn lookup(c: &mut Case) {
    let n = big(c);
    let step = 1 + c.rng.below(3) as u32;
    let mut s: VecSet<[Tok; 2]> = (0..n as u32).map(|i| Tok::new(i * step, 0)).collect();
    let mut m: VecMap<[(Tok, u32); 1]> = (0..n as u32).map(|i| (Tok::new(i * step, 0), i)).collect();
    let mut ts: TotalVecSet<[Tok; 2]> = s.clone().into();
    if c.rng.bool() {
        ts = !ts;
    }
    let neg = ts.is_all() || !ts.is_empty() && ts.contains(&Tok::new(u32::MAX, 0));
    let tm: TotalVecMap<u32, [(Tok, u32); 1]> = TotalVecMap::new(m.clone(), u32::MAX);
    let (bs, bm) = (arch::to_bytes(&s), arch::to_bytes(&m));
    let (as_, am): (&Archived<VecSet<[Tok; 2]>>, &Archived<VecMap<[(Tok, u32); 1]>>) = (arch::root::<VecSet<[Tok; 2]>>(&bs), arch::root::<VecMap<[(Tok, u32); 1]>>(&bm));
    c.note(&(n, step));
    c.nontrivial = n > 1;
    // leaves room for a linear scan of a short rest
    let bound = 2 * lg(n) + 20;
    for _ in 0..20 {
        let k = c.rng.below(n * step as usize + 3) as u32;
        let t = Tok::new(k, 0);
        let hit = k % step == 0 && ((k / step) as usize) < n;
        let mut costs: Vec<(&str, u64)> = vec![];
        macro_rules! look {
            ($what:expr, $e:expr, $w:expr) => {{
                tok::reset_cmps();
                let g = $e;
                let n = tok::cmps();
                ensure!(c, g == $w, "lookup wrong", "{}", $what);
                costs.push(($what, n));
            }};
        }
        look!("contains", s.contains(&t), hit);
        look!("map get", m.get(&t).is_some(), hit);
        look!("map get by borrowed key", m.get(&KeyRef(k)).is_some(), hit);
        look!("map get_mut", m.get_mut(&t).is_some(), hit);
        look!("archived contains", AbstractVecSet::contains(as_, &t), hit);
        look!("archived get", AbstractVecMap::get(am, &t).is_some(), hit);
        look!("archived get by borrowed key", AbstractVecMap::get(am, &KeyRef(k)).is_some(), hit);
        look!("total set contains", ts.contains(&t), hit != neg);
        look!("total map index", tm[&t] != u32::MAX, hit);
        look!("total map index by borrowed key", tm[&KeyRef(k)] != u32::MAX, hit);
        // single insertions and removals move elements but find their place like a lookup
        match c.rng.below(6) {
            0 => {
                let t = t.clone();
                look!("insert", s.insert(t), !hit);
                if !hit {
                    look!("remove", s.remove(&Tok::new(k, 1)), true);
                }
            }
            1 => {
                let mut s2 = s.clone();
                look!("remove", s2.remove(&t), hit);
            }
            2 => {
                let mut m2 = m.clone();
                let t = t.clone();
                look!("map insert", m2.insert(t, 7).is_some(), hit);
            }
            3 => {
                let mut t2 = ts.clone();
                let t3 = t.clone();
                look!("total insert", t2.insert(t3), ());
                ensure!(c, t2.contains(&t), "lookup wrong", "inserted");
            }
            4 => {
                let mut t2 = ts.clone();
                look!("total remove", t2.remove(&t), ());
                ensure!(c, !t2.contains(&t), "lookup wrong", "removed");
            }
            _ => {}
        }
        c.count("lookups", costs.len() as u64);
        for (what, n2) in costs {
            c.count("comparisons", n2);
            c.maxc("max_lookup_cmps_minus_log", n2.saturating_sub(lg(n)));
            ensure!(c, n2 <= bound, "too many comparisons to look up", "{what} of {k} among {n}: {n2}, bound {bound}");
        }
    }
}

/// bound on comparisons of one merge of sizes n and m
fn merge_bound(n: usize, m: usize) -> u64 {
    let (s, l) = (n.min(m), n.max(m));
    let linear = 3 * (n + m) as u64 + 32;
    let log = 6 * (s as u64 + 1) * (lg(l) + 2) + 32;
    linear.min(log)
}
fn sizes(c: &mut Case) -> (Vec<u32>, Vec<u32>) {
    if c.rng.bool() {
        gen::pair(c, 2000)
    } else {
        let l = big(c);
        let s = c.rng.below(20).min(l);
        let u = (l * (1 + c.rng.below(3))).max(1);
        let a = gen::keys(c, l, u);
        let lo = c.rng.below(u) as u32;
        let b = match c.rng.below(4) {
            0 => (0..s as u32).map(|i| lo + i).collect(),
            1 => gen::keys(c, s, u),
            2 if !a.is_empty() => {
                // some elements of a
                let mut v: Vec<u32> = (0..s).map(|_| *c.rng.pick(&a)).collect();
                v.sort();
                v.dedup();
                v
            }
            _ => (0..s as u32).map(|i| u as u32 + 5 + i).collect(),
        };
        if c.rng.bool() {
            (a, b)
        } else {
            (b, a)
        }
    }
}
fn merging(c: &mut Case) {
    let (ka, kb) = sizes(c);
    let (n, m) = (ka.len(), kb.len());
    c.note(&(&ka, &kb));
    c.nontrivial = n > 1 && m > 1;
    c.log(|| format!("{n} and {m} elements: {:?} and {:?}", &ka[..n.min(20)], &kb[..m.min(20)]));
    let bound = merge_bound(n, m);
    let mk = |k: &[u32]| -> VecSet<[Tok; 2]> { k.iter().map(|k| Tok::new(*k, 0)).collect() };
    let mkm = |k: &[u32]| -> VecMap<[(Tok, u32); 2]> { k.iter().map(|k| (Tok::new(*k, 0), 1)).collect() };
    let (a, b) = (mk(&ka), mk(&kb));
    let (ma, mb) = (mkm(&ka), mkm(&kb));
    fn see(c: &mut Case, what: &str, n: usize, m: usize, bound: u64, f: impl FnOnce()) {
        tok::reset_cmps();
        f();
        let x = tok::cmps();
        c.count("comparisons", x);
        c.count("merges", 1);
        if n + m > 100 {
            c.maxc("max_merge_cmps_percent_of_bound", x * 100 / bound.max(1));
        }
        ensure!(c, x <= bound, "too many comparisons to merge", "{what} of {n} and {m}: {x}, bound {bound}");
    }
    for op in 0..4 {
        see(c, OPS[op], n, m, bound, || drop(by_ref(op, 0, &a, &b)));
        let (mut x, y) = (a.clone(), b.clone());
        see(c, "in place, owned", n, m, bound, || assign_owned(op, &mut x, y));
        let mut x = a.clone();
        see(c, "in place, borrowed", n, m, bound, || assign_ref(op, &mut x, &b));
    }
    see(c, "is_subset", n, m, bound, || drop(AbstractVecSet::is_subset(&a, &b)));
    see(c, "is_superset", n, m, bound, || drop(AbstractVecSet::is_superset(&a, &b)));
    see(c, "is_disjoint", n, m, bound, || drop(AbstractVecSet::is_disjoint(&a, &b)));
    see(c, "==", n, m, (n + m) as u64 + 1, || drop(a == b));
    see(c, "cmp", n, m, (n + m) as u64 + 1, || drop(a.cmp(&b)));
    type R = VecMap<[(Tok, u32); 1]>;
    match c.rng.below(4) {
        0 => see(c, "outer_join", n, m, bound, || drop::<R>(ma.outer_join(&mb, |_: OuterJoinArg<_, _, _>| Some(1)))),
        1 => see(c, "left_join", n, m, bound, || drop::<R>(ma.left_join(&mb, |_, _, _| Some(1)))),
        2 => see(c, "right_join", n, m, bound, || drop::<R>(ma.right_join(&mb, |_, _, _| Some(1)))),
        _ => see(c, "inner_join", n, m, bound, || drop::<R>(ma.inner_join(&mb, |_, _, _| Some(1)))),
    }
    let mut x = ma.clone();
    match c.rng.below(5) {
        0 => see(c, "outer_join_with", n, m, bound, || x.outer_join_with(&mb, |_| Some(1))),
        1 => see(c, "left_join_with", n, m, bound, || x.left_join_with(&mb, |_, _, _| Some(1))),
        2 => see(c, "right_join_with", n, m, bound, || x.right_join_with(&mb, |_, _, _| Some(1))),
        3 => see(c, "inner_join_with", n, m, bound, || x.inner_join_with(&mb, |_, _, _| Some(1))),
        _ => see(c, "merge_with", n, m, bound, || x.merge_with(mb)),
    }
}

/// merges with archived operands, and of total sets and maps, which are merges of what they store
fn merging_others(c: &mut Case) {
    let (ka, kb) = sizes(c);
    let (n, m) = (ka.len(), kb.len());
    c.note(&(&ka, &kb, 1));
    c.nontrivial = n > 1 && m > 1;
    c.log(|| format!("{n} and {m} elements: {:?} and {:?}", &ka[..n.min(20)], &kb[..m.min(20)]));
    let bound = merge_bound(n, m);
    fn see<R>(c: &mut Case, what: &str, n: usize, m: usize, bound: u64, f: impl FnOnce() -> R) -> R {
        tok::reset_cmps();
        let r = f();
        let x = tok::cmps();
        c.count("comparisons", x);
        c.count("merges", 1);
        if n + m > 100 {
            c.maxc("max_merge_cmps_percent_of_bound", x * 100 / bound.max(1));
        }
        ensure!(c, x <= bound, "too many comparisons to merge", "{what} of {n} and {m}: {x}, bound {bound}");
        r
    }
    type S = VecSet<[Tok; 2]>;
    type M = VecMap<[(Tok, u32); 2]>;
    type R = VecMap<[(Tok, u32); 1]>;
    let mk = |k: &[u32]| -> S { k.iter().map(|k| Tok::new(*k, 0)).collect() };
    let mkm = |k: &[u32], v: u32| -> M { k.iter().map(|k| (Tok::new(*k, 0), v)).collect() };
    match c.rng.below(4) {
        0 => {
            let (a, b) = (mk(&ka), mk(&kb));
            let (xa, xb) = (arch::to_bytes(&a), arch::to_bytes(&b));
            let (ra, rb) = (arch::root::<S>(&xa), arch::root::<S>(&xb));
            for op in 0..4 {
                see(c, "archived and archived", n, m, bound, || drop(abstract_op::<Tok, [Tok; 2]>(op, ra, rb)));
                see(c, "archived and native", n, m, bound, || drop(abstract_op::<Tok, [Tok; 2]>(op, ra, &b)));
                see(c, "native and archived", n, m, bound, || drop(method_op(op, &a, rb)));
                let mut x = a.clone();
                see(c, "archived into native", n, m, bound, || with_op(op, &mut x, rb));
            }
            see(c, "archived is_subset", n, m, bound, || AbstractVecSet::is_subset(ra, rb));
            see(c, "archived is_superset", n, m, bound, || AbstractVecSet::is_superset(ra, &b));
            see(c, "archived is_disjoint", n, m, bound, || AbstractVecSet::is_disjoint(&a, rb));
        }
        1 => {
            let (a, b) = (mkm(&ka, 1), mkm(&kb, 2));
            let (xa, xb) = (arch::to_bytes(&a), arch::to_bytes(&b));
            let (ra, rb) = (arch::root::<M>(&xa), arch::root::<M>(&xb));
            see(c, "archived outer_join", n, m, bound, || drop::<R>(ra.outer_join(rb, |_: OuterJoinArg<_, _, _>| Some(1))));
            see(c, "archived left_join", n, m, bound, || drop::<R>(ra.left_join(&b, |_, _, _| Some(1))));
            see(c, "archived right_join", n, m, bound, || drop::<R>(a.right_join(rb, |_, _, _| Some(1))));
            see(c, "archived inner_join", n, m, bound, || drop::<R>(ra.inner_join(rb, |_, _, _| Some(1))));
            let mut x = a.clone();
            match c.rng.below(4) {
                0 => see(c, "archived outer_join_with", n, m, bound, || x.outer_join_with(rb, |_| Some(1))),
                1 => see(c, "archived left_join_with", n, m, bound, || x.left_join_with(rb, |_, _, _| Some(1))),
                2 => see(c, "archived right_join_with", n, m, bound, || x.right_join_with(rb, |_, _, _| Some(1))),
                _ => see(c, "archived inner_join_with", n, m, bound, || x.inner_join_with(rb, |_, _, _| Some(1))),
            }
        }
        2 => {
            let (fa, fb) = (c.rng.bool(), c.rng.bool());
            let t = |s: S, f: bool| -> TotalVecSet<[Tok; 2]> {
                let t: TotalVecSet<[Tok; 2]> = s.into();
                if f {
                    !t
                } else {
                    t
                }
            };
            let (a, b) = (t(mk(&ka), fa), t(mk(&kb), fb));
            see(c, "total &", n, m, bound, || drop(&a & &b));
            see(c, "total |", n, m, bound, || drop(&a | &b));
            see(c, "total ^", n, m, bound, || drop(&a ^ &b));
            see(c, "total -", n, m, bound, || drop(&a - &b));
            for op in 0..4 {
                let (mut x, y) = (a.clone(), b.clone());
                see(c, "total in place", n, m, bound, || match op {
                    0 => x &= y,
                    1 => x |= y,
                    2 => x ^= y,
                    _ => x -= y,
                });
            }
            see(c, "total is_subset", n, m, bound, || a.is_subset(&b));
            see(c, "total is_superset", n, m, bound, || a.is_superset(&b));
            see(c, "total is_disjoint", n, m, bound, || a.is_disjoint(&b));
            see(c, "total ==", n, m, (n + m) as u64 + 1, || a == b);
            see(c, "total !", n, m, 0, || drop(!a));
        }
        _ => {
            let (a, b): (TotalVecMap<u32, [(Tok, u32); 2]>, TotalVecMap<u32, [(Tok, u32); 2]>) = (TotalVecMap::new(mkm(&ka, 1), 0), TotalVecMap::new(mkm(&kb, 2), 0));
            let calls = std::cell::Cell::new(0u64);
            see(c, "combine_ref", n, m, bound, || {
                drop(a.combine_ref(&b, |x, y| {
                    calls.set(calls.get() + 1);
                    x + y
                }))
            });
            ensure!(c, calls.get() <= (n + m + 1) as u64, "combination function called too often", "{} calls for {n} and {m}", calls.get());
            see(c, "supremum", n, m, bound, || drop(a.supremum(&b)));
            see(c, "infimum", n, m, bound, || drop(a.infimum(&b)));
            see(c, "total map ==", n, m, (n + m) as u64 + 1, || a == b);
            see(c, "total map cmp", n, m, (n + m) as u64 * 2 + 1, || a.cmp(&b));
            see(c, "total map_values", n, m, 0, || drop(a.map_values::<u32, _, [(Tok, u32); 2]>(|x| x + 1)));
            let mm = mkm(&ka, 1);
            see(c, "total map new", n, m, n as u64, || drop(TotalVecMap::<u32, [(Tok, u32); 2]>::new(mm, 1)));
            see(c, "total map arithmetic", n, m, bound, || drop(a + b));
        }
    }
}

/// a counterexample near the start is found without looking at the rest
fn early(c: &mut Case) {
    let n = if c.small { 40 } else { c.rng.range(200, if c.thorough { 60_000 } else { 9000 }) };
    let at = c.rng.below(6);
    let kind = c.rng.below(3);
    c.note(&(n, at, kind));
    c.nontrivial = true;
    let mk = |it: &mut dyn Iterator<Item = u32>| -> VecSet<[Tok; 2]> { it.map(|k| Tok::new(k, 0)).collect() };
    let l = lg(2 * n);
    let bound = 2 * l * l + 16 * (at as u64 + 1);
    tok::reset_cmps();
    let (what, r) = match kind {
        0 => {
            // equal but for one element that is missing on the right
            let a = mk(&mut (0..n as u32));
            let b = mk(&mut (0..n as u32).filter(|x| *x != at as u32));
            tok::reset_cmps();
            ("is_subset", a.is_subset(&b))
        }
        1 => {
            let a = mk(&mut (0..n as u32).filter(|x| *x != at as u32));
            let b = mk(&mut (0..n as u32));
            tok::reset_cmps();
            ("is_superset", a.is_superset(&b))
        }
        _ => {
            // evens and odds but for one shared element
            let a = mk(&mut (0..n as u32).map(|x| x * 2));
            let b = mk(&mut (0..n as u32).map(|x| if x == at as u32 { x * 2 } else { x * 2 + 1 }));
            tok::reset_cmps();
            ("is_disjoint", a.is_disjoint(&b))
        }
    };
    let x = tok::cmps();
    c.count("comparisons", x);
    c.count("early_exits", 1);
    c.maxc("max_early_cmps_percent_of_bound", x * 100 / bound.max(1));
    c.log(|| format!("{what} of {n} elements, counterexample at {at}: {x} comparisons, bound {bound}"));
    ensure!(c, !r, "wrong answer", "{what}");
    ensure!(c, x <= bound, "counterexample near the start not found early", "{what} of {n} elements, counterexample at {at}: {x} comparisons, bound {bound}");
}

fn main() {
    vcmon::main(
        "P07",
        &[
            Scenario { name: "building", weight: 5, run: building },
            Scenario { name: "memory", weight: 1, run: memory },
            Scenario { name: "lookup", weight: 1, run: lookup },
            Scenario { name: "merging", weight: 6, run: merging },
            Scenario { name: "merging_others", weight: 4, run: merging_others },
            Scenario { name: "early", weight: 2, run: early },
        ],
    )
}

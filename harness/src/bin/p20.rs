//! P20: radix tree combinations compute the pointwise result in every form.
//! Oracle: pointwise definition on BTreeMaps, and the multiset of (left value, right value) the combining
//! function was called with (values are unique, so they identify the keys).
use std::cell::RefCell;
use vcmon::radix::*;
use vcmon::*;

type Calls = RefCell<Vec<(u32, Option<u32>)>>;

fn calls_ok(c: &mut Case, log: &Calls, mut want: Vec<(u32, Option<u32>)>, what: &str) {
    let mut got = log.take();
    got.sort();
    want.sort();
    c.count("combiner_calls", got.len() as u64);
    ensure!(c, got == want, "combiner consulted for the wrong keys", "{what}: called with (left, right) {}", {
        let miss: Vec<_> = want.iter().filter(|x| !got.contains(x)).take(4).collect();
        let extra: Vec<_> = got.iter().filter(|x| !want.contains(x)).take(4).collect();
        format!("missing {miss:?}, unexpected {extra:?}, {} calls, expected {}", got.len(), want.len())
    });
}
fn both<K: Sym>(a: &Model<K>, b: &Model<K>) -> Vec<(u32, Option<u32>)> {
    a.iter().filter_map(|(k, x)| b.get(k).map(|y| (*x, Some(*y)))).collect()
}

/// operands of the same flavour family: union and outer combinations
fn outer_with<K: Sym, T: Flavour<K, u32>, L, B>(c: &mut Case, l: &L, a: &T, b: &B, ma: &Model<K>, mb: &Model<K>, form: &str)
where
    L: AbstractRadixTree<K, u32, Materialized = T>,
    B: AbstractRadixTree<K, u32, Materialized = T>,
{
    let mode = c.rng.below(COMBS);
    let mut u = ma.clone();
    for (k, v) in mb {
        u.entry(k.clone()).or_insert(*v);
    }
    let mut o = ma.clone();
    for (k, v) in mb {
        let x = match ma.get(k) {
            None => Some(*v),
            Some(x) => comb(mode, *x, *v),
        };
        match x {
            Some(x) => o.insert(k.clone(), x),
            None => o.remove(k),
        };
    }
    let log: Calls = RefCell::default();
    let r = a.union(b);
    check_contents(c, &r, &u, "wrong union", form);
    let mut w = a.clone();
    w.union_with(b);
    check_contents(c, &w, &u, "wrong union in place", form);
    let lr = &log;
    let r = l.outer_combine(b, |x, y| {
        lr.borrow_mut().push((*x, Some(*y)));
        comb(mode, *x, *y)
    });
    check_contents(c, &r, &o, "wrong outer combination", form);
    calls_ok(c, &log, both(ma, mb), "outer_combine");
    let mut w = a.clone();
    w.outer_combine_with(b, |x, y| {
        lr.borrow_mut().push((*x, Some(*y)));
        upd(mode, x, *y)
    });
    check_contents(c, &w, &o, "wrong outer combination in place", form);
    calls_ok(c, &log, both(ma, mb), "outer_combine_with");
    c.count("results", 4);
}

fn inner_left<K: Sym, T: Flavour<K, u32>, L, W: Val, B>(c: &mut Case, l: &L, a: &T, b: &B, ma: &Model<K>, mb: &Model<K>, form: &str)
where
    L: AbstractRadixTree<K, u32, Materialized = T>,
    B: AbstractRadixTree<K, W>,
{
    let mode = c.rng.below(COMBS);
    // what the function makes of a left value without a right one
    let lmode = c.rng.below(3);
    let lonely = move |x: u32| match lmode {
        0 => Some(x),
        1 => None,
        _ if x % 2 == 0 => Some(x.wrapping_add(0x0200_0000)),
        _ => None,
    };
    let log: Calls = RefCell::default();
    let lr = &log;
    // intersection and difference
    let e: Model<K> = ma.iter().filter(|(k, _)| mb.contains_key(*k)).map(|(k, v)| (k.clone(), *v)).collect();
    let n: Model<K> = ma.iter().filter(|(k, _)| !mb.contains_key(*k)).map(|(k, v)| (k.clone(), *v)).collect();
    let r = a.intersection(b);
    check_contents(c, &r, &e, "wrong intersection", form);
    let mut w = a.clone();
    w.intersection_with(b);
    check_contents(c, &w, &e, "wrong intersection in place", form);
    let r = a.difference(b);
    check_contents(c, &r, &n, "wrong difference", form);
    let mut w = a.clone();
    w.difference_with(b);
    check_contents(c, &w, &n, "wrong difference in place", form);
    // inner
    let e: Model<K> = ma.iter().filter_map(|(k, x)| mb.get(k).and_then(|y| comb(mode, *x, W::norm(*y))).map(|v| (k.clone(), v))).collect();
    let calls = both(ma, &mb.iter().map(|(k, v)| (k.clone(), W::norm(*v))).collect());
    let r = l.inner_combine(b, |x, y: &W| {
        lr.borrow_mut().push((*x, Some(y.id())));
        comb(mode, *x, y.id())
    });
    check_contents(c, &r, &e, "wrong inner combination", form);
    calls_ok(c, &log, calls.clone(), "inner_combine");
    let mut w = a.clone();
    w.inner_combine_with(b, |x, y: &W| {
        lr.borrow_mut().push((*x, Some(y.id())));
        upd(mode, x, y.id())
    });
    check_contents(c, &w, &e, "wrong inner combination in place", form);
    calls_ok(c, &log, calls.clone(), "inner_combine_with");
    // left, by value: consulted for every left key
    let e: Model<K> = ma
        .iter()
        .filter_map(|(k, x)| {
            match mb.get(k) {
                Some(y) => comb(mode, *x, W::norm(*y)),
                None => lonely(*x),
            }
            .map(|v| (k.clone(), v))
        })
        .collect();
    let lcalls = ma.iter().map(|(k, x)| (*x, mb.get(k).map(|y| W::norm(*y)))).collect();
    let r = l.left_combine(b, |x, y: Option<&W>| {
        lr.borrow_mut().push((*x, y.map(|y| y.id())));
        match y {
            Some(y) => comb(mode, *x, y.id()),
            None => lonely(*x),
        }
    });
    check_contents(c, &r, &e, "wrong left combination", form);
    calls_ok(c, &log, lcalls, "left_combine");
    // in place: for common keys only
    let e: Model<K> = ma
        .iter()
        .filter_map(|(k, x)| {
            match mb.get(k) {
                Some(y) => comb(mode, *x, W::norm(*y)),
                None => Some(*x),
            }
            .map(|v| (k.clone(), v))
        })
        .collect();
    let mut w = a.clone();
    w.left_combine_with(b, |x, y: &W| {
        lr.borrow_mut().push((*x, Some(y.id())));
        upd(mode, x, y.id())
    });
    check_contents(c, &w, &e, "wrong left combination in place", form);
    calls_ok(c, &log, calls, "left_combine_with");
    c.count("results", 8);
}

fn pair<K: Sym>(c: &mut Case) -> (Model<K>, Model<K>) {
    let n = tree_size(c);
    let keys = Keys::<K>::new(c, n);
    let mut next = 10;
    let mut a = keys.model(c, &mut next);
    let mut b = keys.model(c, &mut next);
    match c.rng.below(8) {
        // one operand deep below the other
        0 => {
            let p = keys.probe(c);
            b = prefixed(&b, &p);
        }
        1 => {
            let p = keys.probe(c);
            a = prefixed(&a, &p);
        }
        2 => {
            let (p, q) = (keys.probe(c), keys.probe(c));
            a = prefixed(&a, &p);
            b = prefixed(&b, &q);
        }
        3 => {
            b = a.iter().map(|(k, v)| (k.clone(), v + 5000)).collect();
        }
        4 => {
            // single key on one side
            let k = keys.key(c);
            b = [(k, next)].into();
        }
        _ => {}
    }
    (a, b)
}

fn same<K: Sym, T: Flavour<K, u32>>(c: &mut Case) {
    start();
    let (ma, mb) = pair::<K>(c);
    c.log(|| format!("{} {}: {:?} with {:?}", T::NAME, K::NAME, listed(&ma), listed(&mb)));
    c.note(&(&ma, &mb));
    let a: T = build(c, &ma);
    let b: T = build(c, &mb);
    let (aa, ba) = (a.arch(), b.arch());
    match c.rng.below(4) {
        0 => outer_with(c, &a, &a, &b, &ma, &mb, "native with native"),
        1 => outer_with(c, &a, &a, ba, &ma, &mb, "native with archived"),
        2 => outer_with(c, aa, &a, &b, &ma, &mb, "archived with native"),
        _ => outer_with(c, aa, &a, ba, &ma, &mb, "archived with archived"),
    }
    check_contents(c, &a, &ma, "left operand changed", "combinations");
    check_contents(c, &b, &mb, "right operand changed", "combinations");
    check_contents(c, aa, &ma, "archived left operand changed", "combinations");
    check_contents(c, ba, &mb, "archived right operand changed", "combinations");
    c.nontrivial = !ma.is_empty() && !mb.is_empty();
    c.count(T::NAME, 1);
}
fn mixed_w<K: Sym, T: Flavour<K, u32>, W: Val>(c: &mut Case) {
    start();
    let (ma, mb) = pair::<K>(c);
    let b: Right<K, W> = Right::random(c, &mb);
    c.log(|| format!("{} {}: {:?} with {} {:?}", T::NAME, K::NAME, listed(&ma), b.name(), listed(&mb)));
    c.note(&(&ma, &mb, b.name()));
    let a: T = build(c, &ma);
    if c.rng.chance(1, 4) {
        let l = a.arch();
        with_right!(b, x => inner_left(c, l, &a, x, &ma, &mb, b.name()));
        check_contents(c, l, &ma, "archived left operand changed", "combinations");
    } else {
        with_right!(b, x => inner_left(c, &a, &a, x, &ma, &mb, b.name()));
    }
    check_contents(c, &a, &ma, "left operand changed", "combinations");
    ensure!(c, b.contents() == normed::<K, W>(&mb), "right operand changed", "{:?}", b.contents());
    c.nontrivial = !ma.is_empty() && !mb.is_empty();
    c.count(b.name(), 1);
}
fn mixed<K: Sym, T: Flavour<K, u32>>(c: &mut Case) {
    mixed_w::<K, T, u32>(c)
}
/// copies of one tree that went different ways, so that (in shared flavours) most structure is common to both sides
fn shared<K: Sym, T: Flavour<K, u32>>(c: &mut Case) {
    start();
    let n = tree_size(c);
    let keys = Keys::<K>::new(c, n);
    let mut next = 1_000_000;
    let m = keys.model(c, &mut next);
    let t: T = build(c, &m);
    let (a, ma) = if c.rng.bool() { derived(c, &t, &m, &keys) } else { (t.clone(), m.clone()) };
    let (b, mb) = if c.rng.chance(1, 8) { (a.clone(), ma.clone()) } else { derived(c, &t, &m, &keys) };
    c.log(|| format!("{} {}: {:?} as {:?} with {:?}", T::NAME, K::NAME, listed(&m), listed(&ma), listed(&mb)));
    c.note(&(&m, &ma, &mb));
    outer_with(c, &a, &a, &b, &ma, &mb, "copies of one tree");
    inner_left::<_, _, _, u32, _>(c, &a, &a, &b, &ma, &mb, "copies of one tree");
    if c.rng.chance(1, 4) {
        // the very same tree on both sides
        outer_with(c, &a, &a, &a, &ma, &ma, "one tree with itself");
        inner_left::<_, _, _, u32, _>(c, &a, &a, &a, &ma, &ma, "one tree with itself");
    }
    if c.rng.chance(1, 4) {
        // and what is opened over an archive with that archive
        let ar = a.arch();
        let o = T::reopen(ar);
        outer_with(c, &o, &o, ar, &ma, &ma, "tree with the archive it was opened from");
        inner_left::<_, _, _, u32, _>(c, &o, &o, ar, &ma, &ma, "tree with the archive it was opened from");
    }
    check_contents(c, &t, &m, "original changed", "combinations");
    check_contents(c, &a, &ma, "left operand changed", "combinations");
    check_contents(c, &b, &mb, "right operand changed", "combinations");
    c.nontrivial = ma.len() + mb.len() > 2;
    c.count("shared_operands", 1);
}
fn sh(c: &mut Case) {
    with_flavour!(c, shared(c))
}
fn s(c: &mut Case) {
    with_flavour!(c, same(c))
}
fn m(c: &mut Case) {
    match c.rng.below(9) {
        0 => mixed::<u16, ArcRadixTree<u16, u32>>(c),
        1 => mixed_w::<u8, RadixTree<u8, u32>, ()>(c),
        2..=4 => mixed::<u8, RadixTree<u8, u32>>(c),
        5..=6 => mixed::<u8, ArcRadixTree<u8, u32>>(c),
        _ => mixed::<u8, LazyRadixTree<'static, u8, u32>>(c),
    }
}
fn main() {
    vcmon::main(
        "P20",
        &[
            Scenario { name: "outer", weight: 3, run: s },
            Scenario { name: "inner_and_left", weight: 5, run: m },
            Scenario { name: "shared", weight: 2, run: sh },
        ],
    )
}

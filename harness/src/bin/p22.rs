//! P22: radix tree relations agree with their key sets.
use vcmon::radix::*;
use vcmon::*;

fn rel<K: Sym, V: Val, W: Val>(c: &mut Case, a: &Right<K, V>, b: &Right<K, W>, ma: &Model<K>, mb: &Model<K>) {
    let sub = ma.keys().all(|k| mb.contains_key(k));
    let sup = mb.keys().all(|k| ma.contains_key(k));
    let int = ma.keys().any(|k| mb.contains_key(k));
    let names = (a.name(), b.name());
    let (s, p, i, d) = with_right!(*a, x => with_right!(*b, y => (x.is_subset(y), x.is_superset(y), x.intersects(y), x.is_disjoint(y))));
    ensure!(c, s == sub, "wrong is_subset", "{names:?}: {s}, expected {sub}");
    ensure!(c, p == sup, "wrong is_superset", "{names:?}: {p}, expected {sup}");
    ensure!(c, i == int, "wrong intersects", "{names:?}: {i}, expected {int}");
    ensure!(c, d == !int, "wrong is_disjoint", "{names:?}: {d}, expected {}", !int);
    c.count("relations", 4);
    c.count("true_subset", sub as u64 + sup as u64);
    c.count("true_disjoint", !int as u64);
}
fn go<K: Sym, V: Val, W: Val>(c: &mut Case) {
    start();
    let n = tree_size(c);
    let keys = Keys::<K>::new(c, n);
    let mut next = 10;
    let mut ma = keys.model(c, &mut next);
    let mut mb = keys.model(c, &mut next);
    match c.rng.below(9) {
        0 | 1 => {
            // subset with up to two extras
            mb = ma.clone();
            let p = c.rng.below(11);
            ma.retain(|_, _| c.rng.chance(p, 10));
            for _ in 0..c.rng.below(3) {
                let k = keys.probe(c);
                ma.insert(k, next);
                next += 1;
            }
        }
        2 => {
            let p = keys.probe(c);
            mb = prefixed(&ma, &p);
        }
        3 => {
            // disjoint, perhaps but for one key
            let h: Vec<bool> = keys.pool.iter().map(|_| c.rng.bool()).collect();
            let pick = |w: bool| keys.pool.iter().zip(&h).filter(|(_, x)| **x == w).map(|(k, _)| (k.clone(), 7)).collect::<Model<K>>();
            ma = pick(true);
            mb = pick(false);
            mb.retain(|k, _| !ma.contains_key(k));
            if c.rng.bool() && !ma.is_empty() {
                let k = ma.keys().nth(c.rng.below(ma.len())).unwrap().clone();
                mb.insert(k, 8);
            }
        }
        4 => {
            mb = ma.clone();
        }
        5 => {
            // a single key against the tree
            let k = keys.probe(c);
            ma = [(k, 5)].into();
        }
        6 => {
            // every key of one side is a proper prefix or extension of a key of the other
            let up = c.rng.bool();
            mb = ma
                .iter()
                .map(|(k, v)| {
                    let mut k = k.clone();
                    if up {
                        k.push(K::mk(0))
                    } else {
                        k.pop();
                    }
                    (k, *v)
                })
                .collect();
        }
        _ => {}
    }
    if c.rng.bool() {
        std::mem::swap(&mut ma, &mut mb)
    }
    c.log(|| format!("{}: {:?} against {:?}", K::NAME, listed(&ma), listed(&mb)));
    c.note(&(&ma, &mb));
    let a: Right<K, V> = Right::random(c, &ma);
    let b: Right<K, W> = Right::random(c, &mb);
    rel(c, &a, &b, &ma, &mb);
    rel(c, &b, &a, &mb, &ma);
    rel(c, &a, &a, &ma, &ma);
    // the same answers however the trees came about
    let a2: Right<K, V> = Right::random(c, &ma);
    rel(c, &a2, &b, &ma, &mb);
    c.nontrivial = !ma.is_empty() && !mb.is_empty();
}
/// copies of one tree that went different ways
fn shared<K: Sym, T: Flavour<K, u32>>(c: &mut Case) {
    start();
    let n = tree_size(c);
    let keys = Keys::<K>::new(c, n);
    let mut next = 10;
    let m = keys.model(c, &mut next);
    let t: T = build(c, &m);
    let (a, ma) = derived(c, &t, &m, &keys);
    let (b, mb) = derived(c, &t, &m, &keys);
    c.log(|| format!("{} {}: {:?} as {:?} and {:?}", T::NAME, K::NAME, listed(&m), listed(&ma), listed(&mb)));
    c.note(&(&m, &ma, &mb));
    for (x, y, mx, my) in [(&a, &b, &ma, &mb), (&b, &a, &mb, &ma), (&a, &t, &ma, &m), (&t, &b, &m, &mb), (&t, &t, &m, &m)] {
        let sub = mx.keys().all(|k| my.contains_key(k));
        let sup = my.keys().all(|k| mx.contains_key(k));
        let int = mx.keys().any(|k| my.contains_key(k));
        let got = (x.is_subset(y), x.is_superset(y), x.intersects(y), x.is_disjoint(y));
        ensure!(c, got == (sub, sup, int, !int), "wrong relation of copies", "(subset, superset, intersects, disjoint) = {got:?}, expected {:?}", (sub, sup, int, !int));
        c.count("relations", 4);
        c.count("true_subset", sub as u64 + sup as u64);
        c.count("true_disjoint", !int as u64);
    }
    c.nontrivial = ma.len() + mb.len() > 1;
}
fn s(c: &mut Case) {
    with_flavour!(c, shared(c))
}
fn run(c: &mut Case) {
    match c.rng.below(6) {
        0 => go::<u16, u32, u8>(c),
        1 => go::<u8, (), u32>(c),
        2 => go::<(), u32, u32>(c),
        _ => go::<u8, u32, u32>(c),
    }
}
fn main() {
    vcmon::main("P22", &[Scenario { name: "relations", weight: 3, run }, Scenario { name: "shared", weight: 1, run: s }])
}

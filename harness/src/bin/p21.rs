//! P21: prefix removal and retention match the prefix definition.
use std::cell::RefCell;
use vcmon::radix::*;
use vcmon::*;

fn run_w<K: Sym, T: Flavour<K, u32>, W: Val>(c: &mut Case) {
    start();
    let n = tree_size(c);
    let keys = Keys::<K>::new(c, n);
    let mut next = 10;
    let mut ma = keys.model(c, &mut next);
    let mut mb = keys.model(c, &mut next);
    // prefix trees: few and short keys, so that something is left
    let lim = *c.rng.pick(&[1usize, 3, 6, 20, 1000]);
    if mb.len() > lim {
        let mut ks: Vec<_> = mb.keys().cloned().collect();
        c.rng.shuffle(&mut ks);
        for k in &ks[lim..] {
            mb.remove(k);
        }
    }
    if c.rng.chance(1, 3) {
        mb = mb
            .into_iter()
            .map(|(mut k, v)| {
                let l = c.rng.below(k.len() + 1);
                k.truncate(l);
                (k, v)
            })
            .collect();
    }
    if c.rng.chance(1, 8) {
        let p = keys.probe(c);
        ma = prefixed(&ma, &p);
    }
    let b: Right<K, W> = Right::random(c, &mb);
    let a: T = build(c, &ma);
    c.log(|| format!("{} {}: {:?} prefixes {} {:?}", T::NAME, K::NAME, listed(&ma), b.name(), listed(&mb)));
    c.note(&(&ma, &mb, b.name()));
    let mode = c.rng.below(4);
    let sel = move |v: u32| match mode {
        0 => true,
        1 => v % 2 == 0,
        2 => v % 3 != 0,
        _ => false,
    };
    let hit = |k: &Vec<K>| mb.iter().any(|(p, v)| sel(W::norm(*v)) && k.starts_with(p));
    let gone: Model<K> = ma.iter().filter(|(k, _)| !hit(k)).map(|(k, v)| (k.clone(), *v)).collect();
    let kept: Model<K> = ma.iter().filter(|(k, _)| hit(k)).map(|(k, v)| (k.clone(), *v)).collect();
    let asked: RefCell<Vec<u32>> = RefCell::default();
    let ar = &asked;
    let mut r = a.clone();
    with_right!(b, x => r.remove_prefix_with(x, |w: &W| { ar.borrow_mut().push(w.id()); sel(w.id()) }));
    check_contents(c, &r, &gone, "wrong removal by prefix", b.name());
    let mut q = a.clone();
    with_right!(b, x => q.retain_prefix_with(x, |w: &W| { ar.borrow_mut().push(w.id()); sel(w.id()) }));
    check_contents(c, &q, &kept, "wrong retention by prefix", b.name());
    for x in asked.borrow().iter() {
        ensure!(c, mb.values().any(|v| W::norm(*v) == *x), "predicate asked about a foreign value", "{x}");
    }
    check_contents(c, &a, &ma, "other clone changed", "prefix operations");
    ensure!(c, b.contents() == normed::<K, W>(&mb), "prefix tree changed", "{:?}", b.contents());
    // the results are working trees
    for (t, m) in [(&mut r, gone), (&mut q, kept)] {
        let mut m = m;
        let (k, v) = (keys.key(c), 9999);
        t.insert(&k, v);
        m.insert(k, v);
        check_reads(c, t, &m, &keys, "prefix operation and insert");
        c.count(if m.len() == 1 { "emptied" } else { "partly_kept" }, 1);
    }
    c.count("results", 2);
    c.count("predicate_calls", asked.borrow().len() as u64);
    c.nontrivial = !ma.is_empty() && !mb.is_empty();
}
/// the prefix tree is a copy of the tree it is applied to that went its own way
fn shared<K: Sym, T: Flavour<K, u32>>(c: &mut Case) {
    start();
    let n = tree_size(c);
    let keys = Keys::<K>::new(c, n);
    let mut next = 1_000_000;
    let m = keys.model(c, &mut next);
    let t: T = build(c, &m);
    let (a, ma) = if c.rng.bool() { derived(c, &t, &m, &keys) } else { (t.clone(), m.clone()) };
    let (b, mb) = if c.rng.chance(1, 8) { (a.clone(), ma.clone()) } else { derived(c, &t, &m, &keys) };
    c.log(|| format!("{} {}: {:?} as {:?}, prefixes {:?}", T::NAME, K::NAME, listed(&m), listed(&ma), listed(&mb)));
    c.note(&(&m, &ma, &mb));
    // few selected, so that something is left
    let q = *c.rng.pick(&[1u32, 2, 3, 7, 50]);
    let r = c.rng.below(q as usize) as u32;
    let sel = move |v: &u32| v % q == r;
    let hit = |k: &Vec<K>| mb.iter().any(|(p, v)| sel(v) && k.starts_with(p));
    let kept: Model<K> = ma.iter().filter(|(k, _)| hit(k)).map(|(k, v)| (k.clone(), *v)).collect();
    let gone: Model<K> = ma.iter().filter(|(k, _)| !hit(k)).map(|(k, v)| (k.clone(), *v)).collect();
    let mut w = a.clone();
    w.remove_prefix_with(&b, sel);
    check_contents(c, &w, &gone, "wrong removal by prefix", "copy of the tree itself");
    let mut w = a.clone();
    w.retain_prefix_with(&b, sel);
    check_contents(c, &w, &kept, "wrong retention by prefix", "copy of the tree itself");
    check_contents(c, &t, &m, "original changed", "prefix operations");
    check_contents(c, &a, &ma, "other clone changed", "prefix operations");
    check_contents(c, &b, &mb, "prefix tree changed", "prefix operations");
    c.count("results", 2);
    c.nontrivial = ma.len() > 1 && !mb.is_empty();
}
fn s(c: &mut Case) {
    with_flavour!(c, shared(c))
}
fn run<K: Sym, T: Flavour<K, u32>>(c: &mut Case) {
    if c.rng.chance(3, 4) {
        run_w::<K, T, u32>(c)
    } else {
        run_w::<K, T, ()>(c)
    }
}
fn r(c: &mut Case) {
    with_flavour!(c, run(c))
}
fn main() {
    vcmon::main("P21", &[Scenario { name: "prefixes", weight: 3, run: r }, Scenario { name: "shared", weight: 1, run: s }])
}

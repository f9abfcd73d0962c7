//! P23: equal contents give the same minimal tree.
//! Oracle: the minimal tree computed from the sorted contents alone.
use vcmon::radix::*;
use vcmon::*;

fn check<K: Sym, T: AbstractRadixTree<K, u32>>(c: &mut Case, t: &T, m: &Model<K>, step: &str) {
    let got = shape(t);
    let want = minimal(&listed(m));
    c.count("nodes_checked", got.nodes() as u64);
    if got != want {
        let sig = classify(&got, true);
        c.fail(sig, format!("after {step}: {got:?}, expected {want:?}"))
    }
}
fn classify<K: Ord + std::fmt::Debug>(s: &Shape<K>, root: bool) -> &'static str {
    if !root && s.0.is_empty() {
        return "empty label below the root";
    }
    if s.1.is_none() && s.2.len() == 1 {
        return "node without value and with a single child";
    }
    if s.1.is_none() && s.2.is_empty() {
        return if root { "empty tree with a label" } else { "empty node" };
    }
    if s.2.windows(2).any(|w| w[0].0.first() >= w[1].0.first()) {
        return "children out of order";
    }
    for x in &s.2 {
        let r = classify(x, false);
        if r != "wrong structure" {
            return r;
        }
    }
    "wrong structure"
}

fn history<K: Sym, T: Flavour<K, u32>>(c: &mut Case) {
    start();
    let n = tree_size(c);
    let keys = Keys::<K>::new(c, n);
    let mut m = Model::new();
    let mut t = T::default();
    check(c, &t, &m, "default");
    if c.rng.bool() {
        let mut next = fresh() + 10_000;
        m = keys.model(c, &mut next);
        t = build(c, &m);
    }
    check(c, &t, &m, "building");
    c.note(&(K::NAME, T::NAME));
    let steps = if n > 100 { c.steps(8) } else { c.steps(30) };
    for _ in 0..steps {
        let name = step(c, &mut t, &mut m, &keys);
        c.log(|| format!("{} {}: {name}: {:?}", T::NAME, K::NAME, &listed(&m)[..m.len().min(20)]));
        c.note(&(name, m.len()));
        check(c, &t, &m, name);
        c.count("operations", 1);
    }
    // the same contents reached otherwise, in every flavour
    let f: RadixTree<K, u32> = build_flat(c, &m);
    check(c, &f, &m, "building again");
    let a: ArcRadixTree<K, u32> = f.clone().into();
    check(c, &a, &m, "conversion to a shared tree");
    check(c, t.arch(), &m, "archiving");
    let g = canonical(&t);
    ensure!(c, g == f, "equal contents compare unequal", "{g:?} and {f:?}");
    let mut other = m.clone();
    match c.rng.below(3) {
        0 => {
            let k = keys.key(c);
            other.remove(&k);
        }
        1 => {
            let k = keys.key(c);
            other.insert(k, 77_777);
        }
        _ => {
            let k = keys.probe(c);
            other.entry(k).or_insert(88_888);
        }
    }
    let o: RadixTree<K, u32> = build_flat(c, &other);
    ensure!(c, (o == g) == (other == m), "equality does not agree with contents", "{:?} and {:?}", listed(&m), listed(&other));
    c.count("comparisons", 2);
    c.nontrivial = m.len() > 1;
}
/// flat tree with exactly the same nodes: deserialised from an archive of a flat tree that copies t
fn canonical<K: Sym, T: Flavour<K, u32>>(t: &T) -> RadixTree<K, u32> {
    // by insertion in iteration order
    t.iter().map(|(k, v)| (k.to_vec(), *v)).collect()
}
fn h(c: &mut Case) {
    with_flavour!(c, history(c))
}
fn main() {
    vcmon::main("P23", &[Scenario { name: "history", weight: 1, run: h }])
}

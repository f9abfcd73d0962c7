//! P19: a radix tree behaves as an ordered map from key sequences.
//! Oracle: BTreeMap<Vec<symbol>, value> carried along every history, in every flavour.
use vcmon::radix::*;
use vcmon::*;

fn history<K: Sym, T: Flavour<K, u32>>(c: &mut Case) {
    start();
    let n = tree_size(c);
    let keys = Keys::<K>::new(c, n);
    let mut m = Model::new();
    let mut t = T::default();
    if c.rng.bool() {
        let mut next = fresh() + 10_000;
        m = keys.model(c, &mut next);
        t = build(c, &m);
    }
    let steps = if n > 100 { c.steps(6) } else { c.steps(25) };
    c.note(&(K::NAME, T::NAME, n));
    check_reads(c, &t, &m, &keys, "building");
    let mut ops = 0;
    for _ in 0..steps {
        let name = step(c, &mut t, &mut m, &keys);
        c.log(|| format!("{} {}: {name}: {:?}", T::NAME, K::NAME, &listed(&m)[..m.len().min(20)]));
        c.note(&(name, m.len()));
        if name != "skip" {
            ops += 1
        }
        check_reads(c, &t, &m, &keys, name);
    }
    c.count("operations", ops);
    c.maxc("max_pairs", m.len() as u64);
    c.nontrivial = ops > 1 && !m.is_empty();
    c.count(T::NAME, 1);
}

/// dense insert / replace / look up / filter runs without reset
fn inserts<K: Sym, T: Flavour<K, u32>>(c: &mut Case) {
    start();
    let n = if c.small { 8 } else { c.rng.range(4, 250) };
    let keys = Keys::<K>::new(c, n);
    let mut m = Model::new();
    let mut t = T::default();
    for i in 0..n {
        let k = if c.rng.chance(3, 4) { keys.pool[i].clone() } else { keys.key(c) };
        let v = fresh();
        t.insert(&k, v);
        m.insert(k.clone(), v);
        let g = t.get(&k).copied();
        ensure!(c, g == Some(v), "insert not visible", "after insert({k:?}, {v}): {g:?}");
        c.note(&k);
        if c.rng.chance(1, 12) {
            check_reads(c, &t, &m, &keys, "inserts");
        }
        if c.rng.chance(1, 12) {
            let p = keys.probe(c);
            let f = t.filter_prefix(&p);
            let mut e = prefixed(&m, &p);
            check_contents(c, &f, &e, "wrong filter_prefix", "filter_prefix");
            ensure_eq!(c, f.is_empty(), e.is_empty(), "wrong is_empty", "of filter_prefix({p:?})");
            // the filtered tree is a working tree
            let mut f = f;
            let (k, v) = (keys.key(c), fresh());
            f.insert(&k, v);
            e.insert(k, v);
            check_reads(c, &f, &e, &keys, "filter_prefix, insert");
        }
    }
    check_reads(c, &t, &m, &keys, "inserts");
    c.count("operations", n as u64);
    c.maxc("max_pairs", m.len() as u64);
    c.nontrivial = m.len() > 3;
}

/// archived trees answer like the map too
fn readonly<K: Sym, T: Flavour<K, u32>>(c: &mut Case) {
    start();
    let n = tree_size(c);
    let keys = Keys::<K>::new(c, n);
    let mut next = 10;
    let m = keys.model(c, &mut next);
    let t: T = build(c, &m);
    let a = t.arch();
    c.note(&m);
    check_reads(c, a, &m, &keys, "archiving");
    check_reads(c, &t, &m, &keys, "archiving (original)");
    for _ in 0..3 {
        let p = keys.probe(c);
        let f = t.filter_prefix(&p);
        check_contents(c, &f, &prefixed(&m, &p), "wrong filter_prefix", "filter_prefix");
    }
    c.nontrivial = !m.is_empty();
}

fn h(c: &mut Case) {
    with_flavour!(c, history(c))
}
fn i(c: &mut Case) {
    with_flavour!(c, inserts(c))
}
fn r(c: &mut Case) {
    with_flavour!(c, readonly(c))
}
fn main() {
    vcmon::main(
        "P19",
        &[
            Scenario { name: "history", weight: 6, run: h },
            Scenario { name: "inserts", weight: 3, run: i },
            Scenario { name: "readonly", weight: 1, run: r },
        ],
    )
}

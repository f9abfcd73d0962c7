//! P04: a VecMap is a mathematical map over any history. Oracle: BTreeMap.
use smallvec::{Array, SmallVec};
use std::collections::BTreeMap;
use vcmon::gen::{self, Elem};
use vcmon::*;
use vec_collections::{vecmap, AbstractVecMap, VecMap, VecSet};

type Model<K> = BTreeMap<K, V>;
/// values are all different, so that it shows which one survived
type V = u64;

fn agree<K: Elem, A: Array<Item = (K, V)>>(c: &mut Case, s: &VecMap<A>, m: &Model<K>, probe: &[K], what: &str) {
    c.count("states_checked", 1);
    let want: Vec<(K, V)> = m.iter().map(|(k, v)| (k.clone(), *v)).collect();
    let sl: &[(K, V)] = s.as_ref();
    ensure_eq!(c, sl, &want[..], "slice differs from model", "after {what}");
    ensure!(c, sl.windows(2).all(|w| w[0].0 < w[1].0), "keys not strictly ascending", "after {what}: {sl:?}");
    ensure_eq!(c, AbstractVecMap::as_slice(s), &want[..], "trait slice differs from model", "after {what}");
    ensure_eq!(c, s.len(), m.len(), "len", "after {what}");
    ensure_eq!(c, s.is_empty(), m.is_empty(), "is_empty", "after {what}");
    ensure_eq!(c, AbstractVecMap::is_empty(s), m.is_empty(), "trait is_empty", "after {what}");
    let got: Vec<(K, V)> = AbstractVecMap::iter(s).cloned().collect();
    ensure_eq!(c, got, want, "iter differs from model", "after {what}");
    let got: Vec<(K, V)> = s.into_iter().cloned().collect();
    ensure_eq!(c, got, want, "reference into_iter differs from model", "after {what}");
    for k in probe.iter().chain(m.keys().take(40)) {
        c.count("lookups", 1);
        ensure_eq!(c, s.get(k), m.get(k), "get", "after {what}, key {k:?} in {sl:?}");
    }
}
fn agree_owned<K: Elem, A: Array<Item = (K, V)>>(c: &mut Case, s: &VecMap<A>, m: &Model<K>, what: &str) {
    let want: Vec<(K, V)> = m.iter().map(|(k, v)| (k.clone(), *v)).collect();
    let got: Vec<(K, V)> = s.clone().into_iter().collect();
    ensure_eq!(c, got, want, "owned iteration differs from model", "after {what}");
    let got: SmallVec<A> = s.clone().into();
    ensure_eq!(c, got.to_vec(), want, "conversion to SmallVec differs from model", "after {what}");
    ensure_eq!(c, s.clone().into_inner().to_vec(), want, "into_inner differs from model", "after {what}");
    let set: VecSet<A> = s.clone().into();
    let got: Vec<(K, V)> = set.iter().cloned().collect();
    ensure_eq!(c, got, want, "conversion to a set of pairs differs from model", "after {what}");
    for p in &want {
        ensure!(c, vec_collections::AbstractVecSet::contains(&set, p), "conversion to a set of pairs differs from model", "after {what}: {p:?} not found");
    }
}

fn history<K: Elem, A: Array<Item = (K, V)>, B: Array<Item = (K, V)>>(c: &mut Case) {
    let n0 = c.size(400);
    let u = gen::universe(c, n0.max(4));
    let mut next: V = 0;
    let key = |c: &mut Case| K::mk(c.rng.below(u) as u32);
    let mut maps: Vec<(VecMap<A>, Model<K>)> = vec![(VecMap::empty(), Model::new()), (VecMap::default(), Model::new())];
    let steps = c.steps(40);
    fn pairs<K: Elem>(c: &mut Case, max: usize, next: &mut V) -> Vec<(K, V)> {
        let n = c.size(max);
        gen::sequence(c, n)
            .into_iter()
            .map(|k| {
                *next += 1;
                (K::mk(k), *next)
            })
            .collect()
    }
    for _ in 0..steps {
        let i = c.rng.below(maps.len());
        let op = c.rng.below(20);
        let before = maps[i].1.len();
        let what;
        match op {
            0..=4 => {
                let k = key(c);
                next += 1;
                what = format!("insert {k:?} -> {next}");
                let (s, m) = &mut maps[i];
                let (a, b) = (s.insert(k.clone(), next), m.insert(k, next));
                ensure_eq!(c, a, b, "old value returned by insert", "{what} into {m:?}");
            }
            5 | 6 => {
                let k = if c.rng.chance(2, 3) && !maps[i].1.is_empty() {
                    let j = c.rng.below(maps[i].1.len());
                    maps[i].1.keys().nth(j).unwrap().clone()
                } else {
                    key(c)
                };
                what = format!("get_mut {k:?}");
                let (s, m) = &mut maps[i];
                next += 1;
                match (s.get_mut(&k), m.get_mut(&k)) {
                    (Some(a), Some(b)) => {
                        ensure_eq!(c, *a, *b, "get_mut", "{what}");
                        *a = next;
                        *b = next;
                    }
                    (None, None) => {}
                    (a, b) => c.fail("get_mut", format!("{what}: got {a:?}, expected {b:?}")),
                }
            }
            7 => {
                let (p, q) = (c.rng.below(5) as u64, 1 + c.rng.below(5) as u64);
                what = format!("retain hash%{q}<{p}");
                let f = |k: &K, v: V| (case::hash_of(k) ^ v) % q < p;
                let (s, m) = &mut maps[i];
                let mut seen = 0;
                s.retain(|(k, v)| {
                    seen += 1;
                    f(k, *v)
                });
                ensure_eq!(c, seen, m.len(), "retain consults every pair once");
                m.retain(|k, v| f(k, *v));
            }
            8 | 9 => {
                let ps: Vec<(K, V)> = pairs(c, 200, &mut next);
                let h = gen::hint(c, ps.len());
                what = format!("extend {ps:?} hint {h:?}");
                let (s, m) = &mut maps[i];
                s.extend(gen::Hinted { i: ps.clone().into_iter(), hint: h });
                m.extend(ps);
            }
            10 | 11 => {
                let ps: Vec<(K, V)> = pairs(c, 300, &mut next);
                let m: Model<K> = ps.iter().cloned().collect();
                let how = c.rng.below(3);
                what = format!("build {how} from {ps:?}");
                let s: VecMap<A> = match how {
                    0 => m.clone().into(),
                    _ => {
                        let h = gen::hint(c, ps.len());
                        gen::Hinted { i: ps.into_iter(), hint: h }.collect()
                    }
                };
                maps[i] = (s, m);
            }
            12 | 13 => {
                // merge with a map of another inline capacity
                let ps: Vec<(K, V)> = pairs(c, 200, &mut next);
                what = format!("merge_with {ps:?}");
                let o: VecMap<B> = ps.iter().cloned().collect();
                let (s, m) = &mut maps[i];
                s.merge_with(o);
                m.extend(ps);
            }
            14 | 15 => {
                // merge or combine two tracked maps
                let j = c.rng.below(maps.len());
                let (o, om) = maps[j].clone();
                let (s, m) = &mut maps[i];
                if op == 14 {
                    what = "merge_with a tracked map".to_string();
                    s.merge_with(o);
                    m.extend(om);
                } else {
                    what = "combine_with a tracked map".to_string();
                    let calls = std::cell::RefCell::new(vec![]);
                    s.combine_with(o, |a, b| {
                        calls.borrow_mut().push((a, b));
                        a.wrapping_mul(31).wrapping_add(b)
                    });
                    let mut want = vec![];
                    for (k, v) in om {
                        match m.get_mut(&k) {
                            Some(x) => {
                                want.push((*x, v));
                                *x = x.wrapping_mul(31).wrapping_add(v)
                            }
                            None => {
                                m.insert(k, v);
                            }
                        }
                    }
                    ensure_eq!(c, calls.into_inner(), want, "combine_with calls");
                }
            }
            16 => {
                what = "map_values".to_string();
                let (s, m) = maps[i].clone();
                // through another value type and back
                let mut calls = 0;
                let t: VecMap<[(K, String); 3]> = s.map_values(|v| {
                    calls += 1;
                    format!("{v}")
                });
                ensure_eq!(c, calls, m.len(), "map_values calls");
                let s: VecMap<A> = t.map_values(|v| v.parse::<V>().unwrap() + 1);
                let m = m.into_iter().map(|(k, v)| (k, v + 1)).collect();
                maps[i] = (s, m);
            }
            17 => {
                next += 3;
                let k = key(c);
                let k2 = key(c);
                what = format!("macro or single {k:?} {k2:?}");
                match c.rng.below(3) {
                    0 => maps[i] = (VecMap::single((k.clone(), next)), Model::from([(k, next)])),
                    1 => {
                        let s: VecMap<A> = vecmap! {k.clone() => next, k2.clone() => next - 1, k.clone() => next - 2};
                        maps[i] = (s, [(k.clone(), next), (k2, next - 1), (k, next - 2)].into_iter().collect())
                    }
                    _ => {
                        let s: VecMap<A> = vecmap! {k.clone() => next, k2.clone() => next - 1,};
                        maps[i] = (s, [(k, next), (k2, next - 1)].into_iter().collect())
                    }
                }
            }
            18 => {
                what = "clone".to_string();
                let x = maps[i].clone();
                if maps.len() < 4 {
                    maps.push(x)
                } else {
                    let j = c.rng.below(4);
                    maps[j] = x
                }
            }
            _ => {
                what = "rebuild from owned iteration".to_string();
                let (s, m) = maps[i].clone();
                let s: VecMap<A> = if c.rng.bool() { s.into_iter().collect() } else { s.into_inner().into_iter().rev().collect() };
                maps[i] = (s, m);
            }
        }
        c.log(|| format!("map {i}: {what}"));
        c.note(&(op, before, maps[i].1.len()));
        if maps[i].1.len() >= 2 {
            c.nontrivial = true
        }
        c.maxc("max_len", maps[i].1.len() as u64);
        let probe: Vec<K> = (0..4).map(|_| key(c)).collect();
        agree(c, &maps[i].0, &maps[i].1, &probe, &what);
        if c.rng.chance(1, 5) {
            agree_owned(c, &maps[i].0, &maps[i].1, &what)
        }
    }
    for (s, m) in &maps {
        agree(c, s, m, &[], "the end");
        agree_owned(c, s, m, "the end");
    }
}

fn strings(c: &mut Case) {
    // lookups through a borrowed form of the key
    let n = c.size(100);
    let ks = gen::sequence(c, n);
    let m: BTreeMap<String, u32> = ks.iter().enumerate().map(|(i, k)| (String::mk(*k), i as u32)).collect();
    let mut s: VecMap<[(String, u32); 2]> = ks.iter().enumerate().map(|(i, k)| (String::mk(*k), i as u32)).collect();
    c.note(&m);
    c.nontrivial = m.len() > 1;
    c.log(|| format!("{m:?}"));
    for k in ks.iter().copied().chain(0..20) {
        let k = String::mk(k);
        c.count("lookups", 2);
        ensure_eq!(c, s.get(k.as_str()), m.get(k.as_str()), "get", "{k:?} in {m:?}");
        ensure_eq!(c, s.get_mut(k.as_str()).map(|x| *x), m.get(k.as_str()).copied(), "get_mut", "{k:?} in {m:?}");
    }
}

macro_rules! hist {
    ($c:expr, $k:ty) => {
        match $c.rng.below(7) {
            0 => history::<$k, [($k, V); 0], [($k, V); 4]>($c),
            1 => history::<$k, [($k, V); 1], [($k, V); 2]>($c),
            2 => history::<$k, [($k, V); 2], [($k, V); 2]>($c),
            3 => history::<$k, [($k, V); 3], [($k, V); 1]>($c),
            4 => history::<$k, [($k, V); 4], [($k, V); 0]>($c),
            5 => history::<$k, [($k, V); 8], [($k, V); 16]>($c),
            _ => history::<$k, [($k, V); 16], [($k, V); 1]>($c),
        }
    };
}
fn ints(c: &mut Case) {
    hist!(c, u32)
}
fn toks(c: &mut Case) {
    hist!(c, tok::Tok)
}
fn types(c: &mut Case) {
    match c.rng.below(6) {
        0 => hist!(c, String),
        1 => hist!(c, u8),
        2 => hist!(c, i64),
        3 => hist!(c, (u8, u32)),
        4 => hist!(c, ()),
        _ => hist!(c, Option<Vec<u8>>),
    }
}

fn main() {
    vcmon::main(
        "P04",
        &[
            Scenario { name: "u32_keys", weight: 4, run: ints },
            Scenario { name: "counted_keys", weight: 2, run: toks },
            Scenario { name: "other_key_types", weight: 3, run: types },
            Scenario { name: "borrowed_lookups", weight: 1, run: strings },
        ],
    )
}

//! P01: a VecSet is a mathematical set over any history. Oracle: BTreeSet.
use smallvec::{Array, SmallVec};
use std::collections::BTreeSet;
use vcmon::gen::{self, Elem};
use vcmon::*;
use vec_collections::{vecset, AbstractVecSet, VecMap, VecSet};

type Model<T> = BTreeSet<T>;

fn agree<A: Array>(c: &mut Case, s: &VecSet<A>, m: &Model<A::Item>, probe: &[A::Item], what: &str)
where
    A::Item: Elem,
{
    c.count("states_checked", 1);
    let want: Vec<&A::Item> = m.iter().collect();
    let sl: &[A::Item] = s.as_ref();
    let got: Vec<&A::Item> = sl.iter().collect();
    ensure_eq!(c, got, want, "slice differs from model", "after {what}");
    ensure!(c, sl.windows(2).all(|w| w[0] < w[1]), "slice not strictly ascending", "after {what}: {sl:?}");
    ensure_eq!(c, s.len(), m.len(), "len", "after {what}");
    ensure_eq!(c, s.is_empty(), m.is_empty(), "is_empty", "after {what}");
    ensure_eq!(c, AbstractVecSet::is_empty(s), m.is_empty(), "trait is_empty", "after {what}");
    ensure_eq!(c, AbstractVecSet::as_slice(s).len(), m.len(), "trait as_slice", "after {what}");
    let got: Vec<&A::Item> = s.iter().collect();
    ensure_eq!(c, got, want, "iter differs from model", "after {what}");
    let got: Vec<&A::Item> = s.into_iter().collect();
    ensure_eq!(c, got, want, "reference into_iter differs from model", "after {what}");
    let got: Vec<&A::Item> = AbstractVecSet::iter(s).collect();
    ensure_eq!(c, got, want, "trait iter differs from model", "after {what}");
    for k in probe {
        c.count("membership_queries", 1);
        ensure_eq!(c, s.contains(k), m.contains(k), "contains", "after {what}, key {k:?} in {sl:?}");
    }
}
fn agree_owned<A: Array>(c: &mut Case, s: &VecSet<A>, m: &Model<A::Item>, what: &str)
where
    A::Item: Elem,
{
    let want: Vec<A::Item> = m.iter().cloned().collect();
    let got: Vec<A::Item> = s.clone().into_iter().collect();
    ensure_eq!(c, got, want, "owned iteration differs from model", "after {what}");
    let got: Vec<A::Item> = s.clone().into();
    ensure_eq!(c, got, want, "conversion to Vec differs from model", "after {what}");
    let got: SmallVec<A> = s.clone().into();
    ensure_eq!(c, got.to_vec(), want, "conversion to SmallVec differs from model", "after {what}");
    ensure_eq!(c, s.clone().into_inner().to_vec(), want, "into_inner differs from model", "after {what}");
}

fn history<A: Array>(c: &mut Case)
where
    A::Item: Elem,
{
    let n0 = c.size(400);
    let u = gen::universe(c, n0.max(4));
    let key = |c: &mut Case| A::Item::mk(c.rng.below(u) as u32);
    let mut sets: Vec<(VecSet<A>, Model<A::Item>)> = vec![(VecSet::empty(), Model::new()), (VecSet::empty(), Model::new())];
    let steps = c.steps(40);
    for _ in 0..steps {
        let i = c.rng.below(sets.len());
        let op = c.rng.below(22);
        let what;
        let before = sets[i].1.len();
        match op {
            0..=4 => {
                let k = key(c);
                what = format!("insert {k:?}");
                let (s, m) = &mut sets[i];
                let (a, b) = (s.insert(k.clone()), m.insert(k));
                ensure_eq!(c, a, b, "return value of insert", "{what} into {m:?}");
            }
            5..=8 => {
                // usually something that is there
                let k = if c.rng.chance(2, 3) && !sets[i].1.is_empty() {
                    let j = c.rng.below(sets[i].1.len());
                    sets[i].1.iter().nth(j).unwrap().clone()
                } else {
                    key(c)
                };
                what = format!("remove {k:?}");
                let (s, m) = &mut sets[i];
                let (a, b) = (s.remove(&k), m.remove(&k));
                ensure_eq!(c, a, b, "return value of remove", "{what} from {m:?}");
            }
            9 => {
                let (p, q) = (c.rng.below(5) as u64, 1 + c.rng.below(5) as u64);
                what = format!("retain hash%{q}<{p}");
                let f = |x: &A::Item| case::hash_of(x) % q < p;
                let (s, m) = &mut sets[i];
                let mut seen = 0;
                s.retain(|x| {
                    seen += 1;
                    f(x)
                });
                ensure_eq!(c, seen, m.len(), "retain consults every element once");
                m.retain(|x| f(x));
            }
            10 | 11 => {
                let n = c.size(200);
                let ks: Vec<A::Item> = gen::sequence(c, n).into_iter().map(A::Item::mk).collect();
                let h = gen::hint(c, ks.len());
                what = format!("extend {ks:?} hint {h:?}");
                let (s, m) = &mut sets[i];
                s.extend(gen::Hinted { i: ks.clone().into_iter(), hint: h });
                m.extend(ks);
            }
            12 | 13 => {
                let n = c.size(300);
                let ks: Vec<A::Item> = gen::sequence(c, n).into_iter().map(A::Item::mk).collect();
                let m: Model<A::Item> = ks.iter().cloned().collect();
                let how = c.rng.below(6);
                what = format!("build {how} from {ks:?}");
                let s: VecSet<A> = match how {
                    0 => ks.into(),
                    1 => m.clone().into(),
                    2 => {
                        let mut ks = ks;
                        ks.reserve(17);
                        ks.into()
                    }
                    3 => {
                        let vm: VecMap<[(A::Item, ()); 2]> = ks.into_iter().map(|x| (x, ())).collect();
                        // a map is a set of its entries
                        let es: VecSet<[(A::Item, ()); 2]> = vm.into();
                        es.into_iter().map(|x| x.0).collect()
                    }
                    4 => {
                        let h = gen::hint(c, ks.len());
                        gen::Hinted { i: ks.into_iter(), hint: h }.collect()
                    }
                    _ => ks.into_iter().collect(),
                };
                if sets.len() < 4 {
                    sets.push((s, m))
                } else {
                    sets[i] = (s, m)
                }
            }
            14 => {
                what = "shrink_to_fit".into();
                sets[i].0.shrink_to_fit();
            }
            15 => {
                let k = key(c);
                what = format!("single {k:?}");
                sets[i] = (VecSet::single(k.clone()), [k].into_iter().collect());
            }
            16 => {
                let (a, b, d) = (key(c), key(c), key(c));
                what = format!("single {a:?} then extend {b:?} {d:?}");
                sets[i] = (VecSet::single(a.clone()), [a.clone()].into_iter().collect());
                let (s, m) = &mut sets[i];
                s.extend(vec![b.clone(), d.clone(), a.clone()]);
                m.extend([b, d, a]);
            }
            17 => {
                what = "clone".into();
                let x = (sets[i].0.clone(), sets[i].1.clone());
                let j = c.rng.below(sets.len());
                sets[j] = x;
            }
            18 => {
                what = "through Vec or SmallVec and back".into();
                let (s, _) = std::mem::replace(&mut sets[i].0, VecSet::empty()).into_parts(c);
                sets[i].0 = s;
            }
            _ => {
                let j = c.rng.below(sets.len());
                let (o, om) = sets[j].clone();
                let k = c.rng.below(4);
                let by_ref = c.rng.below(3);
                what = format!("set op {k} form {by_ref} with {om:?}");
                let (s, m) = &mut sets[i];
                match k {
                    0 => {
                        match by_ref {
                            0 => *s |= o,
                            1 => *s |= &o,
                            _ => *s = &*s | &o,
                        }
                        *m = &*m | &om;
                    }
                    1 => {
                        match by_ref {
                            0 => *s &= o,
                            1 => *s &= &o,
                            _ => *s = &*s & &o,
                        }
                        *m = &*m & &om;
                    }
                    2 => {
                        match by_ref {
                            0 => *s -= o,
                            1 => *s -= &o,
                            _ => *s = &*s - &o,
                        }
                        *m = &*m - &om;
                    }
                    _ => {
                        match by_ref {
                            0 => *s ^= o,
                            1 => *s ^= &o,
                            _ => *s = &*s ^ &o,
                        }
                        *m = &*m ^ &om;
                    }
                }
            }
        }
        c.log(|| what.clone());
        c.note(&op);
        let i = if i < sets.len() { i } else { 0 };
        let after = sets[i].1.len();
        c.note(&(before, after));
        c.maxc("max_len", after as u64);
        c.count("steps", 1);
        let mut probe: Vec<A::Item> = (0..4).map(|_| key(c)).collect();
        if after > 0 {
            for _ in 0..4 {
                let j = c.rng.below(after);
                probe.push(sets[i].1.iter().nth(j).unwrap().clone());
            }
            probe.push(sets[i].1.first().unwrap().clone());
            probe.push(sets[i].1.last().unwrap().clone());
        }
        let mine: Vec<(VecSet<A>, Model<A::Item>)> = std::mem::take(&mut sets);
        for (x, (s, m)) in mine.iter().enumerate() {
            if x == i || c.rng.chance(1, 4) {
                agree(c, s, m, &probe, &what);
            }
        }
        if c.rng.chance(1, 4) {
            agree_owned(c, &mine[i].0, &mine[i].1, &what);
        }
        sets = mine;
        if after >= 2 {
            c.nontrivial = true;
        }
    }
}

trait Parts: Sized {
    fn into_parts(self, c: &mut Case) -> (Self, ());
}
impl<A: Array> Parts for VecSet<A>
where
    A::Item: Elem,
{
    fn into_parts(self, c: &mut Case) -> (Self, ()) {
        match c.rng.below(3) {
            0 => {
                let v: Vec<A::Item> = self.into();
                (v.into(), ())
            }
            1 => {
                let v: SmallVec<A> = self.into();
                (v.into_iter().collect(), ())
            }
            _ => (self.into_iter().collect(), ()),
        }
    }
}

fn ints(c: &mut Case) {
    with_cap!(c.cap(), u32, history(c))
}
fn strings(c: &mut Case) {
    match c.rng.below(3) {
        0 => history::<[String; 1]>(c),
        1 => history::<[Box<str>; 4]>(c),
        _ => history::<[Option<Vec<u8>>; 2]>(c),
    }
}
fn others(c: &mut Case) {
    match c.rng.below(6) {
        0 => history::<[(); 2]>(c),
        1 => history::<[u8; 16]>(c),
        2 => history::<[i64; 2]>(c),
        3 => history::<[u128; 4]>(c),
        4 => history::<[std::cmp::Reverse<u32>; 3]>(c),
        _ => history::<[(u8, u32); 8]>(c),
    }
}
fn ledger(c: &mut Case) {
    match c.rng.below(3) {
        0 => history::<[tok::Tok; 0]>(c),
        1 => history::<[tok::Tok; 4]>(c),
        _ => history::<[tok::Tok; 8]>(c),
    }
}

/// the construction macro and Default need Default of the backing array
fn macros(c: &mut Case) {
    let n = c.rng.below(8);
    let (a, b, d) = (c.rng.below(n + 1) as u32, c.rng.below(n + 1) as u32, c.rng.below(n + 1) as u32);
    c.log(|| format!("vecset! {a} {b} {d}"));
    c.note(&(a, b, d));
    c.nontrivial = true;
    let s: VecSet<[u32; 2]> = vecset! {a, b, d,};
    let m: Model<u32> = [a, b, d].into_iter().collect();
    agree(c, &s, &m, &[a, b, d, 9], "vecset!");
    let s: VecSet<[u32; 4]> = vecset! {};
    agree(c, &s, &Model::new(), &[a], "empty vecset!");
    let s: VecSet<[u32; 4]> = VecSet::default();
    agree(c, &s, &Model::new(), &[a], "default");
}

fn main() {
    vcmon::main(
        "P01",
        &[
            Scenario { name: "ints", weight: 4, run: ints },
            Scenario { name: "strings", weight: 2, run: strings },
            Scenario { name: "others", weight: 2, run: others },
            Scenario { name: "macros", weight: 1, run: macros },
            Scenario { name: "ledger", weight: 1, run: ledger },
        ],
    )
}

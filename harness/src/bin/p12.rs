//! P12: total maps are total functions in canonical form. Oracle: function table over a universe of keys
//! plus one cell for every key never listed.
use num_traits::{Bounded, One, Zero};
use smallvec::Array;
use std::ops::{Add, Div, Mul, Neg, Sub};
use vcmon::gen::Elem;
use vcmon::*;
use vec_collections::{total_vec_map::TotalVecMap, AbstractVecMap, VecMap};

/// arithmetic without overflow, few distinct values
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug, serde::Serialize, serde::Deserialize, Default)]
struct Z(i8);
const M: i32 = 7;
fn z(x: i32) -> Z {
    Z(x.rem_euclid(M) as i8)
}
impl Add for Z {
    type Output = Z;
    fn add(self, o: Z) -> Z {
        z(self.0 as i32 + o.0 as i32)
    }
}
impl Sub for Z {
    type Output = Z;
    fn sub(self, o: Z) -> Z {
        z(self.0 as i32 - o.0 as i32)
    }
}
impl Mul for Z {
    type Output = Z;
    fn mul(self, o: Z) -> Z {
        z(self.0 as i32 * o.0 as i32)
    }
}
impl Div for Z {
    type Output = Z;
    fn div(self, o: Z) -> Z {
        z(self.0 as i32 * 3 + o.0 as i32 * 5 + 1) // not commutative, total
    }
}
impl Neg for Z {
    type Output = Z;
    fn neg(self) -> Z {
        z(-(self.0 as i32))
    }
}
impl Zero for Z {
    fn zero() -> Z {
        Z(0)
    }
    fn is_zero(&self) -> bool {
        self.0 == 0
    }
}
impl One for Z {
    fn one() -> Z {
        Z(1)
    }
    fn is_one(&self) -> bool {
        self.0 == 1
    }
}
impl Bounded for Z {
    fn min_value() -> Z {
        Z(0)
    }
    fn max_value() -> Z {
        Z(M as i8 - 1)
    }
}

/// values for keys 0..u, and the default
#[derive(Clone, PartialEq, Eq, Debug)]
struct Tab(Vec<Z>, Z);
impl Tab {
    fn op(&self, o: &Tab, f: impl Fn(Z, Z) -> Z) -> Tab {
        Tab(self.0.iter().zip(&o.0).map(|(a, b)| f(*a, *b)).collect(), f(self.1, o.1))
    }
    fn map(&self, f: impl Fn(Z) -> Z) -> Tab {
        Tab(self.0.iter().map(|a| f(*a)).collect(), f(self.1))
    }
    fn show(&self) -> String {
        let e: Vec<_> = self.0.iter().enumerate().filter(|(_, v)| **v != self.1).map(|(i, v)| (i, v.0)).collect();
        format!("default {} except {:?}", self.1 .0, e)
    }
}

fn verify<K: Elem, A: Array<Item = (K, Z)>>(c: &mut Case, m: &TotalVecMap<Z, A>, t: &Tab, step: &str) {
    let n = t.0.len() as u32;
    for i in 0..n {
        let got = m[&K::mk(i)];
        ensure!(c, got == t.0[i as usize], "wrong value", "after {step}: value at {i} is {}, the function is {}", got.0, t.show());
    }
    for k in [n, n + 1, n + 1000] {
        let got = m[&K::mk(k)];
        ensure!(c, got == t.1, "wrong default value", "after {step}: value at {k} is {}, the function is {}", got.0, t.show());
    }
    c.count("evaluated", n as u64 + 3);
    let e = m.non_default_mappings();
    ensure!(c, e.as_slice().iter().all(|x| x.1 != t.1), "default value listed", "after {step}: {e:?}, default {:?}", t.1);
    let s: Vec<&K> = e.as_slice().iter().map(|x| &x.0).collect();
    ensure!(c, s.windows(2).all(|w| w[0] < w[1]), "exceptions not sorted and unique", "after {step}: {e:?}");
    let want = t.0.iter().filter(|v| **v != t.1).count();
    ensure!(c, s.len() == want, "wrong number of exceptions", "after {step}: {e:?}, expected {want}");
    ensure!(c, m.is_zero() == t.0.iter().chain(Some(&t.1)).all(|x| x.is_zero()), "wrong is_zero", "after {step}: {}", t.show());
    ensure!(c, m.is_one() == t.0.iter().chain(Some(&t.1)).all(|x| x.is_one()), "wrong is_one", "after {step}: {}", t.show());
}

fn build<K: Elem, A: Array<Item = (K, Z)>>(c: &mut Case, u: usize) -> (TotalVecMap<Z, A>, Tab) {
    let d = z(c.rng.below(3) as i32);
    match c.rng.below(9) {
        0 => (TotalVecMap::constant(d), Tab(vec![d; u], d)),
        1 => (d.into(), Tab(vec![d; u], d)),
        2 => (TotalVecMap::default(), Tab(vec![Z(0); u], Z(0))),
        3 => match c.rng.below(4) {
            0 => (TotalVecMap::zero(), Tab(vec![Z(0); u], Z(0))),
            1 => (TotalVecMap::one(), Tab(vec![Z(1); u], Z(1))),
            2 => (TotalVecMap::min_value(), Tab(vec![Z(0); u], Z(0))),
            _ => (TotalVecMap::max_value(), Tab(vec![Z(M as i8 - 1); u], Z(M as i8 - 1))),
        },
        _ => {
            let p = c.rng.below(11);
            let range = 1 + c.rng.below(M as usize) as i32;
            let mut t = Tab(vec![d; u], d);
            let mut v = vec![];
            for i in 0..u {
                if c.rng.chance(p, 10) {
                    let x = z(c.rng.below(range as usize) as i32);
                    t.0[i] = x;
                    v.push((K::mk(i as u32), x)); // may equal the default
                }
            }
            c.rng.shuffle(&mut v);
            let m: VecMap<A> = v.into_iter().collect();
            (TotalVecMap::new(m, d), t)
        }
    }
}

fn history<A: Array<Item = (K, Z)>, K: Elem + serde::Serialize + for<'a> serde::Deserialize<'a>>(c: &mut Case) {
    let k = 2 + c.rng.below(3);
    let u = if c.small { 1 + c.rng.below(6) } else { [1, 3, 8, 20, 60, 150][c.rng.below(6)] + c.rng.below(4) };
    let mut ms: Vec<TotalVecMap<Z, A>> = vec![];
    let mut ts: Vec<Tab> = vec![];
    for _ in 0..k {
        let (m, t) = build(c, u);
        verify(c, &m, &t, "construction");
        ms.push(m);
        ts.push(t);
    }
    let steps = c.steps(25);
    for _ in 0..steps {
        let (i, j) = (c.rng.below(k), c.rng.below(k));
        let what = c.rng.below(14);
        c.note(&(what as u8, ts[i].0.iter().filter(|x| **x != ts[i].1).count() as u32, ts[i].1));
        let name: String;
        let (a, b) = (ms[i].clone(), ms[j].clone());
        let (ta, tb) = (ts[i].clone(), ts[j].clone());
        match what {
            0 => {
                name = format!("{i} = {i} + {j}");
                ms[i] = a + b;
                ts[i] = ta.op(&tb, |x, y| x + y);
            }
            1 => {
                name = format!("{i} = {i} - {j}");
                ms[i] = a - b;
                ts[i] = ta.op(&tb, |x, y| x - y);
            }
            2 => {
                name = format!("{i} = {i} * {j}");
                ms[i] = a * b;
                ts[i] = ta.op(&tb, |x, y| x * y);
            }
            3 => {
                name = format!("{i} = {i} / {j}");
                ms[i] = a / b;
                ts[i] = ta.op(&tb, |x, y| x / y);
            }
            4 => {
                name = format!("{i} = -{i}");
                ms[i] = -a;
                ts[i] = ta.map(|x| -x);
            }
            5 => {
                name = format!("{i} = supremum({i}, {j})");
                ms[i] = if i == j { a.supremum(&a) } else { a.supremum(&b) };
                ts[i] = ta.op(&tb, |x, y| x.max(y));
            }
            6 => {
                name = format!("{i} = infimum({i}, {j})");
                ms[i] = if i == j { a.infimum(&a) } else { a.infimum(&b) };
                ts[i] = ta.op(&tb, |x, y| x.min(y));
            }
            7 | 8 => {
                let table: Vec<Z> = (0..M * M).map(|_| z(c.rng.below(M as usize) as i32)).collect();
                let f = move |x: Z, y: Z| table[(x.0 as i32 * M + y.0 as i32) as usize];
                name = format!("{i} = combine({i}, {j}) by a random table");
                // one map on both sides is also passed as the same object
                let other = if i == j { &a } else { &b };
                ms[i] = a.combine_ref(other, |x, y| f(*x, *y));
                ts[i] = ta.op(&tb, f);
            }
            9 | 10 => {
                let table: Vec<Z> = (0..M).map(|_| z(c.rng.below(M as usize) as i32)).collect();
                let f = move |x: Z| table[x.0 as usize];
                name = format!("{i} = map_values({i}) by a random table");
                ms[i] = a.map_values(|x| f(*x));
                ts[i] = ta.map(f);
            }
            11 => {
                name = format!("{i} rebuilt");
                let (m, t) = build(c, u);
                ms[i] = m;
                ts[i] = t;
            }
            12 => {
                // same exceptions, other default; canonicalisation has to be redone
                let d = z(c.rng.below(M as usize) as i32);
                name = format!("{i} = exceptions of {j} with default {}", d.0);
                ms[i] = TotalVecMap::new(b.non_default_mappings().clone(), d);
                ts[i] = Tab(tb.0.iter().map(|v| if *v == tb.1 { d } else { *v }).collect(), d);
            }
            _ => {
                let fmt = c.rng.below(3);
                name = format!("{i} serialised and read back ({})", ["json", "bincode", "cbor"][fmt]);
                let r: Result<TotalVecMap<Z, A>, String> = match fmt {
                    0 if !KeyIsString::<K>::yes() => continue,
                    0 => serde_json::from_str(&serde_json::to_string(&a).unwrap()).map_err(|e| e.to_string()),
                    1 => bincode::deserialize(&bincode::serialize(&a).unwrap()).map_err(|e| e.to_string()),
                    _ => serde_cbor::from_slice(&serde_cbor::to_vec(&a).unwrap()).map_err(|e| e.to_string()),
                };
                match r {
                    Ok(r) => ms[i] = r,
                    Err(e) => c.fail("serialised total map not readable", format!("{name}: {e}")),
                }
                c.count("roundtrips", 1);
            }
        }
        c.log(|| name.clone());
        c.count("operations", 1);
        verify(c, &ms[i], &ts[i], &name);
        verify(c, &ms[j], &ts[j], &format!("{name} (other operand)"));
        for _ in 0..2 {
            let (p, q) = (c.rng.below(k), c.rng.below(k));
            compare(c, &ms[p], &ms[q], &ts[p], &ts[q]);
        }
        compare(c, &ms[i], &ms[j], &ts[i], &ts[j]);
    }
    // total order over the family
    let mut idx: Vec<usize> = (0..k).collect();
    idx.sort_by(|x, y| ms[*x].cmp(&ms[*y]));
    for w in idx.windows(3) {
        ensure!(c, ms[w[0]] <= ms[w[2]], "order not transitive");
    }
    c.nontrivial = ts.iter().any(|t| t.0.iter().any(|x| *x != t.1));
}
struct KeyIsString<K>(K);
impl<K: 'static> KeyIsString<K> {
    fn yes() -> bool {
        let t = std::any::TypeId::of::<K>();
        t == std::any::TypeId::of::<String>() || t == std::any::TypeId::of::<u32>()
    }
}

fn compare<K: Elem, A: Array<Item = (K, Z)>>(c: &mut Case, a: &TotalVecMap<Z, A>, b: &TotalVecMap<Z, A>, ta: &Tab, tb: &Tab) {
    use std::cmp::Ordering::*;
    let eq = ta == tb;
    let d = || format!("{} and {}", ta.show(), tb.show());
    ensure!(c, (a == b) == eq, if eq { "equal functions compare unequal" } else { "different functions compare equal" }, "{}", d());
    ensure!(c, (a != b) != eq, "wrong inequality", "{}", d());
    if eq {
        ensure!(c, case::hash_of(a) == case::hash_of(b), "equal functions hash differently", "{}", d());
        c.count("equal_pairs", 1);
    }
    let o = a.cmp(b);
    ensure!(c, (o == Equal) == eq, "order inconsistent with equality", "{}: {o:?}", d());
    ensure!(c, b.cmp(a) == o.reverse(), "order not antisymmetric", "{}: {o:?}", d());
    ensure!(c, a.partial_cmp(b) == Some(o), "partial order differs from order", "{}", d());
    c.count("comparisons", 1);
    ensure!(c, a.clone() == *a, "clone differs", "{}", d());
}

/// two maps that differ in a single respect, and the same function reached on two ways
fn near(c: &mut Case) {
    type T = TotalVecMap<Z, [(u32, Z); 2]>;
    let u = 1 + c.rng.below(12);
    let (m, t): (T, Tab) = build(c, u);
    let mut t2 = t.clone();
    match c.rng.below(3) {
        0 => t2.1 = z(c.rng.below(M as usize) as i32),
        1 => {
            let i = c.rng.below(u);
            t2.0[i] = z(c.rng.below(M as usize) as i32)
        }
        _ => {}
    }
    c.note(&(&t.0, t.1, &t2.0, t2.1));
    let direct: VecMap<[(u32, Z); 2]> = t2.0.iter().enumerate().map(|(i, v)| (i as u32, *v)).collect();
    let m2: T = TotalVecMap::new(direct, t2.1);
    verify(c, &m2, &t2, "construction from all values");
    // same function by arithmetic: (m2 - m) + m
    let m3: T = (m2.clone() - m.clone()) + m.clone();
    verify(c, &m3, &t2, "(m2 - m) + m");
    compare(c, &m, &m2, &t, &t2);
    compare(c, &m3, &m2, &t2, &t2);
    compare(c, &m, &m3, &t, &t2);
    c.nontrivial = t.0.iter().any(|x| *x != t.1);
}

/// serialised input that lists default values, duplicates or unsorted keys
fn noncanonical(c: &mut Case) {
    type T = TotalVecMap<Z, [(u32, Z); 2]>;
    let u = 1 + c.rng.below(30);
    let d = z(c.rng.below(3) as i32);
    let mut t = Tab(vec![d; u], d);
    let mut e: Vec<(u32, Z)> = vec![];
    for i in 0..u {
        if c.rng.bool() {
            let v = z(c.rng.below(3) as i32);
            t.0[i] = v;
            e.push((i as u32, v));
        }
    }
    c.rng.shuffle(&mut e);
    c.note(&(&e, d));
    c.log(|| format!("entries {e:?} default {d:?}"));
    let js = format!("[{{{}}},{}]", e.iter().map(|(k, v)| format!("\"{k}\":{}", v.0)).collect::<Vec<_>>().join(","), d.0);
    let m: T = match serde_json::from_str(&js) {
        Ok(m) => m,
        Err(x) => c.fail("serialised total map not readable", format!("{js}: {x}")),
    };
    verify(c, &m, &t, &format!("reading {js}"));
    let ones: Vec<(u32, Z)> = e.clone();
    struct AsMap<'a>(&'a [(u32, Z)]);
    impl serde::Serialize for AsMap<'_> {
        fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
            s.collect_map(self.0.iter().map(|(k, v)| (k, v)))
        }
    }
    let bin = bincode::serialize(&(AsMap(&ones), d)).unwrap();
    let m2: T = bincode::deserialize(&bin).unwrap_or_else(|x| c.fail("serialised total map not readable", x.to_string()));
    verify(c, &m2, &t, "reading bincode");
    let direct: T = TotalVecMap::new(t.0.iter().enumerate().map(|(i, v)| (i as u32, *v)).collect(), d);
    compare(c, &m, &direct, &t, &t);
    compare(c, &m2, &direct, &t, &t);
    c.count("noncanonical_inputs", 2);
    c.nontrivial = !e.is_empty();
}

macro_rules! caps {
    ($name:ident, $k:ty) => {
        fn $name(c: &mut Case) {
            match c.cap() {
                0 => history::<[($k, Z); 0], $k>(c),
                1 => history::<[($k, Z); 1], $k>(c),
                2 => history::<[($k, Z); 2], $k>(c),
                4 => history::<[($k, Z); 4], $k>(c),
                _ => history::<[($k, Z); 16], $k>(c),
            }
        }
    };
}
caps!(h_u32, u32);
caps!(h_string, String);
caps!(h_tok, tok::Tok);

fn main() {
    vcmon::main(
        "P12",
        &[
            Scenario { name: "history_u32", weight: 3, run: h_u32 },
            Scenario { name: "history_string", weight: 2, run: h_string },
            Scenario { name: "history_tok", weight: 2, run: h_tok },
            Scenario { name: "near", weight: 3, run: near },
            Scenario { name: "noncanonical", weight: 2, run: noncanonical },
        ],
    )
}

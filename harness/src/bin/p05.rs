//! P05: map joins are relational joins and call the combiner once per key. Oracle: merge of the key
//! lists, with a log of every call the combiner received.
use smallvec::Array;
use std::cell::RefCell;
use vcmon::*;
use vec_collections::{AbstractVecMap, OuterJoinArg, VecMap};

/// key, left value, right value
type Call = (u32, Option<u64>, Option<u64>);

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Join {
    Outer,
    Left,
    Right,
    Inner,
}
use Join::*;
const JOINS: [Join; 4] = [Outer, Left, Right, Inner];

fn expected_calls(j: Join, a: &[(u32, u64)], b: &[(u32, u64)]) -> Vec<Call> {
    let mut keys: Vec<u32> = a.iter().map(|x| x.0).chain(b.iter().map(|x| x.0)).collect();
    keys.sort();
    keys.dedup();
    let get = |m: &[(u32, u64)], k: u32| m.binary_search_by_key(&k, |x| x.0).ok().map(|i| m[i].1);
    keys.into_iter()
        .map(|k| (k, get(a, k), get(b, k)))
        .filter(|(_, x, y)| match j {
            Outer => true,
            Left => x.is_some(),
            Right => y.is_some(),
            Inner => x.is_some() && y.is_some(),
        })
        .collect()
}
/// the combining function: keeps or drops by a rule, value depends on everything it was given
#[derive(Clone, Copy, Debug)]
struct Rule(u32, u32);
impl Rule {
    fn f(self, c: Call) -> Option<u64> {
        if case::hash_of(&(c.0, c.1.is_some(), c.2.is_some(), self.1)) % 8 < self.0 as u64 {
            None
        } else {
            Some(c.0 as u64 + 1_000_000 * (c.1.unwrap_or(7) * 3 + c.2.unwrap_or(11) * 5))
        }
    }
}

struct Log {
    rule: Rule,
    calls: RefCell<Vec<Call>>,
}
impl Log {
    fn new(rule: Rule) -> Self {
        Log { rule, calls: RefCell::new(vec![]) }
    }
    fn call(&self, c: Call) -> Option<u64> {
        self.calls.borrow_mut().push(c);
        self.rule.f(c)
    }
}

fn verdict<T>(c: &mut Case, j: Join, form: &str, log: Log, got: &[(T, u64)], key: impl Fn(&T) -> u32, a: &[(u32, u64)], b: &[(u32, u64)]) {
    let calls = expected_calls(j, a, b);
    let want: Vec<(u32, u64)> = calls.iter().filter_map(|x| log.rule.f(*x).map(|v| (x.0, v))).collect();
    let got: Vec<(u32, u64)> = got.iter().map(|(k, v)| (key(k), *v)).collect();
    c.count("joins_checked", 1);
    c.count("combiner_calls", calls.len() as u64);
    let seen = log.calls.into_inner();
    ensure!(c, got == want, "wrong join result", "{j:?} {form} {:?} of {a:?} and {b:?}: got {got:?}, expected {want:?}", log.rule);
    ensure!(c, seen == calls, "wrong combiner calls", "{j:?} {form} of {a:?} and {b:?}: calls {seen:?}, expected {calls:?}");
}

fn outer_arg<K>(x: &OuterJoinArg<&K, &u64, &u64>, key: impl Fn(&K) -> u32) -> Call {
    match x {
        OuterJoinArg::Left(k, v) => (key(k), Some(**v), None),
        OuterJoinArg::Right(k, w) => (key(k), None, Some(**w)),
        OuterJoinArg::Both(k, v, w) => (key(k), Some(**v), Some(**w)),
    }
}

fn by_ref<K: Ord + Clone + 'static, R: Array<Item = (K, u64)>>(
    c: &mut Case,
    form: &str,
    x: &impl AbstractVecMap<K, u64>,
    y: &impl AbstractVecMap<K, u64>,
    key: impl Fn(&K) -> u32 + Copy,
    a: &[(u32, u64)],
    b: &[(u32, u64)],
) {
    for j in JOINS {
        let log = Log::new(Rule(c.rng.below(9) as u32, c.rng.below(1000) as u32));
        let r: VecMap<R> = match j {
            Outer => x.outer_join(y, |arg| log.call(outer_arg(&arg, key))),
            Left => x.left_join(y, |k, v, w| log.call((key(k), Some(*v), w.copied()))),
            Right => x.right_join(y, |k, v, w| log.call((key(k), v.copied(), Some(*w)))),
            Inner => x.inner_join(y, |k, v, w| log.call((key(k), Some(*v), Some(*w)))),
        };
        verdict(c, j, form, log, r.as_ref(), key, a, b);
        // the result is a working map
        for (k, _, _) in expected_calls(j, a, b).iter().take(5) {
            let s: &[(K, u64)] = r.as_ref();
            if let Some(p) = s.iter().find(|p| key(&p.0) == *k) {
                ensure!(c, r.get(&p.0) == Some(&p.1), "wrong join result", "lookup in result");
            }
        }
    }
    ensure!(c, x.as_slice().iter().map(|(k, v)| (key(k), *v)).eq(a.iter().copied()), "borrowed left operand changed", "{form}");
    ensure!(c, y.as_slice().iter().map(|(k, v)| (key(k), *v)).eq(b.iter().copied()), "borrowed right operand changed", "{form}");
}

fn in_place<K: Ord + Clone + 'static, A: Array<Item = (K, u64)>>(
    c: &mut Case,
    form: &str,
    x: &VecMap<A>,
    y: &impl AbstractVecMap<K, u64>,
    key: impl Fn(&K) -> u32 + Copy,
    a: &[(u32, u64)],
    b: &[(u32, u64)],
) {
    for j in JOINS {
        let log = Log::new(Rule(c.rng.below(9) as u32, c.rng.below(1000) as u32));
        let mut r: VecMap<A> = x.clone();
        match j {
            Outer => r.outer_join_with(y, |arg| {
                log.call(match arg {
                    OuterJoinArg::Left(k, v) => (key(k), Some(v), None),
                    OuterJoinArg::Right(k, w) => (key(k), None, Some(*w)),
                    OuterJoinArg::Both(k, v, w) => (key(k), Some(v), Some(*w)),
                })
            }),
            Left => r.left_join_with(y, |k, v, w| log.call((key(k), Some(v), w.copied()))),
            Right => r.right_join_with(y, |k, v, w| log.call((key(k), v, Some(*w)))),
            Inner => r.inner_join_with(y, |k, v, w| log.call((key(k), Some(v), Some(*w)))),
        }
        verdict(c, j, form, log, r.as_ref(), key, a, b);
        ensure!(c, r.len() == AbstractVecMap::as_slice(&r).len(), "wrong join result", "len");
    }
    ensure!(c, y.as_slice().iter().map(|(k, v)| (key(k), *v)).eq(b.iter().copied()), "borrowed right operand changed", "{form}");
}

fn contents(c: &mut Case, large: usize) -> (Vec<(u32, u64)>, Vec<(u32, u64)>) {
    let (ka, kb) = gen::pair(c, large);
    c.note(&(&ka, &kb));
    c.nontrivial = !ka.is_empty() && !kb.is_empty();
    c.log(|| format!("left keys {ka:?} right keys {kb:?}"));
    (ka.into_iter().enumerate().map(|(i, k)| (k, 100 + i as u64)).collect(), kb.into_iter().enumerate().map(|(i, k)| (k, 50_000 + i as u64)).collect())
}
struct Foreign<K>(Vec<(K, u64)>);
impl<K> AbstractVecMap<K, u64> for Foreign<K> {
    fn as_slice(&self) -> &[(K, u64)] {
        &self.0
    }
}

fn run_ints<A: Array<Item = (u32, u64)>, B: Array<Item = (u32, u64)>>(c: &mut Case) {
    let (a, b) = contents(c, 500);
    let x: VecMap<A> = a.iter().copied().collect();
    let y: VecMap<B> = b.iter().copied().collect();
    by_ref::<u32, B>(c, "by reference", &x, &y, |k| *k, &a, &b);
    in_place(c, "in place", &x, &y, |k| *k, &a, &b);
    if c.rng.chance(1, 4) {
        by_ref::<u32, A>(c, "map with itself", &x, &x, |k| *k, &a, &a);
        in_place(c, "in place, with a copy of itself", &x, &x, |k| *k, &a, &a);
    }
    let f = Foreign(b.clone());
    by_ref::<u32, A>(c, "foreign right", &x, &f, |k| *k, &a, &b);
    in_place(c, "in place, foreign right", &x, &f, |k| *k, &a, &b);
    // owned right side: combine_with calls the function for shared keys only
    let mut r = x.clone();
    let calls = RefCell::new(vec![]);
    r.combine_with(y.clone(), |p, q| {
        calls.borrow_mut().push((p, q));
        p * 1_000_000 + q
    });
    let want: Vec<(u32, u64)> = expected_calls(Outer, &a, &b)
        .into_iter()
        .map(|(k, p, q)| match (p, q) {
            (Some(p), Some(q)) => (k, p * 1_000_000 + q),
            (p, q) => (k, p.or(q).unwrap()),
        })
        .collect();
    let both: Vec<(u64, u64)> = expected_calls(Inner, &a, &b).into_iter().map(|x| (x.1.unwrap(), x.2.unwrap())).collect();
    ensure_eq!(c, r.as_ref(), &want[..], "wrong join result", "combine_with of {a:?} and {b:?}");
    ensure_eq!(c, calls.into_inner(), both, "wrong combiner calls", "combine_with of {a:?} and {b:?}");
    c.count("joins_checked", 1);
}
fn ints(c: &mut Case) {
    let (n, m) = (c.cap(), c.cap());
    with_caps!(n, m, (u32, u64), (u32, u64), run_ints(c))
}
fn toks(c: &mut Case) {
    use tok::Tok;
    let (a, b) = contents(c, 200);
    let x: VecMap<[(Tok, u64); 2]> = a.iter().map(|(k, v)| (Tok::new(*k, 1), *v)).collect();
    let y: VecMap<[(Tok, u64); 4]> = b.iter().map(|(k, v)| (Tok::new(*k, 2), *v)).collect();
    by_ref::<Tok, [(Tok, u64); 1]>(c, "by reference", &x, &y, |k| k.key(), &a, &b);
    in_place(c, "in place", &x, &y, |k| k.key(), &a, &b);
}
fn archived(c: &mut Case) {
    let (a, b) = contents(c, 500);
    type M = VecMap<[(u32, u64); 2]>;
    let (x, y): (M, M) = (a.iter().copied().collect(), b.iter().copied().collect());
    let (xb, yb) = (arch::to_bytes(&x), arch::to_bytes(&y));
    let (xa, ya) = (arch::root::<M>(&xb), arch::root::<M>(&yb));
    by_ref::<u32, [(u32, u64); 4]>(c, "archived left", xa, &y, |k| *k, &a, &b);
    by_ref::<u32, [(u32, u64); 1]>(c, "archived right", &x, ya, |k| *k, &a, &b);
    by_ref::<u32, [(u32, u64); 0]>(c, "archived both", xa, ya, |k| *k, &a, &b);
    if c.rng.chance(1, 4) {
        by_ref::<u32, [(u32, u64); 0]>(c, "archived map with itself", xa, xa, |k| *k, &a, &a);
    }
    in_place(c, "in place, archived right", &x, ya, |k| *k, &a, &b);
}

/// values and results of unrelated, owning types
fn heterogeneous(c: &mut Case) {
    let (a, b) = contents(c, 120);
    let x: VecMap<[(u32, String); 2]> = a.iter().map(|(k, v)| (*k, format!("{v}"))).collect();
    let y: VecMap<[(u32, Option<Box<u64>>); 1]> = b.iter().map(|(k, v)| (*k, Some(Box::new(*v)))).collect();
    let p = |s: &String| s.parse::<u64>().unwrap();
    let q = |w: &Option<Box<u64>>| **w.as_ref().unwrap();
    for j in JOINS {
        for inp in [false, true] {
            let log = Log::new(Rule(c.rng.below(9) as u32, c.rng.below(1000) as u32));
            let r: Vec<(u32, u64)> = if inp {
                let mut r = x.clone();
                let s = |x: Option<u64>| x.map(|x| format!("{x}"));
                match j {
                    Outer => r.outer_join_with(&y, |arg| {
                        s(log.call(match arg {
                            OuterJoinArg::Left(k, v) => (*k, Some(p(&v)), None),
                            OuterJoinArg::Right(k, w) => (*k, None, Some(q(w))),
                            OuterJoinArg::Both(k, v, w) => (*k, Some(p(&v)), Some(q(w))),
                        }))
                    }),
                    Left => r.left_join_with(&y, |k, v, w| s(log.call((*k, Some(p(&v)), w.map(q))))),
                    Right => r.right_join_with(&y, |k, v, w| s(log.call((*k, v.as_ref().map(p), Some(q(w)))))),
                    Inner => r.inner_join_with(&y, |k, v, w| s(log.call((*k, Some(p(&v)), Some(q(w)))))),
                }
                r.iter().map(|(k, v)| (*k, p(v))).collect()
            } else {
                let r: VecMap<[(u32, Vec<u64>); 3]> = match j {
                    Outer => x.outer_join(&y, |arg| {
                        log.call(match arg {
                            OuterJoinArg::Left(k, v) => (*k, Some(p(v)), None),
                            OuterJoinArg::Right(k, w) => (*k, None, Some(q(w))),
                            OuterJoinArg::Both(k, v, w) => (*k, Some(p(v)), Some(q(w))),
                        })
                        .map(|x| vec![x])
                    }),
                    Left => x.left_join(&y, |k, v, w| log.call((*k, Some(p(v)), w.map(q))).map(|x| vec![x])),
                    Right => x.right_join(&y, |k, v, w| log.call((*k, v.map(p), Some(q(w)))).map(|x| vec![x])),
                    Inner => x.inner_join(&y, |k, v, w| log.call((*k, Some(p(v)), Some(q(w)))).map(|x| vec![x])),
                };
                r.iter().map(|(k, v)| (*k, v[0])).collect()
            };
            verdict(c, j, if inp { "in place, other types" } else { "other types" }, log, &r, |k| *k, &a, &b);
        }
    }
}

fn main() {
    vcmon::main(
        "P05",
        &[
            Scenario { name: "integer_keys", weight: 4, run: ints },
            Scenario { name: "counted_keys", weight: 2, run: toks },
            Scenario { name: "archived", weight: 2, run: archived },
            Scenario { name: "heterogeneous", weight: 2, run: heterogeneous },
        ],
    )
}

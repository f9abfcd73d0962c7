//! P11: total sets are an exact Boolean algebra. Oracle: truth table over a universe of values plus one
//! cell that stands for every value never listed.
use smallvec::Array;
use vcmon::gen::Elem;
use vcmon::*;
use vec_collections::{total_vec_set::TotalVecSet, VecSet};

#[derive(Clone, PartialEq, Eq, Debug)]
struct Table(Vec<bool>);
impl Table {
    fn op(&self, o: &Table, f: impl Fn(bool, bool) -> bool) -> Table {
        Table(self.0.iter().zip(&o.0).map(|(a, b)| f(*a, *b)).collect())
    }
    fn subset(&self, o: &Table) -> bool {
        self.0.iter().zip(&o.0).all(|(a, b)| !*a || *b)
    }
    fn disjoint(&self, o: &Table) -> bool {
        self.0.iter().zip(&o.0).all(|(a, b)| !(*a && *b))
    }
    fn show(&self) -> String {
        let n = self.0.len() - 1;
        let neg = self.0[n];
        format!("{}{:?}", if neg { "!" } else { "" }, (0..n).filter(|i| self.0[*i] != neg).collect::<Vec<_>>())
    }
}

/// every value of the universe, and several outside it
fn verify<A: Array>(c: &mut Case, s: &TotalVecSet<A>, t: &Table, step: &str)
where
    A::Item: Elem,
{
    let n = t.0.len() - 1;
    for i in 0..n {
        let got = s.contains(&A::Item::mk(i as u32));
        ensure!(c, got == t.0[i], "wrong membership", "after {step}: contains({i}) is {got}, the set is {}", t.show());
    }
    for k in [n as u32, n as u32 + 1, n as u32 + 1000] {
        let got = s.contains(&A::Item::mk(k));
        ensure!(c, got == t.0[n], "wrong membership outside the listed values", "after {step}: contains({k}) is {got}, the set is {}", t.show());
    }
    c.count("memberships", n as u64 + 3);
    ensure!(c, s.is_empty() == t.0.iter().all(|x| !*x), "wrong emptiness", "after {step}: {}", t.show());
    ensure!(c, s.is_all() == t.0.iter().all(|x| *x), "wrong fullness", "after {step}: {}", t.show());
}

fn history<A: Array>(c: &mut Case)
where
    A::Item: Elem + serde::Serialize + for<'a> serde::Deserialize<'a>,
{
    let k = 2 + c.rng.below(3);
    let u = if c.small { 1 + c.rng.below(6) } else { [1, 3, 8, 20, 60, 150][c.rng.below(6)] + c.rng.below(4) };
    let mut sets: Vec<TotalVecSet<A>> = vec![];
    let mut tabs: Vec<Table> = vec![];
    for _ in 0..k {
        let (s, t) = start::<A>(c, u);
        sets.push(s);
        tabs.push(t);
    }
    let steps = c.steps(30);
    for _ in 0..steps {
        let (i, j) = (c.rng.below(k), c.rng.below(k));
        let what: u8 = c.rng.below(22) as u8;
        c.note(&(what, tabs[i].0.iter().filter(|x| **x).count() as u32, tabs[i].0[u]));
        let v = c.rng.below(u) as u32;
        let name: String;
        match what {
            0..=3 => {
                name = format!("{i}.insert({v})");
                sets[i].insert(A::Item::mk(v));
                tabs[i].0[v as usize] = true;
            }
            4..=7 => {
                name = format!("{i}.remove({v})");
                sets[i].remove(&A::Item::mk(v));
                tabs[i].0[v as usize] = false;
            }
            8 => {
                name = format!("{i} = !&{j}");
                sets[i] = !&sets[j];
                tabs[i] = Table(tabs[j].0.iter().map(|x| !*x).collect());
            }
            9 => {
                name = format!("{i} = !{i} owned");
                let s = std::mem::replace(&mut sets[i], TotalVecSet::empty());
                sets[i] = !s;
                tabs[i].0.iter_mut().for_each(|x| *x = !*x);
            }
            10..=13 => {
                let op = what - 10;
                name = format!("{i} = &{i} {} &{j}", ["|", "&", "-", "^"][op as usize]);
                let r = match op {
                    0 => &sets[i] | &sets[j],
                    1 => &sets[i] & &sets[j],
                    2 => &sets[i] - &sets[j],
                    _ => &sets[i] ^ &sets[j],
                };
                tabs[i] = tabs[i].op(&tabs[j], f(op));
                sets[i] = r;
                c.count("operations", 1);
            }
            14..=18 => {
                let op = what % 4;
                name = format!("{i} {}= {j}", ["|", "&", "-", "^"][op as usize]);
                let r = sets[j].clone();
                match op {
                    0 => sets[i] |= r,
                    1 => sets[i] &= r,
                    2 => sets[i] -= r,
                    _ => sets[i] ^= r,
                };
                tabs[i] = tabs[i].op(&tabs[j].clone(), f(op));
                c.count("operations", 1);
            }
            19 => {
                name = format!("{i} rebuilt");
                let (s, t) = start::<A>(c, u);
                sets[i] = s;
                tabs[i] = t;
            }
            20 => {
                name = format!("{i}.shrink_to_fit()");
                sets[i].shrink_to_fit()
            }
            _ => {
                let fmt = c.rng.below(3);
                name = format!("{i} serialised and read back ({})", ["json", "bincode", "cbor"][fmt]);
                let s = &sets[i];
                let r: Result<TotalVecSet<A>, String> = match fmt {
                    0 => serde_json::from_str(&serde_json::to_string(s).unwrap()).map_err(|e| e.to_string()),
                    1 => bincode::deserialize(&bincode::serialize(s).unwrap()).map_err(|e| e.to_string()),
                    _ => serde_cbor::from_slice(&serde_cbor::to_vec(s).unwrap()).map_err(|e| e.to_string()),
                };
                match r {
                    Ok(r) => {
                        ensure!(c, r == sets[i], "serialisation does not round trip", "{name}: {r:?} instead of {:?}", sets[i]);
                        sets[i] = r
                    }
                    Err(e) => c.fail("serialised total set not readable", format!("{name}: {e}")),
                }
                c.count("roundtrips", 1);
            }
        }
        c.log(|| name.clone());
        verify(c, &sets[i], &tabs[i], &name);
        if i != j {
            verify(c, &sets[j], &tabs[j], &format!("{name} (other operand)"));
        }
        relations(c, &sets[i], &sets[j], &tabs[i], &tabs[j]);
    }
    c.nontrivial = tabs.iter().any(|t| t.0.iter().any(|x| *x != t.0[u]));
}
fn f(op: u8) -> impl Fn(bool, bool) -> bool {
    move |a, b| match op {
        0 => a || b,
        1 => a && b,
        2 => a && !b,
        _ => a ^ b,
    }
}

fn start<A: Array>(c: &mut Case, u: usize) -> (TotalVecSet<A>, Table)
where
    A::Item: Elem,
{
    match c.rng.below(8) {
        0 => {
            let b = c.rng.bool();
            (TotalVecSet::constant(b), Table(vec![b; u + 1]))
        }
        1 => {
            let b = c.rng.bool();
            (b.into(), Table(vec![b; u + 1]))
        }
        2 => (TotalVecSet::empty(), Table(vec![false; u + 1])),
        3 => (TotalVecSet::all(), Table(vec![true; u + 1])),
        r => {
            let p = c.rng.below(11);
            let mut t = Table((0..u).map(|_| c.rng.chance(p, 10)).chain(Some(false)).collect());
            let s: VecSet<A> = (0..u).filter(|i| t.0[*i]).map(|i| A::Item::mk(i as u32)).collect();
            let s: TotalVecSet<A> = s.into();
            if r > 5 {
                t.0.iter_mut().for_each(|x| *x = !*x);
                (!s, t)
            } else {
                (s, t)
            }
        }
    }
}

fn relations<A: Array>(c: &mut Case, a: &TotalVecSet<A>, b: &TotalVecSet<A>, ta: &Table, tb: &Table)
where
    A::Item: Elem,
{
    for (a, b, ta, tb) in [(a, b, ta, tb), (b, a, tb, ta), (a, a, ta, ta)] {
        let d = || format!("{} and {}", ta.show(), tb.show());
        ensure!(c, a.is_subset(b) == ta.subset(tb), "wrong is_subset", "{}: {}", a.is_subset(b), d());
        ensure!(c, a.is_superset(b) == tb.subset(ta), "wrong is_superset", "{}: {}", a.is_superset(b), d());
        ensure!(c, a.is_disjoint(b) == ta.disjoint(tb), "wrong is_disjoint", "{}: {}", a.is_disjoint(b), d());
        ensure!(c, (a == b) == (ta == tb), "wrong equality", "{}", d());
        ensure!(c, a.clone() == *a, "clone differs", "{}", d());
        if ta == tb {
            ensure!(c, case::hash_of(a) == case::hash_of(b), "equal total sets hash differently", "{}", d());
        }
        c.count("relations", 4);
    }
}

/// pairs in every sign combination, all operations in both forms
fn pairs<A: Array>(c: &mut Case)
where
    A::Item: Elem,
{
    let (ka, kb) = gen::pair(c, 300);
    let u = ka.last().copied().unwrap_or(0).max(kb.last().copied().unwrap_or(0)) as usize + 1;
    if u > 4000 {
        return;
    }
    c.note(&(&ka, &kb));
    c.nontrivial = !ka.is_empty() && !kb.is_empty();
    let tab = |k: &[u32], neg: bool| {
        let mut t = vec![neg; u + 1];
        for x in k {
            t[*x as usize] = !neg
        }
        Table(t)
    };
    let mk = |k: &[u32], neg: bool| {
        let s: VecSet<A> = k.iter().map(|k| A::Item::mk(*k)).collect();
        let s: TotalVecSet<A> = s.into();
        if neg { !s } else { s }
    };
    for (na, nb) in [(false, false), (false, true), (true, false), (true, true)] {
        let (ta, tb) = (tab(&ka, na), tab(&kb, nb));
        let (a, b) = (mk(&ka, na), mk(&kb, nb));
        for op in 0..4u8 {
            let t = ta.op(&tb, f(op));
            let r = match op {
                0 => &a | &b,
                1 => &a & &b,
                2 => &a - &b,
                _ => &a ^ &b,
            };
            let mut x = a.clone();
            let y = b.clone();
            match op {
                0 => x |= y,
                1 => x &= y,
                2 => x -= y,
                _ => x ^= y,
            };
            let n = ["|", "&", "-", "^"][op as usize];
            verify(c, &r, &t, &format!("&{} {n} &{}", ta.show(), tb.show()));
            verify(c, &x, &t, &format!("{} {n}= {}", ta.show(), tb.show()));
            ensure!(c, r == x, "in place and by reference results differ", "{} {n} {}", ta.show(), tb.show());
            // canonical: equal to the set built directly
            let neg = t.0[u];
            let k: Vec<u32> = (0..u).filter(|i| t.0[*i] != neg).map(|i| i as u32).collect();
            ensure!(c, r == mk(&k, neg), "equal sets compare unequal", "{} {n} {}", ta.show(), tb.show());
            c.count("operations", 2);
        }
        verify(c, &a, &ta, "operations (left operand)");
        verify(c, &b, &tb, "operations (right operand)");
        relations(c, &a, &b, &ta, &tb);
    }
}
fn h_u32(c: &mut Case) {
    let n = c.cap();
    with_cap!(n, u32, history(c))
}
fn h_string(c: &mut Case) {
    let n = c.cap();
    with_cap!(n, String, history(c))
}
fn h_tok(c: &mut Case) {
    let n = c.cap();
    with_cap!(n, tok::Tok, history(c));
    ensure!(c, tok::live() == 0, "leak", "{} elements alive at the end", tok::live());
}
fn p_u32(c: &mut Case) {
    let n = c.cap();
    with_cap!(n, u32, pairs(c))
}
fn p_tok(c: &mut Case) {
    let n = c.cap();
    with_cap!(n, tok::Tok, pairs(c));
    ensure!(c, tok::live() == 0, "leak", "{} elements alive at the end", tok::live());
}

fn main() {
    vcmon::main(
        "P11",
        &[
            Scenario { name: "history_u32", weight: 3, run: h_u32 },
            Scenario { name: "history_string", weight: 2, run: h_string },
            Scenario { name: "history_tok", weight: 2, run: h_tok },
            Scenario { name: "pairs_u32", weight: 2, run: p_u32 },
            Scenario { name: "pairs_tok", weight: 1, run: p_tok },
        ],
    )
}

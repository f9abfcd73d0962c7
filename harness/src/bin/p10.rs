//! P10: a panic in user code never corrupts a collection. Oracle: ledger of elements; contents of the
//! operands before and after the interrupted operation.
use vcmon::own::*;
use vcmon::radix::{ArcRadixTree, LazyRadixTree, RadixTree};
use vcmon::tok::{self, Sy, Tok};
use vcmon::*;

fn misuse(c: &Case, when: &str) {
    if let Some(e) = tok::error() {
        c.fail("element misused", format!("{e}, {when}"))
    }
}
fn faults<W: World>(c: &mut Case) {
    tok::reset();
    let w0 = W::make(c);
    c.note(&w0.sizes());
    let ops = if c.small { 2 } else { 1 + c.rng.below(4) };
    for _ in 0..ops {
        let op = w0.pick(c);
        let name = W::name(&op);
        c.log(|| format!("{op:?}"));
        // how many user calls the operation makes
        let mut w = w0.dup();
        tok::reset_cmps();
        tok::reset_clones();
        tok::reset_calls();
        w.exec(&op);
        let n = [tok::cmps(), tok::clones(), tok::calls()];
        drop(w);
        misuse(c, "uninterrupted");
        c.note(&(name, n));
        for kind in 0..3 {
            let n = n[kind];
            // every index when there are few, otherwise the first, the last and some in between
            let all = if c.thorough { 60 } else if c.small { 6 } else { 16 };
            let at: Vec<u64> = if n <= all {
                (0..n).collect()
            } else {
                let mut v = vec![0, 1, n - 1, n - 2];
                v.extend((0..all / 2).map(|_| c.rng.below(n as usize) as u64));
                v
            };
            for i in at {
                let mut w = w0.dup();
                let before = w.dup();
                match kind {
                    0 => tok::arm_cmp(i),
                    1 => tok::arm_clone(i),
                    _ => tok::arm_call(i),
                }
                let done = tok::catch_injected(|| w.exec(&op)).is_some();
                let when = || format!("{op:?}, {} {i} of {n} panicked", ["comparison", "clone", "call"][kind]);
                if !done {
                    c.count("interrupted", 1);
                    c.count(["in_comparison", "in_clone", "in_call"][kind], 1);
                    misuse(c, &when());
                    if let Err(e) = w.verify(&before, &op) {
                        c.fail(
                            match W::kind(&op) {
                                (Kind::InPlace, _) => "in place operand damaged",
                                _ => "operand damaged",
                            },
                            format!("{e}; {}", when()),
                        )
                    }
                    misuse(c, &format!("reading after {}", when()));
                    c.nontrivial = true;
                }
                if let Err(e) = w.use_again() {
                    c.fail("unusable after a panic", format!("{e}; {}", when()))
                }
                misuse(c, &format!("use after {}", when()));
                drop(w);
                drop(before);
                misuse(c, &format!("drop after {}", when()));
            }
        }
        c.count("operations", 1);
    }
    drop(w0);
    misuse(c, "at the end");
    c.maxc("max_left_over", tok::live() as u64);
}

fn sets(c: &mut Case) {
    match c.rng.below(6) {
        0 => faults::<SetW<[Tok; 1], [Tok; 4]>>(c),
        1 => faults::<SetW<[Tok; 0], [Tok; 2]>>(c),
        2 => faults::<SetW<[Tok; 2], [Tok; 2]>>(c),
        3 => faults::<SetW<[Tok; 4], [Tok; 0]>>(c),
        4 => faults::<SetW<[Tok; 8], [Tok; 1]>>(c),
        _ => faults::<SetW<[Tok; 16], [Tok; 16]>>(c),
    }
}
fn maps(c: &mut Case) {
    match c.rng.below(6) {
        0 => faults::<MapW<[P; 1], [P; 4]>>(c),
        1 => faults::<MapW<[P; 0], [P; 2]>>(c),
        2 => faults::<MapW<[P; 2], [P; 2]>>(c),
        3 => faults::<MapW<[P; 4], [P; 0]>>(c),
        4 => faults::<MapW<[P; 8], [P; 1]>>(c),
        _ => faults::<MapW<[P; 16], [P; 16]>>(c),
    }
}
fn totals(c: &mut Case) {
    match c.rng.below(3) {
        0 => faults::<TotalW<[Tok; 0]>>(c),
        1 => faults::<TotalW<[Tok; 2]>>(c),
        _ => faults::<TotalW<[Tok; 8]>>(c),
    }
}
fn ordered(c: &mut Case) {
    faults::<OrdW>(c)
}
fn flat(c: &mut Case) {
    faults::<TreeW<RadixTree<Sy, Tok>>>(c)
}
fn arc(c: &mut Case) {
    faults::<TreeW<ArcRadixTree<Sy, Tok>>>(c)
}
fn lazy(c: &mut Case) {
    faults::<TreeW<LazyRadixTree<'static, Sy, Tok>>>(c)
}

fn main() {
    vcmon::main(
        "P10",
        &[
            Scenario { name: "sets", weight: 5, run: sets },
            Scenario { name: "maps", weight: 5, run: maps },
            Scenario { name: "totals", weight: 2, run: totals },
            Scenario { name: "ordered", weight: 1, run: ordered },
            Scenario { name: "flat", weight: 2, run: flat },
            Scenario { name: "arc", weight: 2, run: arc },
            Scenario { name: "lazy", weight: 2, run: lazy },
        ],
    )
}

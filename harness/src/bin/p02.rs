//! P02: set operations are exact in every form. Oracle: merge of the two key lists; the elements carry
//! a tag that tells which operand they came from.
use smallvec::Array;
use vcmon::sets::*;
use vcmon::tok::Tok;
use vcmon::*;
use vec_collections::{AbstractVecSet, VecSet};

fn check<A: Array<Item = Tok>, B: Array<Item = Tok>>(c: &mut Case) {
    let (ka, kb) = gen::pair(c, 600);
    c.note(&(&ka, &kb));
    c.nontrivial = !ka.is_empty() && !kb.is_empty();
    c.log(|| format!("left {ka:?} right {kb:?} inline {} {}", A::size(), B::size()));
    let a: VecSet<A> = build(c, &ka, 1);
    let b: VecSet<B> = build(c, &kb, 2);
    let (a0, b0) = (kts(&a), kts(&b));
    let bs = SliceSet(kb.iter().map(|k| Tok::new(*k, 2)).collect());
    let as_ = SliceSet(ka.iter().map(|k| Tok::new(*k, 1)).collect());
    for op in 0..4 {
        let want: Vec<(u32, u32)> = expected(op, &ka, &kb).into_iter().map(|(l, i)| if l { (ka[i], 1) } else { (kb[i], 2) }).collect();
        let n = OPS[op];
        c.count("results_checked", 9);
        c.maxc("max_result", want.len() as u64);
        let verify = |c: &mut Case, got: Vec<(u32, u32)>, form: &str| {
            if got != want {
                let keys_ok = got.iter().map(|x| x.0).eq(want.iter().map(|x| x.0));
                c.fail(
                    if keys_ok { "wrong operand's element kept" } else { "wrong result" },
                    format!("{n} {form} of {ka:?} and {kb:?}: got {got:?}, expected {want:?}"),
                )
            }
        };
        for form in 0..REF_FORMS {
            let r = by_ref(op, form, &a, &b);
            verify(c, kts(&r), ["by reference (operator)", "by reference (method)", "by reference (trait)"][form]);
        }
        let r: VecSet<[Tok; 3]> = abstract_op(op, &as_, &b);
        verify(c, kts(&r), "trait method on a foreign left set");
        verify(c, kts(&method_op(op, &a, &bs)), "method with a foreign right set");
        let mut x = a.clone();
        assign_ref(op, &mut x, &b);
        verify(c, kts(&x), "in place with borrowed right side");
        let mut x: VecSet<A> = build(c, &ka, 1);
        let y: VecSet<B> = build(c, &kb, 2);
        assign_owned(op, &mut x, y);
        verify(c, kts(&x), "in place with owned right side");
        // the result stays usable: feed it once more
        let y: VecSet<B> = b.clone();
        let keys: Vec<u32> = want.iter().map(|x| x.0).collect();
        let op2 = c.rng.below(4);
        let want2: Vec<(u32, u32)> = expected(op2, &keys, &kb).into_iter().map(|(l, i)| if l { want[i] } else { (kb[i], 2) }).collect();
        assign_owned(op2, &mut x, y);
        let got2 = kts(&x);
        ensure!(c, got2 == want2, "wrong result of a second operation", "{} after {n} of {ka:?} and {kb:?}: got {got2:?}, expected {want2:?}", OPS[op2]);
        let mut x = a.clone();
        with_op(op, &mut x, &b);
        verify(c, kts(&x), "in place method");
        let mut x: VecSet<A> = build(c, &ka, 1);
        with_op(op, &mut x, &bs);
        verify(c, kts(&x), "in place method with a foreign right set");
        // left operand of the same kind on both sides
        if c.rng.chance(1, 4) {
            let selfop: Vec<(u32, u32)> = if op < 2 { a0.clone() } else { vec![] };
            let r = by_ref(op, 0, &a, &a);
            let got = kts(&r);
            ensure!(c, got == selfop, "wrong result", "{n} of {ka:?} with itself: {got:?}");
        }
        ensure!(c, kts(&a) == a0, "borrowed left operand changed", "{n} of {ka:?} and {kb:?}");
        ensure!(c, kts(&b) == b0, "borrowed right operand changed", "{n} of {ka:?} and {kb:?}");
        ensure!(c, bs.0.iter().map(|t| t.kt()).eq(b0.iter().copied()), "borrowed foreign operand changed");
    }
}
fn tagged(c: &mut Case) {
    let (n, m) = (c.cap(), c.cap());
    with_caps!(n, m, Tok, Tok, check(c))
}

/// archived operands on either side
fn archived(c: &mut Case) {
    let (ka, kb) = gen::pair(c, 600);
    c.note(&(&ka, &kb, 7));
    c.nontrivial = !ka.is_empty() && !kb.is_empty();
    c.log(|| format!("left {ka:?} right {kb:?}"));
    type S = VecSet<[u32; 4]>;
    let (a, b): (S, VecSet<[u32; 2]>) = (ka.iter().copied().collect(), kb.iter().copied().collect());
    let (ab, bb) = (arch::to_bytes(&a), arch::to_bytes(&b));
    let (a0, b0) = (ab.to_vec(), bb.to_vec());
    let (aa, ba) = (arch::root::<S>(&ab), arch::root::<VecSet<[u32; 2]>>(&bb));
    for op in 0..4 {
        let want: Vec<u32> = expected(op, &ka, &kb).into_iter().map(|(l, i)| if l { ka[i] } else { kb[i] }).collect();
        let n = OPS[op];
        c.count("results_checked", 5);
        let verify = |c: &mut Case, got: &[u32], form: &str| {
            ensure!(c, got == &want[..], "wrong result", "{n} {form} of {ka:?} and {kb:?}: got {got:?}, expected {want:?}");
        };
        let r: S = abstract_op(op, aa, &b);
        verify(c, r.as_ref(), "archived left");
        let r: VecSet<[u32; 16]> = abstract_op(op, aa, ba);
        verify(c, r.as_ref(), "archived both");
        let r: S = abstract_op(op, &a, ba);
        verify(c, r.as_ref(), "archived right (trait)");
        let r = method_op(op, &a, ba);
        verify(c, r.as_ref(), "archived right (method)");
        if c.rng.chance(1, 4) {
            let r: S = abstract_op(op, aa, aa);
            let r: &[u32] = r.as_ref();
            ensure!(c, r == if op < 2 { &ka[..] } else { &[] }, "wrong result", "{n} of archived {ka:?} with itself: {r:?}");
        }
        let mut r = a.clone();
        with_op(op, &mut r, ba);
        verify(c, r.as_ref(), "archived right in place");
    }
    ensure!(c, ab.to_vec() == a0 && bb.to_vec() == b0, "archived operand changed");
    ensure!(c, AbstractVecSet::as_slice(aa) == &ka[..], "archived slice");
}

/// other element types, all forms against BTreeSet
fn generic<A: Array, B: Array<Item = A::Item>>(c: &mut Case)
where
    A::Item: gen::Elem,
{
    use gen::Elem;
    use std::collections::BTreeSet;
    let (ka, kb) = gen::pair(c, 200);
    let ma: BTreeSet<A::Item> = ka.into_iter().map(A::Item::mk).collect();
    let mb: BTreeSet<A::Item> = kb.into_iter().map(A::Item::mk).collect();
    c.note(&(&ma, &mb));
    c.nontrivial = !ma.is_empty() && !mb.is_empty();
    c.log(|| format!("left {ma:?} right {mb:?}"));
    let a: VecSet<A> = ma.iter().cloned().collect();
    let b: VecSet<B> = mb.iter().cloned().collect();
    for op in 0..4 {
        let want: Vec<A::Item> = match op {
            0 => &ma | &mb,
            1 => &ma & &mb,
            2 => &ma - &mb,
            _ => &ma ^ &mb,
        }
        .into_iter()
        .collect();
        let n = OPS[op];
        c.count("results_checked", 5);
        let verify = |c: &mut Case, got: &VecSet<A>, form: &str| {
            let got: &[A::Item] = got.as_ref();
            ensure!(c, got == &want[..], "wrong result", "{n} {form} of {ma:?} and {mb:?}: got {got:?}, expected {want:?}");
        };
        let f = c.rng.below(REF_FORMS);
        verify(c, &by_ref(op, f, &a, &b), "by reference");
        let mut x = a.clone();
        assign_ref(op, &mut x, &b);
        verify(c, &x, "in place ref");
        let mut x = a.clone();
        assign_owned(op, &mut x, b.clone());
        verify(c, &x, "in place owned");
        let mut x = a.clone();
        with_op(op, &mut x, &b);
        verify(c, &x, "in place method");
        ensure!(c, a.iter().eq(ma.iter()) && b.iter().eq(mb.iter()), "borrowed operand changed");
    }
}
fn types(c: &mut Case) {
    match c.rng.below(7) {
        0 => generic::<[String; 2], [String; 4]>(c),
        1 => generic::<[u8; 16], [u8; 1]>(c),
        2 => generic::<[i64; 2], [i64; 2]>(c),
        3 => generic::<[(); 2], [(); 1]>(c),
        4 => generic::<[(u8, u32); 4], [(u8, u32); 4]>(c),
        5 => generic::<[Option<Vec<u8>>; 1], [Option<Vec<u8>>; 2]>(c),
        _ => generic::<[u128; 3], [u128; 8]>(c),
    }
}

/// every pair of subsets of a small universe, shifted so that sizes straddle the merge threshold
fn exhaustive(c: &mut Case) {
    let shift = c.rng.below(3);
    let base: Vec<u32> = (0..(shift * 6) as u32).map(|x| x + 100).collect();
    let x = c.rng.below(64);
    let xs: Vec<u32> = (0..6).filter(|i| x >> i & 1 == 1).map(|i| i * 40).collect();
    c.note(&(shift, x));
    c.nontrivial = true;
    for y in 0..64usize {
        let mut ys: Vec<u32> = (0..6).filter(|i| y >> i & 1 == 1).map(|i| i * 40).collect();
        ys.extend(base.iter());
        ys.sort();
        let a: VecSet<[u32; 4]> = xs.iter().copied().collect();
        let b: VecSet<[u32; 4]> = ys.iter().copied().collect();
        for op in 0..4 {
            for swap in [false, true] {
                let (a, b, ka, kb) = if swap { (&b, &a, &ys, &xs) } else { (&a, &b, &xs, &ys) };
                let want: Vec<u32> = expected(op, ka, kb).into_iter().map(|(l, i)| if l { ka[i] } else { kb[i] }).collect();
                let mut r1 = a.clone();
                assign_owned(op, &mut r1, b.clone());
                let mut r2 = a.clone();
                assign_ref(op, &mut r2, b);
                let mut r3 = a.clone();
                with_op(op, &mut r3, b);
                let r4 = by_ref(op, 0, a, b);
                c.count("results_checked", 4);
                for (f, r) in [(1, r1), (2, r2), (3, r3), (4, r4)] {
                    let got: &[u32] = r.as_ref();
                    ensure!(c, got == &want[..], "wrong result", "{} form {f} of {ka:?} and {kb:?}: {got:?}", OPS[op]);
                }
            }
        }
    }
}

fn main() {
    vcmon::main(
        "P02",
        &[
            Scenario { name: "tagged", weight: 5, run: tagged },
            Scenario { name: "archived", weight: 2, run: archived },
            Scenario { name: "types", weight: 2, run: types },
            Scenario { name: "exhaustive", weight: 1, run: exhaustive },
        ],
    )
}

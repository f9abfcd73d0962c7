//! Set operations in all their forms, shared by several monitors.
use crate::tok::Tok;
use smallvec::Array;
use vec_collections::{AbstractVecSet, VecSet};

/// Somebody else's implementation of a compatible set.
pub struct SliceSet<T>(pub Vec<T>);
impl<T: Ord> AbstractVecSet<T> for SliceSet<T> {
    fn as_slice(&self) -> &[T] {
        &self.0
    }
}

pub const OPS: [&str; 4] = ["union", "intersection", "difference", "xor"];

/// What the operation has to produce, as (from_left, index) pairs over two ascending key lists.
pub fn expected(op: usize, a: &[u32], b: &[u32]) -> Vec<(bool, usize)> {
    let (mut i, mut j) = (0, 0);
    let mut r = vec![];
    while i < a.len() || j < b.len() {
        let l = j == b.len() || (i < a.len() && a[i] < b[j]);
        let e = i < a.len() && j < b.len() && a[i] == b[j];
        if e {
            if op == 0 || op == 1 {
                r.push((true, i))
            }
            i += 1;
            j += 1;
        } else if l {
            if op != 1 {
                r.push((true, i))
            }
            i += 1;
        } else {
            if op == 0 || op == 3 {
                r.push((false, j))
            }
            j += 1;
        }
    }
    r
}

pub const REF_FORMS: usize = 3;
/// result by reference: operators, inherent methods, trait methods
pub fn by_ref<A: Array, B: Array<Item = A::Item>>(op: usize, form: usize, a: &VecSet<A>, b: &VecSet<B>) -> VecSet<A>
where
    A::Item: Ord + Clone,
{
    match (op, form) {
        (0, 0) => a | b,
        (1, 0) => a & b,
        (2, 0) => a - b,
        (3, 0) => a ^ b,
        (0, 1) => a.union(b),
        (1, 1) => a.intersection(b),
        (2, 1) => a.difference(b),
        (3, 1) => a.symmetric_difference(b),
        _ => abstract_op(op, a, b),
    }
}
/// trait methods on anything that is a set
pub fn abstract_op<T: Ord + Clone, A: Array<Item = T>>(op: usize, a: &impl AbstractVecSet<T>, b: &impl AbstractVecSet<T>) -> VecSet<A> {
    match op {
        0 => AbstractVecSet::union(a, b),
        1 => AbstractVecSet::intersection(a, b),
        2 => AbstractVecSet::difference(a, b),
        _ => AbstractVecSet::symmetric_difference(a, b),
    }
}
/// inherent methods with any right operand
pub fn method_op<A: Array>(op: usize, a: &VecSet<A>, b: &impl AbstractVecSet<A::Item>) -> VecSet<A>
where
    A::Item: Ord + Clone,
{
    match op {
        0 => a.union(b),
        1 => a.intersection(b),
        2 => a.difference(b),
        _ => a.symmetric_difference(b),
    }
}
pub fn assign_owned<A: Array, B: Array<Item = A::Item>>(op: usize, a: &mut VecSet<A>, b: VecSet<B>)
where
    A::Item: Ord,
{
    match op {
        0 => *a |= b,
        1 => *a &= b,
        2 => *a -= b,
        _ => *a ^= b,
    }
}
pub fn assign_ref<A: Array, B: Array<Item = A::Item>>(op: usize, a: &mut VecSet<A>, b: &VecSet<B>)
where
    A::Item: Ord + Clone,
{
    match op {
        0 => *a |= b,
        1 => *a &= b,
        2 => *a -= b,
        _ => *a ^= b,
    }
}
pub fn with_op<A: Array>(op: usize, a: &mut VecSet<A>, b: &impl AbstractVecSet<A::Item>)
where
    A::Item: Ord + Clone,
{
    match op {
        0 => a.union_with(b),
        1 => a.intersection_with(b),
        2 => a.difference_with(b),
        _ => a.xor_with(b),
    }
}

/// builds a set of given keys and tag, with some variety in its memory state (inline, heap, spare room)
pub fn build<A: Array<Item = Tok>>(c: &mut crate::Case, keys: &[u32], tag: u32) -> VecSet<A> {
    let mut s: VecSet<A> = match c.rng.below(5) {
        0 => {
            let mut v: Vec<Tok> = Vec::with_capacity(keys.len() + 40);
            v.extend(keys.iter().map(|k| Tok::new(*k, tag)));
            v.into()
        }
        1 => {
            // heap memory although it might fit inline
            let top = keys.last().copied().unwrap_or(0);
            let mut v: VecSet<A> = keys.iter().map(|k| Tok::new(*k, tag)).chain((1..20).map(|i| Tok::new(top + i, tag))).collect();
            let n = keys.len();
            let mut i = 0;
            v.retain(|_| {
                i += 1;
                i <= n
            });
            v
        }
        2 => {
            let mut v = VecSet::empty();
            for k in keys {
                v.insert(Tok::new(*k, tag));
            }
            v
        }
        _ => keys.iter().map(|k| Tok::new(*k, tag)).collect(),
    };
    if c.rng.chance(1, 6) {
        s.shrink_to_fit()
    }
    s
}
pub fn kts<A: Array<Item = Tok>>(s: &VecSet<A>) -> Vec<(u32, u32)> {
    s.iter().map(|t| t.kt()).collect()
}

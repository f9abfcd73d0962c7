//! Worlds of collections of ledger elements and random operations on them, shared by the ownership (P09)
//! and panic (P10) monitors. An operation is fully decided before it is executed, so that it can be
//! executed again on an equal world with a fault injected.
use crate::case::Case;
use crate::gen;
use crate::radix::{self, AbstractRadixTree, AbstractRadixTreeMut, Flavour, Keys};
use crate::sets;
use crate::tok::{self, call_point, Sy, Tok};
use smallvec::{Array, SmallVec};
use std::collections::BTreeMap;
use std::fmt::Debug;
use vec_collections::btree_map::InPlaceRelationalOps;
use vec_collections::total_vec_map::TotalVecMap;
use vec_collections::total_vec_set::TotalVecSet;
use vec_collections::{AbstractVecMap, AbstractVecSet, OuterJoinArg, VecMap, VecSet};

/// tags: 0/1 original content of the left/right operand, INPUT given to the operation, MADE by a combining function
pub const INPUT: u32 = 2;
pub const MADE: u32 = 3;

/// What has to be true after the operation was interrupted.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    /// only looks at the operand
    Borrows,
    /// insertion, merge, set operation, join: must stay strictly sorted with explainable content
    InPlace,
    /// may leave any valid content
    Mutates,
    /// the operand is consumed
    Takes,
}

pub trait World: Sized {
    type Op: Debug;
    fn make(c: &mut Case) -> Self;
    fn dup(&self) -> Self;
    fn pick(&self, c: &mut Case) -> Self::Op;
    fn exec(&mut self, op: &Self::Op);
    /// (left operand, right operand)
    fn kind(op: &Self::Op) -> (Kind, Kind);
    fn name(op: &Self::Op) -> &'static str;
    /// elements owned, if that is a number
    fn held(&self) -> Option<usize>;
    fn sizes(&self) -> (usize, usize);
    /// compare with an earlier duplicate; Err: what is wrong
    fn verify(&self, before: &Self, op: &Self::Op) -> Result<(), String>;
    /// ordinary use afterwards
    fn use_again(&mut self) -> Result<(), String>;
}

fn sorted(k: &[u32]) -> bool {
    k.windows(2).all(|w| w[0] < w[1])
}
fn take<T>(x: &mut T, by: T) -> T {
    std::mem::replace(x, by)
}

// ---------------------------------------------------------------------------------------------- sets
pub struct SetW<A: Array<Item = Tok>, B: Array<Item = Tok>> {
    pub a: VecSet<A>,
    pub b: VecSet<B>,
}
#[derive(Debug)]
pub enum SetOp {
    Insert(u32),
    Remove(u32),
    Retain(u32, u32),
    Extend(Vec<u32>),
    Collect(Vec<u32>),
    FromVec(Vec<u32>),
    FromBTree(Vec<u32>),
    SortDedup(Vec<u32>, bool, bool),
    ByRef(usize, usize),
    Owned(usize),
    Ref(usize),
    With(usize),
    Relations,
    Clone,
    Contains(u32),
    Iterate(usize, usize, usize),
    Inner(usize),
    Shrink,
    Serde(usize),
    Foreign(usize),
    Swap,
}
fn toks(k: &[u32], tag: u32) -> impl Iterator<Item = Tok> + '_ {
    k.iter().map(move |k| {
        call_point();
        Tok::new(*k, tag)
    })
}
impl<A: Array<Item = Tok>, B: Array<Item = Tok>> World for SetW<A, B> {
    type Op = SetOp;
    fn make(c: &mut Case) -> Self {
        let (x, y) = gen::pair(c, if c.small { 10 } else { 120 });
        SetW { a: sets::build(c, &x, 0), b: sets::build(c, &y, 1) }
    }
    fn dup(&self) -> Self {
        SetW { a: self.a.clone(), b: self.b.clone() }
    }
    fn pick(&self, c: &mut Case) -> SetOp {
        let top = self.a.iter().last().map(|t| t.kt().0).unwrap_or(8) as usize + 3;
        let k = |c: &mut Case, s: &VecSet<A>| {
            if !s.is_empty() && c.rng.bool() {
                s.as_ref()[c.rng.below(s.len())].kt().0
            } else {
                c.rng.below(top) as u32
            }
        };
        let seq = |c: &mut Case| {
            let n = c.size(80);
            gen::sequence(c, n)
        };
        match c.rng.below(26) {
            0 | 1 => SetOp::Insert(k(c, &self.a)),
            2 | 3 => SetOp::Remove(k(c, &self.a)),
            4 => SetOp::Retain(1 + c.rng.below(4) as u32, c.rng.below(3) as u32),
            5 | 6 => SetOp::Extend(seq(c)),
            7 => SetOp::Collect(seq(c)),
            8 => SetOp::FromVec(seq(c)),
            9 => SetOp::FromBTree(seq(c)),
            10 => SetOp::SortDedup(seq(c), c.rng.bool(), c.rng.bool()),
            11 | 12 => SetOp::ByRef(c.rng.below(4), c.rng.below(sets::REF_FORMS)),
            13..=15 => SetOp::Owned(c.rng.below(4)),
            16 | 17 => SetOp::Ref(c.rng.below(4)),
            18 => SetOp::With(c.rng.below(4)),
            19 => SetOp::Relations,
            20 => SetOp::Clone,
            21 => SetOp::Iterate(c.rng.below(3), c.rng.below(6), c.rng.below(4)),
            22 => SetOp::Inner(c.rng.below(4)),
            23 => match c.rng.below(3) {
                0 => SetOp::Contains(k(c, &self.a)),
                1 => SetOp::Swap,
                _ => SetOp::Shrink,
            },
            24 => SetOp::Serde(c.rng.below(3)),
            _ => SetOp::Foreign(c.rng.below(4)),
        }
    }
    fn kind(op: &SetOp) -> (Kind, Kind) {
        use Kind::*;
        match op {
            SetOp::Insert(_) | SetOp::Extend(_) => (InPlace, Borrows),
            SetOp::Remove(_) | SetOp::Retain(..) | SetOp::Shrink => (Mutates, Borrows),
            SetOp::Collect(_) | SetOp::FromVec(_) | SetOp::FromBTree(_) | SetOp::SortDedup(..) => (Borrows, Borrows),
            SetOp::ByRef(..) | SetOp::Relations | SetOp::Clone | SetOp::Contains(_) | SetOp::Serde(_) => (Borrows, Borrows),
            SetOp::Owned(_) => (InPlace, Takes),
            SetOp::Ref(_) | SetOp::With(_) | SetOp::Foreign(_) => (InPlace, Borrows),
            SetOp::Iterate(..) | SetOp::Inner(_) => (Takes, Borrows),
            SetOp::Swap => (Mutates, Mutates),
        }
    }
    fn name(op: &SetOp) -> &'static str {
        match op {
            SetOp::Insert(_) => "insert",
            SetOp::Remove(_) => "remove",
            SetOp::Retain(..) => "retain",
            SetOp::Extend(_) => "extend",
            SetOp::Collect(_) => "collect",
            SetOp::FromVec(_) => "from_vec",
            SetOp::FromBTree(_) => "from_btree",
            SetOp::SortDedup(..) => "sort_dedup",
            SetOp::ByRef(..) => "operation by reference",
            SetOp::Owned(_) => "operation in place, owned",
            SetOp::Ref(_) => "operation in place, by reference",
            SetOp::With(_) => "operation in place, method",
            SetOp::Relations => "relations",
            SetOp::Clone => "clone",
            SetOp::Contains(_) => "contains",
            SetOp::Iterate(..) => "owned iteration",
            SetOp::Inner(_) => "into inner",
            SetOp::Shrink => "shrink_to_fit",
            SetOp::Serde(_) => "serde",
            SetOp::Foreign(_) => "operation with a foreign set",
            SetOp::Swap => "swap",
        }
    }
    fn exec(&mut self, op: &SetOp) {
        match op {
            SetOp::Insert(k) => {
                self.a.insert(Tok::new(*k, INPUT));
            }
            SetOp::Remove(k) => {
                let t = Tok::new(*k, INPUT);
                self.a.remove(&t);
            }
            SetOp::Retain(m, r) => self.a.retain(|t| {
                call_point();
                t.kt().0 % m != *r
            }),
            SetOp::Extend(k) => self.a.extend(toks(k, INPUT)),
            SetOp::Collect(k) => {
                let s: VecSet<A> = toks(k, INPUT).collect();
                if !s.is_empty() {
                    self.a = s
                }
            }
            SetOp::FromVec(k) => {
                let v: Vec<Tok> = toks(k, INPUT).collect();
                self.a = v.into();
            }
            SetOp::FromBTree(k) => {
                let v: std::collections::BTreeSet<Tok> = toks(k, INPUT).collect();
                self.a = v.into();
            }
            SetOp::SortDedup(k, last, small) => {
                // both policies are only reachable through maps and sets unless the hook is on
                let keep = if *last { vec_collections::Keep::Last } else { vec_collections::Keep::First };
                if *small {
                    let r: SmallVec<A> = vec_collections::sort_dedup(toks(k, INPUT), keep);
                    drop(r)
                } else {
                    let r: Vec<Tok> = vec_collections::sort_dedup_by_key(toks(k, INPUT), keep, |t| t);
                    drop(r)
                }
            }
            SetOp::ByRef(o, f) => {
                let r: VecSet<A> = sets::by_ref(*o, *f, &self.a, &self.b);
                if *f == 2 {
                    self.a = r
                }
            }
            SetOp::Owned(o) => {
                let b = take(&mut self.b, VecSet::empty());
                sets::assign_owned(*o, &mut self.a, b)
            }
            SetOp::Ref(o) => sets::assign_ref(*o, &mut self.a, &self.b),
            SetOp::With(o) => sets::with_op(*o, &mut self.a, &self.b),
            SetOp::Foreign(o) => {
                let f = sets::SliceSet(self.b.iter().cloned().collect::<Vec<_>>());
                sets::with_op(*o, &mut self.a, &f)
            }
            SetOp::Relations => {
                let (a, b) = (&self.a, &self.b);
                let _ = (a.is_subset(b), a.is_superset(b), a.is_disjoint(b), b.is_subset(a), a == a, a.cmp(a));
            }
            SetOp::Clone => {
                let x = self.a.clone();
                self.a = x;
            }
            SetOp::Contains(k) => {
                let t = Tok::new(*k, INPUT);
                let _ = self.a.contains(&t);
            }
            SetOp::Iterate(front, n, back) => {
                let a = take(&mut self.a, VecSet::empty());
                let mut it = a.into_iter();
                let mut kept = vec![];
                for _ in 0..*n {
                    kept.extend(it.next())
                }
                // skips (drops) some
                if *back > 0 {
                    kept.extend(it.nth(*back))
                }
                if *front == 0 {
                    drop(it);
                    let _ = kept.iter().map(|t| t.kt().0).sum::<u32>();
                    self.a = kept.into();
                } else if *front == 1 {
                    drop(kept);
                    self.a = it.collect();
                } else {
                    drop(it)
                }
            }
            SetOp::Inner(how) => {
                let a = take(&mut self.a, VecSet::empty());
                match how {
                    0 => {
                        let v: Vec<Tok> = a.into();
                        self.a = v.into();
                    }
                    1 => {
                        let v: SmallVec<A> = a.into();
                        self.a = v.into_iter().collect();
                    }
                    2 => drop(a.into_inner()),
                    _ => {
                        let mut v = a.into_inner();
                        v.truncate(3);
                        self.a = v.into_iter().rev().collect();
                    }
                }
            }
            SetOp::Shrink => self.a.shrink_to_fit(),
            SetOp::Serde(how) => {
                let s = json(&self.a);
                let s = match how {
                    0 => s,
                    // ends early
                    1 => s[..s.len() - s.len() / 3].to_string(),
                    // fails in the middle
                    _ => s.replacen("],[", "],7,[", 1),
                };
                if let Ok(x) = serde_json::from_str::<VecSet<A>>(&s) {
                    drop(x)
                }
            }
            SetOp::Swap => {
                let b: VecSet<A> = take(&mut self.b, VecSet::empty()).into_iter().collect();
                let a = take(&mut self.a, b);
                self.b = a.into_iter().collect();
            }
        }
    }
    fn held(&self) -> Option<usize> {
        Some(self.a.len() + self.b.len())
    }
    fn sizes(&self) -> (usize, usize) {
        (self.a.len(), self.b.len())
    }
    fn verify(&self, before: &Self, op: &SetOp) -> Result<(), String> {
        let (ka, kb) = Self::kind(op);
        let (a0, b0) = (sets::kts(&before.a), sets::kts(&before.b));
        let a: Vec<_> = self.a.iter().map(|t| t.kt()).collect();
        let b = sets::kts(&self.b);
        if ka == Kind::Borrows && a != a0 && !matches!(op, SetOp::Collect(_) | SetOp::FromVec(_) | SetOp::FromBTree(_)) {
            return Err(format!("borrowed left operand changed from {a0:?} to {a:?}"));
        }
        if kb == Kind::Borrows && b != b0 {
            return Err(format!("borrowed right operand changed from {b0:?} to {b:?}"));
        }
        if ka == Kind::InPlace {
            if !a.windows(2).all(|w| w[0].0 < w[1].0) {
                return Err(format!("in place operand not strictly sorted: {a:?}"));
            }
            let input: Vec<u32> = match op {
                SetOp::Insert(k) => vec![*k],
                SetOp::Extend(k) => k.clone(),
                _ => vec![],
            };
            for (k, t) in &a {
                if !(a0.contains(&(*k, *t)) || b0.contains(&(*k, *t)) || *t == INPUT && input.contains(k)) {
                    return Err(format!("element {k}#{t} comes from nowhere"));
                }
            }
        }
        Ok(())
    }
    fn use_again(&mut self) -> Result<(), String> {
        let x: VecSet<A> = self.a.iter().cloned().collect();
        for t in x.as_ref() {
            let _ = self.a.contains(t);
        }
        self.a.insert(Tok::new(5, INPUT));
        let b = self.b.clone();
        self.a |= b;
        self.a &= &self.b;
        if self.a.iter().any(|t| !self.b.contains(t)) {
            return Err("intersection contains a foreign element".into());
        }
        Ok(())
    }
}

// ---------------------------------------------------------------------------------------------- maps
pub type P = (Tok, Tok);
pub struct MapW<A: Array<Item = P>, B: Array<Item = P>> {
    pub a: VecMap<A>,
    pub b: VecMap<B>,
}
#[derive(Debug, Clone, Copy)]
pub struct Rule(u32);
impl Rule {
    fn keep(&self, k: u32) -> bool {
        call_point();
        self.0 == 0 || k % (self.0 + 1) != 0
    }
    fn make(&self, k: &Tok, v: Option<&Tok>, w: Option<&Tok>) -> Option<Tok> {
        let k = k.kt().0;
        if !self.keep(k) {
            return None;
        }
        let s = v.map(|v| v.kt().0).unwrap_or(0).wrapping_add(w.map(|w| w.kt().0).unwrap_or(0));
        if self.0 % 2 == 0 {
            v.or(w).cloned()
        } else {
            Some(Tok::new(s, MADE))
        }
    }
}
#[derive(Debug)]
pub enum MapOp {
    Insert(u32),
    Retain(u32, u32),
    Extend(Vec<u32>),
    Collect(Vec<u32>),
    FromBTree(Vec<u32>),
    Join(usize, Rule),
    JoinWith(usize, Rule),
    Merge,
    Combine(Rule),
    MapValues(Rule),
    GetMut(u32, usize),
    Clone,
    Iterate(usize, usize, usize),
    Inner(usize),
    Serde(usize),
    Total(usize, Rule),
    Swap,
}
pub fn pairs(k: &[u32], tag: u32) -> impl Iterator<Item = P> + '_ {
    k.iter().map(move |k| {
        call_point();
        (Tok::new(*k, tag), Tok::new(k.wrapping_mul(3), tag))
    })
}
pub type Quad = ((u32, u32), (u32, u32));
fn quads(s: &[P]) -> Vec<Quad> {
    s.iter().map(|(k, v)| (k.kt(), v.kt())).collect()
}
pub fn build_map<A: Array<Item = P>>(c: &mut Case, k: &[u32], tag: u32) -> VecMap<A> {
    match c.rng.below(3) {
        0 => {
            let mut m = VecMap::empty();
            for (k, v) in pairs(k, tag) {
                m.insert(k, v);
            }
            m
        }
        1 => {
            // in heap memory although it might fit inline
            let mut m: VecMap<A> = pairs(k, tag).chain((0..20).map(|i| (Tok::new(2_000_000 + i, tag), Tok::new(0, tag)))).collect();
            m.retain(|(k, _)| k.kt().0 < 2_000_000);
            m
        }
        _ => pairs(k, tag).collect(),
    }
}
impl<A: Array<Item = P>, B: Array<Item = P>> World for MapW<A, B> {
    type Op = MapOp;
    fn make(c: &mut Case) -> Self {
        let (x, y) = gen::pair(c, if c.small { 8 } else { 90 });
        MapW { a: build_map(c, &x, 0), b: build_map(c, &y, 1) }
    }
    fn dup(&self) -> Self {
        MapW { a: self.a.clone(), b: self.b.clone() }
    }
    fn pick(&self, c: &mut Case) -> MapOp {
        let s: &[P] = self.a.as_ref();
        let k = if !s.is_empty() && c.rng.bool() { s[c.rng.below(s.len())].0.kt().0 } else { c.rng.below(60) as u32 };
        let rule = Rule(c.rng.below(4) as u32);
        let seq = |c: &mut Case| {
            let n = c.size(60);
            gen::sequence(c, n)
        };
        match c.rng.below(24) {
            0 | 1 => MapOp::Insert(k),
            2 => MapOp::Retain(1 + c.rng.below(4) as u32, c.rng.below(3) as u32),
            3 | 4 => MapOp::Extend(seq(c)),
            5 => MapOp::Collect(seq(c)),
            6 => MapOp::FromBTree(seq(c)),
            7 | 8 => MapOp::Join(c.rng.below(4), rule),
            9..=12 => MapOp::JoinWith(c.rng.below(4), rule),
            13 | 14 => MapOp::Merge,
            15 | 16 => MapOp::Combine(rule),
            17 => MapOp::MapValues(rule),
            18 => MapOp::GetMut(k, c.rng.below(2)),
            19 => match c.rng.below(2) {
                0 => MapOp::Clone,
                _ => MapOp::Swap,
            },
            20 => MapOp::Iterate(c.rng.below(3), c.rng.below(5), c.rng.below(4)),
            21 => MapOp::Inner(c.rng.below(3)),
            22 => MapOp::Serde(c.rng.below(3)),
            _ => MapOp::Total(c.rng.below(5), rule),
        }
    }
    fn kind(op: &MapOp) -> (Kind, Kind) {
        use Kind::*;
        match op {
            MapOp::Insert(_) | MapOp::Extend(_) => (InPlace, Borrows),
            MapOp::Retain(..) => (Mutates, Borrows),
            MapOp::GetMut(..) => (Mutates, Borrows),
            MapOp::Collect(_) | MapOp::FromBTree(_) | MapOp::Join(..) | MapOp::Clone | MapOp::Serde(_) | MapOp::Total(..) => (Borrows, Borrows),
            MapOp::JoinWith(..) => (InPlace, Borrows),
            MapOp::Merge | MapOp::Combine(_) => (InPlace, Takes),
            MapOp::MapValues(_) | MapOp::Iterate(..) | MapOp::Inner(_) => (Takes, Borrows),
            MapOp::Swap => (Mutates, Mutates),
        }
    }
    fn name(op: &MapOp) -> &'static str {
        match op {
            MapOp::Insert(_) => "insert",
            MapOp::Retain(..) => "retain",
            MapOp::Extend(_) => "extend",
            MapOp::Collect(_) => "collect",
            MapOp::FromBTree(_) => "from_btree",
            MapOp::Join(..) => "join",
            MapOp::JoinWith(..) => "join in place",
            MapOp::Merge => "merge_with",
            MapOp::Combine(_) => "combine_with",
            MapOp::MapValues(_) => "map_values",
            MapOp::GetMut(..) => "get_mut",
            MapOp::Clone => "clone",
            MapOp::Iterate(..) => "owned iteration",
            MapOp::Inner(_) => "into inner",
            MapOp::Serde(_) => "serde",
            MapOp::Total(..) => "total map",
            MapOp::Swap => "swap",
        }
    }
    fn exec(&mut self, op: &MapOp) {
        match op {
            MapOp::Insert(k) => {
                if let Some(old) = self.a.insert(Tok::new(*k, INPUT), Tok::new(7, INPUT)) {
                    old.kt();
                }
            }
            MapOp::Retain(m, r) => self.a.retain(|(k, v)| {
                call_point();
                (k.kt().0 + v.kt().0) % m != *r
            }),
            MapOp::Extend(k) => self.a.extend(pairs(k, INPUT)),
            MapOp::Collect(k) => self.a = pairs(k, INPUT).collect(),
            MapOp::FromBTree(k) => {
                let m: BTreeMap<Tok, Tok> = pairs(k, INPUT).collect();
                self.a = m.into();
            }
            MapOp::Join(j, r) => {
                let (a, b) = (&self.a, &self.b);
                let m: VecMap<A> = match j {
                    0 => a.outer_join(b, |x| match x {
                        OuterJoinArg::Left(k, v) => r.make(k, Some(v), None),
                        OuterJoinArg::Right(k, w) => r.make(k, None, Some(w)),
                        OuterJoinArg::Both(k, v, w) => r.make(k, Some(v), Some(w)),
                    }),
                    1 => a.left_join(b, |k, v, w| r.make(k, Some(v), w)),
                    2 => a.right_join(b, |k, v, w| r.make(k, v, Some(w))),
                    _ => a.inner_join(b, |k, v, w| r.make(k, Some(v), Some(w))),
                };
                drop(m)
            }
            MapOp::JoinWith(j, r) => {
                let (a, b) = (&mut self.a, &self.b);
                match j {
                    0 => a.outer_join_with(b, |x| match x {
                        OuterJoinArg::Left(k, v) => r.make(k, Some(&v), None),
                        OuterJoinArg::Right(k, w) => r.make(k, None, Some(w)),
                        OuterJoinArg::Both(k, v, w) => r.make(k, Some(&v), Some(w)),
                    }),
                    1 => a.left_join_with(b, |k, v, w| r.make(k, Some(&v), w)),
                    2 => a.right_join_with(b, |k, v, w| r.make(k, v.as_ref(), Some(w))),
                    _ => a.inner_join_with(b, |k, v, w| r.make(k, Some(&v), Some(w))),
                }
            }
            MapOp::Merge => {
                let b = take(&mut self.b, VecMap::empty());
                self.a.merge_with(b)
            }
            MapOp::Combine(r) => {
                let b = take(&mut self.b, VecMap::empty());
                self.a.combine_with(b, |v, w| {
                    call_point();
                    match r.0 {
                        0 => v,
                        1 => w,
                        _ => Tok::new(v.kt().0 ^ w.kt().0, MADE),
                    }
                })
            }
            MapOp::MapValues(r) => {
                let a = take(&mut self.a, VecMap::empty());
                self.a = a.map_values(|v| {
                    call_point();
                    if r.0 == 0 {
                        v
                    } else {
                        Tok::new(v.kt().0, MADE)
                    }
                });
            }
            MapOp::GetMut(k, how) => {
                let t = Tok::new(*k, INPUT);
                let s = tok::KeyRef(*k);
                let r = if *how == 0 { self.a.get_mut(&t) } else { self.a.get_mut(&s) };
                if let Some(v) = r {
                    v.kt();
                    *v = Tok::new(1, MADE);
                }
                let _ = AbstractVecMap::get(&self.a, &t).map(|v| v.kt());
            }
            MapOp::Clone => {
                let x = self.a.clone();
                self.a = x;
            }
            MapOp::Iterate(how, n, back) => {
                let mut it = take(&mut self.a, VecMap::empty()).into_iter();
                let mut kept = vec![];
                for _ in 0..*n {
                    kept.extend(it.next())
                }
                // skips (drops) some
                if *back > 0 {
                    kept.extend(it.nth(*back))
                }
                match how {
                    0 => {
                        drop(it);
                        self.a = kept.into_iter().collect();
                    }
                    1 => {
                        drop(kept);
                        self.a = it.collect();
                    }
                    _ => drop(it),
                }
            }
            MapOp::Inner(how) => {
                let a = take(&mut self.a, VecMap::empty());
                match how {
                    0 => {
                        let v: SmallVec<A> = a.into();
                        self.a = v.into_iter().collect();
                    }
                    1 => {
                        let s: VecSet<A> = a.into();
                        self.a = s.into_iter().collect();
                    }
                    _ => {
                        let mut v = a.into_inner();
                        v.truncate(2);
                    }
                }
            }
            MapOp::Serde(how) => {
                let v: Vec<(u32, u32)> = (&self.a).into_iter().map(|(k, _)| k.kt()).collect();
                // entries; the value of the middle one is broken or missing
                let mut s = String::new();
                for (i, (k, t)) in v.iter().enumerate() {
                    let bad = *how == 1 && i == v.len() / 2;
                    s += &format!("\"{k}\":{}", if bad { "[1]".to_string() } else { format!("[{k},{t}]") });
                    s.push(',');
                }
                s.pop();
                let s = if *how == 2 { format!("{{{s}") } else { format!("{{{s}}}") };
                if let Ok(x) = serde_json::from_str::<VecMap<[(String, Tok); 4]>>(&s) {
                    drop(x)
                }
            }
            MapOp::Total(how, r) => {
                let x = TotalVecMap::new(self.a.clone(), Tok::new(0, INPUT));
                let b: VecMap<A> = self.b.clone().into_iter().collect();
                let y = TotalVecMap::new(b, Tok::new(3, INPUT));
                match how {
                    0 => drop(x.combine_ref(&y, |v, w| {
                        call_point();
                        if r.0 % 2 == 0 {
                            v.clone()
                        } else {
                            Tok::new(v.kt().0 % 3 + w.kt().0 % 2, MADE)
                        }
                    })),
                    1 => drop(x.supremum(&y)),
                    2 => drop(x.infimum(&y)),
                    3 => {
                        let z: TotalVecMap<Tok, A> = x.map_values(|v| {
                            call_point();
                            Tok::new(v.kt().0 % 5, MADE)
                        });
                        drop(x);
                        drop(z.clone());
                    }
                    _ => {
                        let k = Tok::new(9, INPUT);
                        x[&k].kt();
                        y.non_default_mappings().len();
                        drop(x == y);
                        self.a.retain(|_| true);
                    }
                }
            }
            MapOp::Swap => {
                let b: VecMap<A> = take(&mut self.b, VecMap::empty()).into_iter().collect();
                let a = take(&mut self.a, b);
                self.b = a.into_iter().collect();
            }
        }
    }
    fn held(&self) -> Option<usize> {
        Some(2 * (self.a.len() + self.b.len()))
    }
    fn sizes(&self) -> (usize, usize) {
        (self.a.len(), self.b.len())
    }
    fn verify(&self, before: &Self, op: &MapOp) -> Result<(), String> {
        let (ka, kb) = Self::kind(op);
        let (a0, b0) = (quads(before.a.as_ref()), quads(before.b.as_ref()));
        let (a, b) = (quads(self.a.as_ref()), quads(self.b.as_ref()));
        if ka == Kind::Borrows && a != a0 && !matches!(op, MapOp::Collect(_) | MapOp::FromBTree(_)) {
            return Err(format!("borrowed left operand changed from {a0:?} to {a:?}"));
        }
        if kb == Kind::Borrows && b != b0 {
            return Err(format!("borrowed right operand changed from {b0:?} to {b:?}"));
        }
        if ka == Kind::InPlace {
            let keys: Vec<u32> = a.iter().map(|x| x.0 .0).collect();
            if !sorted(&keys) {
                return Err(format!("in place operand not strictly sorted: {a:?}"));
            }
            let input: Vec<u32> = match op {
                MapOp::Insert(k) => vec![*k],
                MapOp::Extend(k) => k.clone(),
                _ => vec![],
            };
            let known = |x: &(u32, u32), part: fn(&Quad) -> (u32, u32)| a0.iter().any(|y| part(y) == *x) || b0.iter().any(|y| part(y) == *x);
            for (k, v) in &a {
                if !(known(k, |y| y.0) || k.1 == INPUT && input.contains(&k.0)) {
                    return Err(format!("key {k:?} comes from nowhere"));
                }
                if !(known(v, |y| y.1) || v.1 == MADE || v.1 == INPUT && !input.is_empty()) {
                    return Err(format!("value {v:?} comes from nowhere"));
                }
                // a value that was not made now belongs to its key
                if v.1 <= 1 && !(a0.iter().chain(&b0).any(|y| y.0 .0 == k.0 && y.1 == *v)) {
                    return Err(format!("value {v:?} is not one of key {k:?}"));
                }
            }
        }
        Ok(())
    }
    fn use_again(&mut self) -> Result<(), String> {
        let ks: Vec<u32> = (&self.a).into_iter().map(|(k, _)| k.kt().0).collect();
        for k in ks.iter().take(20) {
            let t = Tok::new(*k, INPUT);
            let _ = self.a.get(&t).map(|v| v.kt());
        }
        self.a.insert(Tok::new(5, INPUT), Tok::new(6, INPUT));
        let b: VecMap<A> = self.b.clone().into_iter().collect();
        self.a.merge_with(b);
        self.a.inner_join_with(&self.b, |_, v, _| Some(v));
        Ok(())
    }
}

// ---------------------------------------------------------------------------------------- total sets
pub struct TotalW<A: Array<Item = Tok>> {
    pub a: TotalVecSet<A>,
    pub b: TotalVecSet<A>,
}
#[derive(Debug)]
pub enum TotalOp {
    Insert(u32),
    Remove(u32),
    Not,
    NotRef,
    Owned(usize),
    ByRef(usize),
    Relations,
    Clone,
    Serde,
}
/// serialised: elements and sign
fn total_kts<A: Array<Item = Tok>>(t: &TotalVecSet<A>) -> (Vec<(u32, u32)>, bool) {
    // the only public view of the content
    serde_json::from_value(serde_json::to_value(t).unwrap()).unwrap()
}
impl<A: Array<Item = Tok>> World for TotalW<A> {
    type Op = TotalOp;
    fn make(c: &mut Case) -> Self {
        let (x, y) = gen::pair(c, if c.small { 8 } else { 80 });
        let a: TotalVecSet<A> = sets::build::<A>(c, &x, 0).into();
        let b: TotalVecSet<A> = sets::build::<A>(c, &y, 1).into();
        TotalW { a: if c.rng.bool() { !a } else { a }, b: if c.rng.bool() { !b } else { b } }
    }
    fn dup(&self) -> Self {
        TotalW { a: self.a.clone(), b: self.b.clone() }
    }
    fn pick(&self, c: &mut Case) -> TotalOp {
        let k = c.rng.below(40) as u32;
        match c.rng.below(16) {
            0 | 1 => TotalOp::Insert(k),
            2 | 3 => TotalOp::Remove(k),
            4 => TotalOp::Not,
            5 => TotalOp::NotRef,
            6..=9 => TotalOp::Owned(c.rng.below(4)),
            10 | 11 => TotalOp::ByRef(c.rng.below(4)),
            12 => TotalOp::Relations,
            13 => TotalOp::Clone,
            _ => TotalOp::Serde,
        }
    }
    fn kind(op: &TotalOp) -> (Kind, Kind) {
        use Kind::*;
        match op {
            TotalOp::Insert(_) | TotalOp::Remove(_) => (InPlace, Borrows),
            TotalOp::Owned(_) => (InPlace, Takes),
            TotalOp::Not => (Takes, Borrows),
            TotalOp::NotRef | TotalOp::ByRef(_) | TotalOp::Relations | TotalOp::Clone | TotalOp::Serde => (Borrows, Borrows),
        }
    }
    fn name(op: &TotalOp) -> &'static str {
        match op {
            TotalOp::Insert(_) => "insert",
            TotalOp::Remove(_) => "remove",
            TotalOp::Not => "complement",
            TotalOp::NotRef => "complement by reference",
            TotalOp::Owned(_) => "operation in place",
            TotalOp::ByRef(_) => "operation by reference",
            TotalOp::Relations => "relations",
            TotalOp::Clone => "clone",
            TotalOp::Serde => "serde",
        }
    }
    fn exec(&mut self, op: &TotalOp) {
        match op {
            TotalOp::Insert(k) => self.a.insert(Tok::new(*k, INPUT)),
            TotalOp::Remove(k) => {
                let t = Tok::new(*k, INPUT);
                self.a.remove(&t)
            }
            TotalOp::Not => {
                let a = take(&mut self.a, TotalVecSet::empty());
                self.a = !a;
            }
            TotalOp::NotRef => {
                let r = !&self.a;
                drop(r)
            }
            TotalOp::Owned(o) => {
                let b = take(&mut self.b, TotalVecSet::all());
                match o {
                    0 => self.a |= b,
                    1 => self.a &= b,
                    2 => self.a -= b,
                    _ => self.a ^= b,
                }
            }
            TotalOp::ByRef(o) => {
                let (a, b) = (&self.a, &self.b);
                let r = match o {
                    0 => a | b,
                    1 => a & b,
                    2 => a - b,
                    _ => a ^ b,
                };
                drop(r)
            }
            TotalOp::Relations => {
                let (a, b) = (&self.a, &self.b);
                let _ = (a.is_subset(b), b.is_superset(a), a.is_disjoint(b), a == b);
            }
            TotalOp::Clone => drop(self.a.clone()),
            TotalOp::Serde => {
                let s = json(&self.a);
                let t: TotalVecSet<A> = serde_json::from_str(&s).unwrap();
                drop(t);
                let r = serde_json::from_str::<TotalVecSet<A>>(&s[..s.len() - 4]);
                drop(r)
            }
        }
    }
    fn held(&self) -> Option<usize> {
        Some(total_kts(&self.a).0.len() + total_kts(&self.b).0.len())
    }
    fn sizes(&self) -> (usize, usize) {
        (total_kts(&self.a).0.len(), total_kts(&self.b).0.len())
    }
    fn verify(&self, before: &Self, op: &TotalOp) -> Result<(), String> {
        let (ka, kb) = Self::kind(op);
        let (a0, b0) = (total_kts(&before.a), total_kts(&before.b));
        let (a, b) = (total_kts(&self.a), total_kts(&self.b));
        if ka == Kind::Borrows && a != a0 || kb == Kind::Borrows && b != b0 {
            return Err(format!("borrowed operand changed from {a0:?}, {b0:?} to {a:?}, {b:?}"));
        }
        if ka == Kind::InPlace {
            if !a.0.windows(2).all(|w| w[0].0 < w[1].0) {
                return Err(format!("in place operand not strictly sorted: {a:?}"));
            }
            let k = match op {
                TotalOp::Insert(k) | TotalOp::Remove(k) => Some(*k),
                _ => None,
            };
            for x in &a.0 {
                if !(a0.0.contains(x) || b0.0.contains(x) || Some(x.0) == k && x.1 == INPUT) {
                    return Err(format!("element {x:?} comes from nowhere"));
                }
            }
        }
        Ok(())
    }
    fn use_again(&mut self) -> Result<(), String> {
        let b = self.b.clone();
        self.a |= b;
        if !self.b.is_subset(&self.a) {
            return Err("union does not contain its operand".into());
        }
        let t = Tok::new(5, INPUT);
        self.a.remove(&t);
        if self.a.contains(&t) {
            return Err("removed element still there".into());
        }
        Ok(())
    }
}

// -------------------------------------------------------------------------------------- ordered maps
pub struct OrdW {
    pub a: BTreeMap<Tok, Tok>,
    pub b: BTreeMap<Tok, Tok>,
}
#[derive(Debug)]
pub enum OrdOp {
    Join(usize, Rule),
    JoinWith(usize, Rule),
}
impl World for OrdW {
    type Op = OrdOp;
    fn make(c: &mut Case) -> Self {
        let (x, y) = gen::pair(c, if c.small { 6 } else { 40 });
        OrdW { a: pairs(&x, 0).collect(), b: pairs(&y, 1).collect() }
    }
    fn dup(&self) -> Self {
        OrdW { a: self.a.clone(), b: self.b.clone() }
    }
    fn pick(&self, c: &mut Case) -> OrdOp {
        let r = Rule(c.rng.below(4) as u32);
        if c.rng.bool() { OrdOp::Join(c.rng.below(4), r) } else { OrdOp::JoinWith(c.rng.below(4), r) }
    }
    fn kind(op: &OrdOp) -> (Kind, Kind) {
        match op {
            OrdOp::Join(..) => (Kind::Borrows, Kind::Borrows),
            OrdOp::JoinWith(..) => (Kind::InPlace, Kind::Borrows),
        }
    }
    fn name(op: &OrdOp) -> &'static str {
        match op {
            OrdOp::Join(..) => "join",
            OrdOp::JoinWith(..) => "join in place",
        }
    }
    fn exec(&mut self, op: &OrdOp) {
        use vec_collections::btree_map::AbstractBTreeMap as M;
        match op {
            OrdOp::Join(j, r) => {
                let (a, b) = (&self.a, &self.b);
                let m: BTreeMap<Tok, Tok> = match j {
                    0 => M::outer_join(a, b, |x| match x {
                        OuterJoinArg::Left(k, v) => r.make(k, Some(v), None),
                        OuterJoinArg::Right(k, w) => r.make(k, None, Some(w)),
                        OuterJoinArg::Both(k, v, w) => r.make(k, Some(v), Some(w)),
                    }),
                    1 => M::left_join(a, b, |k, v, w| r.make(k, Some(v), w)),
                    2 => M::right_join(a, b, |k, v, w| r.make(k, v, Some(w))),
                    _ => M::inner_join::<_, _, _, ()>(a, b, |k, v, w| r.make(k, Some(v), Some(w))),
                };
                drop(m)
            }
            OrdOp::JoinWith(j, r) => {
                let (a, b) = (&mut self.a, &self.b);
                let set = |k: &Tok, v: &mut Tok, w: Option<&Tok>| match r.make(k, Some(v), w) {
                    Some(x) => {
                        *v = x;
                        true
                    }
                    None => false,
                };
                match j {
                    0 => a.outer_join_with(b, set, |k, w| r.make(k, None, Some(w))),
                    1 => a.left_join_with(b, set),
                    2 => a.right_join_with(b, |k, v, w| match v {
                        Some(v) => set(k, v, Some(w)),
                        None => r.keep(k.kt().0),
                    }),
                    _ => a.inner_join_with(b, |k, v, w| set(k, v, Some(w))),
                }
            }
        }
    }
    fn held(&self) -> Option<usize> {
        Some(2 * (self.a.len() + self.b.len()))
    }
    fn sizes(&self) -> (usize, usize) {
        (self.a.len(), self.b.len())
    }
    fn verify(&self, before: &Self, op: &OrdOp) -> Result<(), String> {
        let q = |m: &BTreeMap<Tok, Tok>| m.iter().map(|(k, v)| (k.kt(), v.kt())).collect::<Vec<Quad>>();
        let (a0, b0, a, b) = (q(&before.a), q(&before.b), q(&self.a), q(&self.b));
        if b != b0 || Self::kind(op).0 == Kind::Borrows && a != a0 {
            return Err("borrowed operand changed".to_string());
        }
        let keys: Vec<u32> = a.iter().map(|x| x.0 .0).collect();
        if !sorted(&keys) {
            return Err(format!("in place operand not strictly sorted: {a:?}"));
        }
        for (k, v) in &a {
            if !a0.iter().chain(&b0).any(|y| y.0 == *k) {
                return Err(format!("key {k:?} comes from nowhere"));
            }
            if v.1 != MADE && !a0.iter().chain(&b0).any(|y| y.1 == *v) {
                return Err(format!("value {v:?} comes from nowhere"));
            }
        }
        Ok(())
    }
    fn use_again(&mut self) -> Result<(), String> {
        self.a.left_join_with(&self.b, |_, _, w| w.is_some());
        Ok(())
    }
}

// ---------------------------------------------------------------------------------------------- trees
pub struct TreeW<T> {
    pub a: T,
    pub b: T,
    /// an older version of a, where flavours share structure
    pub old: T,
    keys: Keys<Sy>,
}
type Path = Vec<Sy>;
#[derive(Debug)]
pub enum TreeOp {
    Insert(Path),
    Prepend(Path),
    Filter(Path),
    Collect(Vec<Path>),
    Outer(usize),
    OuterWith(usize),
    Inner(usize),
    InnerWith(usize),
    Left(usize),
    LeftWith(usize),
    RemovePrefix(u32),
    RetainPrefix(u32),
    Relations,
    Iterate(usize),
    Scan(Path),
    Clone,
    Archive,
    Convert,
    Snapshot,
    Swap,
}
fn comb(mode: usize, a: &Tok, b: &Tok) -> Option<Tok> {
    call_point();
    match mode {
        0 => Some(a.clone()),
        1 => Some(b.clone()),
        2 => None,
        3 if a.kt().0 % 2 == 0 => None,
        _ => Some(Tok::new(a.kt().0 ^ b.kt().0, MADE)),
    }
}
fn upd(mode: usize, a: &mut Tok, b: &Tok) -> bool {
    match comb(mode, a, b) {
        Some(x) => {
            *a = x;
            true
        }
        None => false,
    }
}
fn listing<T: AbstractRadixTree<Sy, Tok>>(t: &T) -> Vec<(Vec<u8>, (u32, u32))> {
    fn go<T: AbstractRadixTree<Sy, Tok>>(t: &T, p: &mut Vec<u8>, r: &mut Vec<(Vec<u8>, (u32, u32))>) {
        let l = p.len();
        p.extend(t.prefix().iter().map(|s| s.0));
        if let Some(v) = t.value() {
            r.push((p.clone(), v.kt()))
        }
        for c in t.children() {
            go(c, p, r)
        }
        p.truncate(l)
    }
    let mut r = vec![];
    go(t, &mut vec![], &mut r);
    r
}
/// values owned by the trees, nodes shared between them counted once
fn values_owned<T: AbstractRadixTree<Sy, Tok>>(trees: &[&T]) -> usize {
    fn go<T: AbstractRadixTree<Sy, Tok>>(t: &T, seen: &mut std::collections::HashSet<usize>) -> usize {
        let mut n = t.value().is_some() as usize;
        let ch = t.children();
        if !ch.is_empty() && seen.insert(ch.as_ptr() as usize) {
            n += ch.iter().map(|x| go(x, seen)).sum::<usize>()
        }
        n
    }
    let mut seen = Default::default();
    trees.iter().map(|t| go(*t, &mut seen)).sum()
}
impl<T: Flavour<Sy, Tok>> World for TreeW<T> {
    type Op = TreeOp;
    fn make(c: &mut Case) -> Self {
        radix::start();
        let n = if c.small { c.rng.below(6) } else { radix::tree_size(c).min(60) };
        let keys = Keys::<Sy>::new(c, n);
        let mut next = 10;
        let (x, y) = (keys.model(c, &mut next), keys.model(c, &mut next));
        let a: T = radix::build(c, &x);
        let mut b: T = radix::build(c, &y);
        if c.rng.chance(1, 4) {
            // both operands copies of one tree
            b = a.clone();
            for _ in 0..c.rng.below(4) {
                let k = keys.key(c);
                if c.rng.bool() {
                    b.insert(&k, Tok::new(next, 0));
                    next += 1;
                } else {
                    b.difference_with(&T::single(&k, Tok::new(0, 0)));
                }
            }
        }
        let old = if c.rng.bool() { a.clone() } else { T::default() };
        TreeW { a, b, old, keys }
    }
    fn dup(&self) -> Self {
        TreeW { a: self.a.clone(), b: self.b.clone(), old: self.old.clone(), keys: Keys { alpha: self.keys.alpha, pool: vec![] } }
    }
    fn pick(&self, c: &mut Case) -> TreeOp {
        let mode = c.rng.below(5);
        let k = &self.keys;
        match c.rng.below(30) {
            0..=4 => TreeOp::Insert(k.key(c)),
            5 => {
                let mut p = k.probe(c);
                p.truncate(20);
                TreeOp::Prepend(p)
            }
            6 => TreeOp::Filter({
                let mut p = k.probe(c);
                p.truncate(2);
                p
            }),
            7 => {
                let n = c.size(30);
                TreeOp::Collect((0..n).map(|_| k.key(c)).collect())
            }
            8 | 9 => TreeOp::Outer(mode),
            10..=12 => TreeOp::OuterWith(mode),
            13 => TreeOp::Inner(mode),
            14 => TreeOp::InnerWith(mode),
            15 => TreeOp::Left(mode),
            16 | 17 => TreeOp::LeftWith(mode),
            18 => TreeOp::RemovePrefix(1 + c.rng.below(3) as u32),
            19 => TreeOp::RetainPrefix(1 + c.rng.below(3) as u32),
            20 => TreeOp::Relations,
            21 => TreeOp::Iterate(c.rng.below(6)),
            22 => TreeOp::Scan(k.probe(c)),
            23 => TreeOp::Clone,
            24 => TreeOp::Archive,
            25 => TreeOp::Convert,
            26..=28 => TreeOp::Snapshot,
            _ => TreeOp::Swap,
        }
    }
    fn kind(op: &TreeOp) -> (Kind, Kind) {
        use Kind::*;
        match op {
            TreeOp::Insert(_) | TreeOp::OuterWith(_) | TreeOp::InnerWith(_) | TreeOp::LeftWith(_) => (InPlace, Borrows),
            TreeOp::RemovePrefix(_) | TreeOp::RetainPrefix(_) => (InPlace, Borrows),
            TreeOp::Prepend(_) => (Mutates, Borrows),
            TreeOp::Filter(_) | TreeOp::Outer(_) | TreeOp::Inner(_) | TreeOp::Left(_) | TreeOp::Relations => (Borrows, Borrows),
            TreeOp::Iterate(_) | TreeOp::Scan(_) | TreeOp::Clone | TreeOp::Archive | TreeOp::Collect(_) => (Borrows, Borrows),
            TreeOp::Convert => (Borrows, Borrows),
            TreeOp::Snapshot => (Borrows, Borrows),
            TreeOp::Swap => (Mutates, Mutates),
        }
    }
    fn name(op: &TreeOp) -> &'static str {
        match op {
            TreeOp::Insert(_) => "insert",
            TreeOp::Prepend(_) => "prepend",
            TreeOp::Filter(_) => "filter_prefix",
            TreeOp::Collect(_) => "collect",
            TreeOp::Outer(_) => "outer_combine",
            TreeOp::OuterWith(_) => "outer_combine_with",
            TreeOp::Inner(_) => "inner_combine",
            TreeOp::InnerWith(_) => "inner_combine_with",
            TreeOp::Left(_) => "left_combine",
            TreeOp::LeftWith(_) => "left_combine_with",
            TreeOp::RemovePrefix(_) => "remove_prefix_with",
            TreeOp::RetainPrefix(_) => "retain_prefix_with",
            TreeOp::Relations => "relations",
            TreeOp::Iterate(_) => "iteration",
            TreeOp::Scan(_) => "scan_prefix",
            TreeOp::Clone => "clone",
            TreeOp::Archive => "archive",
            TreeOp::Convert => "owned iteration",
            TreeOp::Snapshot => "snapshot",
            TreeOp::Swap => "swap",
        }
    }
    fn exec(&mut self, op: &TreeOp) {
        let (a, b) = (&mut self.a, &self.b);
        match op {
            TreeOp::Insert(k) => a.insert(k, Tok::new(77, INPUT)),
            TreeOp::Prepend(p) => {
                if radix::shape(a).0.len() < 100 {
                    a.prepend(p)
                }
            }
            TreeOp::Filter(p) => drop(a.filter_prefix(p)),
            TreeOp::Collect(ks) => {
                let mut t = T::empty();
                for k in ks {
                    call_point();
                    t.union_with(&T::single(k, Tok::new(78, INPUT)))
                }
            }
            TreeOp::Outer(m) => drop(a.outer_combine(b, |x, y| comb(*m, x, y))),
            TreeOp::OuterWith(m) => a.outer_combine_with(b, |x, y| upd(*m, x, y)),
            TreeOp::Inner(m) => drop(a.inner_combine(b, |x, y| comb(*m, x, y))),
            TreeOp::InnerWith(m) => a.inner_combine_with(b, |x, y| upd(*m, x, y)),
            TreeOp::Left(m) => drop(a.left_combine(b, |x, y| match y {
                Some(y) => comb(*m, x, y),
                None => Some(x.clone()),
            })),
            TreeOp::LeftWith(m) => a.left_combine_with(b, |x, y| upd(*m, x, y)),
            TreeOp::RemovePrefix(d) => a.remove_prefix_with(b, |v| {
                call_point();
                v.kt().0 % d == 0
            }),
            TreeOp::RetainPrefix(d) => a.retain_prefix_with(b, |v| {
                call_point();
                v.kt().0 % d == 0
            }),
            TreeOp::Relations => {
                let _ = (a.is_subset(b), a.is_superset(b), a.is_disjoint(b), a.intersects(b));
            }
            TreeOp::Iterate(n) => {
                let kept: Vec<_> = a.iter().take(*n).collect();
                for (k, v) in &kept {
                    let _ = (k.len(), v.kt());
                }
                let _ = a.values().skip(*n).map(|v| v.kt().0 as u64).sum::<u64>();
            }
            TreeOp::Scan(p) => {
                for (_, v) in a.scan_prefix(p) {
                    v.kt();
                }
                let _ = a.get(p).map(|v| v.kt());
            }
            TreeOp::Clone => drop(a.clone()),
            TreeOp::Archive => {
                let t = T::reopen(a.arch());
                *a = t;
            }
            TreeOp::Convert => {
                let mut it = a.clone().into_iter();
                for _ in 0..3 {
                    if it.next().is_none() {
                        break;
                    }
                }
            }
            TreeOp::Snapshot => self.old = a.clone(),
            TreeOp::Swap => std::mem::swap(&mut self.a, &mut self.b),
        }
    }
    fn held(&self) -> Option<usize> {
        Some(values_owned(&[&self.a, &self.b, &self.old]))
    }
    fn sizes(&self) -> (usize, usize) {
        (listing(&self.a).len(), listing(&self.b).len())
    }
    fn verify(&self, before: &Self, op: &TreeOp) -> Result<(), String> {
        let (ka, kb) = Self::kind(op);
        let (a0, b0) = (listing(&before.a), listing(&before.b));
        let (a, b) = (listing(&self.a), listing(&self.b));
        if ka == Kind::Borrows && a != a0 {
            return Err(format!("borrowed left operand changed from {a0:?} to {a:?}"));
        }
        if kb == Kind::Borrows && b != b0 {
            return Err(format!("borrowed right operand changed from {b0:?} to {b:?}"));
        }
        if !matches!(op, TreeOp::Snapshot) && listing(&self.old) != listing(&before.old) {
            return Err("a snapshot changed".into());
        }
        if ka == Kind::InPlace {
            if !a.windows(2).all(|w| w[0].0 < w[1].0) {
                return Err(format!("in place operand not strictly sorted: {a:?}"));
            }
            let input: Option<Vec<u8>> = match op {
                TreeOp::Insert(k) => Some(k.iter().map(|s| s.0).collect()),
                _ => None,
            };
            for (k, v) in &a {
                let known = a0.iter().chain(&b0).any(|y| y.0 == *k);
                if !(known || Some(k) == input.as_ref()) {
                    return Err(format!("key {k:?} comes from nowhere: {a:?} after {a0:?} and {b0:?}"));
                }
                if !(v.1 == MADE || v.1 == INPUT && Some(k) == input.as_ref() || a0.iter().chain(&b0).any(|y| y.0 == *k && y.1 == *v)) {
                    return Err(format!("value {v:?} of key {k:?} comes from nowhere"));
                }
            }
        }
        Ok(())
    }
    fn use_again(&mut self) -> Result<(), String> {
        for (k, v) in self.a.iter().take(30) {
            let _ = (k.len(), v.kt());
        }
        let k: Vec<Sy> = vec![Sy(1), Sy(0), Sy(1)];
        self.a.insert(&k, Tok::new(5, INPUT));
        if self.a.get(&k).map(|v| v.kt()) != Some((5, INPUT)) {
            return Err("inserted key not found".into());
        }
        self.a.union_with(&self.b);
        let t = self.a.intersection(&self.b);
        drop(t);
        Ok(())
    }
}

/// JSON text of a value; numbers are not written by serde_json, whose old itoa is undefined behaviour to Miri
fn json<T: serde::Serialize>(x: &T) -> String {
    fn go(v: &serde_json::Value, o: &mut String) {
        use serde_json::Value::*;
        match v {
            Number(n) => *o += &n.as_u64().unwrap().to_string(),
            Array(a) => {
                o.push('[');
                for (i, x) in a.iter().enumerate() {
                    if i > 0 {
                        o.push(',')
                    }
                    go(x, o)
                }
                o.push(']')
            }
            Bool(b) => *o += if *b { "true" } else { "false" },
            x => panic!("unexpected {x}"),
        }
    }
    let mut s = String::new();
    go(&serde_json::to_value(x).unwrap(), &mut s);
    s
}

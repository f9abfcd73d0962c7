//! Radix trees: key generators, reference model, structural observation, counting value type.
use crate::arch::{self, Ser};
use crate::case::Case;
use crate::{ensure, ensure_eq};
use rkyv::{de::deserializers::SharedDeserializeMap, validation::validators::DefaultValidator, Archive, Archived, Deserialize, Fallible, Serialize};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::sync::atomic::{AtomicI64, AtomicU32, AtomicU64, Ordering::Relaxed};
pub use vec_collections::radix_tree::{AbstractRadixTree, AbstractRadixTreeMut, ArcRadixTree, LazyRadixTree, RadixTree, TKey, TValue};

pub type De = SharedDeserializeMap;

/// key symbol
pub trait Sym: TKey + Serialize<Ser> + Deserialize<Self, De> + for<'a> bytecheck::CheckBytes<DefaultValidator<'a>> + std::hash::Hash {
    const N: u32;
    fn mk(i: u32) -> Self;
    const NAME: &'static str;
}
impl Sym for u8 {
    const N: u32 = 256;
    const NAME: &'static str = "u8";
    fn mk(i: u32) -> u8 {
        i as u8
    }
}
impl Sym for u16 {
    const N: u32 = 65536;
    const NAME: &'static str = "u16";
    fn mk(i: u32) -> u16 {
        // different low and high bytes so that byte order would show
        (i as u16).wrapping_mul(257)
    }
}
impl Sym for i32 {
    const N: u32 = 1000;
    const NAME: &'static str = "i32";
    fn mk(i: u32) -> i32 {
        i as i32 - 2
    }
}
impl Sym for bool {
    const N: u32 = 2;
    const NAME: &'static str = "bool";
    fn mk(i: u32) -> bool {
        i % 2 == 1
    }
}
impl Sym for char {
    const N: u32 = 1000;
    const NAME: &'static str = "char";
    fn mk(i: u32) -> char {
        char::from_u32('a' as u32 + i).unwrap()
    }
}
impl Sym for () {
    const N: u32 = 1;
    const NAME: &'static str = "()";
    fn mk(_: u32) {}
}
impl Sym for u128 {
    const N: u32 = 1000;
    const NAME: &'static str = "u128";
    fn mk(i: u32) -> u128 {
        (i as u128) << 70 | 5
    }
}
impl Sym for crate::tok::Sy {
    const N: u32 = 256;
    const NAME: &'static str = "Sy";
    fn mk(i: u32) -> Self {
        crate::tok::Sy(i as u8)
    }
}

/// tree value
pub trait Val: TValue + Archive<Archived = Self> + Serialize<Ser> + Deserialize<Self, De> + for<'a> bytecheck::CheckBytes<DefaultValidator<'a>> + PartialEq {
    fn mk(i: u32) -> Self;
    /// what is observable of the value
    fn id(&self) -> u32;
    /// mk(i).id()
    fn norm(i: u32) -> u32 {
        Self::mk(i).id()
    }
}
impl Val for u32 {
    fn mk(i: u32) -> u32 {
        i
    }
    fn id(&self) -> u32 {
        *self
    }
}
impl Val for u8 {
    fn mk(i: u32) -> u8 {
        i as u8
    }
    fn id(&self) -> u32 {
        *self as u32
    }
}
impl Val for () {
    fn mk(_: u32) {}
    fn id(&self) -> u32 {
        0
    }
}
impl Val for u128 {
    fn mk(i: u32) -> u128 {
        i as u128 | 1 << 100
    }
    fn id(&self) -> u32 {
        *self as u32
    }
}

impl Val for bool {
    fn mk(i: u32) -> bool {
        i % 2 == 1
    }
    fn id(&self) -> u32 {
        *self as u32
    }
}
impl Val for char {
    fn mk(i: u32) -> char {
        char::from_u32(32 + i % 5000).unwrap()
    }
    fn id(&self) -> u32 {
        *self as u32
    }
}

/// Value that counts its clones and live instances (process wide, for concurrent use as well).
pub struct Cv(u32);
pub const CV_SLOTS: usize = 1 << 14;
static CV_CLONES: AtomicU64 = AtomicU64::new(0);
static CV_LIVE: AtomicI64 = AtomicI64::new(0);
static CV_PER: [AtomicU32; CV_SLOTS] = [const { AtomicU32::new(0) }; CV_SLOTS];
pub fn cv_clones() -> u64 {
    CV_CLONES.load(Relaxed)
}
pub fn cv_live() -> i64 {
    CV_LIVE.load(Relaxed)
}
/// clones of the value with this id since cv_reset
pub fn cv_per(i: u32) -> u32 {
    CV_PER[i as usize % CV_SLOTS].load(Relaxed)
}
pub fn cv_reset() {
    CV_CLONES.store(0, Relaxed);
    for x in &CV_PER {
        x.store(0, Relaxed)
    }
}
impl Cv {
    pub fn new(i: u32) -> Cv {
        CV_LIVE.fetch_add(1, Relaxed);
        Cv(i)
    }
}
impl Clone for Cv {
    fn clone(&self) -> Cv {
        CV_CLONES.fetch_add(1, Relaxed);
        CV_PER[self.0 as usize % CV_SLOTS].fetch_add(1, Relaxed);
        Cv::new(self.0)
    }
}
impl Drop for Cv {
    fn drop(&mut self) {
        CV_LIVE.fetch_sub(1, Relaxed);
    }
}
impl PartialEq for Cv {
    fn eq(&self, o: &Cv) -> bool {
        self.0 == o.0
    }
}
impl Debug for Cv {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "cv{}", self.0)
    }
}
impl Archive for Cv {
    type Archived = Cv;
    type Resolver = ();
    unsafe fn resolve(&self, _: usize, _: (), out: *mut Cv) {
        std::ptr::addr_of_mut!((*out).0).write(self.0)
    }
}
impl<S: Fallible + ?Sized> Serialize<S> for Cv {
    fn serialize(&self, _: &mut S) -> Result<(), S::Error> {
        Ok(())
    }
}
impl<D: Fallible + ?Sized> Deserialize<Cv, D> for Cv {
    fn deserialize(&self, _: &mut D) -> Result<Cv, D::Error> {
        Ok(Cv::new(self.0))
    }
}
impl<C: ?Sized> bytecheck::CheckBytes<C> for Cv {
    type Error = std::convert::Infallible;
    unsafe fn check_bytes<'a>(v: *const Cv, _: &mut C) -> Result<&'a Cv, Self::Error> {
        Ok(&*v)
    }
}
impl Val for Cv {
    fn mk(i: u32) -> Cv {
        Cv::new(i)
    }
    fn id(&self) -> u32 {
        self.0
    }
}

impl Val for crate::tok::Tok {
    fn mk(i: u32) -> Self {
        crate::tok::Tok::new(i, 0)
    }
    fn id(&self) -> u32 {
        self.key()
    }
    fn norm(i: u32) -> u32 {
        i
    }
}

pub type Model<K> = BTreeMap<Vec<K>, u32>;

thread_local! {
    static ARENA: RefCell<Vec<arch::AlignedVec>> = const { RefCell::new(Vec::new()) };
}
/// Keeps bytes alive until `release`, which must not be called while a borrow is in use: radix monitors
/// call it first thing in every case, when all trees of the previous case are gone.
pub fn hold(b: arch::AlignedVec) -> &'static [u8] {
    let p: &'static [u8] = unsafe { std::slice::from_raw_parts(b.as_ptr(), b.len()) };
    ARENA.with(|a| a.borrow_mut().push(b));
    p
}
pub fn release() {
    ARENA.with(|a| a.borrow_mut().clear());
    HANDED.lock().unwrap_or_else(|e| e.into_inner()).clear();
}
static HANDED: std::sync::Mutex<Vec<arch::AlignedVec>> = std::sync::Mutex::new(Vec::new());
/// While this exists in a thread, the bytes it holds survive the thread (until `release` in the main thread).
pub struct Handover;
impl Drop for Handover {
    fn drop(&mut self) {
        let mut v = ARENA.with(|a| std::mem::take(&mut *a.borrow_mut()));
        HANDED.lock().unwrap_or_else(|e| e.into_inner()).append(&mut v);
    }
}
/// archive x and return the archived root, alive until `release`
pub fn archived<T: Archive + Serialize<Ser>>(x: &T) -> &'static T::Archived {
    let b = hold(arch::to_bytes(x));
    arch::root::<T>(b)
}

/// A mutable flavour.
pub trait Flavour<K: Sym, V: Val>: AbstractRadixTreeMut<K, V> + AbstractRadixTree<K, V, Materialized = Self> + 'static {
    const NAME: &'static str;
    type Arch: AbstractRadixTree<K, V, Materialized = Self> + 'static;
    fn of(t: RadixTree<K, V>) -> Self;
    fn arch(&self) -> &'static Self::Arch;
    /// through an archive: the flavour's cheapest way back from its archived form
    fn reopen(a: &'static Self::Arch) -> Self;
}
impl<K: Sym, V: Val> Flavour<K, V> for RadixTree<K, V> {
    const NAME: &'static str = "flat";
    type Arch = Archived<RadixTree<K, V>>;
    fn of(t: RadixTree<K, V>) -> Self {
        t
    }
    fn arch(&self) -> &'static Self::Arch {
        archived(self)
    }
    fn reopen(a: &'static Self::Arch) -> Self {
        a.deserialize(&mut rkyv::de::deserializers::SharedDeserializeMap::new()).unwrap()
    }
}
impl<K: Sym, V: Val> Flavour<K, V> for ArcRadixTree<K, V> {
    const NAME: &'static str = "arc";
    type Arch = Archived<ArcRadixTree<K, V>>;
    fn of(t: RadixTree<K, V>) -> Self {
        t.into()
    }
    fn arch(&self) -> &'static Self::Arch {
        archived(self)
    }
    fn reopen(a: &'static Self::Arch) -> Self {
        a.into()
    }
}
impl<K: Sym, V: Val> Flavour<K, V> for LazyRadixTree<'static, K, V> {
    const NAME: &'static str = "lazy";
    type Arch = Archived<LazyRadixTree<'static, K, V>>;
    fn of(t: RadixTree<K, V>) -> Self {
        t.into()
    }
    fn arch(&self) -> &'static Self::Arch {
        archived(self)
    }
    fn reopen(a: &'static Self::Arch) -> Self {
        a.into()
    }
}

/// right operand of any flavour
pub enum Right<K: Sym, W: Val> {
    Flat(RadixTree<K, W>),
    Arc(ArcRadixTree<K, W>),
    Lazy(LazyRadixTree<'static, K, W>),
    AFlat(&'static Archived<RadixTree<K, W>>),
    AArc(&'static Archived<ArcRadixTree<K, W>>),
    ALazy(&'static Archived<LazyRadixTree<'static, K, W>>),
}
#[macro_export]
macro_rules! with_right {
    ($r:expr, $x:ident => $e:expr) => {
        match &$r {
            $crate::radix::Right::Flat($x) => $e,
            $crate::radix::Right::Arc($x) => $e,
            $crate::radix::Right::Lazy($x) => $e,
            $crate::radix::Right::AFlat(y) => {
                let $x = *y;
                $e
            }
            $crate::radix::Right::AArc(y) => {
                let $x = *y;
                $e
            }
            $crate::radix::Right::ALazy(y) => {
                let $x = *y;
                $e
            }
        }
    };
}
impl<K: Sym, W: Val> Right<K, W> {
    pub fn name(&self) -> &'static str {
        match self {
            Right::Flat(_) => "flat",
            Right::Arc(_) => "arc",
            Right::Lazy(_) => "lazy",
            Right::AFlat(_) => "archived flat",
            Right::AArc(_) => "archived arc",
            Right::ALazy(_) => "archived lazy",
        }
    }
    pub fn random(c: &mut Case, m: &Model<K>) -> Self {
        let t: RadixTree<K, W> = build_flat(c, m);
        match c.rng.below(8) {
            0 | 1 => Right::Flat(t),
            2 => Right::Arc(t.into()),
            3 => Right::Lazy(t.into()),
            4 => Right::AFlat(archived(&t)),
            5 => Right::AArc(archived(&ArcRadixTree::from(t))),
            6 => Right::ALazy(archived(&LazyRadixTree::from(t))),
            _ => Right::Lazy(archived(&LazyRadixTree::from(t)).into()),
        }
    }
    pub fn contents(&self) -> Vec<(Vec<K>, u32)> {
        with_right!(*self, x => contents(x))
    }
}

/// Tree of the model's contents, by one of several histories.
pub fn build_flat<K: Sym, V: Val>(c: &mut Case, m: &Model<K>) -> RadixTree<K, V> {
    let mut v: Vec<(Vec<K>, u32)> = m.iter().map(|(k, v)| (k.clone(), *v)).collect();
    if c.rng.chance(2, 3) {
        c.rng.shuffle(&mut v)
    }
    match c.rng.below(4) {
        0 => v.into_iter().map(|(k, v)| (k, V::mk(v))).collect(),
        1 => {
            let mut t = RadixTree::empty();
            for (k, v) in v {
                t.union_with(&RadixTree::single(&k, V::mk(v)))
            }
            t
        }
        2 => {
            let mut t = RadixTree::default();
            for (k, v) in v {
                t.insert(&k, V::mk(v))
            }
            t
        }
        _ => {
            let h = v.len() / 2;
            let a: RadixTree<K, V> = v[..h].iter().map(|(k, v)| (k.clone(), V::mk(*v))).collect();
            let b: RadixTree<K, V> = v[h..].iter().map(|(k, v)| (k.clone(), V::mk(*v))).collect();
            a.union(&b)
        }
    }
}
/// Tree of any flavour with the model's contents; lazy ones may be opened over an archive.
pub fn build<K: Sym, V: Val, T: Flavour<K, V>>(c: &mut Case, m: &Model<K>) -> T {
    let t = T::of(build_flat(c, m));
    if c.rng.chance(1, 3) {
        T::reopen(t.arch())
    } else {
        t
    }
}

/// A copy of `t` that went its own way since: shared flavours still share most of their structure with it.
pub fn derived<K: Sym, T: Flavour<K, u32>>(c: &mut Case, t: &T, m: &Model<K>, keys: &Keys<K>) -> (T, Model<K>) {
    let (mut t, mut m) = (t.clone(), m.clone());
    for _ in 0..c.rng.below(5) {
        match c.rng.below(8) {
            0..=2 => {
                let (k, v) = (keys.key(c), fresh());
                t.insert(&k, v);
                m.insert(k, v);
            }
            3 | 4 => {
                // one key less
                let k = keys.key(c);
                t.difference_with(&T::single(&k, 0));
                m.remove(&k);
            }
            5 | 6 => {
                // one branch less
                let mut p = keys.key(c);
                if p.len() > 1 && c.rng.bool() {
                    p.pop();
                }
                t.remove_prefix_with(&T::single(&p, 0), |_| true);
                m.retain(|k, _| !k.starts_with(&p));
            }
            _ => {
                step(c, &mut t, &mut m, keys);
            }
        }
    }
    c.count("derived_copies", 1);
    (t, m)
}

/// alphabet and key pool
pub struct Keys<K> {
    pub alpha: u32,
    pub pool: Vec<Vec<K>>,
}
fn sym<K: Sym>(c: &mut Case, alpha: u32) -> K {
    K::mk(c.rng.below(alpha as usize) as u32)
}
pub fn word<K: Sym>(c: &mut Case, alpha: u32, max: usize) -> Vec<K> {
    let n = c.rng.below(max + 1);
    (0..n).map(|_| sym(c, alpha)).collect()
}
impl<K: Sym> Keys<K> {
    /// about n keys with many prefix relations
    pub fn new(c: &mut Case, n: usize) -> Keys<K> {
        let alpha = match c.rng.below(8) {
            0 => 1,
            1 | 2 => 2,
            3 | 4 => 3,
            5 => 6,
            // more children than any branch-free merge window
            6 => 30,
            _ => 256,
        }
        .min(K::N)
        .max(1);
        let long = if c.rng.chance(1, 4) { 40 } else { 6 };
        let mut pool: Vec<Vec<K>> = vec![];
        let base: Vec<K> = if c.rng.chance(1, 4) {
            let l = c.rng.range(10, 40);
            (0..l).map(|_| sym(c, alpha)).collect()
        } else {
            vec![]
        };
        if !c.small && n > 2 && c.rng.chance(1, 60) {
            // one long path with keys on many of its positions
            let l = if n < 6 && c.rng.chance(1, 60) { 66_000 } else { *c.rng.pick(&[60, 130, 270, 520]) };
            let path: Vec<K> = (0..l).map(|_| sym(c, alpha)).collect();
            for _ in 0..n {
                let mut k = path[..c.rng.below(l + 1)].to_vec();
                if c.rng.chance(1, 4) {
                    k.push(sym(c, alpha));
                }
                pool.push(k);
            }
            return Keys { alpha, pool };
        }
        for _ in 0..n {
            let k = Self::derive(c, alpha, long, &base, &pool);
            pool.push(k);
        }
        Keys { alpha, pool }
    }
    fn derive(c: &mut Case, alpha: u32, long: usize, base: &[K], pool: &[Vec<K>]) -> Vec<K> {
        let mut k = if pool.is_empty() { base.to_vec() } else { c.rng.pick(pool).clone() };
        match c.rng.below(10) {
            0 => {
                // prefix of an existing key
                let l = c.rng.below(k.len() + 1);
                k.truncate(l);
            }
            1 | 2 => {
                // extension
                let w = word::<K>(c, alpha, long);
                k.extend(w);
                k.truncate(200);
            }
            3 | 4 => {
                // sibling at the last position
                k.pop();
                k.push(sym(c, alpha));
            }
            5 => {
                // diverge in the middle
                let l = c.rng.below(k.len() + 1);
                k.truncate(l);
                let w = word::<K>(c, alpha, long);
                k.extend(w);
            }
            6 => {
                k = base.to_vec();
                let w = word::<K>(c, alpha, 3);
                k.extend(w);
            }
            _ => {
                let mut b = base.to_vec();
                let w = word::<K>(c, alpha, long);
                b.extend(w);
                k = b;
            }
        }
        if c.rng.chance(1, 60) {
            k.clear()
        }
        k
    }
    /// key of the pool, or a relative of one
    pub fn probe(&self, c: &mut Case) -> Vec<K> {
        if self.pool.is_empty() || c.rng.chance(1, 20) {
            return word(c, self.alpha, 5);
        }
        let mut k = c.rng.pick(&self.pool).clone();
        match c.rng.below(5) {
            0 => {
                let l = c.rng.below(k.len() + 1);
                k.truncate(l)
            }
            1 => k.push(sym(c, self.alpha)),
            2 => {
                if !k.is_empty() {
                    let i = c.rng.below(k.len());
                    k[i] = sym(c, self.alpha);
                }
            }
            _ => {}
        }
        k
    }
    pub fn key(&self, c: &mut Case) -> Vec<K> {
        if self.pool.is_empty() || c.rng.chance(1, 10) {
            self.probe(c)
        } else {
            c.rng.pick(&self.pool).clone()
        }
    }
    /// random part of the pool, values from `next`
    pub fn model(&self, c: &mut Case, next: &mut u32) -> Model<K> {
        let p = c.rng.below(11);
        let mut m = Model::new();
        for k in &self.pool {
            if c.rng.chance(p, 10) {
                m.insert(k.clone(), *next);
                *next += 1;
            }
        }
        if c.rng.chance(1, 4) {
            for _ in 0..c.rng.below(4) {
                let k = self.probe(c);
                m.insert(k, *next);
                *next += 1;
            }
        }
        m
    }
}

/// number of keys for a case
pub fn tree_size(c: &mut Case) -> usize {
    if c.small {
        return c.rng.below(9);
    }
    if c.rng.chance(1, 400) {
        return c.rng.range(400, 3000);
    }
    match c.rng.below(20) {
        0..=8 => c.rng.below(8),
        9..=16 => c.rng.below(30),
        17 | 18 => c.rng.below(90),
        _ => c.rng.below(400),
    }
}

/// Own traversal over the public structure accessors.
pub fn contents<K: Sym, V: Val, T: AbstractRadixTree<K, V>>(t: &T) -> Vec<(Vec<K>, u32)> {
    fn go<K: Sym, V: Val, T: AbstractRadixTree<K, V>>(t: &T, path: &mut Vec<K>, r: &mut Vec<(Vec<K>, u32)>) {
        let l = path.len();
        path.extend_from_slice(t.prefix());
        if let Some(v) = t.value() {
            r.push((path.clone(), v.id()));
        }
        for c in t.children() {
            go(c, path, r)
        }
        path.truncate(l);
    }
    let mut r = vec![];
    go(t, &mut vec![], &mut r);
    r
}
/// Structure, flavour independent: prefix, value, children
#[derive(PartialEq, Debug, Clone)]
pub struct Shape<K>(pub Vec<K>, pub Option<u32>, pub Vec<Shape<K>>);
pub fn shape<K: Sym, V: Val, T: AbstractRadixTree<K, V>>(t: &T) -> Shape<K> {
    Shape(t.prefix().to_vec(), t.value().map(|v| v.id()), t.children().iter().map(shape).collect())
}
impl<K> Shape<K> {
    pub fn nodes(&self) -> usize {
        1 + self.2.iter().map(|x| x.nodes()).sum::<usize>()
    }
}
/// The one minimal shape for sorted contents, computed independently.
pub fn minimal<K: Sym>(m: &[(Vec<K>, u32)]) -> Shape<K> {
    fn go<K: Sym>(m: &[(Vec<K>, u32)], skip: usize) -> Shape<K> {
        if m.is_empty() {
            return Shape(vec![], None, vec![]);
        }
        let (a, b) = (&m[0].0[skip..], &m[m.len() - 1].0[skip..]);
        let n = a.iter().zip(b).take_while(|(x, y)| x == y).count();
        let at = skip + n;
        let value = if m[0].0.len() == at { Some(m[0].1) } else { None };
        let rest = if value.is_some() { &m[1..] } else { m };
        let mut ch = vec![];
        let mut i = 0;
        while i < rest.len() {
            let s = rest[i].0[at];
            let mut j = i;
            while j < rest.len() && rest[j].0[at] == s {
                j += 1
            }
            ch.push(go(&rest[i..j], at));
            i = j;
        }
        Shape(m[0].0[skip..at].to_vec(), value, ch)
    }
    go(m, 0)
}
pub fn listed<K: Sym>(m: &Model<K>) -> Vec<(Vec<K>, u32)> {
    m.iter().map(|(k, v)| (k.clone(), *v)).collect()
}
pub fn normed<K: Sym, V: Val>(m: &Model<K>) -> Vec<(Vec<K>, u32)> {
    m.iter().map(|(k, v)| (k.clone(), V::norm(*v))).collect()
}

/// contents by own traversal against the model
pub fn check_contents<K: Sym, V: Val, T: AbstractRadixTree<K, V>>(c: &mut Case, t: &T, m: &Model<K>, sig: &str, step: &str) {
    let got = contents(t);
    let want = normed::<K, V>(m);
    c.count("pairs_compared", want.len() as u64);
    ensure!(c, got == want, sig, "after {step}: {}", diff(&got, &want));
}
pub fn diff<K: Debug + PartialEq>(got: &[(Vec<K>, u32)], want: &[(Vec<K>, u32)]) -> String {
    let miss: Vec<_> = want.iter().filter(|x| !got.contains(x)).take(4).collect();
    let extra: Vec<_> = got.iter().filter(|x| !want.contains(x)).take(4).collect();
    if miss.is_empty() && extra.is_empty() {
        format!("order or duplicates: got {:?}", &got[..got.len().min(12)])
    } else {
        format!("missing {miss:?}, unexpected {extra:?} ({} pairs, expected {})", got.len(), want.len())
    }
}

/// everything the read interface says about a tree, against the model
pub fn check_reads<K: Sym, V: Val, T: AbstractRadixTree<K, V>>(c: &mut Case, t: &T, m: &Model<K>, keys: &Keys<K>, step: &str) {
    let want = normed::<K, V>(m);
    match c.rng.below(5) {
        0 => {}
        _ => check_contents(c, t, m, "wrong contents", step),
    }
    ensure_eq!(c, t.is_empty(), m.is_empty(), "wrong is_empty", "after {step}");
    let got: Vec<(Vec<K>, u32)> = t.iter().map(|(k, v)| (k.to_vec(), v.id())).collect();
    ensure!(c, got == want, "wrong iteration", "after {step}: {}", diff(&got, &want));
    let got: Vec<u32> = t.values().map(|v| v.id()).collect();
    ensure!(c, got.iter().eq(want.iter().map(|x| &x.1)), "wrong value iteration", "after {step}: {got:?}");
    c.count("pairs_compared", 2 * want.len() as u64);
    // lookups of everything stored and of relatives
    for (k, v) in want.iter().take(60) {
        let g = t.get(k).map(|x| x.id());
        ensure!(c, g == Some(*v), "wrong lookup", "after {step}: get({k:?}) = {g:?}, expected {v}");
        ensure!(c, t.contains_key(k), "wrong membership", "after {step}: {k:?} not contained");
    }
    let mut probes: Vec<Vec<K>> = (0..6).map(|_| keys.probe(c)).collect();
    probes.push(vec![]);
    for k in &probes {
        let e = m.get(k).map(|v| V::norm(*v));
        let g = t.get(k).map(|x| x.id());
        ensure!(c, g == e, "wrong lookup", "after {step}: get({k:?}) = {g:?}, expected {e:?}");
        ensure!(c, t.contains_key(k) == e.is_some(), "wrong membership", "after {step}: contains_key({k:?})");
        c.count(if e.is_some() { "hits" } else { "misses" }, 1);
    }
    for _ in 0..3 {
        let p = if c.rng.chance(1, 8) { vec![] } else { keys.probe(c) };
        check_scan(c, t, &want, &p, step);
    }
}
pub fn check_scan<K: Sym, V: Val, T: AbstractRadixTree<K, V>>(c: &mut Case, t: &T, want: &[(Vec<K>, u32)], p: &[K], step: &str) {
    let got: Vec<(Vec<K>, u32)> = t.scan_prefix(p).map(|(k, v)| (k.to_vec(), v.id())).collect();
    let e: Vec<(Vec<K>, u32)> = want.iter().filter(|(k, _)| k.starts_with(p)).cloned().collect();
    ensure!(c, got == e, "wrong prefix scan", "after {step}: scan_prefix({p:?}): {}", diff(&got, &e));
    c.count("scanned", e.len() as u64);
}

pub fn prefixed<K: Sym>(m: &Model<K>, p: &[K]) -> Model<K> {
    m.iter().filter(|(k, _)| k.starts_with(p)).map(|(k, v)| (k.clone(), *v)).collect()
}

/// deterministic combining functions on value ids; None: drop
pub fn comb(mode: usize, a: u32, b: u32) -> Option<u32> {
    match mode {
        0 => Some(a),
        1 => Some(b),
        2 => None,
        3 => Some(a.wrapping_mul(31).wrapping_add(b) | 0x4000_0000),
        4 if a.wrapping_add(b) % 2 == 0 => None,
        4 => Some(a),
        5 if b % 3 == 0 => Some(a.wrapping_add(0x1000_0000)),
        5 => None,
        _ if a % 4 == 0 => None,
        _ => Some(b ^ a),
    }
}
pub const COMBS: usize = 7;

thread_local! { static NEXT: Cell<u32> = const { Cell::new(1) }; }
/// unique value ids within a case
pub fn fresh() -> u32 {
    NEXT.with(|n| {
        n.set(n.get() + 1);
        n.get()
    })
}
/// to be called at the start of every case of a radix monitor
pub fn start() {
    NEXT.with(|n| n.set(1));
    release();
}

/// One random operation on a tree of any flavour with plain values, applied to the model as well.
/// Returns its description.
pub fn step<K: Sym, T: Flavour<K, u32>>(c: &mut Case, t: &mut T, m: &mut Model<K>, keys: &Keys<K>) -> &'static str {
    let mut next = fresh();
    let op = c.rng.below(24);
    let mut other = |c: &mut Case| {
        let x = keys.model(c, &mut next);
        x
    };
    let name = match op {
        0..=4 => {
            let k = keys.key(c);
            let v = fresh();
            t.insert(&k, v);
            m.insert(k, v);
            "insert"
        }
        5 => {
            let p = if c.rng.chance(2, 3) { keys.probe(c) } else { word(c, keys.alpha, 20) };
            if p.len() > 60 {
                return "skip";
            }
            if m.keys().any(|k| k.len() > 300) {
                return "skip";
            }
            t.prepend(&p);
            *m = std::mem::take(m)
                .into_iter()
                .map(|(k, v)| {
                    let mut q = p.clone();
                    q.extend(k);
                    (q, v)
                })
                .collect();
            "prepend"
        }
        6 => {
            let mut p = keys.probe(c);
            if c.rng.bool() {
                let l = c.rng.below(p.len().min(3) + 1);
                p.truncate(l)
            }
            *t = t.filter_prefix(&p);
            *m = prefixed(m, &p);
            "filter_prefix"
        }
        7 | 8 => {
            let o = other(c);
            let b: T = build(c, &o);
            if c.rng.bool() {
                *t = t.union(&b)
            } else {
                t.union_with(&b)
            }
            for (k, v) in o {
                m.entry(k).or_insert(v);
            }
            "union"
        }
        9 => {
            let o = other(c);
            let b: Right<K, u8> = Right::random(c, &o);
            if c.rng.bool() {
                *t = with_right!(b, x => t.intersection(x))
            } else {
                with_right!(b, x => t.intersection_with(x))
            }
            m.retain(|k, _| o.contains_key(k));
            "intersection"
        }
        10 | 11 => {
            let o = other(c);
            let b: Right<K, ()> = Right::random(c, &o);
            if c.rng.bool() {
                *t = with_right!(b, x => t.difference(x))
            } else {
                with_right!(b, x => t.difference_with(x))
            }
            m.retain(|k, _| !o.contains_key(k));
            "difference"
        }
        12 | 13 => {
            let o = other(c);
            let b: T = build(c, &o);
            let mode = c.rng.below(COMBS);
            if c.rng.bool() {
                *t = t.outer_combine(&b, |a, b| comb(mode, *a, *b))
            } else {
                t.outer_combine_with(&b, |a, b| upd(mode, a, *b))
            }
            for (k, v) in o {
                match m.get(&k).copied() {
                    None => {
                        m.insert(k, v);
                    }
                    Some(a) => match comb(mode, a, v) {
                        Some(x) => {
                            m.insert(k, x);
                        }
                        None => {
                            m.remove(&k);
                        }
                    },
                }
            }
            "outer_combine"
        }
        14 => {
            let o = other(c);
            let b: Right<K, u32> = Right::random(c, &o);
            let mode = c.rng.below(COMBS);
            if c.rng.bool() {
                *t = with_right!(b, x => t.inner_combine(x, |a, b| comb(mode, *a, *b)))
            } else {
                with_right!(b, x => t.inner_combine_with(x, |a, b| upd(mode, a, *b)))
            }
            *m = std::mem::take(m).into_iter().filter_map(|(k, a)| o.get(&k).and_then(|b| comb(mode, a, *b)).map(|v| (k, v))).collect();
            "inner_combine"
        }
        15 | 16 => {
            let o = other(c);
            let b: Right<K, u32> = Right::random(c, &o);
            let mode = c.rng.below(COMBS);
            if c.rng.bool() {
                *t = with_right!(b, x => t.left_combine(x, |a, b| match b { Some(b) => comb(mode, *a, *b), None => Some(*a) }))
            } else {
                with_right!(b, x => t.left_combine_with(x, |a, b| upd(mode, a, *b)))
            }
            *m = std::mem::take(m)
                .into_iter()
                .filter_map(|(k, a)| match o.get(&k) {
                    Some(b) => comb(mode, a, *b).map(|v| (k, v)),
                    None => Some((k, a)),
                })
                .collect();
            "left_combine"
        }
        17 => {
            let mut o = other(c);
            while o.len() > 6 {
                let k = o.keys().next().unwrap().clone();
                o.remove(&k);
            }
            let b: Right<K, u32> = Right::random(c, &o);
            let d = 1 + c.rng.below(3) as u32;
            with_right!(b, x => t.remove_prefix_with(x, |v| v % d == 0));
            m.retain(|k, _| !o.iter().any(|(p, v)| v % d == 0 && k.starts_with(p)));
            "remove_prefix_with"
        }
        18 => {
            let o = other(c);
            let b: Right<K, u32> = Right::random(c, &o);
            let d = 1 + c.rng.below(2) as u32;
            with_right!(b, x => t.retain_prefix_with(x, |v| v % d == 0));
            m.retain(|k, _| o.iter().any(|(p, v)| v % d == 0 && k.starts_with(p)));
            "retain_prefix_with"
        }
        19 => {
            *t = T::reopen(t.arch());
            "archive and reopen"
        }
        20 => {
            *t = t.clone();
            "clone"
        }
        21 | 22 => {
            // together with a copy that was edited since
            let (b, o) = derived(c, t, m, keys);
            let mode = c.rng.below(COMBS);
            match c.rng.below(7) {
                0 => {
                    t.union_with(&b);
                    for (k, v) in o {
                        m.entry(k).or_insert(v);
                    }
                    "union with a copy"
                }
                1 => {
                    t.intersection_with(&b);
                    m.retain(|k, _| o.contains_key(k));
                    "intersection with a copy"
                }
                2 => {
                    *t = b.difference(&*t);
                    *m = o.into_iter().filter(|(k, _)| !m.contains_key(k)).collect();
                    "difference of a copy"
                }
                3 => {
                    *t = b.union(&*t);
                    let mut o = o;
                    for (k, v) in std::mem::take(m) {
                        o.entry(k).or_insert(v);
                    }
                    *m = o;
                    "union of a copy"
                }
                4 => {
                    t.left_combine_with(&b, |a, b| upd(mode, a, *b));
                    *m = std::mem::take(m)
                        .into_iter()
                        .filter_map(|(k, a)| match o.get(&k) {
                            Some(b) => comb(mode, a, *b).map(|v| (k, v)),
                            None => Some((k, a)),
                        })
                        .collect();
                    "left_combine with a copy"
                }
                5 => {
                    t.retain_prefix_with(&b, |v| v % 2 == 0);
                    m.retain(|k, _| o.iter().any(|(p, v)| v % 2 == 0 && k.starts_with(p)));
                    "retain_prefix with a copy"
                }
                _ => {
                    t.outer_combine_with(&b, |a, b| upd(mode, a, *b));
                    for (k, v) in o {
                        match m.get(&k).copied() {
                            None => {
                                m.insert(k, v);
                            }
                            Some(a) => match comb(mode, a, v) {
                                Some(x) => {
                                    m.insert(k, x);
                                }
                                None => {
                                    m.remove(&k);
                                }
                            },
                        }
                    }
                    "outer_combine with a copy"
                }
            }
        }
        _ => {
            let v = fresh();
            if m.len() > 2 {
                return "skip";
            }
            match c.rng.below(3) {
                0 => {
                    *t = T::empty();
                    m.clear();
                }
                1 => {
                    *t = T::leaf(v);
                    *m = [(vec![], v)].into();
                }
                _ => {
                    let k = keys.key(c);
                    *t = T::single(&k, v);
                    *m = [(k, v)].into();
                }
            }
            "empty/leaf/single"
        }
    };
    // model() handed out ids from next on
    NEXT.with(|n| n.set(n.get().max(next)));
    name
}
pub fn upd(mode: usize, a: &mut u32, b: u32) -> bool {
    match comb(mode, *a, b) {
        Some(x) => {
            *a = x;
            true
        }
        None => {
            // the value may be scribbled on before it is refused
            *a = 0xFFFF_FFFF;
            false
        }
    }
}

/// picks a symbol type and a flavour
#[macro_export]
macro_rules! with_flavour {
    ($c:expr, $f:ident ( $($args:expr),* )) => {{
        use $crate::radix::*;
        match $c.rng.below(12) {
            0 => $f::<u16, RadixTree<u16, u32>>($($args),*),
            1 => $f::<char, ArcRadixTree<char, u32>>($($args),*),
            2 => $f::<(), LazyRadixTree<'static, (), u32>>($($args),*),
            3..=5 => $f::<u8, RadixTree<u8, u32>>($($args),*),
            6..=8 => $f::<u8, ArcRadixTree<u8, u32>>($($args),*),
            _ => $f::<u8, LazyRadixTree<'static, u8, u32>>($($args),*),
        }
    }};
}

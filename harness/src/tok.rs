//! Element type with a ledger: every instance is registered, every drop is checked, every use of a
//! dropped instance is recorded. Ordered and compared by `key` only, so that instances that compare
//! equal stay distinguishable by `tag`. Comparisons and clones are counted and can be made to panic.
use crate::runner::Injected;
use std::borrow::Borrow;
use std::cell::{Cell, RefCell};
use std::cmp::Ordering;

const ALIVE: u32 = 0x600D_F00D;
const DEAD: u32 = 0xDEAD_DEAD;

struct Ledger {
    epoch: u32,
    states: Vec<bool>, // true: alive
    live: usize,
    max_live: usize,
    error: Option<String>,
}
thread_local! {
    static L: RefCell<Ledger> = const { RefCell::new(Ledger { epoch: 0, states: Vec::new(), live: 0, max_live: 0, error: None }) };
    static CMPS: Cell<u64> = const { Cell::new(0) };
    static CLONES: Cell<u64> = const { Cell::new(0) };
    static CMP_FUSE: Cell<u64> = const { Cell::new(u64::MAX) };
    static CLONE_FUSE: Cell<u64> = const { Cell::new(u64::MAX) };
    static CALL_FUSE: Cell<u64> = const { Cell::new(u64::MAX) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
}

pub fn reset() {
    L.with(|l| {
        let mut l = l.borrow_mut();
        l.epoch = l.epoch.wrapping_add(1);
        l.states.clear();
        l.live = 0;
        l.max_live = 0;
        l.error = None;
    });
    CMPS.with(|c| c.set(0));
    CLONES.with(|c| c.set(0));
    CALLS.with(|c| c.set(0));
    disarm();
}
pub fn error() -> Option<String> {
    L.with(|l| l.borrow().error.clone())
}
pub fn set_error(e: String) {
    L.with(|l| {
        let mut l = l.borrow_mut();
        if l.error.is_none() {
            l.error = Some(e)
        }
    })
}
pub fn live() -> usize {
    L.with(|l| l.borrow().live)
}
pub fn created() -> usize {
    L.with(|l| l.borrow().states.len())
}
pub fn reset_max_live() {
    L.with(|l| {
        let mut l = l.borrow_mut();
        l.max_live = l.live
    })
}
pub fn max_live() -> usize {
    L.with(|l| l.borrow().max_live)
}
pub fn cmps() -> u64 {
    CMPS.with(|c| c.get())
}
pub fn reset_cmps() {
    CMPS.with(|c| c.set(0))
}
pub fn clones() -> u64 {
    CLONES.with(|c| c.get())
}
pub fn reset_clones() {
    CLONES.with(|c| c.set(0))
}
pub fn calls() -> u64 {
    CALLS.with(|c| c.get())
}
pub fn reset_calls() {
    CALLS.with(|c| c.set(0))
}
/// panic at the n-th (0 based) comparison / clone / user callback from now on
pub fn arm_cmp(n: u64) {
    CMP_FUSE.with(|c| c.set(n))
}
pub fn arm_clone(n: u64) {
    CLONE_FUSE.with(|c| c.set(n))
}
pub fn arm_call(n: u64) {
    CALL_FUSE.with(|c| c.set(n))
}
pub fn disarm() {
    for f in [&CMP_FUSE, &CLONE_FUSE, &CALL_FUSE] {
        f.with(|c| c.set(u64::MAX))
    }
}
fn burn(f: &'static std::thread::LocalKey<Cell<u64>>) {
    f.with(|c| {
        let n = c.get();
        if n == 0 {
            c.set(u64::MAX);
            std::panic::panic_any(Injected);
        } else if n != u64::MAX {
            c.set(n - 1)
        }
    })
}
/// to be called by user callbacks (closures, iterators) in fault injection scenarios
pub fn call_point() {
    CALLS.with(|c| c.set(c.get() + 1));
    burn(&CALL_FUSE)
}

fn register() -> (u32, u32) {
    L.with(|l| {
        let mut l = l.borrow_mut();
        let id = l.states.len() as u32;
        l.states.push(true);
        l.live += 1;
        l.max_live = l.max_live.max(l.live);
        (l.epoch, id)
    })
}

/// Archived instances (see `Archive` below) have this id and no heap part.
const ARCHIVED: u32 = u32::MAX;

#[repr(C)]
pub struct Tok {
    key: u32,
    pub tag: u32,
    epoch: u32,
    id: u32,
    heap: Option<Box<[u32; 2]>>,
}

impl Tok {
    pub fn new(key: u32, tag: u32) -> Tok {
        let (epoch, id) = register();
        Tok {
            key,
            tag,
            epoch,
            id,
            heap: Some(Box::new([ALIVE, key])),
        }
    }
    fn check(&self, what: &str) {
        if self.id == ARCHIVED {
            return;
        }
        if !matches!(&self.heap, Some(h) if h[0] == ALIVE && h[1] == self.key) {
            set_error(format!(
                "{what} of a dropped or corrupted element (key {}, tag {}, id {})",
                self.key, self.tag, self.id
            ));
        }
        L.with(|l| {
            let mut l = l.borrow_mut();
            if l.epoch == self.epoch && !l.states.get(self.id as usize).copied().unwrap_or(false) {
                let e = format!("{what} of a dropped element (key {}, id {})", self.key, self.id);
                l.error.get_or_insert(e);
            }
        })
    }
    pub fn key(&self) -> u32 {
        self.check("read");
        self.key
    }
    pub fn id(&self) -> u32 {
        self.id
    }
    /// (key, tag): what identifies the element across clones
    pub fn kt(&self) -> (u32, u32) {
        self.check("read");
        (self.key, self.tag)
    }
}
impl Drop for Tok {
    fn drop(&mut self) {
        let bad = L.with(|l| {
            let mut l = l.borrow_mut();
            if l.epoch != self.epoch {
                return false;
            }
            match l.states.get_mut(self.id as usize) {
                Some(s) if *s => {
                    *s = false;
                    l.live -= 1;
                    false
                }
                _ => {
                    let e = format!("element (key {}, tag {}, id {}) dropped twice", self.key, self.tag, self.id);
                    l.error.get_or_insert(e);
                    true
                }
            }
        });
        if bad {
            // do not free the box a second time: the ledger entry is the witness
            // (sanitizer builds do, to get the sanitizer's report as well)
            #[cfg(not(any(miri, vcmon_san)))]
            {
                std::mem::forget(self.heap.take());
            }
        } else if let Some(h) = &mut self.heap {
            h[0] = DEAD;
        }
    }
}
impl Clone for Tok {
    fn clone(&self) -> Self {
        self.check("clone");
        CLONES.with(|c| c.set(c.get() + 1));
        burn(&CLONE_FUSE);
        Tok::new(self.key, self.tag)
    }
}
impl Ord for Tok {
    fn cmp(&self, o: &Self) -> Ordering {
        self.check("comparison");
        o.check("comparison");
        tick();
        self.key.cmp(&o.key)
    }
}
/// one comparison of user code
pub fn tick() {
    CMPS.with(|c| {
        c.set(c.get() + 1);
        if c.get() > 200_000_000 {
            panic!("runaway comparisons");
        }
    });
    burn(&CMP_FUSE);
}
impl PartialOrd for Tok {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl PartialEq for Tok {
    fn eq(&self, o: &Self) -> bool {
        self.cmp(o) == Ordering::Equal
    }
}
impl Eq for Tok {}
impl std::hash::Hash for Tok {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.check("hash");
        self.key.hash(h)
    }
}
impl std::fmt::Debug for Tok {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}#{}", self.key, self.tag)
    }
}
/// borrowed lookup key with the same order
#[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[repr(transparent)]
pub struct KeyRef(pub u32);
impl Borrow<KeyRef> for Tok {
    fn borrow(&self) -> &KeyRef {
        self.check("borrow");
        tick();
        // KeyRef is a transparent u32
        unsafe { &*(&self.key as *const u32 as *const KeyRef) }
    }
}

impl rkyv::Archive for Tok {
    type Archived = Tok;
    type Resolver = ();
    unsafe fn resolve(&self, _: usize, _: (), out: *mut Tok) {
        // an archived instance: no heap part, not in the ledger
        std::ptr::write_bytes(out as *mut u8, 0, std::mem::size_of::<Tok>());
        std::ptr::addr_of_mut!((*out).key).write(self.key);
        std::ptr::addr_of_mut!((*out).tag).write(self.tag);
        std::ptr::addr_of_mut!((*out).id).write(ARCHIVED);
    }
}
impl<S: rkyv::Fallible + ?Sized> rkyv::Serialize<S> for Tok {
    fn serialize(&self, _: &mut S) -> Result<(), S::Error> {
        self.check("serialisation");
        Ok(())
    }
}
impl<D: rkyv::Fallible + ?Sized> rkyv::Deserialize<Tok, D> for Tok {
    fn deserialize(&self, _: &mut D) -> Result<Tok, D::Error> {
        Ok(Tok::new(self.key, self.tag))
    }
}
impl<C: ?Sized> bytecheck::CheckBytes<C> for Tok {
    type Error = std::convert::Infallible;
    /// only used on archives of our own
    unsafe fn check_bytes<'a>(v: *const Tok, _: &mut C) -> Result<&'a Tok, Self::Error> {
        Ok(&*v)
    }
}
/// key symbol whose comparisons are counted and can be made to panic
#[derive(Clone, Copy, Debug)]
#[repr(transparent)]
pub struct Sy(pub u8);
impl PartialEq for Sy {
    fn eq(&self, o: &Sy) -> bool {
        tick();
        self.0 == o.0
    }
}
impl Eq for Sy {}
impl PartialOrd for Sy {
    fn partial_cmp(&self, o: &Sy) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Sy {
    fn cmp(&self, o: &Sy) -> Ordering {
        tick();
        self.0.cmp(&o.0)
    }
}
impl std::hash::Hash for Sy {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.0.hash(h)
    }
}
impl rkyv::Archive for Sy {
    type Archived = Sy;
    type Resolver = ();
    unsafe fn resolve(&self, _: usize, _: (), out: *mut Sy) {
        out.write(*self)
    }
}
impl<S: rkyv::Fallible + ?Sized> rkyv::Serialize<S> for Sy {
    fn serialize(&self, _: &mut S) -> Result<(), S::Error> {
        Ok(())
    }
}
impl<D: rkyv::Fallible + ?Sized> rkyv::Deserialize<Sy, D> for Sy {
    fn deserialize(&self, _: &mut D) -> Result<Sy, D::Error> {
        Ok(*self)
    }
}
impl<C: ?Sized> bytecheck::CheckBytes<C> for Sy {
    type Error = std::convert::Infallible;
    unsafe fn check_bytes<'a>(v: *const Sy, _: &mut C) -> Result<&'a Sy, Self::Error> {
        Ok(&*v)
    }
}

/// Runs f, catching an injected panic. Ok(Some) normal, Ok(None) injected; other panics continue.
pub fn catch_injected<R>(f: impl FnOnce() -> R) -> Option<R> {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    disarm();
    match r {
        Ok(r) => Some(r),
        Err(p) => {
            if p.downcast_ref::<Injected>().is_some() {
                None
            } else {
                std::panic::resume_unwind(p)
            }
        }
    }
}
impl serde::Serialize for Tok {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        serde::Serialize::serialize(&self.kt(), s)
    }
}
impl<'de> serde::Deserialize<'de> for Tok {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let (k, t) = <(u32, u32) as serde::Deserialize>::deserialize(d)?;
        Ok(Tok::new(k, t))
    }
}

//! P27: concurrent use of shared trees. Oracle: a reference map per thread, loads per value, live values;
//! ThreadSanitizer and Miri for races; a watchdog for deadlocks.
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, AtomicU8, AtomicUsize, Ordering::Relaxed};
use std::sync::mpsc;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use vcmon::radix::*;
use vcmon::*;

// ---- observed interleavings: which thread did the n-th operation (relaxed, so nothing is ordered by it)
const SLOTS: usize = 4096;
static NEXT: AtomicUsize = AtomicUsize::new(0);
static WHO: [AtomicU8; SLOTS] = [const { AtomicU8::new(0) }; SLOTS];
fn ticket(id: usize) {
    let i = NEXT.fetch_add(1, Relaxed);
    if i < SLOTS {
        WHO[i].store(id as u8, Relaxed)
    }
}
fn interleaving() -> Vec<u8> {
    let n = NEXT.swap(0, Relaxed).min(SLOTS);
    WHO[..n].iter().map(|x| x.load(Relaxed)).collect()
}

/// one thread's view: its own random choices and counters
struct Th {
    id: usize,
    c: Case,
    go: Arc<AtomicUsize>,
}
impl Th {
    fn op(&mut self) {
        ticket(self.id);
        match self.c.rng.below(12) {
            0 => std::thread::yield_now(),
            1 if !cfg!(miri) => {
                for _ in 0..self.c.rng.below(2000) {
                    std::hint::spin_loop()
                }
            }
            _ => {}
        }
    }
    /// all threads arrive before any goes on (spinning, so that they start together)
    fn together(&self) {
        self.go.fetch_sub(1, std::sync::atomic::Ordering::AcqRel);
        while self.go.load(std::sync::atomic::Ordering::Acquire) > 0 && !ABORT.load(Relaxed) {
            std::thread::yield_now()
        }
    }
}
static ABORT: AtomicBool = AtomicBool::new(false);

/// no unfinished thread runs or uses the processor for a while
fn stuck() -> bool {
    fn sample() -> Option<(bool, u64)> {
        let me = std::fs::read_link("/proc/thread-self").ok()?;
        let (mut asleep, mut ticks) = (true, 0);
        for t in std::fs::read_dir("/proc/self/task").ok()? {
            let t = t.ok()?;
            if me.file_name() == Some(t.file_name().as_os_str()) {
                continue;
            }
            let s = std::fs::read_to_string(t.path().join("stat")).ok()?;
            let f: Vec<&str> = s.rsplit(')').next()?.split_whitespace().collect();
            asleep &= f[0] == "S";
            ticks += f[11].parse::<u64>().ok()? + f[12].parse::<u64>().ok()?;
        }
        Some((asleep, ticks))
    }
    let Some((_, t0)) = sample() else { return false };
    for _ in 0..50 {
        std::thread::sleep(Duration::from_millis(100));
        match sample() {
            Some((true, t)) if t == t0 => {}
            _ => return false,
        }
    }
    true
}

/// Runs one closure per thread; waits for all of them.
fn threads<R: Send + 'static>(c: &mut Case, fs: Vec<Box<dyn FnOnce(&mut Th) -> R + Send>>) -> Vec<R> {
    let n = fs.len();
    let go = Arc::new(AtomicUsize::new(n));
    ABORT.store(false, Relaxed);
    interleaving();
    let (tx, rx) = mpsc::channel();
    let mut hs = vec![];
    for (id, f) in fs.into_iter().enumerate() {
        let (seed, small, thorough) = (c.rng.u64(), c.small, c.thorough);
        let (go, tx) = (go.clone(), tx.clone());
        hs.push(std::thread::spawn(move || {
            let _bytes = Handover;
            let mut k = Case::new(seed, false);
            k.small = small;
            k.thorough = thorough;
            let mut th = Th { id, c: k, go };
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut th)));
            if r.is_err() {
                ABORT.store(true, Relaxed)
            }
            let _ = tx.send((id, r, th.c.counters));
        }));
    }
    drop(tx);
    let mut rs: Vec<Option<R>> = (0..n).map(|_| None).collect();
    let mut bad = None;
    let t0 = Instant::now();
    for _ in 0..n {
        let (id, r, counters) = if cfg!(miri) {
            // the interpreter finds deadlocks itself
            rx.recv().unwrap()
        } else {
            loop {
                match rx.recv_timeout(Duration::from_secs(15)) {
                    Ok(x) => break x,
                    Err(_) => {
                        if stuck() {
                            c.fail("deadlock", format!("threads asleep for {:?}: {}", t0.elapsed(), rs.iter().filter(|r| r.is_none()).count()))
                        }
                    }
                }
            }
        };
        for (k, v) in counters {
            c.count(k, v)
        }
        match r {
            Ok(r) => rs[id] = Some(r),
            Err(e) => bad = bad.or(Some(e)),
        }
    }
    for h in hs {
        let _ = h.join();
    }
    if let Some(e) = bad {
        // a monitor in the thread failed, or the code under test panicked
        std::panic::resume_unwind(e)
    }
    let s = interleaving();
    c.note(&s);
    c.log(|| format!("{n} threads; order of their operations: {s:?}"));
    c.count("operations", s.len() as u64);
    c.count("switches", s.windows(2).filter(|w| w[0] != w[1]).count() as u64);
    c.maxc("max_threads", n as u64);
    rs.into_iter().map(|r| r.unwrap()).collect()
}

type Lz<V> = LazyRadixTree<'static, u8, V>;
type Ac<V> = ArcRadixTree<u8, V>;

fn setup<V: Val, T: Flavour<u8, V>>(c: &mut Case, n: usize) -> (T, Model<u8>, Arc<Keys<u8>>) {
    let keys = Keys::<u8>::new(c, n);
    let mut next = 1;
    let m = keys.model(c, &mut next);
    let t: T = build(c, &m);
    c.log(|| format!("{} tree: {m:?}", T::NAME));
    // loaded to some extent
    for _ in 0..c.rng.below(4) {
        let k = keys.probe(c);
        let _ = t.contains_key(&k);
    }
    (t, m, Arc::new(keys))
}
fn size(c: &mut Case) -> usize {
    if c.small {
        c.rng.range(1, 10)
    } else {
        tree_size(c).min(150)
    }
}
fn count(c: &mut Case) -> usize {
    if c.small {
        2 + c.rng.below(2)
    } else {
        2 + c.rng.below(5)
    }
}

/// every thread reads, snapshots, edits, archives and drops its own clones
fn histories<T: Flavour<u8, u32> + Send>(c: &mut Case) {
    start();
    let n = size(c);
    let (t, m, keys) = setup::<u32, T>(c, n);
    c.note(&(T::NAME, &m));
    let k = count(c);
    let steps = if c.small { 2 } else { 1 + c.rng.below(12) };
    let fs = (0..k)
        .map(|_| {
            let (t, m, keys) = (t.clone(), m.clone(), keys.clone());
            let f: Box<dyn FnOnce(&mut Th) + Send> = Box::new(move |th: &mut Th| {
                let (mut t, mut m) = (t, m);
                let mut old = vec![];
                th.together();
                for _ in 0..steps {
                    th.op();
                    match th.c.rng.below(8) {
                        0 => old.push((t.clone(), m.clone())),
                        1 if !old.is_empty() => {
                            let i = th.c.rng.below(old.len());
                            let (x, y) = old.swap_remove(i);
                            check_contents(&mut th.c, &x, &y, "snapshot changed", "dropping a snapshot");
                        }
                        2 => {
                            let a = t.arch();
                            check_contents(&mut th.c, a, &m, "wrong archive", "archiving");
                        }
                        3 | 4 => {
                            let p = keys.probe(&mut th.c);
                            let (g, w) = (t.get(&p).copied(), m.get(&p).copied());
                            ensure_eq!(th.c, g, w, "wrong lookup", "thread {}, {p:?}", th.id);
                            let g: Vec<(Vec<u8>, u32)> = t.scan_prefix(&p).map(|(k, v)| (k.to_vec(), *v)).collect();
                            let w = listed(&prefixed(&m, &p));
                            ensure!(th.c, g == w, "wrong prefix scan", "thread {}: {}", th.id, diff(&g, &w));
                        }
                        _ => {
                            step(&mut th.c, &mut t, &mut m, &keys);
                        }
                    }
                    if th.c.rng.bool() {
                        check_contents(&mut th.c, &t, &m, "wrong contents", "an operation");
                    }
                }
                check_contents(&mut th.c, &t, &m, "wrong contents", "the end");
                for (x, y) in &old {
                    check_contents(&mut th.c, x, y, "snapshot changed", "the end");
                }
                th.c.count("histories", 1);
            });
            f
        })
        .collect();
    threads(c, fs);
    check_contents(c, &t, &m, "original changed", "all threads");
    c.nontrivial = !m.is_empty();
}

/// address of the child list by path
fn lists<T: AbstractRadixTree<u8, Cv>>(t: &T, path: &mut Vec<u8>, r: &mut BTreeMap<Vec<u8>, usize>, c: &mut Case) {
    let l = path.len();
    path.extend_from_slice(t.prefix());
    let ch = t.children();
    r.insert(path.clone(), ch.as_ptr() as usize);
    // in any order
    let mut o: Vec<usize> = (0..ch.len()).collect();
    c.rng.shuffle(&mut o);
    for i in o {
        lists(&ch[i], path, r, c)
    }
    path.truncate(l);
}

/// several threads load the same parts for the first time
fn loading(c: &mut Case) {
    start();
    let n = size(c);
    let keys = Keys::<u8>::new(c, n);
    let mut next = 1;
    let m = keys.model(c, &mut next);
    c.note(&m);
    let live0 = cv_live();
    {
        let a = archived(&Lz::<Cv>::from(build_flat::<u8, Cv>(c, &m)));
        let t: Lz<Cv> = a.into();
        // the clones share what is below the first list
        let _ = t.children().len();
        let pre = c.rng.below(3);
        for _ in 0..pre {
            let _ = t.contains_key(&keys.probe(c));
        }
        let root = t.value().map(|v| v.id());
        let keys = Arc::new(keys);
        let want = Arc::new(normed::<u8, Cv>(&m));
        let m = Arc::new(m);
        let k = count(c);
        let fs = (0..k)
            .map(|_| {
                let (t, m, keys, want) = (t.clone(), m.clone(), keys.clone(), want.clone());
                let f: Box<dyn FnOnce(&mut Th) -> BTreeMap<Vec<u8>, usize> + Send> = Box::new(move |th: &mut Th| {
                    let mut extra = vec![];
                    th.together();
                    for _ in 0..th.c.rng.below(8) {
                        th.op();
                        let p = keys.probe(&mut th.c);
                        match th.c.rng.below(5) {
                            0 => extra.push(t.clone()),
                            1 => drop(extra.pop()),
                            2 => {
                                let g: Vec<(Vec<u8>, u32)> = t.scan_prefix(&p).map(|(k, v)| (k.to_vec(), v.id())).collect();
                                let w = normed::<u8, Cv>(&prefixed(&m, &p));
                                ensure!(th.c, g == w, "wrong prefix scan", "thread {}: {}", th.id, diff(&g, &w));
                            }
                            3 => {
                                let mut arcs = BTreeMap::new();
                                t.all_arcs(&mut arcs);
                                th.c.count("lists_seen", arcs.len() as u64);
                            }
                            _ => {
                                let g = t.get(&p).map(|v| v.id());
                                ensure_eq!(th.c, g, m.get(&p).map(|v| *v), "wrong lookup", "thread {}, {p:?}", th.id);
                            }
                        }
                    }
                    th.op();
                    let mut r = BTreeMap::new();
                    lists(&t, &mut vec![], &mut r, &mut th.c);
                    let g = contents(&t);
                    ensure!(th.c, g == *want, "wrong contents", "thread {}: {}", th.id, diff(&g, &want));
                    th.c.count("loaders", 1);
                    r
                });
                f
            })
            .collect();
        cv_reset();
        let rs = threads(c, fs);
        let mut r0 = BTreeMap::new();
        lists(&t, &mut vec![], &mut r0, c);
        for (i, r) in rs.iter().enumerate() {
            ensure!(c, *r == r0, "loaded more than once", "thread {i} has its own copy of {:?}", r0.iter().filter(|(p, x)| r.get(*p) != Some(*x)).map(|x| x.0).next());
        }
        for v in m.values() {
            if Some(*v) != root {
                ensure!(c, cv_per(*v) <= 1, "loaded more than once", "value {v} was loaded {} times by {k} threads", cv_per(*v));
            }
        }
        c.count("lists_compared", (r0.len() * rs.len()) as u64);
        c.nontrivial = r0.len() > 2;
    }
    ensure_eq!(c, cv_live(), live0, "values leaked or dropped twice", "");
}

/// trees handed from thread to thread
fn exchange<T: Flavour<u8, u32> + Send>(c: &mut Case) {
    start();
    let n = size(c).min(60);
    let (t, m, keys) = setup::<u32, T>(c, n);
    c.note(&(T::NAME, &m));
    type Slot<T> = Mutex<Vec<(T, Model<u8>)>>;
    let pool: Arc<Slot<T>> = Arc::new(Mutex::new(vec![(t.clone(), m.clone())]));
    let k = count(c);
    let steps = if c.small { 2 } else { 1 + c.rng.below(10) };
    let fs = (0..k)
        .map(|_| {
            let (pool, keys) = (pool.clone(), keys.clone());
            let f: Box<dyn FnOnce(&mut Th) + Send> = Box::new(move |th: &mut Th| {
                th.together();
                let take = |th: &mut Th| -> Option<(T, Model<u8>)> {
                    let mut p = pool.lock().unwrap_or_else(|e| e.into_inner());
                    let n = p.len();
                    if n == 0 {
                        return None;
                    }
                    let i = th.c.rng.below(n);
                    if th.c.rng.bool() || n == 1 {
                        let (t, m) = &p[i];
                        Some((t.clone(), m.clone()))
                    } else {
                        Some(p.swap_remove(i))
                    }
                };
                for _ in 0..steps {
                    th.op();
                    let Some((mut t, mut m)) = take(th) else { continue };
                    check_contents(&mut th.c, &t, &m, "wrong contents", "received");
                    for _ in 0..1 + th.c.rng.below(3) {
                        if th.c.rng.chance(1, 4) {
                            // combined with one that others hold too
                            if let Some((b, mb)) = take(th) {
                                t.union_with(&b);
                                for (k, v) in mb {
                                    m.entry(k).or_insert(v);
                                }
                            }
                        } else {
                            step(&mut th.c, &mut t, &mut m, &keys);
                        }
                    }
                    check_contents(&mut th.c, &t, &m, "wrong contents", "changed");
                    let mut p = pool.lock().unwrap_or_else(|e| e.into_inner());
                    if p.len() < 8 {
                        p.push((t, m))
                    } else {
                        let i = th.c.rng.below(p.len());
                        let old = std::mem::replace(&mut p[i], (t, m));
                        drop(p);
                        drop(old);
                    }
                    th.c.count("handed_over", 1);
                }
            });
            f
        })
        .collect();
    threads(c, fs);
    for (t, m) in pool.lock().unwrap_or_else(|e| e.into_inner()).iter() {
        check_contents(c, t, m, "wrong contents", "all threads");
    }
    check_contents(c, &t, &m, "original changed", "all threads");
    c.nontrivial = !m.is_empty();
}

/// clones made and dropped all over, with owned values: none lost, none dropped twice
fn dropping<T: Flavour<u8, Cv> + Send>(c: &mut Case) {
    start();
    let live0 = cv_live();
    {
        let n = size(c);
        let (t, m, keys) = setup::<Cv, T>(c, n);
        c.note(&(T::NAME, &m));
        let k = count(c);
        let steps = if c.small { 3 } else { 1 + c.rng.below(20) };
        let want = Arc::new(normed::<u8, Cv>(&m));
        // each thread has the last reference to something at some time
        let keep = c.rng.bool();
        let mut ts: Vec<T> = (0..k).map(|_| t.clone()).collect();
        if keep {
            ts.push(t)
        } else {
            drop(t)
        }
        let fs = ts
            .drain(..k)
            .map(|t| {
                let (keys, want) = (keys.clone(), want.clone());
                let f: Box<dyn FnOnce(&mut Th) + Send> = Box::new(move |th: &mut Th| {
                    let mut own = vec![t];
                    th.together();
                    for _ in 0..steps {
                        th.op();
                        if own.is_empty() {
                            break;
                        }
                        let i = th.c.rng.below(own.len());
                        match th.c.rng.below(6) {
                            0 | 1 => own.push(own[i].clone()),
                            2 | 3 => drop(own.swap_remove(i)),
                            4 => {
                                let k = keys.key(&mut th.c);
                                own[i].insert(&k, Cv::new(9));
                            }
                            _ => {
                                let k = keys.key(&mut th.c);
                                own[i] = own[i].filter_prefix(&k);
                            }
                        }
                    }
                    let _ = want.len();
                    th.c.count("droppers", 1);
                });
                f
            })
            .collect();
        threads(c, fs);
        if let Some(t) = ts.pop() {
            let g = contents(&t);
            ensure!(c, g == *want, "original changed", "{}", diff(&g, &want));
        }
        c.nontrivial = !m.is_empty();
    }
    ensure_eq!(c, cv_live(), live0, "values leaked or dropped twice", "{}", T::NAME);
}

/// one shared tree read by reference
fn by_reference(c: &mut Case) {
    start();
    let n = size(c);
    let (t, m, keys) = setup::<u32, Ac<u32>>(c, n);
    c.note(&m);
    let (t, m) = (Arc::new(t), Arc::new(m));
    let k = count(c);
    let fs = (0..k)
        .map(|_| {
            let (t, m, keys) = (t.clone(), m.clone(), keys.clone());
            let f: Box<dyn FnOnce(&mut Th) + Send> = Box::new(move |th: &mut Th| {
                th.together();
                for _ in 0..3 {
                    th.op();
                    check_reads(&mut th.c, &*t, &m, &keys, "sharing");
                    let mut x = (*t).clone();
                    let mut y = (*m).clone();
                    step(&mut th.c, &mut x, &mut y, &keys);
                    check_contents(&mut th.c, &x, &y, "wrong contents", "changed");
                }
            });
            f
        })
        .collect();
    threads(c, fs);
    check_contents(c, &*t, &m, "original changed", "all threads");
    c.nontrivial = !m.is_empty();
}

fn arc_histories(c: &mut Case) {
    histories::<Ac<u32>>(c)
}
fn lazy_histories(c: &mut Case) {
    histories::<Lz<u32>>(c)
}
fn exchanges(c: &mut Case) {
    if c.rng.bool() {
        exchange::<Ac<u32>>(c)
    } else {
        exchange::<Lz<u32>>(c)
    }
}
fn drops(c: &mut Case) {
    if c.rng.bool() {
        dropping::<Ac<Cv>>(c)
    } else {
        dropping::<Lz<Cv>>(c)
    }
}
fn main() {
    vcmon::main(
        "P27",
        &[
            Scenario { name: "arc_histories", weight: 2, run: arc_histories },
            Scenario { name: "lazy_histories", weight: 3, run: lazy_histories },
            Scenario { name: "loading", weight: 4, run: loading },
            Scenario { name: "exchange", weight: 2, run: exchanges },
            Scenario { name: "drops", weight: 2, run: drops },
            Scenario { name: "by_reference", weight: 1, run: by_reference },
        ],
    )
}

//! P25: incrementally saved trees reproduce every saved version.
//!
//! The pattern of examples/radix_db.rs: one growing archive, a map from the address of every written child list to its
//! position, and the lists kept alive (`all_arcs`) so that addresses are not reused. Oracle: the reference map at each
//! save; counts of lists written and restored.
use bytecheck::CheckBytes;
use rkyv::de::{deserializers::SharedDeserializeMapError, SharedDeserializeRegistry, SharedPointer};
use rkyv::ser::{serializers::*, Serializer, SharedSerializeRegistry};
use rkyv::{AlignedVec, Archived, Deserialize, Fallible, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::Arc;
use vcmon::radix::*;
use vcmon::*;

// ---- the registries of the example, which count
#[derive(Default, Clone)]
struct Written {
    map: HashMap<*const u8, usize>,
    new: Vec<*const u8>,
    reused: u64,
}
impl Fallible for Written {
    type Error = SharedSerializeMapError;
}
impl SharedSerializeRegistry for Written {
    fn get_shared_ptr(&mut self, v: *const u8) -> Option<usize> {
        let r = self.map.get(&v).copied();
        self.reused += r.is_some() as u64;
        r
    }
    fn add_shared_ptr(&mut self, v: *const u8, pos: usize) -> Result<(), Self::Error> {
        if self.map.insert(v, pos).is_some() {
            return Err(SharedSerializeMapError::DuplicateSharedPointer(v));
        }
        self.new.push(v);
        Ok(())
    }
}
#[derive(Default)]
struct Loaded {
    map: HashMap<*const u8, Box<dyn SharedPointer>>,
}
impl Fallible for Loaded {
    type Error = SharedDeserializeMapError;
}
impl SharedDeserializeRegistry for Loaded {
    fn get_shared_ptr(&mut self, p: *const u8) -> Option<&dyn SharedPointer> {
        self.map.get(&p).map(|x| x.as_ref())
    }
    fn add_shared_ptr(&mut self, p: *const u8, s: Box<dyn SharedPointer>) -> Result<(), Self::Error> {
        if self.map.insert(p, s).is_some() {
            return Err(SharedDeserializeMapError::DuplicateSharedPointer(p));
        }
        Ok(())
    }
}
impl Loaded {
    fn written(&self, base: &[u8]) -> Written {
        Written { map: self.map.iter().map(|(k, v)| (v.data_address() as *const u8, *k as usize - base.as_ptr() as usize)).collect(), ..Default::default() }
    }
}

/// where the bytes of a save go: fails after a number of bytes, if told to
struct Sink {
    out: AlignedVec,
    room: Option<usize>,
}
impl std::io::Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if let Some(r) = &mut self.room {
            if *r < b.len() {
                return Err(std::io::Error::new(std::io::ErrorKind::Other, "disk full"));
            }
            *r -= b.len();
        }
        self.out.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
type Inc = CompositeSerializer<WriteSerializer<Sink>, FallbackScratch<HeapScratch<256>, AllocScratch>, Written>;
type Pins<K, V> = BTreeMap<usize, Arc<Vec<ArcRadixTree<K, V>>>>;

trait Key: Sym + Serialize<Inc> + Deserialize<Self, Loaded> {}
impl<T: Sym + Serialize<Inc> + Deserialize<T, Loaded>> Key for T {}
trait Value: TValue<Archived = Self::Form> + Serialize<Inc> + PartialEq {
    type Form: Deserialize<Self, Loaded> + for<'a> CheckBytes<rkyv::validation::validators::DefaultValidator<'a>>;
    fn make(i: u32) -> Self;
    fn ident(&self) -> u32;
    /// bytes written besides the value itself
    fn extra(&self) -> usize;
}
impl Value for u32 {
    type Form = u32;
    fn make(i: u32) -> u32 {
        i
    }
    fn ident(&self) -> u32 {
        *self
    }
    fn extra(&self) -> usize {
        0
    }
}
impl Value for String {
    type Form = rkyv::string::ArchivedString;
    fn make(i: u32) -> String {
        // short ones are stored inline
        format!("{i}{}", "v".repeat(i as usize % 13))
    }
    fn ident(&self) -> u32 {
        let i = self.trim_end_matches('v').parse().unwrap_or(u32::MAX);
        if *self == String::make(i) {
            i
        } else {
            u32::MAX
        }
    }
    fn extra(&self) -> usize {
        self.len()
    }
}

type Tree<K, V> = ArcRadixTree<K, V>;
fn entries<K: Key, V: Value>(t: &Tree<K, V>) -> Vec<(Vec<K>, u32)> {
    let mut out = Vec::new();
    walk(t, &mut Vec::new(), &mut out);
    out
}
fn walk<K: Key, V: Value>(t: &Tree<K, V>, p: &mut Vec<K>, out: &mut Vec<(Vec<K>, u32)>) {
    let n = p.len();
    p.extend_from_slice(t.prefix());
    if let Some(v) = t.value() {
        out.push((p.clone(), v.ident()))
    }
    for x in t.children() {
        walk(x, p, out)
    }
    p.truncate(n)
}
/// child lists by the address of their elements, and the nodes in each
fn lists<'a, K: Key, V: Value>(t: &'a Tree<K, V>, out: &mut BTreeMap<usize, &'a [Tree<K, V>]>) {
    let x = t.children();
    if !x.is_empty() && out.insert(x.as_ptr() as usize, x).is_none() {
        for y in x {
            lists(y, out)
        }
    }
}
fn nodes<K: Key, V: Value>(t: &Tree<K, V>) -> usize {
    1 + t.children().iter().map(nodes).sum::<usize>()
}

/// `all_arcs` must hold exactly the child lists of the tree, under their addresses
fn check_pins<K: Key, V: Value>(c: &mut Case, t: &Tree<K, V>, step: &str) -> Pins<K, V> {
    let mut pins = BTreeMap::new();
    t.all_arcs(&mut pins);
    let mut want = BTreeMap::new();
    lists(t, &mut want);
    let got: BTreeSet<usize> = pins.values().filter(|x| !x.is_empty()).map(|x| x.as_ptr() as usize).collect();
    ensure!(c, got.iter().eq(want.keys()), "all_arcs does not hold the child lists of the tree", "{step}: {} lists of {}", got.len(), want.len());
    for (k, v) in &pins {
        ensure!(c, *k == Arc::as_ptr(v) as usize, "all_arcs has a list under another address", "{step}");
    }
    c.count("pins_checked", pins.len() as u64);
    pins
}

/// the state of one archive and of the writer that appends to it
struct Db<K: Key, V: Value> {
    file: AlignedVec,
    /// lists in the file
    ever: usize,
    map: Written,
    pins: Pins<K, V>,
    tree: Tree<K, V>,
    m: Model<K>,
    /// (length after the save, contents, distinct lists)
    saves: Vec<(usize, Vec<(Vec<K>, u32)>, usize)>,
}
impl<K: Key, V: Value> Db<K, V> {
    fn new() -> Self {
        Db { file: AlignedVec::new(), ever: 0, map: Written::default(), pins: BTreeMap::new(), tree: Tree::empty(), m: Model::new(), saves: vec![] }
    }
    /// appends the tree; what is checked: bytes and lists written, and that the tree stays as it is
    fn flush(&mut self, c: &mut Case, room: Option<usize>) -> bool {
        let mut map = self.map.clone();
        map.new.clear();
        let known: Vec<*const u8> = map.map.keys().copied().collect();
        let before = map.map.len();
        let pins = check_pins(c, &self.tree, "before a save");
        let fresh: Vec<&Arc<_>> = pins.iter().filter(|(k, _)| !map.map.contains_key(&(**k as *const u8))).map(|x| x.1).collect();
        let sink = Sink { out: AlignedVec::new(), room };
        let mut s: Inc = CompositeSerializer::new(WriteSerializer::with_pos(sink, self.file.len()), Default::default(), map);
        let res = s.serialize_value(&self.tree);
        let (w, _, map) = s.into_components();
        let out = w.into_inner().out;
        let pos = match res {
            Ok(p) => p,
            Err(e) => {
                ensure!(c, room.is_some(), "save failed", "{e}");
                // nothing has been appended, the map is the one before the attempt
                ensure!(c, entries(&self.tree) == listed(&self.m), "a failed save changed the tree");
                c.count("failed_saves", 1);
                return false;
            }
        };
        // exactly the lists that were not there yet are written, each once
        for p in &map.new {
            ensure!(c, !known.contains(p), "a list already in the archive was written again");
            ensure!(c, pins.contains_key(&(*p as usize)), "something else than a child list of the tree was shared");
        }
        ensure!(c, map.map.len() == before + map.new.len(), "lists forgotten");
        ensure_eq!(c, map.new.len(), fresh.len(), "number of child lists written");
        // root, then per list its head, nodes, prefixes and values, each padded at most to the alignment
        let node = std::mem::size_of::<Archived<Tree<K, V>>>();
        let pad = std::mem::align_of::<Archived<Tree<K, V>>>().max(16);
        let out_of_line = |t: &Tree<K, V>| t.prefix().len() * std::mem::size_of::<K>() + t.value().map(|v| v.extra()).unwrap_or(0) + 2 * pad;
        let most = node + pad + out_of_line(&self.tree) + fresh.iter().map(|l| 16 + 2 * pad + l.iter().map(|t| node + out_of_line(t)).sum::<usize>()).sum::<usize>();
        ensure!(c, out.len() <= most, "save wrote more than what is new", "{} bytes, {} lists account for at most {}", out.len(), fresh.len(), most);
        ensure_eq!(c, pos + node, self.file.len() + out.len(), "root is not at the end of the archive");
        c.count("lists_written", map.new.len() as u64);
        c.count("lists_reused", map.reused - self.map.reused);
        c.maxc("max_archive", self.file.len() as u64);
        if fresh.is_empty() {
            c.count("saves_without_new_lists", 1)
        }
        self.file.extend_from_slice(&out);
        self.pins.extend(pins.iter().map(|(k, v)| (*k, v.clone())));
        self.ever += map.new.len();
        self.map = map;
        ensure!(c, entries(&self.tree) == listed(&self.m), "a save changed the tree");
        self.saves.push((self.file.len(), listed(&self.m), pins.len()));
        c.count("saves", 1);
        true
    }
    /// new archive with only the current tree
    fn vacuum(&mut self, c: &mut Case) {
        let mut d = Db { tree: self.tree.clone(), m: self.m.clone(), ..Db::new() };
        d.flush(c, None);
        let slack = 64 * (d.map.map.len() + nodes(&d.tree));
        ensure!(c, d.file.len() <= self.file.len() + slack || self.saves.last().map(|x| x.1 != d.saves[0].1).unwrap_or(true), "compaction made the archive bigger", "{} from {}", d.file.len(), self.file.len());
        self.replace(d);
        c.count("compactions", 1);
    }
    fn replace(&mut self, d: Db<K, V>) {
        let Db { file, ever, map, pins, tree, m, saves } = d;
        *self = Db { file, ever, map, pins, tree, m, saves };
    }
    /// the archive cut after save i
    fn cut(&self, i: usize) -> AlignedVec {
        arch::exact(&self.file[..self.saves[i].0])
    }
    /// checks the contents of version i in every way
    fn read(&self, c: &mut Case, i: usize) -> (Tree<K, V>, Loaded, AlignedVec) {
        let b = self.cut(i);
        let want = &self.saves[i].1;
        let root: &Archived<Tree<K, V>> = unsafe { rkyv::archived_root::<Tree<K, V>>(&b) };
        let mut d = Loaded::default();
        let t: Tree<K, V> = match root.deserialize(&mut d) {
            Ok(t) => t,
            Err(e) => c.fail("a saved version cannot be loaded", format!("version {i}: {e}")),
        };
        let got = entries(&t);
        ensure!(c, got == *want, "a saved version has other contents", "version {i} of {}: {}", self.saves.len(), diff(&got, want));
        // sharing is back
        let pins = check_pins(c, &t, "loaded");
        ensure_eq!(c, pins.len(), self.saves[i].2, "sharing not restored: distinct child lists of version {i}");
        ensure_eq!(c, d.map.len(), pins.len(), "shared parts registered by the deserialiser");
        c.count("versions_read", 1);
        c.count("lists_restored", pins.len() as u64);
        (t, d, b)
    }
    /// a writer that goes on from version i as loaded from the archive
    fn reload(&self, c: &mut Case, i: usize) -> Db<K, V> {
        let (tree, d, b) = self.read(c, i);
        let map = d.written(&b);
        let mut pins = BTreeMap::new();
        tree.all_arcs(&mut pins);
        c.count("reloads", 1);
        let m = self.saves[i].1.iter().cloned().collect();
        Db { file: b, ever: self.ever, map, pins, tree, m, saves: self.saves[..=i].to_vec() }
    }
}

/// versions archived side by side: loading them with one registry restores what they share
fn together<K: Key, V: Value>(c: &mut Case, d: &Db<K, V>, n: usize) {
    let mut reg = Loaded::default();
    let b = d.cut(d.saves.len() - 1);
    let mut trees = vec![];
    for i in 0..n {
        let i = d.saves.len() - 1 - i;
        let pos = d.saves[i].0 - std::mem::size_of::<Archived<Tree<K, V>>>();
        let a: &Archived<Tree<K, V>> = unsafe { rkyv::archived_value::<Tree<K, V>>(&b, pos) };
        match a.deserialize(&mut reg) {
            Ok(t) => {
                let t: Tree<K, V> = t;
                let got = entries(&t);
                ensure!(c, got == d.saves[i].1, "a version loaded with others has other contents", "{}", diff(&got, &d.saves[i].1));
                trees.push(t)
            }
            Err(e) => c.fail("a saved version cannot be loaded", format!("{e}")),
        }
    }
    let mut pins = BTreeMap::new();
    for t in &trees {
        t.all_arcs(&mut pins)
    }
    ensure_eq!(c, pins.len(), reg.map.len(), "versions loaded together do not share what they share in the archive");
    // never more than what was ever written
    ensure!(c, pins.len() <= d.ever, "more child lists loaded than written", "{} of {}", pins.len(), d.ever);
    c.count("loaded_together", n as u64);
}

/// the tree once more under a prefix: the copies share their child lists
fn graft<K: Key, V: Value>(c: &mut Case, d: &mut Db<K, V>, keys: &Keys<K>) {
    let p = keys.probe(c);
    if p.is_empty() || p.len() > 12 || d.m.len() > 200 || d.m.keys().any(|k| k.len() > 60) {
        return;
    }
    let mut t = d.tree.clone();
    t.prepend(&p);
    if c.rng.bool() {
        d.tree.union_with(&t)
    } else {
        d.tree = d.tree.union(&t)
    }
    for (k, v) in d.m.clone() {
        let mut q = p.clone();
        q.extend(k);
        d.m.entry(q).or_insert(v);
    }
    c.count("grafts", 1);
}

/// what happens after the edits
fn manage<K: Key, V: Value>(c: &mut Case, d: &mut Db<K, V>) -> &'static str {
    match c.rng.below(12) {
        0..=5 => {
            if c.rng.chance(1, 4) {
                let r = if c.rng.bool() { c.rng.below(40) } else { c.rng.below(2000) };
                let n = d.file.len();
                if !d.flush(c, Some(r)) {
                    ensure_eq!(c, d.file.len(), n, "a failed save left something");
                    d.flush(c, None);
                }
            } else {
                d.flush(c, None);
            }
            "save"
        }
        6 => {
            d.flush(c, None);
            let (n, l) = (d.file.len(), d.map.map.len());
            d.flush(c, None);
            ensure_eq!(c, d.map.map.len(), l, "saving an unchanged tree wrote child lists");
            let root = std::mem::size_of::<Archived<Tree<K, V>>>() + std::mem::size_of_val(d.tree.prefix()) + d.tree.value().map(|v| v.extra()).unwrap_or(0) + 64;
            ensure!(c, d.file.len() - n <= root, "saving an unchanged tree wrote more than its root", "{} bytes", d.file.len() - n);
            c.count("unchanged_saves", 1);
            "save twice"
        }
        7 | 8 if !d.saves.is_empty() => {
            let i = if c.rng.chance(2, 3) { d.saves.len() - 1 } else { c.rng.below(d.saves.len()) };
            let r = d.reload(c, i);
            d.replace(r);
            "reload"
        }
        9 => {
            d.vacuum(c);
            "compact"
        }
        10 if d.saves.len() > 1 => {
            let n = c.rng.range(2, d.saves.len().min(5));
            together(c, d, n);
            "load together"
        }
        11 if !d.saves.is_empty() => {
            let i = c.rng.below(d.saves.len());
            d.read(c, i);
            "read"
        }
        _ => "nothing",
    }
}
fn finish<K: Key, V: Value>(c: &mut Case, d: &Db<K, V>) {
    let n = d.saves.len();
    // as if the process had died after each save
    for i in 0..n {
        if n > 12 && i + 6 < n && c.rng.bool() {
            continue;
        }
        d.read(c, i);
    }
    c.maxc("max_versions", n as u64);
    c.nontrivial = n > 1 && d.saves.iter().any(|x| x.1.len() > 1);
}

fn histories<K: Key>(c: &mut Case)
where
    u32: Value<Form = u32>,
{
    start();
    let n = tree_size(c);
    let keys = Keys::<K>::new(c, n);
    let mut d: Db<K, u32> = Db::new();
    if c.rng.chance(2, 3) {
        let mut next = 100;
        d.m = keys.model(c, &mut next);
        d.tree = build(c, &d.m);
    }
    let mut snapshots: Vec<(Tree<K, u32>, Model<K>)> = vec![];
    for _ in 0..c.steps(16) {
        let edits = *c.rng.pick(&[0usize, 1, 1, 1, 2, 3, 8]);
        for _ in 0..edits {
            let single = c.rng.bool();
            if single {
                edit(c, &mut d, &keys);
            } else if c.rng.chance(1, 10) {
                graft(c, &mut d, &keys);
            } else {
                let Db { tree, m, .. } = &mut d;
                let s = step(c, tree, m, &keys);
                c.note(s);
                c.log(|| format!("{s}: {} keys", m.len()));
            }
        }
        // other users of the tree
        match c.rng.below(8) {
            0 if snapshots.len() < 4 => snapshots.push((d.tree.clone(), d.m.clone())),
            1 if !snapshots.is_empty() => {
                let i = c.rng.below(snapshots.len());
                snapshots.swap_remove(i);
            }
            2 if !snapshots.is_empty() => {
                // an earlier version becomes the current one again
                let i = c.rng.below(snapshots.len());
                let (t, m) = snapshots[i].clone();
                d.tree = t;
                d.m = m;
            }
            3 if !snapshots.is_empty() => {
                let i = c.rng.below(snapshots.len());
                let (t, m) = &mut snapshots[i];
                step(c, t, m, &keys);
            }
            _ => {}
        }
        let s = manage(c, &mut d);
        c.note(&(s, d.saves.len(), d.m.len()));
        c.log(|| format!("{s}: {} versions, {} bytes, {} keys", d.saves.len(), d.file.len(), d.m.len()));
        archived_views(c, &d);
    }
    d.flush(c, None);
    finish(c, &d);
    for (t, m) in &snapshots {
        ensure!(c, entries(t) == listed(m), "a snapshot changed");
    }
}

/// one key inserted or removed: only lists on its way may be new
fn edit<K: Key, V: Value>(c: &mut Case, d: &mut Db<K, V>, keys: &Keys<K>) {
    let was = d.tree.clone();
    let was_lists: BTreeSet<usize> = {
        let mut m = BTreeMap::new();
        lists(&was, &mut m);
        m.keys().copied().collect()
    };
    let k = if c.rng.bool() && !d.m.is_empty() {
        let i = c.rng.below(d.m.len());
        d.m.keys().nth(i).unwrap().clone()
    } else {
        keys.key(c)
    };
    if c.rng.chance(2, 3) {
        let v = fresh();
        d.tree.insert(&k, V::make(v));
        d.m.insert(k.clone(), v);
    } else {
        let o: Tree<K, ()> = Tree::single(&k, ());
        d.tree.difference_with(&o);
        d.m.remove(&k);
    }
    let mut new = BTreeMap::new();
    lists(&d.tree, &mut new);
    let made = new.keys().filter(|x| !was_lists.contains(x)).count();
    // every node on the way has a part of the key; at most one node is added in the middle
    ensure!(c, made <= k.len() + 2, "an edit of one key made more child lists than the key is long", "{made} lists for {k:?}");
    c.count("edits", 1);
    c.note(&(k, made));
}

/// reading without deserialising
fn archived_views<K: Key>(c: &mut Case, d: &Db<K, u32>) {
    if d.saves.is_empty() || c.rng.chance(2, 3) {
        return;
    }
    let i = c.rng.below(d.saves.len());
    let b = d.cut(i);
    let root: &Archived<Tree<K, u32>> = unsafe { rkyv::archived_root::<Tree<K, u32>>(&b) };
    let got = contents(root);
    ensure!(c, got == d.saves[i].1, "a saved version read in place has other contents", "{}", diff(&got, &d.saves[i].1));
    let t: Tree<K, u32> = root.into();
    let got = contents(&t);
    ensure!(c, got == d.saves[i].1, "a saved version converted from the archive has other contents", "{}", diff(&got, &d.saves[i].1));
    for _ in 0..4 {
        let k = keys_of(c, &d.saves[i].1);
        ensure!(c, root.get(&k).copied() == d.saves[i].1.iter().find(|x| x.0 == k).map(|x| x.1), "lookup in a saved version", "{k:?}");
    }
    match rkyv::check_archived_root::<Tree<K, u32>>(&b) {
        Ok(r) => {
            ensure!(c, contents(r) == d.saves[i].1, "a validated version has other contents");
            c.count("validated", 1)
        }
        // rkyv wants shared parts next to what refers to them, which later versions cannot have
        Err(_) => c.count("validator_refused", 1),
    }
    c.count("read_in_place", 1);
}
fn keys_of<K: Key>(c: &mut Case, m: &[(Vec<K>, u32)]) -> Vec<K> {
    if m.is_empty() {
        return vec![];
    }
    let mut k = m[c.rng.below(m.len())].0.clone();
    if c.rng.chance(1, 4) {
        k.pop();
    }
    k
}

/// values that write something of their own
fn texts<K: Key>(c: &mut Case)
where
    String: Value,
{
    start();
    let n = tree_size(c).min(200);
    let keys = Keys::<K>::new(c, n);
    let mut d: Db<K, String> = Db::new();
    for _ in 0..c.steps(12) {
        for _ in 0..c.rng.below(8) {
            if c.rng.chance(1, 15) {
                graft(c, &mut d, &keys)
            } else {
                edit(c, &mut d, &keys)
            }
        }
        let s = manage(c, &mut d);
        c.note(&(s, d.m.len()));
        c.log(|| format!("{s}: {} versions, {} bytes, {} keys", d.saves.len(), d.file.len(), d.m.len()));
    }
    d.flush(c, None);
    finish(c, &d);
}

/// several trees that share parts in one archive, saved in turn
fn siblings<K: Key>(c: &mut Case) {
    start();
    let n = tree_size(c).min(300);
    let keys = Keys::<K>::new(c, n);
    let mut d: Db<K, u32> = Db::new();
    let mut next = 100;
    d.m = keys.model(c, &mut next);
    d.tree = build(c, &d.m);
    let mut others: Vec<(Tree<K, u32>, Model<K>)> = vec![(d.tree.clone(), d.m.clone())];
    for _ in 0..c.steps(20) {
        let i = c.rng.below(others.len());
        match c.rng.below(5) {
            0 if others.len() < 5 => others.push(others[i].clone()),
            0 | 1 => {
                let (t, m) = &mut others[i];
                let s = step(c, t, m, &keys);
                c.note(s);
            }
            2 => {
                // swapped in, edited, out again
                std::mem::swap(&mut d.tree, &mut others[i].0);
                std::mem::swap(&mut d.m, &mut others[i].1);
                edit(c, &mut d, &keys);
            }
            _ => {
                std::mem::swap(&mut d.tree, &mut others[i].0);
                std::mem::swap(&mut d.m, &mut others[i].1);
                d.flush(c, None);
            }
        }
        c.log(|| format!("{} trees, {} saves", others.len() + 1, d.saves.len()));
    }
    d.flush(c, None);
    finish(c, &d);
    let n = d.saves.len().min(6);
    together(c, &d, n);
    for (t, m) in &others {
        ensure!(c, entries(t) == listed(m), "another tree changed");
    }
}

type Lz<K> = LazyRadixTree<'static, K, u32>;
/// contents of an archived lazy tree, read in place and through a tree opened over it
fn read_lazily<K: Key>(c: &mut Case, b: &[u8], want: &[(Vec<K>, u32)]) -> Lz<K> {
    let a: &'static Archived<Lz<K>> = arch::root::<Lz<K>>(hold(arch::exact(b)));
    let got = contents(a);
    ensure!(c, got == want, "a saved version of a lazy tree has other contents", "{}", diff(&got, &want.to_vec()));
    let t: Lz<K> = a.into();
    for _ in 0..3 {
        let k = keys_of(c, want);
        ensure!(c, t.get(&k).copied() == want.iter().find(|x| x.0 == k).map(|x| x.1), "lookup in a saved version of a lazy tree", "{k:?}");
    }
    if c.rng.bool() {
        let got = contents(&t);
        ensure!(c, got == want, "a lazily opened version has other contents", "{}", diff(&got, &want.to_vec()));
    }
    c.count("lazy_versions_read", 1);
    t
}
/// trees opened lazily over a version, edited and saved on behind it
fn lazily<K: Key>(c: &mut Case) {
    start();
    let n = tree_size(c).min(300);
    let keys = Keys::<K>::new(c, n);
    let mut next = 100;
    let mut m = keys.model(c, &mut next);
    let mut tree: Lz<K> = Lz::from(build_flat::<K, u32>(c, &m));
    let mut file = AlignedVec::new();
    let mut map = Written::default();
    let mut pins: BTreeMap<usize, Arc<Vec<Lz<K>>>> = BTreeMap::new();
    let mut saves: Vec<(usize, Vec<(Vec<K>, u32)>)> = vec![];
    let mut snaps: Vec<(Lz<K>, Model<K>)> = vec![];
    for _ in 0..c.steps(18) {
        match c.rng.below(12) {
            0..=3 => {
                let s = step(c, &mut tree, &mut m, &keys);
                c.note(s);
                c.log(|| format!("{s}: {} keys", m.len()));
            }
            4 => {
                let k = keys.probe(c);
                ensure_eq!(c, tree.get(&k).copied(), m.get(&k).copied(), "wrong lookup", "{k:?}");
            }
            5 if snaps.len() < 4 => snaps.push((tree.clone(), m.clone())),
            6 if !snaps.is_empty() => {
                let i = c.rng.below(snaps.len());
                if c.rng.bool() {
                    (tree, m) = snaps[i].clone();
                } else {
                    let (t, m) = &mut snaps[i];
                    step(c, t, m, &keys);
                }
            }
            7 if !snaps.is_empty() => {
                let i = c.rng.below(snaps.len());
                snaps.swap_remove(i);
            }
            8 | 9 if !saves.is_empty() => {
                // goes on from some version: nothing of it is known to the new writer
                let i = if c.rng.bool() { saves.len() - 1 } else { c.rng.below(saves.len()) };
                saves.truncate(i + 1);
                file = arch::exact(&file[..saves[i].0]);
                tree = read_lazily(c, &file, &saves[i].1);
                m = saves[i].1.iter().cloned().collect();
                map = Written::default();
                pins.clear();
                c.note(&i);
                c.log(|| format!("opened version {i} lazily"));
                c.count("lazy_reopened", 1);
            }
            _ => {
                map.new.clear();
                let before = map.map.len();
                let known: BTreeSet<usize> = map.map.keys().map(|x| *x as usize).collect();
                let sink = Sink { out: AlignedVec::new(), room: None };
                let mut s: Inc = CompositeSerializer::new(WriteSerializer::with_pos(sink, file.len()), Default::default(), std::mem::take(&mut map));
                if let Err(e) = s.serialize_value(&tree) {
                    c.fail("save failed", format!("{e}"))
                }
                let (w, _, x) = s.into_components();
                map = x;
                file.extend_from_slice(&w.into_inner().out);
                let mut now = BTreeMap::new();
                tree.all_arcs(&mut now);
                let fresh = now.keys().filter(|k| !known.contains(k)).count();
                ensure!(c, map.new.iter().all(|p| now.contains_key(&(*p as usize))), "something else than a child list of the tree was shared", "{} lists", map.new.len());
                ensure_eq!(c, map.new.len(), fresh, "number of child lists written");
                ensure_eq!(c, map.map.len(), before + fresh, "lists forgotten");
                ensure!(c, contents(&tree) == listed(&m), "a save changed the tree");
                pins.extend(now);
                saves.push((file.len(), listed(&m)));
                c.count("lazy_saves", 1);
                c.note(&(saves.len(), fresh));
                c.log(|| format!("save {}: {fresh} lists, {} bytes", saves.len(), file.len()));
            }
        }
    }
    for (n, want) in &saves {
        read_lazily(c, &file[..*n], want);
    }
    for (t, m) in &snaps {
        ensure!(c, contents(t) == listed(m), "a snapshot changed");
    }
    c.nontrivial = saves.len() > 1 && saves.iter().any(|x| x.1.len() > 1);
}

macro_rules! with_key {
    ($c:expr, $f:ident) => {
        match $c.rng.below(10) {
            0 => $f::<u16>($c),
            1 => $f::<char>($c),
            2 => $f::<()>($c),
            3 => $f::<bool>($c),
            4 => $f::<u128>($c),
            _ => $f::<u8>($c),
        }
    };
}
fn r1(c: &mut Case) {
    with_key!(c, histories)
}
fn r2(c: &mut Case) {
    with_key!(c, texts)
}
fn r3(c: &mut Case) {
    with_key!(c, siblings)
}
fn r4(c: &mut Case) {
    with_key!(c, lazily)
}
fn main() {
    vcmon::main("P25", &[Scenario { name: "histories", weight: 4, run: r1 }, Scenario { name: "texts", weight: 2, run: r2 }, Scenario { name: "siblings", weight: 2, run: r3 }, Scenario { name: "lazily", weight: 2, run: r4 }])
}

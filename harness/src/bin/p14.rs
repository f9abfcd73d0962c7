//! P14: decoding hostile input. Oracle: the decoder returns (the runner turns panics, aborts and endless
//! loops into violations), and the counting allocator's peak stays within a bound proportional to the input.
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use vcmon::*;
use vec_collections::{total_vec_map::TotalVecMap, total_vec_set::TotalVecSet, AbstractVecMap, VecMap, VecSet};

/// Peak heap bytes a decode may use: a constant (formats and collections may reserve a few thousand
/// elements, per nesting level) plus a multiple of the input.
const BASE: i64 = 2 << 20;
fn bound(len: usize) -> i64 {
    BASE + 400 * len as i64
}

#[derive(Serialize, Deserialize)]
struct Nest {
    a: VecSet<[u32; 4]>,
    b: VecMap<[(u16, VecSet<[u8; 2]>); 1]>,
    c: VecSet<[VecSet<[(u8, String); 1]>; 1]>,
}

fn decode<T: DeserializeOwned>(c: &mut Case, fmt: usize, input: &[u8]) -> Option<T> {
    // exact size, on the heap
    let input: Box<[u8]> = input.into();
    let (r, peak, req) = alloc::peak(|| -> Option<T> {
        match fmt {
            0 => serde_json::from_slice(&input).ok(),
            1 => bincode::deserialize(&input).ok(),
            2 => serde_cbor::from_slice(&input).ok(),
            _ => {
                use bincode::Options;
                bincode::DefaultOptions::new().deserialize(&input).ok()
            }
        }
    });
    c.count("decoded", 1);
    c.count(if r.is_some() { "accepted" } else { "rejected" }, 1);
    c.maxc("max_peak_bytes", peak as u64);
    ensure!(
        c,
        peak <= bound(input.len()) && req as i64 <= bound(input.len()),
        "memory out of proportion to the input",
        "decoding {} bytes as {} (format {fmt}) took {peak} bytes at once, biggest request {req}: {:02x?}",
        input.len(),
        std::any::type_name::<T>(),
        &input[..input.len().min(64)]
    );
    r
}

fn set_ok<T: Ord, A: smallvec::Array<Item = T>>(c: &Case, s: &VecSet<A>) {
    ensure!(c, s.as_ref().windows(2).all(|w| w[0] < w[1]), "decoded set not sorted");
}
fn map_ok<K: Ord, V, A: smallvec::Array<Item = (K, V)>>(c: &Case, s: &VecMap<A>) {
    ensure!(c, s.as_slice().windows(2).all(|w| w[0].0 < w[1].0), "decoded map not sorted");
}

/// decodes bytes as every type
fn all(c: &mut Case, fmt: usize, b: &[u8], which: usize) {
    match which {
        0 => {
            if let Some(s) = decode::<VecSet<[u32; 4]>>(c, fmt, b) {
                set_ok(c, &s)
            }
        }
        1 => {
            if let Some(s) = decode::<VecSet<[String; 1]>>(c, fmt, b) {
                set_ok(c, &s)
            }
        }
        2 => {
            if let Some(s) = decode::<VecSet<[u8; 0]>>(c, fmt, b) {
                set_ok(c, &s)
            }
        }
        3 => {
            if let Some(s) = decode::<VecMap<[(u32, String); 2]>>(c, fmt, b) {
                map_ok(c, &s)
            }
        }
        4 => {
            if let Some(s) = decode::<VecMap<[(String, [u64; 4]); 0]>>(c, fmt, b) {
                map_ok(c, &s)
            }
        }
        5 => {
            decode::<TotalVecSet<[u64; 2]>>(c, fmt, b);
        }
        6 => {
            if let Some(m) = decode::<TotalVecMap<i32, [(String, i32); 1]>>(c, fmt, b) {
                map_ok(c, m.non_default_mappings())
            }
        }
        7 => {
            if let Some(n) = decode::<Nest>(c, fmt, b) {
                set_ok(c, &n.a);
                map_ok(c, &n.b);
                set_ok(c, &n.c);
            }
        }
        _ => {
            if let Some(s) = decode::<VecSet<[VecSet<[VecSet<[u32; 1]>; 1]>; 1]>>(c, fmt, b) {
                set_ok(c, &s)
            }
        }
    }
}
const KINDS: usize = 9;

/// a valid encoding of a random value of the given kind
fn valid(c: &mut Case, fmt: usize, which: usize) -> Vec<u8> {
    fn enc<T: Serialize>(fmt: usize, x: &T) -> Vec<u8> {
        match fmt {
            0 => serde_json::to_vec(x).unwrap(),
            1 => bincode::serialize(x).unwrap(),
            2 => serde_cbor::to_vec(x).unwrap(),
            _ => {
                use bincode::Options;
                bincode::DefaultOptions::new().serialize(x).unwrap()
            }
        }
    }
    let n = c.size(60);
    let s = gen::sequence(c, n);
    use gen::Elem;
    match which {
        0 => enc(fmt, &s),
        1 => enc(fmt, &s.iter().map(|k| String::mk(*k)).collect::<Vec<_>>()),
        2 => enc(fmt, &s.iter().map(|k| *k as u8).collect::<Vec<_>>()),
        3 => enc(fmt, &s.iter().map(|k| (*k, String::mk(*k))).collect::<BTreeMap<_, _>>()),
        4 => enc(fmt, &s.iter().map(|k| (String::mk(*k), [*k as u64; 4])).collect::<BTreeMap<_, _>>()),
        5 => enc(fmt, &(s.iter().map(|k| *k as u64).collect::<Vec<_>>(), c.rng.bool())),
        6 => enc(fmt, &(s.iter().map(|k| (String::mk(*k), *k as i32 % 5)).collect::<BTreeMap<_, _>>(), c.rng.below(5) as i32)),
        7 => enc(
            fmt,
            &Nest {
                a: s.iter().copied().collect(),
                b: s.iter().map(|k| (*k as u16, [*k as u8, 1].iter().copied().collect())).collect(),
                c: s.iter().map(|k| [(*k as u8, String::mk(*k))].iter().cloned().collect()).collect(),
            },
        ),
        _ => enc(fmt, &s.chunks(3).map(|x| x.chunks(2).map(|y| y.to_vec()).collect::<Vec<_>>()).collect::<Vec<_>>()),
    }
}

fn garbage(c: &mut Case) {
    let n = c.size(200);
    let b: Vec<u8> = match c.rng.below(3) {
        0 => (0..n).map(|_| c.rng.below(256) as u8).collect(),
        1 => (0..n).map(|_| *c.rng.pick(&[0u8, 1, 2, 0x80, 0x9b, 0xbb, 0xff, 0x7f, b'[', b']', b'{', b'}', b',', b':', b'"', b'0', b'9'])).collect(),
        _ => vec![*c.rng.pick(&[0u8, 0xff, 0x9f, 0xbf, b'[', 0x81]); n],
    };
    let (fmt, k) = (c.rng.below(4), c.rng.below(KINDS));
    c.note(&(&b, fmt as u8, k as u8));
    c.nontrivial = n > 1;
    c.log(|| format!("format {fmt} kind {k} input {b:02x?}"));
    all(c, fmt, &b, k);
}

/// a valid encoding, damaged
fn damaged(c: &mut Case) {
    let fmt = c.rng.below(4);
    let k = c.rng.below(KINDS);
    let mut b = valid(c, fmt, k);
    if c.rng.chance(19, 20) {
        for _ in 0..1 + c.rng.below(4) {
            if b.is_empty() {
                break;
            }
            let i = c.rng.below(b.len());
            match c.rng.below(7) {
                0 => b[i] ^= 1 << c.rng.below(8),
                1 => b[i] = c.rng.below(256) as u8,
                2 => b.truncate(i),
                3 => {
                    let j = c.rng.below(b.len());
                    b.swap(i, j)
                }
                4 => b.insert(i, c.rng.below(256) as u8),
                5 => {
                    for j in i..(i + 8).min(b.len()) {
                        b[j] = 0xff
                    }
                }
                _ => {
                    let j = c.rng.range(i, b.len());
                    let x: Vec<u8> = b[i..j].to_vec();
                    b.splice(i..i, x);
                }
            }
        }
    } else {
        c.count("undamaged", 1);
    }
    c.note(&(&b, fmt as u8, k as u8));
    c.nontrivial = b.len() > 2;
    c.log(|| format!("format {fmt} kind {k} input {b:02x?}"));
    // sometimes as another type
    let k = if c.rng.chance(1, 6) { c.rng.below(KINDS) } else { k };
    all(c, fmt, &b, k);
}

/// containers announcing lengths they do not have
fn announced(c: &mut Case) {
    let k = c.rng.below(KINDS);
    let fmt = 1 + c.rng.below(3);
    let n: u64 = match c.rng.below(8) {
        0 => u64::MAX,
        1 => u64::MAX / 2 + c.rng.below(3) as u64,
        2 => 1 << 60,
        3 => 1 << 40,
        4 => 1 << 32,
        5 => 1 << 24,
        6 => 3_000_000,
        _ => 1 << c.rng.below(64),
    };
    let nested = c.rng.below(3);
    let mut b = vec![];
    let mut put = |b: &mut Vec<u8>, n: u64, map: bool| match fmt {
        1 => b.extend(n.to_le_bytes()),
        2 => {
            b.push(if map { 0xbb } else { 0x9b });
            b.extend(n.to_be_bytes())
        }
        _ => {
            if n < 251 {
                b.push(n as u8)
            } else {
                b.push(253);
                b.extend(n.to_le_bytes())
            }
        }
    };
    let map = matches!(k, 3 | 4) || (k == 6);
    if (k == 5 || k == 6) && fmt == 2 {
        b.push(0x82)
    }
    if k == 7 && fmt == 2 {
        // a struct: map with one entry
        b.extend([0xa1, 0x61, b'c']);
    }
    if k >= 7 {
        for _ in 0..nested {
            put(&mut b, 1 + c.rng.below(3) as u64, false)
        }
    }
    put(&mut b, n, map);
    // some real content
    for _ in 0..c.size(100) {
        b.push(if c.rng.bool() { 0 } else { c.rng.below(24) as u8 })
    }
    c.note(&(&b, k as u8, fmt as u8));
    c.nontrivial = true;
    c.count("announced_lengths", 1);
    c.log(|| format!("format {fmt} kind {k} announced {n} input {b:02x?}"));
    all(c, fmt, &b, k);
}

/// a format that reports any size hint it likes while the content is small
fn hinted(c: &mut Case) {
    use serde::de::value::{Error as VE, MapDeserializer, SeqDeserializer};
    let n = c.size(50);
    let s = gen::sequence(c, n);
    let h = *c.rng.pick(&[usize::MAX, isize::MAX as usize, 1 << 60, 1 << 40, 1 << 32, 5_000_000, 100_000, 0]);
    c.note(&(&s, h));
    c.nontrivial = h > 0;
    c.log(|| format!("hint {h} content {s:?}"));
    let map = c.rng.bool();
    struct S<D>(D, bool);
    impl<'de, D: serde::de::SeqAccess<'de, Error = VE> + serde::de::MapAccess<'de, Error = VE>> serde::Deserializer<'de> for S<D> {
        type Error = VE;
        fn deserialize_any<V: serde::de::Visitor<'de>>(self, v: V) -> Result<V::Value, VE> {
            if self.1 { v.visit_map(self.0) } else { v.visit_seq(self.0) }
        }
        serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
    }
    struct Q<D>(D);
    impl<'de, D: serde::de::SeqAccess<'de, Error = VE>> serde::Deserializer<'de> for Q<D> {
        type Error = VE;
        fn deserialize_any<V: serde::de::Visitor<'de>>(self, v: V) -> Result<V::Value, VE> {
            v.visit_seq(self.0)
        }
        serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
    }
    let (len, peak, req) = alloc::peak(|| {
        if map {
            let d: MapDeserializer<_, VE> = MapDeserializer::new(gen::Hinted { i: s.iter().map(|x| (*x, *x as u64)), hint: (h, Some(h)) });
            VecMap::<[(u32, u64); 2]>::deserialize(S(d, true)).map(|m| m.len())
        } else {
            let d: SeqDeserializer<_, VE> = SeqDeserializer::new(gen::Hinted { i: s.iter().copied(), hint: (h, Some(h)) });
            VecSet::<[u32; 2]>::deserialize(Q(d)).map(|m| m.len())
        }
    });
    let distinct = s.iter().collect::<std::collections::BTreeSet<_>>().len();
    ensure!(c, len.as_ref().ok() == Some(&distinct), "well-formed input not readable", "size hint {h}: {len:?}, expected {distinct}");
    ensure!(c, peak <= bound(n * 4) && req as i64 <= bound(n * 4), "memory out of proportion to the input", "size hint {h} for {n} elements (map: {map}) took {peak} bytes, biggest request {req}");
    c.maxc("max_peak_bytes", peak as u64);
    c.count("decoded", 1);
    c.count("misleading_hints", 1);
}

fn main() {
    // a request this big is a violation by itself; let it fail instead of thrashing the machine
    alloc::set_limit(1 << 30);
    vcmon::main(
        "P14",
        &[
            Scenario { name: "garbage", weight: 2, run: garbage },
            Scenario { name: "damaged", weight: 4, run: damaged },
            Scenario { name: "announced", weight: 3, run: announced },
            Scenario { name: "hinted", weight: 1, run: hinted },
        ],
    )
}

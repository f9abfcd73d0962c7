//! P13: serde round trips, and decoding normalises what it reads. Oracle: BTreeSet / BTreeMap of the input.
use serde::de::value::{Error as VE, MapDeserializer, SeqDeserializer};
use serde::de::{DeserializeOwned, IntoDeserializer};
use serde::{Deserialize, Serialize};
use smallvec::Array;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Debug;
use vcmon::gen::{Elem, Hinted};
use vcmon::tok::Tok;
use vcmon::*;
use vec_collections::{total_vec_map::TotalVecMap, total_vec_set::TotalVecSet, AbstractVecMap, VecMap, VecSet};

const FMT: [&str; 5] = ["json text", "json value", "bincode", "cbor", "cbor without lengths"];

/// cbor with indefinite lengths
fn cbor_indefinite<T: Serialize>(x: &T) -> Vec<u8> {
    struct Unsized<'a, T: ?Sized>(&'a T);
    impl<T: Serialize + ?Sized> Serialize for Unsized<'_, T> {
        fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
            // re-serialise through a json value, dropping the lengths
            let v = serde_json::to_value(self.0).map_err(serde::ser::Error::custom)?;
            emit(&v, s)
        }
    }
    fn emit<S: serde::Serializer>(v: &serde_json::Value, s: S) -> Result<S::Ok, S::Error> {
        use serde::ser::{SerializeMap, SerializeSeq};
        struct V<'a>(&'a serde_json::Value);
        impl Serialize for V<'_> {
            fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                emit(self.0, s)
            }
        }
        match v {
            serde_json::Value::Array(a) => {
                let mut q = s.serialize_seq(None)?;
                for x in a {
                    q.serialize_element(&V(x))?
                }
                q.end()
            }
            serde_json::Value::Object(o) => {
                let mut q = s.serialize_map(None)?;
                for (k, x) in o {
                    q.serialize_entry(k, &V(x))?
                }
                q.end()
            }
            x => x.serialize(s),
        }
    }
    serde_cbor::to_vec(&Unsized(x)).unwrap()
}

/// writes x in a format and reads it as R
fn through<X: Serialize, R: DeserializeOwned>(x: &X, fmt: usize) -> Result<R, String> {
    match fmt {
        0 => serde_json::from_str(&serde_json::to_string(x).map_err(|e| format!("writing: {e}"))?).map_err(|e| e.to_string()),
        1 => serde_json::from_value(serde_json::to_value(x).map_err(|e| format!("writing: {e}"))?).map_err(|e| e.to_string()),
        2 => bincode::deserialize(&bincode::serialize(x).map_err(|e| format!("writing: {e}"))?).map_err(|e| e.to_string()),
        3 => serde_cbor::from_slice(&serde_cbor::to_vec(x).map_err(|e| format!("writing: {e}"))?).map_err(|e| e.to_string()),
        _ => serde_cbor::from_slice(&cbor_indefinite(x)).map_err(|e| e.to_string()),
    }
}
fn round<X: Serialize + Debug, R: DeserializeOwned>(c: &mut Case, x: &X, fmt: usize) -> R {
    c.count("decoded", 1);
    match through(x, fmt) {
        Ok(r) => r,
        Err(e) => c.fail("well-formed input not readable", format!("{} of {x:?}: {e}", FMT[fmt])),
    }
}

fn check_set<A: Array>(c: &mut Case, s: &VecSet<A>, want: &BTreeSet<A::Item>, how: &str)
where
    A::Item: Elem,
{
    let sl: &[A::Item] = s.as_ref();
    ensure!(c, sl.windows(2).all(|w| w[0] < w[1]), "decoded set not strictly ascending", "{how}: {sl:?}");
    ensure!(c, sl.iter().eq(want.iter()), "decoded set has other elements", "{how}: {sl:?}, expected {want:?}");
    let direct: VecSet<A> = want.iter().cloned().collect();
    ensure!(c, *s == direct, "decoded set differs from the one built directly", "{how}: {sl:?}");
    ensure!(c, case::hash_of(s) == case::hash_of(&direct), "decoded set differs from the one built directly", "{how} (hash)");
}

fn sets<A: Array, B: Array<Item = A::Item>>(c: &mut Case)
where
    A::Item: Elem + Serialize + DeserializeOwned + IntoDeserializer2,
{
    let n = c.size(300);
    let seq = gen::sequence(c, n);
    c.note(&seq);
    let json_key_ok = true;
    let input: Vec<A::Item> = seq.iter().map(|k| A::Item::mk(*k)).collect();
    let want: BTreeSet<A::Item> = input.iter().cloned().collect();
    c.nontrivial = want.len() >= 2 && input.len() > want.len();
    c.log(|| format!("input {input:?}"));
    let s: VecSet<A> = input.iter().cloned().collect();
    for fmt in 0..4 + json_key_ok as usize {
        // round trip, to the same and to another capacity
        let r: VecSet<A> = round(c, &s, fmt);
        check_set(c, &r, &want, FMT[fmt]);
        let r: VecSet<B> = round(c, &s, fmt);
        check_set(c, &r, &want, FMT[fmt]);
        // unsorted input with duplicates
        let r: VecSet<A> = round(c, &input, fmt);
        check_set(c, &r, &want, &format!("decoding a plain sequence, {}", FMT[fmt]));
        // what was written can be read as a plain sequence
        let r: Vec<A::Item> = round(c, &s, fmt);
        ensure!(c, r.iter().eq(want.iter()), "set not written as its sorted elements", "{}", FMT[fmt]);
        let t: TotalVecSet<A> = if c.rng.bool() { s.clone().into() } else { !TotalVecSet::from(s.clone()) };
        let r: TotalVecSet<A> = round(c, &t, fmt);
        ensure!(c, r == t, "total set does not round trip", "{}: {r:?} instead of {t:?}", FMT[fmt]);
    }
    // any size hint a format may report
    for _ in 0..4 {
        let h = gen::hint(c, n);
        let h = if c.rng.chance(1, 3) {
            let k = c.rng.below(3 * n + 3);
            (k, Some(k))
        } else {
            h
        };
        let it = Hinted { i: input.iter().map(|x| x.deser()), hint: h };
        let d: SeqDeserializer<_, VE> = SeqDeserializer::new(it);
        let r = VecSet::<A>::deserialize(NoEnd(d));
        c.count("decoded", 1);
        match r {
            Ok(r) => check_set(c, &r, &want, &format!("size hint {h:?}")),
            Err(e) => c.fail("well-formed input not readable", format!("size hint {h:?}: {e}")),
        }
    }
}
/// SeqDeserializer checks its own hint at the end; formats do not
struct NoEnd<D>(D);
impl<'de, I, T> serde::Deserializer<'de> for NoEnd<SeqDeserializer<I, VE>>
where
    I: Iterator<Item = T>,
    T: IntoDeserializer<'de, VE>,
{
    type Error = VE;
    fn deserialize_any<V: serde::de::Visitor<'de>>(self, v: V) -> Result<V::Value, VE> {
        v.visit_seq(self.0)
    }
    serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}
/// turn an element into a deserializer (by json value: enough for our types)
trait IntoDeserializer2 {
    fn deser(&self) -> J;
}
struct J(serde_json::Value);
impl<'de> IntoDeserializer<'de, VE> for J {
    type Deserializer = JD;
    fn into_deserializer(self) -> JD {
        JD(self.0)
    }
}
struct JD(serde_json::Value);
impl<'de> serde::Deserializer<'de> for JD {
    type Error = VE;
    fn deserialize_any<V: serde::de::Visitor<'de>>(self, v: V) -> Result<V::Value, VE> {
        self.0.deserialize_any(v).map_err(serde::de::Error::custom)
    }
    fn deserialize_option<V: serde::de::Visitor<'de>>(self, v: V) -> Result<V::Value, VE> {
        self.0.deserialize_option(v).map_err(serde::de::Error::custom)
    }
    serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}
impl<T: Serialize> IntoDeserializer2 for T {
    fn deser(&self) -> J {
        J(serde_json::to_value(self).unwrap())
    }
}

fn check_map<K: Elem, V: PartialEq + Debug, A: Array<Item = (K, V)>>(c: &mut Case, m: &VecMap<A>, allowed: &BTreeMap<K, Vec<V>>, how: &str) {
    let s = m.as_slice();
    ensure!(c, s.windows(2).all(|w| w[0].0 < w[1].0), "decoded map not strictly ascending", "{how}: {s:?}");
    ensure!(c, s.iter().map(|x| &x.0).eq(allowed.keys()), "decoded map has other keys", "{how}: {s:?}, expected {:?}", allowed.keys());
    for (k, v) in s {
        ensure!(c, allowed[k].contains(v), "decoded map has a value not in the input", "{how}: {k:?} -> {v:?}");
        ensure!(c, m.get(k) == Some(v), "decoded map inconsistent", "{how}: {k:?}");
    }
}

struct Entries<'a, K, V>(&'a [(K, V)]);
impl<K: Serialize, V: Serialize> Serialize for Entries<'_, K, V> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.collect_map(self.0.iter().map(|(k, v)| (k, v)))
    }
}
impl<K: Debug, V: Debug> Debug for Entries<'_, K, V> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.0.fmt(f)
    }
}

fn maps<K, A: Array<Item = (K, u32)>, B: Array<Item = (K, u32)>>(c: &mut Case, text: bool)
where
    K: Elem + Serialize + DeserializeOwned,
{
    let n = c.size(300);
    let seq = gen::sequence(c, n);
    c.note(&seq);
    let input: Vec<(K, u32)> = seq.iter().enumerate().map(|(i, k)| (K::mk(*k), i as u32)).collect();
    let mut allowed: BTreeMap<K, Vec<u32>> = BTreeMap::new();
    for (k, v) in &input {
        allowed.entry(k.clone()).or_default().push(*v)
    }
    let last: BTreeMap<K, Vec<u32>> = allowed.iter().map(|(k, v)| (k.clone(), vec![*v.last().unwrap()])).collect();
    c.nontrivial = allowed.len() >= 2 && input.len() > allowed.len();
    c.log(|| format!("input {input:?}"));
    let m: VecMap<A> = input.iter().cloned().collect();
    for fmt in 0..5 {
        if !text && matches!(fmt, 0 | 1 | 4) {
            continue;
        }
        // cbor without lengths goes through a json object, whose keys are strings
        if fmt == 4 && std::any::TypeId::of::<K>() != std::any::TypeId::of::<String>() {
            continue;
        }
        let r: VecMap<A> = round(c, &m, fmt);
        check_map(c, &r, &last, FMT[fmt]);
        ensure!(c, r == m, "map does not round trip", "{}: {:?} instead of {:?}", FMT[fmt], r.as_slice(), m.as_slice());
        let r: VecMap<B> = round(c, &m, fmt);
        check_map(c, &r, &last, FMT[fmt]);
        let d = *c.rng.pick(&[0u32, 1, 5]);
        let t: TotalVecMap<u32, A> = TotalVecMap::new(m.clone(), d);
        let r: TotalVecMap<u32, A> = round(c, &t, fmt);
        ensure!(c, r == t, "total map does not round trip", "{}: {r:?} instead of {t:?}", FMT[fmt]);
        ensure!(c, r.non_default_mappings().as_slice() == t.non_default_mappings().as_slice(), "total map does not round trip", "{}", FMT[fmt]);
        // a json object or cbor-from-json has no duplicate keys left
        if fmt == 1 || fmt == 4 {
            let r: VecMap<A> = round(c, &Entries(&input), fmt);
            check_map(c, &r, &allowed, FMT[fmt]);
        } else {
            let r: VecMap<A> = round(c, &Entries(&input), fmt);
            check_map(c, &r, &allowed, &format!("decoding plain entries, {}", FMT[fmt]));
        }
    }
    for _ in 0..4 {
        let k = c.rng.below(3 * n + 3);
        let h = *c.rng.pick(&[(0, None), (n, Some(n)), (k, Some(k)), (0, Some(n))]);
        let it = Hinted { i: input.iter().map(|(k, v)| (k.deser(), *v)), hint: h };
        let d: MapDeserializer<_, VE> = MapDeserializer::new(it);
        c.count("decoded", 1);
        struct NoEndM<D>(D);
        impl<'de, D: serde::de::MapAccess<'de, Error = VE>> serde::Deserializer<'de> for NoEndM<D> {
            type Error = VE;
            fn deserialize_any<V: serde::de::Visitor<'de>>(self, v: V) -> Result<V::Value, VE> {
                v.visit_map(self.0)
            }
            serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
        }
        match VecMap::<A>::deserialize(NoEndM(d)) {
            Ok(r) => check_map(c, &r, &allowed, &format!("size hint {h:?}")),
            Err(e) => c.fail("well-formed input not readable", format!("size hint {h:?}: {e}")),
        }
    }
}

/// collections inside collections, and as fields
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
struct Rec {
    a: VecSet<[u32; 4]>,
    b: VecMap<[(String, VecSet<[String; 1]>); 2]>,
    c: Option<VecSet<[VecSet<[u8; 2]>; 1]>>,
    d: TotalVecSet<[i64; 2]>,
    e: TotalVecMap<VecSet<[u32; 2]>, [(String, VecSet<[u32; 2]>); 1]>,
}
fn nested(c: &mut Case) {
    let mut s = |c: &mut Case| {
        let n = c.size(20);
        gen::sequence(c, n)
    };
    let a = s(c);
    let mut b = VecMap::empty();
    for k in s(c).iter().take(8) {
        b.insert(String::mk(*k), s(c).iter().map(|k| String::mk(*k)).collect());
    }
    let inner: Vec<VecSet<[u8; 2]>> = (0..c.rng.below(8)).map(|_| s(c).iter().map(|x| *x as u8).collect()).collect();
    let mut e: VecMap<[(String, VecSet<[u32; 2]>); 1]> = VecMap::empty();
    for k in s(c).iter().take(8) {
        e.insert(String::mk(*k), s(c).iter().copied().take(2).collect());
    }
    let dflt: VecSet<[u32; 2]> = e.as_slice().first().map(|x| x.1.clone()).unwrap_or(VecSet::empty());
    let d: VecSet<[i64; 2]> = s(c).iter().map(|k| i64::mk(*k)).collect();
    let d = TotalVecSet::from(d);
    let r = Rec {
        a: a.iter().copied().collect(),
        b,
        c: if c.rng.bool() { Some(inner.into_iter().collect()) } else { None },
        d: if c.rng.bool() { !d } else { d },
        e: TotalVecMap::new(e, dflt),
    };
    c.note(&format!("{r:?}"));
    c.nontrivial = r.a.len() > 1;
    for fmt in 0..5 {
        let x: Rec = round(c, &r, fmt);
        ensure!(c, x == r, "nested collections do not round trip", "{}: {x:?} instead of {r:?}", FMT[fmt]);
    }
}

macro_rules! set_scenario {
    ($name:ident, $t:ty) => {
        fn $name(c: &mut Case) {
            match c.rng.below(4) {
                0 => sets::<[$t; 0], [$t; 4]>(c),
                1 => sets::<[$t; 1], [$t; 0]>(c),
                2 => sets::<[$t; 4], [$t; 16]>(c),
                _ => sets::<[$t; 16], [$t; 2]>(c),
            }
            ensure!(c, tok::live() == 0, "leak", "{} elements alive at the end", tok::live());
        }
    };
}
macro_rules! map_scenario {
    ($name:ident, $t:ty, $text:expr) => {
        fn $name(c: &mut Case) {
            match c.rng.below(4) {
                0 => maps::<$t, [($t, u32); 0], [($t, u32); 4]>(c, $text),
                1 => maps::<$t, [($t, u32); 1], [($t, u32); 0]>(c, $text),
                2 => maps::<$t, [($t, u32); 4], [($t, u32); 16]>(c, $text),
                _ => maps::<$t, [($t, u32); 16], [($t, u32); 2]>(c, $text),
            }
            ensure!(c, tok::live() == 0, "leak", "{} elements alive at the end", tok::live());
        }
    };
}
set_scenario!(s_u32, u32);
set_scenario!(s_i64, i64);
set_scenario!(s_string, String);
set_scenario!(s_tok, Tok);
set_scenario!(s_pair, (u8, u32));
set_scenario!(s_opt, Option<Vec<u8>>);
map_scenario!(m_u32, u32, true);
map_scenario!(m_string, String, true);
map_scenario!(m_tok, Tok, false);
map_scenario!(m_pair, (u8, u32), false);

fn main() {
    vcmon::main(
        "P13",
        &[
            Scenario { name: "set_u32", weight: 2, run: s_u32 },
            Scenario { name: "set_i64", weight: 1, run: s_i64 },
            Scenario { name: "set_string", weight: 2, run: s_string },
            Scenario { name: "set_tok", weight: 1, run: s_tok },
            Scenario { name: "set_pair", weight: 1, run: s_pair },
            Scenario { name: "set_option", weight: 1, run: s_opt },
            Scenario { name: "map_u32", weight: 2, run: m_u32 },
            Scenario { name: "map_string", weight: 2, run: m_string },
            Scenario { name: "map_tok", weight: 1, run: m_tok },
            Scenario { name: "map_pair", weight: 1, run: m_pair },
            Scenario { name: "nested", weight: 2, run: nested },
        ],
    )
}

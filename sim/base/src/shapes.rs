//! The catalogue of implementing types: every kind of the serde data model, at the
//! top level and nested, written in the usual and in the unusual ways.
use crate::model::Kind;
use crate::poly::*;
use crate::probe::Leaf;
use crate::simde::{DeCtl, SimDe};
use crate::simser::tree_of;
use crate::tape::{bits64, chance, of, pick};
use crate::tree::Tree;
use crate::worlds::*;
use serde::de::{MapAccess, SeqAccess, Visitor};
use serde::ser::{SerializeMap, SerializeSeq};
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::collections::BTreeMap;
use std::fmt::{self, Debug};

pub trait Gen: Sized {
    fn gen() -> Self;
}

/// A type in the catalogue.
pub trait Shape: Serialize + Debug + Gen + 'static {
    const NAME: &'static str;
    const KIND: Kind;
    const HOLDER: bool = false;
    fn enc(&self, hr: bool) -> Tree {
        tree_of(self, hr).expect("a catalogue type serializes")
    }
}

pub struct ShapeInfo {
    pub name: &'static str,
    pub kind: Kind,
    pub holder: bool,
    /// Independent decoding: the type's own Deserialize, no typetag involved
    /// (except inside holders).
    pub de: fn(&mut dyn erased_serde::Deserializer) -> Result<String, String>,
}

pub fn info<T: Shape + for<'a> Deserialize<'a>>() -> ShapeInfo {
    ShapeInfo {
        name: T::NAME,
        kind: T::KIND,
        holder: T::HOLDER,
        de: |d| match erased_serde::deserialize::<T>(d) {
            Ok(v) => Ok(format!("{v:?}")),
            Err(e) => Err(e.to_string()),
        },
    }
}

impl ShapeInfo {
    pub fn de_tree(&self, t: &Tree, ctl: &DeCtl) -> Result<String, String> {
        let d = SimDe::new(t, ctl);
        (self.de)(&mut <dyn erased_serde::Deserializer>::erase(d))
    }
}

// ---------------------------------------------------------------- generators

macro_rules! gen_int {
    ($($t:ty)*) => { $(
        impl Gen for $t {
            fn gen() -> $t {
                match pick(6) {
                    0 => 0,
                    1 => pick(10) as $t,
                    2 => <$t>::MAX,
                    3 => <$t>::MIN,
                    4 => bits64() as $t,
                    _ => (bits64() >> pick(64)) as $t,
                }
            }
        }
    )* };
}
gen_int! { u8 u16 u32 u64 i8 i16 i32 i64 }

impl Gen for u128 {
    fn gen() -> u128 {
        match pick(5) {
            0 => 0,
            1 => pick(10) as u128,
            2 => u64::MAX as u128 + pick(3) as u128,
            3 => u128::MAX,
            _ => (bits64() as u128) << 64 | bits64() as u128,
        }
    }
}
impl Gen for i128 {
    fn gen() -> i128 {
        match pick(6) {
            0 => 0,
            1 => -(pick(10) as i128),
            2 => u64::MAX as i128 + pick(3) as i128,
            3 => i64::MIN as i128 - pick(3) as i128,
            4 => i128::MIN,
            _ => ((bits64() as u128) << 64 | bits64() as u128) as i128,
        }
    }
}
impl Gen for bool {
    fn gen() -> bool {
        pick(2) == 1
    }
}
impl Gen for f64 {
    fn gen() -> f64 {
        match pick(9) {
            0 => 0.0,
            1 => pick(100) as f64,
            2 => 0.5 + pick(10) as f64,
            3 => -1.25,
            4 => 0.1,
            5 => -0.0,
            6 => of(&[f64::MAX, f64::MIN_POSITIVE, f64::EPSILON, 1e300]),
            7 if chance(1, 2) => of(&[f64::INFINITY, f64::NEG_INFINITY, f64::NAN]),
            _ => {
                let x = f64::from_bits(bits64());
                match pick(4) {
                    _ if x.is_finite() => x,
                    1 => f64::NAN,
                    2 => f64::INFINITY,
                    3 => f64::NEG_INFINITY,
                    _ => 1.5,
                }
            }
        }
    }
}
impl Gen for f32 {
    fn gen() -> f32 {
        match pick(8) {
            0 => 0.0,
            1 => pick(100) as f32,
            2 => 0.5 + pick(10) as f32,
            3 => 0.1,
            4 => -0.0,
            5 => of(&[f32::MAX, f32::MIN_POSITIVE, 1e30]),
            6 if chance(1, 2) => of(&[f32::INFINITY, f32::NEG_INFINITY, f32::NAN]),
            _ => {
                let x = f32::from_bits(pick(u32::MAX));
                match pick(4) {
                    _ if x.is_finite() => x,
                    1 => f32::NAN,
                    2 => f32::INFINITY,
                    3 => f32::NEG_INFINITY,
                    _ => 1.5,
                }
            }
        }
    }
}
impl Gen for char {
    fn gen() -> char {
        of(&['a', 'Z', '\0', '"', '\\', '\n', 'é', '\u{ffff}', '\u{1F600}', '\u{10ffff}'])
    }
}
impl Gen for String {
    fn gen() -> String {
        if let Some(n) = crate::scale::bytes() {
            let s = of(&["x", "long", "é", "quo\"", "\u{1F600}"]);
            return s.repeat(n / s.len()) + &"."[..(n % s.len() > 0) as usize];
        }
        match pick(10) {
            0 => String::new(),
            1 => "x".into(),
            2 => of(&["type", "value", "t", "c", "zz_tag", "kind", "SStruct", "a", "true", "1"]).into(),
            3 => "hello world".into(),
            4 => "quo\"te\\ \n\t\u{1}".into(),
            5 => "üñï\u{1F600}".into(),
            6 => "long".repeat(1 + pick(200) as usize),
            _ => {
                let n = pick(12);
                (0..n).map(|_| (b'a' + pick(26) as u8) as char).collect()
            }
        }
    }
}
impl Gen for () {
    fn gen() {}
}
impl<T: Gen> Gen for Option<T> {
    fn gen() -> Self {
        if pick(3) > 0 {
            Some(T::gen())
        } else {
            None
        }
    }
}
impl<T: Gen> Gen for Box<T> {
    fn gen() -> Self {
        Box::new(T::gen())
    }
}
fn gen_len() -> u32 {
    if let Some(n) = crate::scale::elements() {
        return n;
    }
    match pick(8) {
        0 => 0,
        7 => pick(40),
        n => n % 4,
    }
}
impl<T: Gen> Gen for Vec<T> {
    fn gen() -> Self {
        (0..gen_len()).map(|_| T::gen()).collect()
    }
}
impl<K: Gen + Ord, V: Gen> Gen for BTreeMap<K, V> {
    fn gen() -> Self {
        (0..gen_len()).map(|_| (K::gen(), V::gen())).collect()
    }
}
impl<A: Gen, B: Gen> Gen for (A, B) {
    fn gen() -> Self {
        (A::gen(), B::gen())
    }
}
impl<A: Gen> Gen for (A,) {
    fn gen() -> Self {
        (A::gen(),)
    }
}
impl<A: Gen, B: Gen, C: Gen> Gen for (A, B, C) {
    fn gen() -> Self {
        (A::gen(), B::gen(), C::gen())
    }
}
impl Gen for [u8; 3] {
    fn gen() -> Self {
        [u8::gen(), u8::gen(), u8::gen()]
    }
}

/// Map keys that cannot be mistaken for the tag or the default key.
#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
#[serde(transparent)]
pub struct Key(pub String);
impl Gen for Key {
    fn gen() -> Key {
        Key(match pick(5) {
            0 => format!("k{}", pick(20)),
            1 => String::new(),
            2 => "ké\"y\\".into(),
            3 => format!("{}", pick(5)),
            _ => of(&["typ", "types", "Type", "valu", "values", "zz_ta", "zz_tags", "SStruct", "tt", "cc"]).into(),
        })
    }
}

// ---------------------------------------------------------------- plain types

macro_rules! gen_struct {
    ($t:ident { $($f:ident),* }) => { impl Gen for $t { fn gen() -> Self { $t { $($f: Gen::gen()),* } } } };
    ($t:ident ( $($f:ident),* )) => { impl Gen for $t { fn gen() -> Self { $t( $({ let $f = Gen::gen(); $f }),* ) } } };
}

macro_rules! data {
    ($($(#[$m:meta])* struct $t:ident { $($(#[$fm:meta])* $f:ident : $ft:ty),* $(,)? })*) => { $(
        #[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
        $(#[$m])*
        pub struct $t { $($(#[$fm])* pub $f: $ft),* }
        gen_struct!($t { $($f),* });
    )* };
}
macro_rules! newtypes {
    ($($t:ident($($ft:ty),*);)*) => { $(
        #[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
        pub struct $t($(pub $ft),*);
        impl Gen for $t { fn gen() -> Self { $t($(<$ft as Gen>::gen()),*) } }
    )* };
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct SUnit;
impl Gen for SUnit {
    fn gen() -> Self {
        SUnit
    }
}

data! {
    struct SEmpty {}
    struct SStruct { a: i32, b: String }
    struct SInts { a: i8, b: i16, c: i32, d: i64, e: u8, f: u16, g: u32, h: u64 }
    struct SMisc { a: f32, b: f64, c: bool, d: char, e: (), f: SUnit }
    struct S128 { u: u128, i: i128 }
    struct SBytes { b: Bytes, c: Bytes }
    struct SOpt { x: Option<u32>, y: Option<String>, z: Option<SStruct> }
    struct SNames { value: u32, content: String, tag: bool, name: i8 }
    struct SColl { v: Vec<SStruct>, t: (u8, String, f64), m: BTreeMap<Key, Vec<u8>>, a: [u8; 3], e: Vec<E> }
    struct SIp { v4: Ip, v6: Ip }
    struct SRename { #[serde(rename = "with space")] a: u8, #[serde(rename = "")] b: u8, #[serde(alias = "cee")] c: u8 }
    #[serde(deny_unknown_fields)]
    struct SDeny { a: u8, b: Option<bool> }
    struct SSkip {
        #[serde(skip_serializing_if = "Option::is_none", default)] a: Option<u8>,
        b: u16,
        #[serde(skip_serializing_if = "Vec::is_empty", default)] c: Vec<u8>,
    }
    struct SFlat { a: u8, #[serde(flatten)] b: SStruct2, #[serde(flatten)] rest: BTreeMap<FlatKey, u32> }
    struct SStruct2 { p: String, q: i64 }
    struct SLoose { a: Loose, b: Vec<Loose> }
    struct SEnums { u: E, v: EInt, w: EAdj }
}

newtypes! {
    NU64(u64);
    NStr(String);
    NBytes(Bytes);
    NOpt(Option<u32>);
    NOptStruct(Option<SStruct>);
    NVec(Vec<u32>);
    NVecStruct(Vec<SStruct>);
    NVecEnum(Vec<E>);
    NMap(BTreeMap<Key, u32>);
    NStruct(SStruct);
    NUnit(SUnit);
    NEnum(E);
    NNew(NU64);
    NIp(Ip);
    HrVec(Vec<Ip>);
    HrTup(Ip, u8);
    TPair(i32, String);
    TDeep(SStruct, Vec<u8>, Option<E>);
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct TZero();
impl Gen for TZero {
    fn gen() -> Self {
        TZero()
    }
}

#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
pub struct FlatKey(String);
impl Gen for FlatKey {
    fn gen() -> Self {
        FlatKey(format!("x{}", pick(20)))
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
pub enum EKey {
    One,
    Two,
    #[serde(rename = "th\"ree")]
    Three,
}
impl Gen for EKey {
    fn gen() -> Self {
        of(&[EKey::One, EKey::Two, EKey::Three])
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum E {
    U,
    N(i32),
    T(i8, String),
    S { a: u8, b: String },
    NUnit(()),
    NOpt(Option<u8>),
    NStruct(SStruct),
    NVec(Vec<u8>),
    T0(),
    S0 {},
    NBytes(Bytes),
    NE(Box<E>),
    TE(Box<E>, Box<E>),
    S1 { only: i64 },
    #[serde(rename = "with space", alias = "ws")]
    S4 { w: u8, x: Option<String>, y: char, #[serde(default)] z: Vec<u8> },
    T5(u8, (), bool, [u8; 0], i16),
}
impl Gen for E {
    fn gen() -> E {
        match pick(16) {
            12 => E::S1 { only: Gen::gen() },
            13 => E::S4 { w: Gen::gen(), x: Gen::gen(), y: Gen::gen(), z: Gen::gen() },
            14 => E::T5(Gen::gen(), (), Gen::gen(), [], Gen::gen()),
            0 => E::U,
            1 => E::N(Gen::gen()),
            2 => E::T(Gen::gen(), Gen::gen()),
            3 => E::S { a: Gen::gen(), b: Gen::gen() },
            4 => E::NUnit(()),
            5 => E::NOpt(Gen::gen()),
            6 => E::NStruct(Gen::gen()),
            7 => E::NVec(Gen::gen()),
            8 => E::T0(),
            9 => E::S0 {},
            10 => E::NBytes(Gen::gen()),
            11 => E::NE(Box::new(E::small())),
            _ => E::TE(Box::new(E::small()), Box::new(E::small())),
        }
    }
}
impl E {
    fn small() -> E {
        match pick(4) {
            0 => E::U,
            1 => E::N(7),
            2 => E::T(1, "t".into()),
            _ if crate::tape::chance(1, 2) => E::S1 { only: 3 },
            _ => E::S { a: 1, b: "s".into() },
        }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(tag = "kind")]
pub enum EInt {
    A { x: u8 },
    B(SStruct),
    C,
}
impl Gen for EInt {
    fn gen() -> EInt {
        match pick(3) {
            0 => EInt::C,
            1 => EInt::A { x: Gen::gen() },
            _ => EInt::B(Gen::gen()),
        }
    }
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(tag = "k", content = "v")]
pub enum EAdj {
    A(u8, u8),
    B(SStruct),
    C,
}
impl Gen for EAdj {
    fn gen() -> EAdj {
        match pick(3) {
            0 => EAdj::C,
            1 => EAdj::A(Gen::gen(), Gen::gen()),
            _ => EAdj::B(Gen::gen()),
        }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum Loose {
    Null,
    Bool(bool),
    Int(i64),
    Str(String),
    List(Vec<Loose>),
    Map(BTreeMap<Key, Loose>),
}
impl Gen for Loose {
    fn gen() -> Loose {
        match pick(6) {
            0 => Loose::Null,
            1 => Loose::Bool(Gen::gen()),
            2 => Loose::Int(Gen::gen()),
            3 => Loose::Str(Gen::gen()),
            4 => Loose::List((0..pick(3)).map(|i| Loose::Int(i as i64)).collect()),
            _ => Loose::Map((0..pick(3)).map(|i| (Key(format!("m{i}")), Loose::Str("z".into()))).collect()),
        }
    }
}

/// Human-readable formats write text, others a number.
#[derive(Debug, Clone, PartialEq)]
pub struct Ip(pub std::net::IpAddr);
impl Gen for Ip {
    fn gen() -> Ip {
        Ip(match pick(3) {
            0 => std::net::Ipv4Addr::from(pick(u32::MAX)).into(),
            1 => std::net::Ipv6Addr::LOCALHOST.into(),
            _ => std::net::Ipv6Addr::from((bits64() as u128) << 64 | bits64() as u128).into(),
        })
    }
}
impl Serialize for Ip {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        self.0.serialize(s)
    }
}
impl<'de> Deserialize<'de> for Ip {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        Ok(Ip(Deserialize::deserialize(d)?))
    }
}

/// A byte string in formats that have one.
#[derive(Debug, Clone, PartialEq)]
pub struct Bytes(pub Vec<u8>);
impl Gen for Bytes {
    fn gen() -> Self {
        if let Some(n) = crate::scale::bytes() {
            let first = pick(256) as u8;
            return Bytes((0..n).map(|i| first.wrapping_add(i as u8)).collect());
        }
        Bytes(Gen::gen())
    }
}
impl Serialize for Bytes {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_bytes(&self.0)
    }
}
impl<'de> Deserialize<'de> for Bytes {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl<'de> Visitor<'de> for V {
            type Value = Bytes;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                f.write_str("bytes")
            }
            fn visit_bytes<E>(self, v: &[u8]) -> Result<Bytes, E> {
                Ok(Bytes(v.to_vec()))
            }
            fn visit_byte_buf<E>(self, v: Vec<u8>) -> Result<Bytes, E> {
                Ok(Bytes(v))
            }
            fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Bytes, A::Error> {
                let mut v = Vec::new();
                while let Some(b) = a.next_element()? {
                    v.push(b);
                }
                Ok(Bytes(v))
            }
        }
        d.deserialize_byte_buf(V)
    }
}

/// A map written key by key, without announcing its length.
#[derive(Debug, Clone, PartialEq)]
pub struct MMap(pub Vec<(Key, u32)>);
impl Gen for MMap {
    fn gen() -> Self {
        let m: BTreeMap<Key, u32> = Gen::gen();
        MMap(m.into_iter().collect())
    }
}
impl Serialize for MMap {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let mut m = s.serialize_map(None)?;
        for (k, v) in &self.0 {
            m.serialize_key(k)?;
            m.serialize_value(v)?;
        }
        m.end()
    }
}
impl<'de> Deserialize<'de> for MMap {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl<'de> Visitor<'de> for V {
            type Value = MMap;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                f.write_str("a map")
            }
            fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<MMap, A::Error> {
                let mut m = BTreeMap::new();
                while let Some(k) = a.next_key()? {
                    m.insert(k, a.next_value()?);
                }
                Ok(MMap(m.into_iter().collect()))
            }
        }
        d.deserialize_map(V)
    }
}

/// A sequence of unannounced length.
#[derive(Debug, Clone, PartialEq)]
pub struct MSeq(pub Vec<MMap>);
impl Gen for MSeq {
    fn gen() -> Self {
        MSeq((0..pick(3)).map(|_| Gen::gen()).collect())
    }
}
impl Serialize for MSeq {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let mut m = s.serialize_seq(None)?;
        for v in &self.0 {
            m.serialize_element(v)?;
        }
        m.end()
    }
}
impl<'de> Deserialize<'de> for MSeq {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        Ok(MSeq(Deserialize::deserialize(d)?))
    }
}

/// Written through Display, read with deserialize_str.
#[derive(Debug, Clone, PartialEq)]
pub struct MText(pub String);
impl Gen for MText {
    fn gen() -> Self {
        MText(Gen::gen())
    }
}
impl fmt::Display for MText {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        for c in self.0.chars() {
            write!(f, "{c}")?;
        }
        Ok(())
    }
}
impl Serialize for MText {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.collect_str(self)
    }
}
impl<'de> Deserialize<'de> for MText {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl<'de> Visitor<'de> for V {
            type Value = MText;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                f.write_str("text")
            }
            fn visit_str<E>(self, v: &str) -> Result<MText, E> {
                Ok(MText(v.into()))
            }
        }
        d.deserialize_str(V)
    }
}

/// Accepts borrowed data only where the format really lends it; otherwise copies.
/// Remembers nothing: only the contents count.
#[derive(Debug, Clone, PartialEq, Serialize)]
pub struct MCow {
    pub s: std::borrow::Cow<'static, str>,
    pub n: u8,
}
impl Gen for MCow {
    fn gen() -> Self {
        MCow { s: String::gen().into(), n: Gen::gen() }
    }
}
impl<'de> Deserialize<'de> for MCow {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        #[derive(Deserialize)]
        struct Raw<'a> {
            #[serde(borrow)]
            s: std::borrow::Cow<'a, str>,
            n: u8,
        }
        let r = Raw::deserialize(d)?;
        Ok(MCow { s: r.s.into_owned().into(), n: r.n })
    }
}

/// A struct with a field that the internal representation uses as its tag.
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(tag = "type", rename = "XTagged")]
pub struct XTagged {
    pub a: u32,
}
gen_struct!(XTagged { a });

/// Structs with an ordinary field named like the internal tag: it agrees with the
/// tag, or it does not, or it is not even text.
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct XColl {
    pub a: u8,
    #[serde(rename = "type")]
    pub t: XCollVal,
    pub b: u8,
}
gen_struct!(XColl { a, t, b });

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum XCollVal {
    Str(String),
    Some(Option<String>),
    New(NStr),
    Char(char),
    Num(u8),
    Seq(Vec<u8>),
    Map(BTreeMap<Key, u8>),
}
impl Gen for XCollVal {
    fn gen() -> Self {
        let text = || of(&["XColl", "XColl", "XCol", "XColl2", "", "xcoll"]).to_string();
        match pick(8) {
            0 | 1 => XCollVal::Str(text()),
            2 => XCollVal::Some(Some(text())),
            3 => XCollVal::New(NStr(text())),
            4 => XCollVal::Char('X'),
            5 => XCollVal::Num(3),
            6 => XCollVal::Seq(vec![1]),
            _ => XCollVal::Map(BTreeMap::new()),
        }
    }
}

// ---------------------------------------------------------------- fallible user code

macro_rules! probes {
    ($(struct $t:ident { $($f:ident : $ft:ty),* })*) => { $(
        #[derive(Debug, Serialize, Deserialize)]
        pub struct $t { $(pub $f: $ft),* }
        gen_struct!($t { $($f),* });
    )* };
}
probes! {
    struct PPair { a: Leaf, s: String, b: Leaf }
    struct PWide { a: Leaf, v: Vec<Leaf>, e: PEnum, m: BTreeMap<Key, Leaf>, o: Option<Leaf>, t: (Leaf, Leaf) }
}
#[derive(Debug, Serialize, Deserialize)]
pub struct PSeq(pub Vec<Leaf>);
impl Gen for PSeq {
    fn gen() -> Self {
        PSeq(Gen::gen())
    }
}
#[derive(Debug, Serialize, Deserialize)]
pub struct PTup(pub Leaf, pub Leaf);
impl Gen for PTup {
    fn gen() -> Self {
        PTup(Gen::gen(), Gen::gen())
    }
}
#[derive(Debug, Serialize, Deserialize)]
pub struct PMap(pub BTreeMap<Key, Leaf>);
impl Gen for PMap {
    fn gen() -> Self {
        PMap(Gen::gen())
    }
}
#[derive(Debug, Serialize, Deserialize)]
pub enum PEnum {
    N(Leaf),
    T(Leaf, Leaf),
    S { a: Leaf, b: Leaf },
    V(Vec<Leaf>),
}
impl Gen for PEnum {
    fn gen() -> Self {
        match pick(4) {
            0 => PEnum::N(Gen::gen()),
            1 => PEnum::T(Gen::gen(), Gen::gen()),
            2 => PEnum::S { a: Gen::gen(), b: Gen::gen() },
            _ => PEnum::V(Gen::gen()),
        }
    }
}

// ---------------------------------------------------------------- nested objects

#[derive(Debug, Serialize, Deserialize)]
pub struct HExt {
    pub id: u32,
    pub inner: Box<dyn WExt>,
}
#[derive(Debug, Serialize, Deserialize)]
pub struct HInt {
    pub list: Vec<Box<dyn WInt>>,
    pub leaf: Leaf,
}
#[derive(Debug, Serialize, Deserialize)]
pub struct HAdj {
    pub opt: Option<Box<dyn WAdj>>,
    pub map: BTreeMap<Key, Box<dyn WIntZ>>,
}
#[derive(Debug, Serialize, Deserialize)]
pub struct HNew(pub Box<dyn WInt>);
#[derive(Debug, Serialize, Deserialize)]
pub struct HVec(pub Vec<Box<dyn WAdj>>);
#[derive(Debug, Serialize, Deserialize)]
pub enum HEnum {
    N(Box<dyn WExt>),
    T(Box<dyn WInt>, Leaf),
    S { x: Box<dyn WAdj>, y: u8 },
}

pub fn nested<W: ?Sized + Obj>(info: &crate::model::Info, o: &W, hr: bool) -> Tree {
    crate::model::wrap(info, o.tag(), o.enc(hr)).expect("nestable")
}

impl Gen for HExt {
    fn gen() -> Self {
        HExt { id: Gen::gen(), inner: gen_wext() }
    }
}
impl Gen for HInt {
    fn gen() -> Self {
        HInt { list: (0..pick(3)).map(|_| gen_wint()).collect(), leaf: Gen::gen() }
    }
}
impl Gen for HAdj {
    fn gen() -> Self {
        HAdj {
            opt: chance(1, 2).then(gen_wadj),
            map: (0..pick(3)).map(|_| (Gen::gen(), gen_wintz())).collect(),
        }
    }
}
impl Gen for HNew {
    fn gen() -> Self {
        HNew(gen_wint())
    }
}
impl Gen for HVec {
    fn gen() -> Self {
        HVec((0..pick(3)).map(|_| gen_wadj()).collect())
    }
}
impl Gen for HEnum {
    fn gen() -> Self {
        match pick(3) {
            0 => HEnum::N(gen_wext()),
            1 => HEnum::T(gen_wint(), Gen::gen()),
            _ => HEnum::S { x: gen_wadj(), y: Gen::gen() },
        }
    }
}

macro_rules! plain_shapes {
    ($($t:ty, $name:literal, $kind:ident;)*) => { $(
        impl Shape for $t {
            const NAME: &'static str = $name;
            const KIND: Kind = Kind::$kind;
        }
    )* };
}

macro_rules! holder_shapes {
    ($($t:ty, $name:literal, $kind:ident, |$v:ident, $hr:ident| $e:expr;)*) => { $(
        impl Shape for $t {
            const NAME: &'static str = $name;
            const KIND: Kind = Kind::$kind;
            const HOLDER: bool = true;
            fn enc(&self, $hr: bool) -> Tree {
                let $v = self;
                $e
            }
        }
    )* };
}

fn leaf_tree(l: &Leaf) -> Tree {
    Tree::U32(l.n)
}
fn key_tree(k: &Key) -> Tree {
    Tree::Str(k.0.clone())
}

holder_shapes! {
    HExt, "HExt", Struct, |v, hr| Tree::Struct("HExt", vec![("id", Tree::U32(v.id)), ("inner", nested(&WEXT, &*v.inner, hr))]);
    HInt, "HInt", Struct, |v, hr| Tree::Struct("HInt", vec![
        ("list", Tree::Seq(v.list.iter().map(|x| nested(&WINT, &**x, hr)).collect(), true)),
        ("leaf", leaf_tree(&v.leaf)),
    ]);
    HAdj, "HAdj", Struct, |v, hr| Tree::Struct("HAdj", vec![
        ("opt", match &v.opt { None => Tree::None, Some(x) => Tree::Some(Box::new(nested(&WADJ, &**x, hr))) }),
        ("map", Tree::Map(v.map.iter().map(|(k, x)| (key_tree(k), nested(&WINTZ, &**x, hr))).collect(), true)),
    ]);
    HNew, "HNew", Map, |v, hr| Tree::Newtype("HNew", Box::new(nested(&WINT, &*v.0, hr)));
    HVec, "HVec", Value, |v, hr| Tree::Newtype("HVec", Box::new(Tree::Seq(v.0.iter().map(|x| nested(&WADJ, &**x, hr)).collect(), true)));
    HEnum, "HEnum", Enum, |v, hr| match v {
        HEnum::N(x) => Tree::NewtypeVariant("HEnum", 0, "N", Box::new(nested(&WEXT, &**x, hr))),
        HEnum::T(x, l) => Tree::TupleVariant("HEnum", 1, "T", vec![nested(&WINT, &**x, hr), leaf_tree(l)]),
        HEnum::S { x, y } => Tree::StructVariant("HEnum", 2, "S", vec![("x", nested(&WADJ, &**x, hr)), ("y", Tree::U8(*y))]),
    };
}

/// The types without trait objects inside.
macro_rules! full_list {
    ($m:ident $($args:tt)*) => {
        $m! { $($args)*
            SStruct, "SStruct", Struct;
            SUnit, "SUnit", Unit;
            SEmpty, "SEmpty", Struct;
            SInts, "SInts", Struct;
            SMisc, "SMisc", Struct;
            S128, "S128", Struct;
            SBytes, "SBytes", Struct;
            SOpt, "SOpt", Struct;
            SNames, "SNames", Struct;
            SColl, "SColl", Struct;
            SIp, "SIp", Struct;
            SRename, "with \"quotes\" \\ and \u{1F600}", Struct;
            SDeny, "SDeny", Struct;
            SSkip, "SSkip", Struct;
            SFlat, "SFlat", Map;
            SLoose, "SLoose", Struct;
            SEnums, "SEnums", Struct;
            NU64, "value", Value;
            NStr, "type", Value;
            NBytes, "NBytes", Value;
            NOpt, "NOpt", Option;
            NOptStruct, "NOptStruct", Option;
            NVec, "NVec", Value;
            NVecStruct, "NVecStruct", Value;
            NVecEnum, "NVecEnum", Value;
            NMap, "NMap", Map;
            NStruct, "NStruct", Struct;
            NUnit, "NUnit", Unit;
            NEnum, "NEnum", Enum;
            NNew, "NNew", Value;
            NIp, "NIp", Value;
            HrVec, "HrVec", Value;
            HrTup, "HrTup", Value;
            TPair, "TPair", Value;
            TDeep, "TDeep", Value;
            TZero, "TZero", Value;
            E, "E", Enum;
            EInt, "EInt", Struct;
            EAdj, "EAdj", Struct;
            MMap, "MMap", Map;
            MSeq, "MSeq", Value;
            MText, "MText", Value;
            MCow, "MCow", Struct;
            bool, "bool", Value;
            i8, "i8", Value;
            i16, "i16", Value;
            i32, "i32", Value;
            i64, "i64", Value;
            i128, "i128", Value;
            u8, "u8", Value;
            u16, "u16", Value;
            u32, "u32", Value;
            u64, "u64", Value;
            u128, "u128", Value;
            f32, "f32", Value;
            f64, "f64", Value;
            char, "char", Value;
            String, "", Value;
            (), "()", Unit;
            (i8, String), "(i8, String)", Value;
            [u8; 3], "[u8; 3]", Value;
            Vec<String>, "Vec<String>", Value;
            Option<u32>, "Option<u32>", Option;
            Option<SStruct>, "Option<SStruct>", Option;
            Bytes, "Bytes", Value;
            BTreeMap<Key, String>, "BTreeMap<Key, String>", Map;
            BTreeMap<u32, String>, "BTreeMap<u32, String>", Map;
            BTreeMap<i64, bool>, "BTreeMap<i64, bool>", Map;
            BTreeMap<EKey, u8>, "BTreeMap<EKey, u8>", Map;
            BTreeMap<char, u8>, "BTreeMap<char, u8>", Map;
            BTreeMap<bool, u8>, "BTreeMap<bool, u8>", Map;
            XTagged, "XTagged", Struct;
            Leaf, "Leaf", Value;
            PPair, "PPair", Struct;
            PWide, "PWide", Struct;
            PSeq, "PSeq", Value;
            PTup, "PTup", Value;
            PMap, "PMap", Map;
            PEnum, "PEnum", Enum;
            PolyStruct, "PolyStruct", Struct;
            PolyMap, "PolyMap", Map;
            PolyUnit, "PolyUnit", Unit;
            PolyOption, "PolyOption", Option;
            PolyValue, "PolyValue", Value;
            PolyEnum, "PolyEnum", Enum;
        }
    };
}

macro_rules! holder_list {
    ($m:ident $($args:tt)*) => {
        $m! { $($args)*
            HExt, "HExt", Struct;
            HInt, "HInt", Struct;
            HAdj, "HAdj", Struct;
            HVec, "HVec", Value;
            HEnum, "HEnum", Enum;
        }
    };
}

/// Implemented for the less common traits.
macro_rules! light_list {
    ($m:ident $($args:tt)*) => {
        $m! { $($args)*
            SStruct, "SStruct", Struct;
            SUnit, "SUnit", Unit;
            SEmpty, "SEmpty", Struct;
            SOpt, "SOpt", Struct;
            SColl, "SColl", Struct;
            SDeny, "SDeny", Struct;
            NU64, "value", Value;
            NStr, "type", Value;
            NVec, "NVec", Value;
            NMap, "NMap", Map;
            NOpt, "NOpt", Option;
            E, "E", Enum;
            TPair, "TPair", Value;
            MMap, "MMap", Map;
            u32, "u32", Value;
            String, "", Value;
            Bytes, "Bytes", Value;
            Leaf, "Leaf", Value;
            PPair, "PPair", Struct;
            PolyStruct, "PolyStruct", Struct;
            PolyMap, "PolyMap", Map;
            PolyUnit, "PolyUnit", Unit;
            PolyOption, "PolyOption", Option;
            PolyValue, "PolyValue", Value;
            PolyEnum, "PolyEnum", Enum;
        }
    };
}
pub(crate) use {full_list, holder_list, light_list};

full_list! { plain_shapes }

plain_shapes! {
    XColl, "XColl", Struct;
}

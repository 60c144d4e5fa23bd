//! Types that are themselves drawn: one random schema per kind and operation, read and
//! written the way code derived by serde would.
use crate::model::Kind;
use crate::probe::tick;
use crate::scale;
use crate::shapes::{Bytes, Gen, Key};
use crate::tape::{chance, of, pick, usize_below};
use crate::tree::Tree;
use crate::tree::Tree as T;
use serde::de::{self, DeserializeSeed, EnumAccess, IgnoredAny, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::{self, SerializeMap, SerializeSeq, SerializeStruct, SerializeStructVariant, SerializeTuple, SerializeTupleStruct, SerializeTupleVariant};
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::fmt;
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};
use std::sync::{Arc, Mutex};

type Names = &'static [&'static str];

#[derive(Debug)]
pub enum Ty {
    Bool,
    I8,
    I16,
    I32,
    I64,
    I128,
    U8,
    U16,
    U32,
    U64,
    U128,
    F32,
    F64,
    Char,
    Str,
    /// Asked for as `str` rather than `string`.
    Borrowed,
    /// Asked for as an identifier.
    Ident,
    /// Written through Display.
    Text,
    Bytes,
    /// Asked for as `bytes` rather than `byte_buf`.
    Slice,
    /// Counts as two user callbacks.
    Probe,
    /// Whatever the format has.
    Any,
    /// Passed over.
    Skip,
    Unit,
    UnitStruct(&'static str),
    Option(Box<Ty>),
    Newtype(&'static str, Box<Ty>),
    Seq(Box<Ty>, bool),
    Tuple(Vec<Ty>),
    TupleStruct(&'static str, Vec<Ty>),
    Map(Box<Ty>, Box<Ty>, bool),
    /// The flag says whether absent options are left out.
    Struct(&'static str, Names, Vec<Ty>, bool),
    Enum(&'static str, Names, Vec<Var>),
}

#[derive(Debug)]
pub enum Var {
    Unit,
    Newtype(Ty),
    Tuple(Vec<Ty>),
    Struct(Names, Vec<Ty>),
}

const TYPES: Names = &["Poly", "T", "struct", "Some", "Option", "with space", "", "TÜ", "$serde_json::private::X", "type"];
const FIELDS: Names = &[
    "a", "b", "value", "content", "name", "tag", "", "true", "0", "1", "-7", "with space", "quo\"te\\", "uü\u{1F600}", "Some", "null", "self", "fn", "typ", "kin", "types", "T", "C", "zz", "longer_than_twenty_four_bytes_for_certain", "x",
];
const VARIANTS: Names = &["A", "b", "Ok", "Some", "None", "with space", "uü\u{1F600}", "quo\"te\\", "value", "0", "true", "null", "Tuple", "longer_than_twenty_four_bytes_for_certain", "c2", "E"];

fn some(names: Names, n: usize) -> Names {
    let at = usize_below(names.len() - n + 1);
    &names[at..at + n]
}

// ---------------------------------------------------------------- drawing types

fn width() -> usize {
    if scale::wide() {
        return 8 + usize_below(FIELDS.len() - 7);
    }
    match pick(8) {
        0 => 0,
        7 => 3 + usize_below(6),
        n => (n as usize + 1) / 2,
    }
}

fn many(depth: u32, n: usize) -> Vec<Ty> {
    (0..n).map(|_| any_ty(depth)).collect()
}

fn scalar() -> Ty {
    if OFTEN.load(Relaxed) && chance(1, 3) {
        return Ty::Probe;
    }
    match pick(24) {
        0 => Ty::U32,
        1 => Ty::Str,
        2 => Ty::Bool,
        3 => Ty::I8,
        4 => Ty::I16,
        5 => Ty::I32,
        6 => Ty::I64,
        7 => Ty::U8,
        8 => Ty::U16,
        9 => Ty::U64,
        10 => Ty::F32,
        11 => Ty::F64,
        12 => Ty::Char,
        13 if chance(1, 2) => Ty::Ident,
        13 => Ty::Borrowed,
        14 => Ty::Text,
        15 => Ty::Bytes,
        16 => Ty::Slice,
        17 | 18 => Ty::Probe,
        19 if chance(1, 3) => Ty::Any,
        19 if chance(1, 4) => Ty::Skip,
        20 if chance(1, 3) => Ty::I128,
        21 if chance(1, 3) => Ty::U128,
        _ => Ty::U32,
    }
}

fn key_ty() -> Ty {
    match pick(12) {
        0..=4 => Ty::Str,
        5 => Ty::Text,
        6 => Ty::Borrowed,
        7 => Ty::Newtype("K", Box::new(Ty::Str)),
        8 | 9 => {
            let n = 1 + usize_below(4);
            Ty::Enum("EK", some(VARIANTS, n), (0..n).map(|_| Var::Unit).collect())
        }
        10 if chance(1, 2) => rare_key_ty(),
        _ => match pick(15) {
            0 => Ty::U32,
            1 => Ty::I8,
            2 => Ty::I16,
            3 => Ty::I32,
            4 => Ty::I64,
            5 => Ty::U8,
            6 => Ty::U16,
            7 => Ty::U64,
            8 => Ty::Bool,
            9 => Ty::Char,
            10 => Ty::I128,
            11 => Ty::U128,
            12 => Ty::F32,
            13 => Ty::F64,
            _ => Ty::Option(Box::new(Ty::U8)),
        },
    }
}

/// Keys that few formats have.
fn rare_key_ty() -> Ty {
    let mut t = match pick(12) {
        0 => Ty::Bytes,
        1 => Ty::Slice,
        2 => Ty::Ident,
        3 => unit_ty(),
        4 => option_ty(0),
        5 | 6 => list_ty(0),
        7 => Ty::Map(Box::new(Ty::Str), Box::new(scalar()), true),
        8 => struct_ty(0),
        9 => Ty::Newtype("K", Box::new(scalar())),
        _ => enum_ty(0),
    };
    t.keep_all();
    t
}

fn map_ty(depth: u32) -> Ty {
    let (k, v) = (key_ty(), any_ty(depth));
    let v = if k.empty() && v.empty() { Ty::U32 } else { v };
    Ty::Map(Box::new(k), Box::new(v), pick(3) < 2)
}
fn struct_ty(depth: u32) -> Ty {
    let n = width();
    Ty::Struct(of(TYPES), some(FIELDS, n), many(depth, n), chance(1, 4))
}
fn enum_ty(depth: u32) -> Ty {
    let n = if scale::wide() { VARIANTS.len() - usize_below(5) } else { 1 + usize_below(5) };
    let vars = (0..n)
        .map(|_| match pick(5) {
            0 => Var::Unit,
            1 => Var::Newtype(any_ty(depth)),
            2 => Var::Tuple(many(depth, width())),
            3 => Var::Tuple(many(depth, 1)),
            _ => {
                let n = width();
                Var::Struct(some(FIELDS, n), many(depth, n))
            }
        })
        .collect();
    Ty::Enum(of(TYPES), some(VARIANTS, n), vars)
}
fn list_ty(depth: u32) -> Ty {
    match pick(5) {
        0 | 1 => {
            let t = any_ty(depth);
            Ty::Seq(Box::new(if t.empty() { Ty::U32 } else { t }), pick(3) < 2)
        }
        2 => Ty::Tuple(many(depth, width())),
        3 => Ty::TupleStruct(of(TYPES), many(depth, width())),
        _ => Ty::Tuple(many(depth, 1)),
    }
}
fn option_ty(depth: u32) -> Ty {
    let t = any_ty(depth);
    Ty::Option(Box::new(if t.nullish() { Ty::U32 } else { t }))
}
fn unit_ty() -> Ty {
    if chance(1, 2) {
        Ty::UnitStruct(of(TYPES))
    } else {
        Ty::Unit
    }
}

/// `depth` layers of anything but scalars may follow.
fn any_ty(depth: u32) -> Ty {
    if depth == 0 {
        return if chance(1, 12) { unit_ty() } else { scalar() };
    }
    let d = depth - 1;
    match pick(16) {
        7 | 8 => option_ty(d),
        9 => Ty::Newtype(of(TYPES), Box::new(any_ty(d))),
        10 | 11 => list_ty(d),
        12 => map_ty(d),
        13 => struct_ty(d),
        14 => enum_ty(d),
        15 => unit_ty(),
        _ => scalar(),
    }
}

/// Many layers, each with one value of the next.
fn tower(layers: u32) -> Ty {
    let mut t = scalar();
    for _ in 0..layers {
        t = match pick(9) {
            0 if !t.nullish() => Ty::Option(Box::new(t)),
            1 if !t.empty() => Ty::Seq(Box::new(t), pick(3) < 2),
            2 => Ty::Newtype(of(TYPES), Box::new(t)),
            3 => Ty::Enum(of(TYPES), some(VARIANTS, 1), vec![Var::Newtype(t)]),
            4 => Ty::Map(Box::new(Ty::Str), Box::new(t), pick(3) < 2),
            5 => Ty::Tuple(vec![t, Ty::U32]),
            6 => Ty::TupleStruct(of(TYPES), vec![Ty::U8, t]),
            7 => Ty::Enum(of(TYPES), some(VARIANTS, 1), vec![if chance(1, 2) { Var::Tuple(vec![t]) } else { Var::Struct(some(FIELDS, 1), vec![t]) }]),
            _ => Ty::Struct(of(TYPES), some(FIELDS, 2), vec![Ty::Bool, t], false),
        };
    }
    t
}

fn root(kind: Kind) -> Ty {
    if let Some(n) = scale::layers() {
        let t = tower(n);
        return match kind {
            Kind::Struct => Ty::Struct(of(TYPES), some(FIELDS, 2), vec![t, Ty::Str], false),
            Kind::Map => Ty::Map(Box::new(Ty::Str), Box::new(if t.empty() { Ty::U32 } else { t }), pick(3) < 2),
            Kind::Unit => unit_ty(),
            Kind::Option => Ty::Option(Box::new(if t.nullish() { Ty::U32 } else { t })),
            Kind::Enum => Ty::Enum(of(TYPES), some(VARIANTS, 1), vec![Var::Newtype(t)]),
            Kind::Value => Ty::Tuple(vec![t]),
        };
    }
    let depth = pick(4);
    let mut t = match kind {
        Kind::Struct => struct_ty(depth),
        Kind::Map => map_ty(depth),
        Kind::Unit => unit_ty(),
        // Formats that cannot tell Some(None) from None do not carry it.
        Kind::Option if chance(1, 4) => {
            let t = match pick(3) {
                0 => unit_ty(),
                _ => option_ty(depth.min(1)),
            };
            Ty::Option(Box::new(if chance(1, 4) { Ty::Newtype(of(TYPES), Box::new(t)) } else { t }))
        }
        Kind::Option => option_ty(depth),
        Kind::Enum => enum_ty(depth),
        Kind::Value if chance(1, 2) => list_ty(depth),
        Kind::Value => match scalar() {
            // Its kind depends on the value.
            Ty::Any => Ty::Str,
            t => t,
        },
    };
    // What is left out shifts all that follows in formats that do not tell, and lengths
    // read from elsewhere are beyond bounds.
    if t.has(&|t| matches!(t, Ty::Str | Ty::Text | Ty::Borrowed | Ty::Ident | Ty::Bytes | Ty::Slice | Ty::Seq(..) | Ty::Map(..) | Ty::Any)) {
        t.keep_all();
    }
    match pick(6) {
        5 => Ty::Newtype(of(TYPES), Box::new(Ty::Newtype(of(TYPES), Box::new(t)))),
        4 => Ty::Newtype(of(TYPES), Box::new(t)),
        _ => t,
    }
}

impl Ty {
    fn keep_all(&mut self) {
        if let Ty::Struct(_, _, _, skip) = self {
            *skip = false;
        }
        match self {
            Ty::Option(t) | Ty::Newtype(_, t) | Ty::Seq(t, _) | Ty::Map(_, t, _) => t.keep_all(),
            Ty::Tuple(v) | Ty::TupleStruct(_, v) | Ty::Struct(_, _, v, _) => v.iter_mut().for_each(Ty::keep_all),
            Ty::Enum(_, _, v) => v.iter_mut().for_each(|v| match v {
                Var::Unit => {}
                Var::Newtype(t) => t.keep_all(),
                Var::Tuple(v) | Var::Struct(_, v) => v.iter_mut().for_each(Ty::keep_all),
            }),
            _ => {}
        }
    }

    /// Whether null is one of its values.
    fn nullish(&self) -> bool {
        match self {
            Ty::Unit | Ty::UnitStruct(_) | Ty::Option(_) | Ty::Any => true,
            Ty::Newtype(_, t) => t.nullish(),
            _ => false,
        }
    }

    /// Whether it may take no bytes at all in some format: a list of such has no bound.
    fn empty(&self) -> bool {
        match self {
            Ty::Unit | Ty::UnitStruct(_) => true,
            Ty::Newtype(_, t) => t.empty(),
            Ty::Tuple(v) | Ty::TupleStruct(_, v) | Ty::Struct(_, _, v, _) => v.iter().all(Ty::empty),
            _ => false,
        }
    }

    fn has(&self, f: &dyn Fn(&Ty) -> bool) -> bool {
        let all = |v: &Vec<Ty>| v.iter().any(|t| t.has(f));
        f(self)
            || match self {
                Ty::Option(t) | Ty::Newtype(_, t) | Ty::Seq(t, _) => t.has(f),
                Ty::Map(k, v, _) => k.has(f) || v.has(f),
                Ty::Tuple(v) | Ty::TupleStruct(_, v) | Ty::Struct(_, _, v, _) => all(v),
                Ty::Enum(_, _, v) => v.iter().any(|v| match v {
                    Var::Unit => false,
                    Var::Newtype(t) => t.has(f),
                    Var::Tuple(v) | Var::Struct(_, v) => all(v),
                }),
                _ => false,
            }
    }
}

// ---------------------------------------------------------------- one per kind

const KINDS: usize = 6;
static OFTEN: AtomicBool = AtomicBool::new(false);
static NOW: Mutex<[Option<Arc<Ty>>; KINDS]> = Mutex::new([const { None }; KINDS]);

/// Forgets the types of the last operation.
pub fn reset(probes: bool) {
    OFTEN.store(probes, Relaxed);
    *NOW.lock().unwrap_or_else(|e| e.into_inner()) = [const { None }; KINDS];
}

/// Draws all that have not been drawn yet.
pub fn draw() {
    for k in [Kind::Struct, Kind::Map, Kind::Unit, Kind::Option, Kind::Value, Kind::Enum] {
        schema(k, true);
    }
}

fn schema(kind: Kind, draw: bool) -> Arc<Ty> {
    let k = kind as usize;
    if let Some(t) = &NOW.lock().unwrap_or_else(|e| e.into_inner())[k] {
        return t.clone();
    }
    let t = Arc::new(if draw {
        root(kind)
    } else {
        match kind {
            Kind::Struct => Ty::Struct("Poly", &FIELDS[..1], vec![Ty::U32], false),
            Kind::Map => Ty::Map(Box::new(Ty::Str), Box::new(Ty::U32), true),
            Kind::Unit => Ty::Unit,
            Kind::Option => Ty::Option(Box::new(Ty::U32)),
            Kind::Enum => Ty::Enum("Poly", &VARIANTS[..2], vec![Var::Unit, Var::Newtype(Ty::U32)]),
            Kind::Value => Ty::U32,
        }
    });
    if draw {
        if crate::tracing() {
            crate::trace(&format!("  {} is {t:?}", name(kind)));
        }
        NOW.lock().unwrap_or_else(|e| e.into_inner())[k] = Some(t.clone());
    }
    t
}

const fn name(kind: Kind) -> &'static str {
    match kind {
        Kind::Struct => "PolyStruct",
        Kind::Map => "PolyMap",
        Kind::Unit => "PolyUnit",
        Kind::Option => "PolyOption",
        Kind::Value => "PolyValue",
        Kind::Enum => "PolyEnum",
    }
}

fn has(tag: &str, f: &dyn Fn(&Ty) -> bool) -> bool {
    [Kind::Struct, Kind::Map, Kind::Unit, Kind::Option, Kind::Value, Kind::Enum].into_iter().any(|k| name(k) == tag && schema(k, false).has(f))
}

/// Whether the type now registered under this tag has maps whose keys are not text.
pub fn odd_keys(tag: &str) -> bool {
    fn text(k: &Ty) -> bool {
        match k {
            Ty::Str | Ty::Text | Ty::Borrowed | Ty::Ident => true,
            Ty::Newtype(_, k) => text(k),
            Ty::Enum(_, _, v) => v.iter().all(|v| matches!(v, Var::Unit)),
            _ => false,
        }
    }
    has(tag, &|t| matches!(t, Ty::Map(k, _, _) if !text(k)))
}
pub fn wide(tag: &str) -> bool {
    has(tag, &|t| matches!(t, Ty::U128 | Ty::I128))
}
pub fn unit_structs(tag: &str) -> bool {
    has(tag, &|t| matches!(t, Ty::UnitStruct(_)))
}
pub fn probed(tag: &str) -> bool {
    has(tag, &|t| matches!(t, Ty::Probe))
}
/// Whether some of it is passed over, whatever it is.
pub fn skips(tag: &str) -> bool {
    has(tag, &|t| matches!(t, Ty::Skip))
}
/// Whether values of it are told apart by what the format has to say about them.
pub fn loose(tag: &str) -> bool {
    has(tag, &|t| matches!(t, Ty::Any))
}

// ---------------------------------------------------------------- values

fn key_order(v: Vec<(Tree, Tree)>) -> Vec<(Tree, Tree)> {
    // The last of equal keys counts.
    let m: std::collections::BTreeMap<String, (Tree, Tree)> = v.into_iter().map(|e| (format!("{:?}", e.0), e)).collect();
    m.into_values().collect()
}

fn any_value(depth: u32) -> Tree {
    match pick(if depth == 0 { 4 } else { 6 }) {
        0 => T::Unit,
        1 => T::Bool(Gen::gen()),
        2 => T::I64(Gen::gen()),
        3 => T::Str(Gen::gen()),
        4 => T::Seq((0..pick(3)).map(|_| any_value(depth - 1)).collect(), true),
        _ => T::Map(key_order((0..pick(3)).map(|_| (T::Str(Key::gen().0), any_value(depth - 1))).collect()), true),
    }
}

fn key_value(t: &Ty) -> Tree {
    match t {
        Ty::Str | Ty::Text | Ty::Borrowed | Ty::Ident => T::Str(Key::gen().0),
        Ty::Newtype(n, t) => T::Newtype(n, Box::new(key_value(t))),
        t => value(t),
    }
}

fn length() -> u32 {
    if scale::deep() {
        return 1;
    }
    scale::elements().unwrap_or_else(|| pick(4))
}

fn value(t: &Ty) -> Tree {
    match t {
        Ty::Bool => T::Bool(Gen::gen()),
        Ty::I8 => T::I8(Gen::gen()),
        Ty::I16 => T::I16(Gen::gen()),
        Ty::I32 => T::I32(Gen::gen()),
        Ty::I64 => T::I64(Gen::gen()),
        Ty::I128 => T::I128(Gen::gen()),
        Ty::U8 => T::U8(Gen::gen()),
        Ty::U16 => T::U16(Gen::gen()),
        Ty::U32 => T::U32(Gen::gen()),
        Ty::U64 => T::U64(Gen::gen()),
        Ty::U128 => T::U128(Gen::gen()),
        Ty::F32 => T::F32(Gen::gen()),
        Ty::F64 => T::F64(Gen::gen()),
        Ty::Char => T::Char(Gen::gen()),
        Ty::Str | Ty::Borrowed | Ty::Ident | Ty::Text => T::Str(Gen::gen()),
        Ty::Bytes | Ty::Slice => T::Bytes(Gen::gen()),
        Ty::Probe => T::U32(pick(1000)),
        Ty::Any => any_value(2),
        Ty::Skip => T::U32(7),
        Ty::Unit => T::Unit,
        Ty::UnitStruct(n) => T::UnitStruct(n),
        Ty::Option(t) => {
            if scale::deep() || pick(3) > 0 {
                T::Some(Box::new(value(t)))
            } else {
                T::None
            }
        }
        Ty::Newtype(n, t) => T::Newtype(n, Box::new(value(t))),
        Ty::Seq(t, known) => T::Seq((0..length()).map(|_| value(t)).collect(), *known),
        Ty::Tuple(v) => T::Tuple(v.iter().map(value).collect()),
        Ty::TupleStruct(n, v) => T::TupleStruct(n, v.iter().map(value).collect()),
        Ty::Map(k, v, known) => {
            let n = length();
            // Many keys are all different.
            T::Map(key_order((0..n).map(|i| (if n > 30 && matches!(**k, Ty::Str) { T::Str(format!("key {i}")) } else { key_value(k) }, value(v))).collect()), *known)
        }
        Ty::Struct(n, f, v, _) => T::Struct(n, f.iter().zip(v).map(|(f, t)| (*f, value(t))).collect()),
        Ty::Enum(n, names, v) => {
            let i = usize_below(v.len());
            let (x, w) = (i as u32, names[i]);
            match &v[i] {
                Var::Unit => T::UnitVariant(n, x, w),
                Var::Newtype(t) => T::NewtypeVariant(n, x, w, Box::new(value(t))),
                Var::Tuple(v) => T::TupleVariant(n, x, w, v.iter().map(value).collect()),
                Var::Struct(f, v) => T::StructVariant(n, x, w, f.iter().zip(v).map(|(f, t)| (*f, value(t))).collect()),
            }
        }
    }
}

// ---------------------------------------------------------------- writing

struct Put<'a>(&'a Ty, &'a Tree);

impl Serialize for Put<'_> {
    fn serialize<S: Serializer>(&self, z: S) -> Result<S::Ok, S::Error> {
        match (self.0, self.1) {
            (Ty::Probe, T::U32(n)) => {
                tick("Probe::serialize, before").map_err(ser::Error::custom)?;
                let ok = z.serialize_u32(*n)?;
                tick("Probe::serialize, after").map_err(ser::Error::custom)?;
                Ok(ok)
            }
            (Ty::Text, T::Str(x)) => z.collect_str(x),
            (Ty::Option(t), T::Some(x)) => z.serialize_some(&Put(t, x)),
            (Ty::Newtype(n, t), T::Newtype(_, x)) => z.serialize_newtype_struct(n, &Put(t, x)),
            (Ty::Seq(t, known), T::Seq(v, _)) => {
                let mut q = z.serialize_seq(known.then_some(v.len()))?;
                for x in v {
                    q.serialize_element(&Put(t, x))?;
                }
                q.end()
            }
            (Ty::Tuple(ts), T::Tuple(v)) => {
                let mut q = z.serialize_tuple(v.len())?;
                for (t, x) in ts.iter().zip(v) {
                    q.serialize_element(&Put(t, x))?;
                }
                q.end()
            }
            (Ty::TupleStruct(n, ts), T::TupleStruct(_, v)) => {
                let mut q = z.serialize_tuple_struct(n, v.len())?;
                for (t, x) in ts.iter().zip(v) {
                    q.serialize_field(&Put(t, x))?;
                }
                q.end()
            }
            (Ty::Map(kt, vt, known), T::Map(v, _)) => {
                let mut q = z.serialize_map(known.then_some(v.len()))?;
                for (i, (k, x)) in v.iter().enumerate() {
                    if i % 2 == 0 {
                        q.serialize_entry(&Put(kt, k), &Put(vt, x))?;
                    } else {
                        q.serialize_key(&Put(kt, k))?;
                        q.serialize_value(&Put(vt, x))?;
                    }
                }
                q.end()
            }
            (Ty::Struct(n, _, ts, skip), T::Struct(_, v)) => {
                let left_out = |x: &Tree| *skip && *x == T::None;
                let mut q = z.serialize_struct(n, v.iter().filter(|(_, x)| !left_out(x)).count())?;
                for (t, (k, x)) in ts.iter().zip(v) {
                    if left_out(x) {
                        q.skip_field(k)?;
                    } else {
                        q.serialize_field(k, &Put(t, x))?;
                    }
                }
                q.end()
            }
            (Ty::Enum(n, _, vars), x) => match (x, vars) {
                (T::NewtypeVariant(_, i, w, x), v) => match &v[*i as usize] {
                    Var::Newtype(t) => z.serialize_newtype_variant(n, *i, w, &Put(t, x)),
                    _ => unreachable!(),
                },
                (T::TupleVariant(_, i, w, xs), v) => {
                    let Var::Tuple(ts) = &v[*i as usize] else { unreachable!() };
                    let mut q = z.serialize_tuple_variant(n, *i, w, xs.len())?;
                    for (t, x) in ts.iter().zip(xs) {
                        q.serialize_field(&Put(t, x))?;
                    }
                    q.end()
                }
                (T::StructVariant(_, i, w, xs), v) => {
                    let Var::Struct(_, ts) = &v[*i as usize] else { unreachable!() };
                    let mut q = z.serialize_struct_variant(n, *i, w, xs.len())?;
                    for (t, (k, x)) in ts.iter().zip(xs) {
                        q.serialize_field(k, &Put(t, x))?;
                    }
                    q.end()
                }
                (x, _) => x.serialize(z),
            },
            (_, x) => x.serialize(z),
        }
    }
}

// ---------------------------------------------------------------- reading

#[derive(Clone, Copy)]
struct Get<'t>(&'t Ty);

impl<'de> DeserializeSeed<'de> for Get<'_> {
    type Value = Tree;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Tree, D::Error> {
        match self.0 {
            Ty::Bool => bool::deserialize(d).map(T::Bool),
            Ty::I8 => i8::deserialize(d).map(T::I8),
            Ty::I16 => i16::deserialize(d).map(T::I16),
            Ty::I32 => i32::deserialize(d).map(T::I32),
            Ty::I64 => i64::deserialize(d).map(T::I64),
            Ty::I128 => i128::deserialize(d).map(T::I128),
            Ty::U8 => u8::deserialize(d).map(T::U8),
            Ty::U16 => u16::deserialize(d).map(T::U16),
            Ty::U32 => u32::deserialize(d).map(T::U32),
            Ty::U64 => u64::deserialize(d).map(T::U64),
            Ty::U128 => u128::deserialize(d).map(T::U128),
            Ty::F32 => f32::deserialize(d).map(T::F32),
            Ty::F64 => f64::deserialize(d).map(T::F64),
            Ty::Char => char::deserialize(d).map(T::Char),
            Ty::Str => String::deserialize(d).map(T::Str),
            Ty::Borrowed | Ty::Text => d.deserialize_str(Text),
            Ty::Ident => d.deserialize_identifier(Text),
            Ty::Bytes => Bytes::deserialize(d).map(|b| T::Bytes(b.0)),
            Ty::Slice => d.deserialize_bytes(Slice),
            Ty::Probe => {
                tick("Probe::deserialize, before").map_err(de::Error::custom)?;
                let n = u32::deserialize(d)?;
                tick("Probe::deserialize, after").map_err(de::Error::custom)?;
                Ok(T::U32(n))
            }
            Ty::Any => d.deserialize_any(Anything),
            Ty::Skip => IgnoredAny::deserialize(d).map(|_| T::U32(7)),
            Ty::Unit => <()>::deserialize(d).map(|()| T::Unit),
            Ty::UnitStruct(n) => d.deserialize_unit_struct(n, self),
            Ty::Option(_) => d.deserialize_option(self),
            Ty::Newtype(n, _) => d.deserialize_newtype_struct(n, self),
            Ty::Seq(..) => d.deserialize_seq(self),
            Ty::Tuple(v) => d.deserialize_tuple(v.len(), self),
            Ty::TupleStruct(n, v) => d.deserialize_tuple_struct(n, v.len(), self),
            Ty::Map(..) => d.deserialize_map(self),
            Ty::Struct(n, f, _, _) => d.deserialize_struct(n, f, self),
            Ty::Enum(n, v, _) => d.deserialize_enum(n, v, self),
        }
    }
}

fn listed<'de, A: SeqAccess<'de>>(ts: &[Ty], a: &mut A, exp: &dyn de::Expected) -> Result<Vec<Tree>, A::Error> {
    let mut v = Vec::new();
    for (i, t) in ts.iter().enumerate() {
        match a.next_element_seed(Get(t))? {
            Some(x) => v.push(x),
            None => return Err(de::Error::invalid_length(i, exp)),
        }
    }
    Ok(v)
}

fn fields<'de, A: MapAccess<'de>>(names: Names, ts: &[Ty], mut a: A) -> Result<Vec<(&'static str, Tree)>, A::Error> {
    let mut got: Vec<Option<Tree>> = ts.iter().map(|_| None).collect();
    while let Some(i) = a.next_key_seed(Ident(names, true))? {
        if i == usize::MAX {
            a.next_value::<IgnoredAny>()?;
        } else if got[i].is_some() {
            return Err(de::Error::duplicate_field(names[i]));
        } else {
            got[i] = Some(a.next_value_seed(Get(&ts[i]))?);
        }
    }
    got.into_iter()
        .enumerate()
        .map(|(i, x)| match (x, &ts[i]) {
            (Some(x), _) => Ok((names[i], x)),
            (None, Ty::Option(_)) => Ok((names[i], T::None)),
            (None, _) => Err(de::Error::missing_field(names[i])),
        })
        .collect()
}

impl<'de> Visitor<'de> for Get<'_> {
    type Value = Tree;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self.0 {
            Ty::Struct(n, ..) => write!(f, "struct {n}"),
            Ty::Enum(n, ..) => write!(f, "enum {n}"),
            Ty::UnitStruct(n) => write!(f, "unit struct {n}"),
            Ty::Tuple(v) => write!(f, "a tuple of size {}", v.len()),
            Ty::TupleStruct(n, _) => write!(f, "tuple struct {n}"),
            Ty::Newtype(n, _) => write!(f, "newtype struct {n}"),
            Ty::Option(_) => write!(f, "an option"),
            Ty::Seq(..) => write!(f, "a sequence"),
            _ => write!(f, "a map"),
        }
    }
    fn visit_unit<E: de::Error>(self) -> Result<Tree, E> {
        match self.0 {
            Ty::UnitStruct(n) => Ok(T::UnitStruct(n)),
            Ty::Option(_) => Ok(T::None),
            _ => Err(E::invalid_type(de::Unexpected::Unit, &self)),
        }
    }
    fn visit_none<E: de::Error>(self) -> Result<Tree, E> {
        match self.0 {
            Ty::Option(_) => Ok(T::None),
            _ => Err(E::invalid_type(de::Unexpected::Option, &self)),
        }
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<Tree, D::Error> {
        match self.0 {
            Ty::Option(t) => Get(t).deserialize(d).map(|x| T::Some(Box::new(x))),
            _ => Err(de::Error::invalid_type(de::Unexpected::Option, &self)),
        }
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<Tree, D::Error> {
        match self.0 {
            Ty::Newtype(n, t) => Get(t).deserialize(d).map(|x| T::Newtype(n, Box::new(x))),
            _ => Err(de::Error::invalid_type(de::Unexpected::NewtypeStruct, &self)),
        }
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Tree, A::Error> {
        match self.0 {
            Ty::Newtype(n, t) => Ok(T::Newtype(n, Box::new(listed(std::slice::from_ref(t), &mut a, &self)?.remove(0)))),
            Ty::Seq(t, known) => {
                let mut v = Vec::new();
                while let Some(x) = a.next_element_seed(Get(t))? {
                    v.push(x);
                }
                Ok(T::Seq(v, *known))
            }
            Ty::Tuple(ts) => Ok(T::Tuple(listed(ts, &mut a, &self)?)),
            Ty::TupleStruct(n, ts) => Ok(T::TupleStruct(n, listed(ts, &mut a, &self)?)),
            Ty::Struct(n, f, ts, _) => Ok(T::Struct(n, f.iter().copied().zip(listed(ts, &mut a, &self)?).collect())),
            _ => Err(de::Error::invalid_type(de::Unexpected::Seq, &self)),
        }
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Tree, A::Error> {
        match self.0 {
            Ty::Map(kt, vt, known) => {
                let mut v = Vec::new();
                let mut turn = false;
                loop {
                    turn = !turn;
                    if turn {
                        match a.next_entry_seed(Get(kt), Get(vt))? {
                            Some(e) => v.push(e),
                            None => break,
                        }
                    } else {
                        match a.next_key_seed(Get(kt))? {
                            Some(k) => v.push((k, a.next_value_seed(Get(vt))?)),
                            None => break,
                        }
                    }
                }
                Ok(T::Map(key_order(v), *known))
            }
            Ty::Struct(n, f, ts, _) => Ok(T::Struct(n, fields(f, ts, a)?)),
            _ => Err(de::Error::invalid_type(de::Unexpected::Map, &self)),
        }
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<Tree, A::Error> {
        let Ty::Enum(n, names, vars) = self.0 else {
            return Err(de::Error::invalid_type(de::Unexpected::Enum, &self));
        };
        let (i, v) = a.variant_seed(Ident(names, false))?;
        let (x, w) = (i as u32, names[i]);
        match &vars[i] {
            Var::Unit => v.unit_variant().map(|()| T::UnitVariant(n, x, w)),
            Var::Newtype(t) => Ok(T::NewtypeVariant(n, x, w, Box::new(v.newtype_variant_seed(Get(t))?))),
            // As derived code does.
            Var::Tuple(ts) if ts.len() == 1 && n.len() % 2 == 0 => v.tuple_variant(1, Inside(names[i], n, x, &vars[i])),
            Var::Tuple(ts) => v.tuple_variant(ts.len(), Inside(names[i], n, x, &vars[i])),
            Var::Struct(f, _) => v.struct_variant(f, Inside(names[i], n, x, &vars[i])),
        }
    }
}

/// What a variant holds.
struct Inside<'t>(&'static str, &'static str, u32, &'t Var);
impl<'de> Visitor<'de> for Inside<'_> {
    type Value = Tree;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "variant {}::{}", self.1, self.0)
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Tree, A::Error> {
        match self.3 {
            Var::Tuple(ts) => Ok(T::TupleVariant(self.1, self.2, self.0, listed(ts, &mut a, &self)?)),
            Var::Struct(f, ts) => Ok(T::StructVariant(self.1, self.2, self.0, f.iter().copied().zip(listed(ts, &mut a, &self)?).collect())),
            _ => Err(de::Error::invalid_type(de::Unexpected::Seq, &self)),
        }
    }
    fn visit_map<A: MapAccess<'de>>(self, a: A) -> Result<Tree, A::Error> {
        match self.3 {
            Var::Struct(f, ts) => Ok(T::StructVariant(self.1, self.2, self.0, fields(f, ts, a)?)),
            _ => Err(de::Error::invalid_type(de::Unexpected::Map, &self)),
        }
    }
}

/// A field or variant name, or its index.
struct Ident(Names, bool);
impl<'de> DeserializeSeed<'de> for Ident {
    type Value = usize;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<usize, D::Error> {
        d.deserialize_identifier(self)
    }
}
impl<'de> Visitor<'de> for Ident {
    type Value = usize;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(if self.1 { "field identifier" } else { "variant identifier" })
    }
    fn visit_u64<E: de::Error>(self, n: u64) -> Result<usize, E> {
        match n {
            n if n < self.0.len() as u64 => Ok(n as usize),
            _ if self.1 => Ok(usize::MAX),
            n => Err(E::invalid_value(de::Unexpected::Unsigned(n), &self)),
        }
    }
    fn visit_str<E: de::Error>(self, x: &str) -> Result<usize, E> {
        match self.0.iter().position(|n| *n == x) {
            Some(i) => Ok(i),
            None if self.1 => Ok(usize::MAX),
            None => Err(E::unknown_variant(x, self.0)),
        }
    }
    fn visit_bytes<E: de::Error>(self, x: &[u8]) -> Result<usize, E> {
        match self.0.iter().position(|n| n.as_bytes() == x) {
            Some(i) => Ok(i),
            None if self.1 => Ok(usize::MAX),
            None => Err(E::unknown_variant(&String::from_utf8_lossy(x), self.0)),
        }
    }
}

struct Text;
impl Visitor<'_> for Text {
    type Value = Tree;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("text")
    }
    fn visit_str<E>(self, x: &str) -> Result<Tree, E> {
        Ok(T::Str(x.into()))
    }
}

struct Slice;
impl<'de> Visitor<'de> for Slice {
    type Value = Tree;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("bytes")
    }
    fn visit_bytes<E>(self, x: &[u8]) -> Result<Tree, E> {
        Ok(T::Bytes(x.into()))
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Tree, A::Error> {
        let mut v = Vec::new();
        while let Some(b) = a.next_element()? {
            v.push(b);
        }
        Ok(T::Bytes(v))
    }
}

struct Anything;
impl<'de> DeserializeSeed<'de> for Anything {
    type Value = Tree;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Tree, D::Error> {
        d.deserialize_any(self)
    }
}
impl<'de> Visitor<'de> for Anything {
    type Value = Tree;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("anything")
    }
    fn visit_bool<E>(self, v: bool) -> Result<Tree, E> {
        Ok(T::Bool(v))
    }
    fn visit_i64<E>(self, v: i64) -> Result<Tree, E> {
        Ok(T::I64(v))
    }
    fn visit_u64<E>(self, v: u64) -> Result<Tree, E> {
        Ok(i64::try_from(v).map(T::I64).unwrap_or(T::U64(v)))
    }
    fn visit_f64<E>(self, v: f64) -> Result<Tree, E> {
        Ok(T::F64(v))
    }
    fn visit_str<E>(self, v: &str) -> Result<Tree, E> {
        Ok(T::Str(v.into()))
    }
    fn visit_bytes<E>(self, v: &[u8]) -> Result<Tree, E> {
        Ok(T::Bytes(v.into()))
    }
    fn visit_unit<E>(self) -> Result<Tree, E> {
        Ok(T::Unit)
    }
    fn visit_none<E>(self) -> Result<Tree, E> {
        Ok(T::Unit)
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<Tree, D::Error> {
        d.deserialize_any(Anything)
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<Tree, D::Error> {
        d.deserialize_any(Anything)
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Tree, A::Error> {
        let mut v = Vec::new();
        while let Some(x) = a.next_element_seed(Anything)? {
            v.push(x);
        }
        Ok(T::Seq(v, true))
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Tree, A::Error> {
        let mut v = Vec::new();
        while let Some(e) = a.next_entry_seed(Anything, Anything)? {
            v.push(e);
        }
        Ok(T::Map(key_order(v), true))
    }
}

// ---------------------------------------------------------------- the types

macro_rules! polys {
    ($($t:ident $kind:ident;)*) => { $(
        pub struct $t(Arc<Ty>, Tree);
        impl fmt::Debug for $t {
            fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                write!(f, "{:?}", self.1)
            }
        }
        impl Gen for $t {
            fn gen() -> Self {
                let t = schema(Kind::$kind, true);
                let v = value(&t);
                $t(t, v)
            }
        }
        impl Serialize for $t {
            fn serialize<S: Serializer>(&self, z: S) -> Result<S::Ok, S::Error> {
                Put(&self.0, &self.1).serialize(z)
            }
        }
        impl<'de> Deserialize<'de> for $t {
            fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
                let t = schema(Kind::$kind, false);
                let v = Get(&t).deserialize(d)?;
                Ok($t(t, v))
            }
        }
    )* };
}
polys! {
    PolyStruct Struct;
    PolyMap Map;
    PolyUnit Unit;
    PolyOption Option;
    PolyValue Value;
    PolyEnum Enum;
}

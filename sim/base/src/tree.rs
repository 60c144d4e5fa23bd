//! The serde data model as a value.  `Tree` is what the simulated serializer
//! produces, what the simulated deserializer delivers, and what the reference
//! model computes with.  Replaying a `Tree` into a real format gives the bytes the
//! original sequence of calls would have given.
use serde::ser::*;
use std::fmt::Write;

#[derive(Clone, Debug)]
pub enum Tree {
    Bool(bool),
    I8(i8),
    I16(i16),
    I32(i32),
    I64(i64),
    I128(i128),
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
    U128(u128),
    F32(f32),
    F64(f64),
    Char(char),
    Str(String),
    Bytes(Vec<u8>),
    None,
    Some(Box<Tree>),
    Unit,
    UnitStruct(&'static str),
    UnitVariant(&'static str, u32, &'static str),
    Newtype(&'static str, Box<Tree>),
    NewtypeVariant(&'static str, u32, &'static str, Box<Tree>),
    /// The flag says whether the length was declared up front.
    Seq(Vec<Tree>, bool),
    Tuple(Vec<Tree>),
    TupleStruct(&'static str, Vec<Tree>),
    TupleVariant(&'static str, u32, &'static str, Vec<Tree>),
    Map(Vec<(Tree, Tree)>, bool),
    Struct(&'static str, Vec<(&'static str, Tree)>),
    StructVariant(&'static str, u32, &'static str, Vec<(&'static str, Tree)>),
}

use Tree as T;

/// Nothing but what is not a number differs from derived equality: it equals itself.
impl PartialEq for Tree {
    fn eq(&self, other: &Tree) -> bool {
        match (self, other) {
            (T::Bool(a), T::Bool(b)) => a == b,
            (T::I8(a), T::I8(b)) => a == b,
            (T::I16(a), T::I16(b)) => a == b,
            (T::I32(a), T::I32(b)) => a == b,
            (T::I64(a), T::I64(b)) => a == b,
            (T::I128(a), T::I128(b)) => a == b,
            (T::U8(a), T::U8(b)) => a == b,
            (T::U16(a), T::U16(b)) => a == b,
            (T::U32(a), T::U32(b)) => a == b,
            (T::U64(a), T::U64(b)) => a == b,
            (T::U128(a), T::U128(b)) => a == b,
            (T::F32(a), T::F32(b)) => a == b || a.is_nan() && b.is_nan(),
            (T::F64(a), T::F64(b)) => a == b || a.is_nan() && b.is_nan(),
            (T::Char(a), T::Char(b)) => a == b,
            (T::Str(a), T::Str(b)) => a == b,
            (T::Bytes(a), T::Bytes(b)) => a == b,
            (T::None, T::None) | (T::Unit, T::Unit) => true,
            (T::Some(a), T::Some(b)) => a == b,
            (T::UnitStruct(a), T::UnitStruct(b)) => a == b,
            (T::UnitVariant(a, i, v), T::UnitVariant(b, j, w)) => (a, i, v) == (b, j, w),
            (T::Newtype(n, a), T::Newtype(m, b)) => (n, a) == (m, b),
            (T::NewtypeVariant(n, i, v, a), T::NewtypeVariant(m, j, w, b)) => (n, i, v, a) == (m, j, w, b),
            (T::Seq(a, x), T::Seq(b, y)) => (a, x) == (b, y),
            (T::Tuple(a), T::Tuple(b)) => a == b,
            (T::TupleStruct(n, a), T::TupleStruct(m, b)) => (n, a) == (m, b),
            (T::TupleVariant(n, i, v, a), T::TupleVariant(m, j, w, b)) => (n, i, v, a) == (m, j, w, b),
            (T::Map(a, x), T::Map(b, y)) => (a, x) == (b, y),
            (T::Struct(n, a), T::Struct(m, b)) => (n, a) == (m, b),
            (T::StructVariant(n, i, v, a), T::StructVariant(m, j, w, b)) => (n, i, v, a) == (m, j, w, b),
            _ => false,
        }
    }
}

pub fn s(x: &str) -> Tree {
    T::Str(x.to_owned())
}

impl Tree {
    /// Contents that were buffered are replayed with known lengths.
    pub fn buffered(self) -> Tree {
        match self {
            T::Some(b) => T::Some(Box::new(b.buffered())),
            T::Newtype(n, b) => T::Newtype(n, Box::new(b.buffered())),
            T::NewtypeVariant(n, i, v, b) => T::NewtypeVariant(n, i, v, Box::new(b.buffered())),
            T::Seq(v, _) => T::Seq(v.into_iter().map(Tree::buffered).collect(), true),
            T::Tuple(v) => T::Tuple(v.into_iter().map(Tree::buffered).collect()),
            T::TupleStruct(n, v) => T::TupleStruct(n, v.into_iter().map(Tree::buffered).collect()),
            T::TupleVariant(n, i, w, v) => {
                T::TupleVariant(n, i, w, v.into_iter().map(Tree::buffered).collect())
            }
            T::Map(v, _) => T::Map(
                v.into_iter().map(|(k, v)| (k.buffered(), v.buffered())).collect(),
                true,
            ),
            T::Struct(n, v) => {
                T::Struct(n, v.into_iter().map(|(k, v)| (k, v.buffered())).collect())
            }
            T::StructVariant(n, i, w, v) => {
                T::StructVariant(n, i, w, v.into_iter().map(|(k, v)| (k, v.buffered())).collect())
            }
            other => other,
        }
    }

    /// Whether some length was not declared.
    pub fn has_unknown_len(&self) -> bool {
        match self {
            T::Seq(_, false) | T::Map(_, false) => true,
            _ => self.children().iter().any(|c| c.has_unknown_len()),
        }
    }

    /// Whether some part of it is so.
    pub fn any(&self, f: &dyn Fn(&Tree) -> bool) -> bool {
        f(self) || self.children().iter().any(|c| c.any(f))
    }

    pub fn children(&self) -> Vec<&Tree> {
        match self {
            T::Some(b) | T::Newtype(_, b) | T::NewtypeVariant(_, _, _, b) => vec![b],
            T::Seq(v, _) | T::Tuple(v) | T::TupleStruct(_, v) | T::TupleVariant(_, _, _, v) => {
                v.iter().collect()
            }
            T::Map(v, _) => v.iter().flat_map(|(k, v)| [k, v]).collect(),
            T::Struct(_, v) | T::StructVariant(_, _, _, v) => v.iter().map(|(_, v)| v).collect(),
            _ => Vec::new(),
        }
    }

    pub fn size(&self) -> usize {
        1 + self.children().iter().map(|c| c.size()).sum::<usize>()
    }

    /// Forget distinctions that no wire format keeps: names, newtypes, struct
    /// versus map, kinds of tuples, declared lengths.
    pub fn normal(&self) -> Tree {
        let vs = |v: &Vec<Tree>| v.iter().map(Tree::normal).collect::<Vec<_>>();
        let fs = |v: &Vec<(&'static str, Tree)>| {
            T::Map(v.iter().map(|(k, v)| (s(k), v.normal())).collect(), true)
        };
        match self {
            T::Some(b) => T::Some(Box::new(b.normal())),
            T::UnitStruct(_) => T::Unit,
            T::UnitVariant(_, _, v) => T::UnitVariant("", 0, v),
            T::Newtype(_, b) => b.normal(),
            T::NewtypeVariant(_, _, v, b) => T::NewtypeVariant("", 0, v, Box::new(b.normal())),
            T::Seq(v, _) | T::Tuple(v) | T::TupleStruct(_, v) => T::Seq(vs(v), true),
            T::TupleVariant(_, _, w, v) => T::NewtypeVariant("", 0, w, Box::new(T::Seq(vs(v), true))),
            T::Map(v, _) => T::Map(v.iter().map(|(k, v)| (k.normal(), v.normal())).collect(), true),
            T::Struct(_, v) => fs(v),
            T::StructVariant(_, _, w, v) => T::NewtypeVariant("", 0, w, Box::new(fs(v))),
            other => other.clone(),
        }
    }

    /// Short single-line rendering for traces.
    pub fn show(&self) -> String {
        let mut o = String::new();
        self.show_to(&mut o);
        if o.len() > 400 {
            let mut n = 400;
            while !o.is_char_boundary(n) {
                n -= 1;
            }
            o.truncate(n);
            o.push_str("...");
        }
        o
    }

    fn show_to(&self, o: &mut String) {
        let list = |o: &mut String, v: &[Tree], a: &str, b: &str| {
            o.push_str(a);
            for (i, x) in v.iter().enumerate() {
                if i > 0 {
                    o.push_str(", ");
                }
                x.show_to(o);
            }
            o.push_str(b);
        };
        let fields = |o: &mut String, v: &[(&'static str, Tree)]| {
            o.push('{');
            for (i, (k, x)) in v.iter().enumerate() {
                if i > 0 {
                    o.push_str(", ");
                }
                let _ = write!(o, "{k}: ");
                x.show_to(o);
            }
            o.push('}');
        };
        match self {
            T::Some(b) => {
                o.push_str("some ");
                b.show_to(o)
            }
            T::Newtype(n, b) => {
                let _ = write!(o, "{n}(");
                b.show_to(o);
                o.push(')');
            }
            T::NewtypeVariant(_, _, v, b) => {
                let _ = write!(o, "::{v}(");
                b.show_to(o);
                o.push(')');
            }
            T::UnitVariant(_, _, v) => {
                let _ = write!(o, "::{v}");
            }
            T::Seq(v, _) => list(o, v, "[", "]"),
            T::Tuple(v) => list(o, v, "(", ")"),
            T::TupleStruct(n, v) => {
                o.push_str(n);
                list(o, v, "(", ")")
            }
            T::TupleVariant(_, _, n, v) => {
                let _ = write!(o, "::{n}");
                list(o, v, "(", ")")
            }
            T::Map(v, _) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push_str(", ");
                    }
                    k.show_to(o);
                    o.push_str(" => ");
                    x.show_to(o);
                }
                o.push('}');
            }
            T::Struct(n, v) => {
                o.push_str(n);
                fields(o, v)
            }
            T::StructVariant(_, _, n, v) => {
                let _ = write!(o, "::{n}");
                fields(o, v)
            }
            other => {
                let _ = write!(o, "{other:?}");
            }
        }
    }
}

impl Serialize for Tree {
    fn serialize<S: Serializer>(&self, z: S) -> Result<S::Ok, S::Error> {
        match self {
            T::Bool(v) => z.serialize_bool(*v),
            T::I8(v) => z.serialize_i8(*v),
            T::I16(v) => z.serialize_i16(*v),
            T::I32(v) => z.serialize_i32(*v),
            T::I64(v) => z.serialize_i64(*v),
            T::I128(v) => z.serialize_i128(*v),
            T::U8(v) => z.serialize_u8(*v),
            T::U16(v) => z.serialize_u16(*v),
            T::U32(v) => z.serialize_u32(*v),
            T::U64(v) => z.serialize_u64(*v),
            T::U128(v) => z.serialize_u128(*v),
            T::F32(v) => z.serialize_f32(*v),
            T::F64(v) => z.serialize_f64(*v),
            T::Char(v) => z.serialize_char(*v),
            T::Str(v) => z.serialize_str(v),
            T::Bytes(v) => z.serialize_bytes(v),
            T::None => z.serialize_none(),
            T::Some(v) => z.serialize_some(&**v),
            T::Unit => z.serialize_unit(),
            T::UnitStruct(n) => z.serialize_unit_struct(n),
            T::UnitVariant(n, i, v) => z.serialize_unit_variant(n, *i, v),
            T::Newtype(n, v) => z.serialize_newtype_struct(n, &**v),
            T::NewtypeVariant(n, i, w, v) => z.serialize_newtype_variant(n, *i, w, &**v),
            T::Seq(v, known) => {
                let mut q = z.serialize_seq(known.then_some(v.len()))?;
                for x in v {
                    q.serialize_element(x)?;
                }
                q.end()
            }
            T::Tuple(v) => {
                let mut q = z.serialize_tuple(v.len())?;
                for x in v {
                    q.serialize_element(x)?;
                }
                q.end()
            }
            T::TupleStruct(n, v) => {
                let mut q = z.serialize_tuple_struct(n, v.len())?;
                for x in v {
                    q.serialize_field(x)?;
                }
                q.end()
            }
            T::TupleVariant(n, i, w, v) => {
                let mut q = z.serialize_tuple_variant(n, *i, w, v.len())?;
                for x in v {
                    q.serialize_field(x)?;
                }
                q.end()
            }
            T::Map(v, known) => {
                let mut q = z.serialize_map(known.then_some(v.len()))?;
                for (k, x) in v {
                    q.serialize_entry(k, x)?;
                }
                q.end()
            }
            T::Struct(n, v) => {
                let mut q = z.serialize_struct(n, v.len())?;
                for (k, x) in v {
                    q.serialize_field(k, x)?;
                }
                q.end()
            }
            T::StructVariant(n, i, w, v) => {
                let mut q = z.serialize_struct_variant(n, *i, w, v.len())?;
                for (k, x) in v {
                    q.serialize_field(k, x)?;
                }
                q.end()
            }
        }
    }
}

/// Reads any self-describing input into a tree (an independent buffer).
impl<'de> serde::Deserialize<'de> for Tree {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Tree, D::Error> {
        struct V;
        impl<'de> serde::de::Visitor<'de> for V {
            type Value = Tree;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.write_str("anything")
            }
            fn visit_bool<E>(self, v: bool) -> Result<Tree, E> {
                Ok(T::Bool(v))
            }
            fn visit_i8<E>(self, v: i8) -> Result<Tree, E> {
                Ok(T::I8(v))
            }
            fn visit_i16<E>(self, v: i16) -> Result<Tree, E> {
                Ok(T::I16(v))
            }
            fn visit_i32<E>(self, v: i32) -> Result<Tree, E> {
                Ok(T::I32(v))
            }
            fn visit_i64<E>(self, v: i64) -> Result<Tree, E> {
                Ok(T::I64(v))
            }
            fn visit_i128<E>(self, v: i128) -> Result<Tree, E> {
                Ok(T::I128(v))
            }
            fn visit_u8<E>(self, v: u8) -> Result<Tree, E> {
                Ok(T::U8(v))
            }
            fn visit_u16<E>(self, v: u16) -> Result<Tree, E> {
                Ok(T::U16(v))
            }
            fn visit_u32<E>(self, v: u32) -> Result<Tree, E> {
                Ok(T::U32(v))
            }
            fn visit_u64<E>(self, v: u64) -> Result<Tree, E> {
                Ok(T::U64(v))
            }
            fn visit_u128<E>(self, v: u128) -> Result<Tree, E> {
                Ok(T::U128(v))
            }
            fn visit_f32<E>(self, v: f32) -> Result<Tree, E> {
                Ok(T::F32(v))
            }
            fn visit_f64<E>(self, v: f64) -> Result<Tree, E> {
                Ok(T::F64(v))
            }
            fn visit_char<E>(self, v: char) -> Result<Tree, E> {
                Ok(T::Char(v))
            }
            fn visit_str<E>(self, v: &str) -> Result<Tree, E> {
                Ok(s(v))
            }
            fn visit_bytes<E>(self, v: &[u8]) -> Result<Tree, E> {
                Ok(T::Bytes(v.to_vec()))
            }
            fn visit_none<E>(self) -> Result<Tree, E> {
                Ok(T::None)
            }
            fn visit_unit<E>(self) -> Result<Tree, E> {
                Ok(T::Unit)
            }
            fn visit_some<D: serde::Deserializer<'de>>(self, d: D) -> Result<Tree, D::Error> {
                Ok(T::Some(Box::new(serde::Deserialize::deserialize(d)?)))
            }
            fn visit_newtype_struct<D: serde::Deserializer<'de>>(self, d: D) -> Result<Tree, D::Error> {
                serde::Deserialize::deserialize(d)
            }
            fn visit_seq<A: serde::de::SeqAccess<'de>>(self, mut a: A) -> Result<Tree, A::Error> {
                let mut v = Vec::new();
                while let Some(x) = a.next_element()? {
                    v.push(x);
                }
                Ok(T::Seq(v, true))
            }
            fn visit_map<A: serde::de::MapAccess<'de>>(self, mut a: A) -> Result<Tree, A::Error> {
                let mut v = Vec::new();
                while let Some(x) = a.next_entry()? {
                    v.push(x);
                }
                Ok(T::Map(v, true))
            }
        }
        d.deserialize_any(V)
    }
}

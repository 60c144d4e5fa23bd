//! Simulated serializer: builds a `Tree`, checks the call protocol as it goes, and
//! fails at a chosen call.
use crate::tree::{s, Tree};
use serde::ser::*;
use std::cell::{Cell, RefCell};
use std::fmt::{self, Display};

#[derive(Debug, Clone)]
pub struct SimErr(pub String);

impl Display for SimErr {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for SimErr {}
impl serde::ser::Error for SimErr {
    fn custom<M: Display>(m: M) -> Self {
        SimErr(m.to_string())
    }
}
impl serde::de::Error for SimErr {
    fn custom<M: Display>(m: M) -> Self {
        SimErr(m.to_string())
    }
}

pub struct SerCtl {
    pub hr: bool,
    pub fail_at: u64, // 0 = never; else the n-th call fails
    pub n: Cell<u64>,
    pub failed: Cell<bool>,
    pub open: Cell<i64>,
    pub viol: RefCell<Option<String>>,
    pub hash: Cell<u64>,
    pub log: RefCell<Vec<&'static str>>,
}

impl SerCtl {
    pub fn new(hr: bool, fail_at: u64) -> SerCtl {
        SerCtl {
            hr,
            fail_at,
            n: Cell::new(0),
            failed: Cell::new(false),
            open: Cell::new(0),
            viol: RefCell::new(None),
            hash: Cell::new(0xcbf29ce484222325),
            log: RefCell::new(Vec::new()),
        }
    }
    pub fn marker(&self) -> String {
        crate::probe::dressed(&format!("SIMFAULT-S{}.", self.fail_at))
    }
    fn violate(&self, m: String) {
        let mut v = self.viol.borrow_mut();
        if v.is_none() {
            *v = Some(m);
        }
    }
    fn ev(&self, what: &'static str) -> Result<(), SimErr> {
        let n = self.n.get() + 1;
        self.n.set(n);
        let mut h = self.hash.get();
        for b in what.bytes() {
            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
        }
        self.hash.set(h);
        if crate::tracing() {
            crate::trace(&format!("  serializer call {n}: {what}"));
        }
        if self.failed.get() {
            self.violate(format!("{what} called on the serializer after it had returned an error"));
            return Err(SimErr(self.marker()));
        }
        if n == self.fail_at {
            self.failed.set(true);
            if crate::tracing() {
                crate::trace(&format!("  FAULT: serializer call {n} ({what}) fails with {}", self.marker()));
            }
            return Err(SimErr(self.marker()));
        }
        Ok(())
    }
    fn opened(&self) {
        self.open.set(self.open.get() + 1);
    }
    fn closed(&self) {
        self.open.set(self.open.get() - 1);
    }
}

#[derive(Clone, Copy)]
pub struct SimSer<'a>(pub &'a SerCtl);

type R = Result<Tree, SimErr>;

pub enum Kind {
    Seq,
    Tuple,
    TupleStruct(&'static str),
    TupleVariant(&'static str, u32, &'static str),
    Map,
    Struct(&'static str),
    StructVariant(&'static str, u32, &'static str),
}

pub struct Comp<'a> {
    c: &'a SerCtl,
    kind: Kind,
    declared: Option<usize>,
    items: Vec<Tree>,
    entries: Vec<(Tree, Tree)>,
    fields: Vec<(&'static str, Tree)>,
    key: Option<Tree>,
}

impl<'a> Comp<'a> {
    fn new(c: &'a SerCtl, kind: Kind, declared: Option<usize>) -> Self {
        c.opened();
        Comp { c, kind, declared, items: vec![], entries: vec![], fields: vec![], key: None }
    }
    fn finish(self) -> R {
        self.c.ev("end")?;
        self.c.closed();
        let n = self.items.len() + self.entries.len() + self.fields.len();
        if let Some(d) = self.declared {
            if d != n {
                self.c.violate(format!("declared length {d} but {n} entries or elements followed"));
            }
        }
        if self.key.is_some() {
            self.c.violate("map ended after a key without value".into());
        }
        Ok(match self.kind {
            Kind::Seq => Tree::Seq(self.items, self.declared.is_some()),
            Kind::Tuple => Tree::Tuple(self.items),
            Kind::TupleStruct(n) => Tree::TupleStruct(n, self.items),
            Kind::TupleVariant(n, i, v) => Tree::TupleVariant(n, i, v, self.items),
            Kind::Map => Tree::Map(self.entries, self.declared.is_some()),
            Kind::Struct(n) => Tree::Struct(n, self.fields),
            Kind::StructVariant(n, i, v) => Tree::StructVariant(n, i, v, self.fields),
        })
    }
    fn item<T: Serialize + ?Sized>(&mut self, what: &'static str, v: &T) -> Result<(), SimErr> {
        self.c.ev(what)?;
        let t = v.serialize(SimSer(self.c))?;
        self.items.push(t);
        Ok(())
    }
    fn field<T: Serialize + ?Sized>(&mut self, what: &'static str, k: &'static str, v: &T) -> Result<(), SimErr> {
        self.c.ev(what)?;
        if self.fields.iter().any(|(x, _)| *x == k) {
            self.c.violate(format!("field {k:?} written twice"));
        }
        let t = v.serialize(SimSer(self.c))?;
        self.fields.push((k, t));
        Ok(())
    }
}

impl<'a> SerializeSeq for Comp<'a> {
    type Ok = Tree;
    type Error = SimErr;
    fn serialize_element<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), SimErr> {
        self.item("seq.element", v)
    }
    fn end(self) -> R {
        self.finish()
    }
}
impl<'a> SerializeTuple for Comp<'a> {
    type Ok = Tree;
    type Error = SimErr;
    fn serialize_element<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), SimErr> {
        self.item("tuple.element", v)
    }
    fn end(self) -> R {
        self.finish()
    }
}
impl<'a> SerializeTupleStruct for Comp<'a> {
    type Ok = Tree;
    type Error = SimErr;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), SimErr> {
        self.item("tuple_struct.field", v)
    }
    fn end(self) -> R {
        self.finish()
    }
}
impl<'a> SerializeTupleVariant for Comp<'a> {
    type Ok = Tree;
    type Error = SimErr;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), SimErr> {
        self.item("tuple_variant.field", v)
    }
    fn end(self) -> R {
        self.finish()
    }
}
impl<'a> SerializeMap for Comp<'a> {
    type Ok = Tree;
    type Error = SimErr;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, k: &T) -> Result<(), SimErr> {
        self.c.ev("map.key")?;
        if self.key.is_some() {
            self.c.violate("second map key without a value between".into());
        }
        let t = k.serialize(SimSer(self.c))?;
        self.key = Some(t);
        Ok(())
    }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), SimErr> {
        self.c.ev("map.value")?;
        let k = match self.key.take() {
            Some(k) => k,
            None => {
                self.c.violate("map value without a key".into());
                s("?")
            }
        };
        let t = v.serialize(SimSer(self.c))?;
        self.entries.push((k, t));
        Ok(())
    }
    fn end(self) -> R {
        self.finish()
    }
}
impl<'a> SerializeStruct for Comp<'a> {
    type Ok = Tree;
    type Error = SimErr;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, k: &'static str, v: &T) -> Result<(), SimErr> {
        self.field("struct.field", k, v)
    }
    fn end(self) -> R {
        self.finish()
    }
}
impl<'a> SerializeStructVariant for Comp<'a> {
    type Ok = Tree;
    type Error = SimErr;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, k: &'static str, v: &T) -> Result<(), SimErr> {
        self.field("struct_variant.field", k, v)
    }
    fn end(self) -> R {
        self.finish()
    }
}

macro_rules! prim {
    ($($m:ident $t:ty, $v:ident;)*) => { $(
        fn $m(self, v: $t) -> R {
            self.0.ev(stringify!($m))?;
            Ok(Tree::$v(v))
        }
    )* };
}

impl<'a> Serializer for SimSer<'a> {
    type Ok = Tree;
    type Error = SimErr;
    type SerializeSeq = Comp<'a>;
    type SerializeTuple = Comp<'a>;
    type SerializeTupleStruct = Comp<'a>;
    type SerializeTupleVariant = Comp<'a>;
    type SerializeMap = Comp<'a>;
    type SerializeStruct = Comp<'a>;
    type SerializeStructVariant = Comp<'a>;

    prim! {
        serialize_bool bool, Bool;
        serialize_i8 i8, I8;
        serialize_i16 i16, I16;
        serialize_i32 i32, I32;
        serialize_i64 i64, I64;
        serialize_i128 i128, I128;
        serialize_u8 u8, U8;
        serialize_u16 u16, U16;
        serialize_u32 u32, U32;
        serialize_u64 u64, U64;
        serialize_u128 u128, U128;
        serialize_f32 f32, F32;
        serialize_f64 f64, F64;
        serialize_char char, Char;
    }
    fn serialize_str(self, v: &str) -> R {
        self.0.ev("serialize_str")?;
        Ok(s(v))
    }
    fn serialize_bytes(self, v: &[u8]) -> R {
        self.0.ev("serialize_bytes")?;
        Ok(Tree::Bytes(v.to_vec()))
    }
    fn serialize_none(self) -> R {
        self.0.ev("serialize_none")?;
        Ok(Tree::None)
    }
    fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> R {
        self.0.ev("serialize_some")?;
        Ok(Tree::Some(Box::new(v.serialize(self)?)))
    }
    fn serialize_unit(self) -> R {
        self.0.ev("serialize_unit")?;
        Ok(Tree::Unit)
    }
    fn serialize_unit_struct(self, n: &'static str) -> R {
        self.0.ev("serialize_unit_struct")?;
        Ok(Tree::UnitStruct(n))
    }
    fn serialize_unit_variant(self, n: &'static str, i: u32, v: &'static str) -> R {
        self.0.ev("serialize_unit_variant")?;
        Ok(Tree::UnitVariant(n, i, v))
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, n: &'static str, v: &T) -> R {
        self.0.ev("serialize_newtype_struct")?;
        Ok(Tree::Newtype(n, Box::new(v.serialize(self)?)))
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, n: &'static str, i: u32, w: &'static str, v: &T) -> R {
        self.0.ev("serialize_newtype_variant")?;
        Ok(Tree::NewtypeVariant(n, i, w, Box::new(v.serialize(self)?)))
    }
    fn serialize_seq(self, len: Option<usize>) -> Result<Comp<'a>, SimErr> {
        self.0.ev("serialize_seq")?;
        Ok(Comp::new(self.0, Kind::Seq, len))
    }
    fn serialize_tuple(self, len: usize) -> Result<Comp<'a>, SimErr> {
        self.0.ev("serialize_tuple")?;
        Ok(Comp::new(self.0, Kind::Tuple, Some(len)))
    }
    fn serialize_tuple_struct(self, n: &'static str, len: usize) -> Result<Comp<'a>, SimErr> {
        self.0.ev("serialize_tuple_struct")?;
        Ok(Comp::new(self.0, Kind::TupleStruct(n), Some(len)))
    }
    fn serialize_tuple_variant(self, n: &'static str, i: u32, v: &'static str, len: usize) -> Result<Comp<'a>, SimErr> {
        self.0.ev("serialize_tuple_variant")?;
        Ok(Comp::new(self.0, Kind::TupleVariant(n, i, v), Some(len)))
    }
    fn serialize_map(self, len: Option<usize>) -> Result<Comp<'a>, SimErr> {
        self.0.ev("serialize_map")?;
        Ok(Comp::new(self.0, Kind::Map, len))
    }
    fn serialize_struct(self, n: &'static str, len: usize) -> Result<Comp<'a>, SimErr> {
        self.0.ev("serialize_struct")?;
        Ok(Comp::new(self.0, Kind::Struct(n), Some(len)))
    }
    fn serialize_struct_variant(self, n: &'static str, i: u32, v: &'static str, len: usize) -> Result<Comp<'a>, SimErr> {
        self.0.ev("serialize_struct_variant")?;
        Ok(Comp::new(self.0, Kind::StructVariant(n, i, v), Some(len)))
    }
    fn is_human_readable(&self) -> bool {
        self.0.hr
    }
}

/// What a value's own `Serialize` says, with no fault.
pub fn tree_of<T: Serialize + ?Sized>(v: &T, hr: bool) -> Result<Tree, SimErr> {
    let c = SerCtl::new(hr, 0);
    v.serialize(SimSer(&c))
}

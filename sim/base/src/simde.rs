//! Simulated deserializer over a `Tree`.  Which of the many legal ways a format may
//! deliver the data is decided by the tape; calls are checked against the protocol
//! and a chosen call fails.
use crate::simser::SimErr;
use crate::tape;
use crate::tree::Tree;
use serde::de::*;
use serde::forward_to_deserialize_any;
use std::cell::{Cell, RefCell};

pub mod form {
    pub const STR: u32 = 1; // transient and owned strings
    pub const INT: u32 = 2; // other integer widths and signedness
    pub const FLOAT: u32 = 4; // f64 as f32 and back when exact
    pub const FLOAT_INT: u32 = 8; // integral floats as integers
    pub const CHAR_STR: u32 = 16;
    pub const BYTES: u32 = 32; // bytes as transient/owned
    pub const BYTES_SEQ: u32 = 64;
    pub const NULL: u32 = 128; // none/unit interchangeable, some transparent
    pub const NEWTYPE: u32 = 256; // visit_newtype_struct unasked
    pub const POSITIONAL: u32 = 512; // structs as sequences
    pub const HINT_NONE: u32 = 1024;
    pub const HINT_LIE: u32 = 2048;
    /// The format writes names and kinds down, and compares them with what is asked for.
    pub const NAMED: u32 = 4096;
    pub const ALL_BENIGN: u32 = 1 | 2 | 4 | 8 | 16 | 32 | 64 | 128 | 256 | 1024;
}

pub struct DeCtl {
    /// Non-self-describing: every request must name what was written.
    pub strict: bool,
    pub hr: bool,
    pub forms: u32,
    pub fail_at: u64,
    pub fail_msg: String,
    pub n: Cell<u64>,
    pub failed: Cell<bool>,
    pub leftover: Cell<bool>,
    pub viol: RefCell<Option<String>>,
    pub hash: Cell<u64>,
    pub forms_used: Cell<u32>,
}

impl DeCtl {
    pub fn new(strict: bool, hr: bool, forms: u32, fail_at: u64, fail_msg: String) -> DeCtl {
        DeCtl {
            strict,
            hr,
            forms,
            fail_at,
            fail_msg,
            n: Cell::new(0),
            failed: Cell::new(false),
            leftover: Cell::new(false),
            viol: RefCell::new(None),
            hash: Cell::new(0xcbf29ce484222325),
            forms_used: Cell::new(0),
        }
    }
    pub fn plain(strict: bool, hr: bool) -> DeCtl {
        DeCtl::new(strict, hr, 0, 0, String::new())
    }
    fn violate(&self, m: String) {
        let mut v = self.viol.borrow_mut();
        if v.is_none() {
            *v = Some(m);
        }
    }
    fn ev(&self, what: &'static str) -> Result<(), SimErr> {
        let n = self.n.get() + 1;
        self.n.set(n);
        let mut h = self.hash.get();
        for b in what.bytes() {
            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
        }
        self.hash.set(h);
        if crate::tracing() {
            crate::trace(&format!("  deserializer call {n}: {what}"));
        }
        if self.failed.get() {
            self.violate(format!("{what} called on the deserializer after it had returned an error"));
            return Err(SimErr(self.fail_msg.clone()));
        }
        if n == self.fail_at {
            self.failed.set(true);
            if crate::tracing() {
                crate::trace(&format!("  FAULT: deserializer call {n} ({what}) fails: {}", self.fail_msg));
            }
            return Err(SimErr(self.fail_msg.clone()));
        }
        Ok(())
    }
    fn named(&self) -> bool {
        self.forms & form::NAMED != 0
    }
    /// A delivery decision: which of `n` forms of kind `k`.
    fn form(&self, k: u32, n: u32) -> u32 {
        if self.forms & k == 0 {
            return 0;
        }
        let f = tape::pick(n);
        if f != 0 {
            self.forms_used.set(self.forms_used.get() | k);
            let h = (self.hash.get() ^ ((k as u64) << 8 | f as u64)).wrapping_mul(0x100000001b3);
            self.hash.set(h);
        }
        f
    }
    fn hint(&self, exact: usize) -> Option<usize> {
        if self.form(form::HINT_NONE, 2) == 1 {
            return None;
        }
        match self.form(form::HINT_LIE, 5) {
            1 => Some(usize::MAX),
            2 => Some(usize::MAX / 64),
            3 => Some(1 << 26),
            4 => Some(0),
            _ => Some(exact),
        }
    }
}

fn e<T>(m: String) -> Result<T, SimErr> {
    Err(SimErr(m))
}

#[derive(Clone, Copy)]
pub struct SimDe<'de, 'c> {
    pub t: &'de Tree,
    pub c: &'c DeCtl,
}

fn give_str<'de, V: Visitor<'de>>(c: &DeCtl, v: &'de str, vis: V) -> Result<V::Value, SimErr> {
    match c.form(form::STR, 3) {
        1 => {
            // A scratch buffer that is gone as soon as the visitor returns.
            let scratch = v.to_owned();
            vis.visit_str(&scratch)
        }
        2 => vis.visit_string(v.to_owned()),
        _ => vis.visit_borrowed_str(v),
    }
}

fn give_bytes<'de, V: Visitor<'de>>(c: &DeCtl, v: &'de [u8], vis: V) -> Result<V::Value, SimErr> {
    match c.form(form::BYTES, 3) {
        1 => {
            let scratch = v.to_owned();
            vis.visit_bytes(&scratch)
        }
        2 => vis.visit_byte_buf(v.to_owned()),
        _ => vis.visit_borrowed_bytes(v),
    }
}

enum Int {
    I(i128),
    U(u128),
}

fn give_int<'de, V: Visitor<'de>>(c: &DeCtl, v: Int, exact: u32, vis: V) -> Result<V::Value, SimErr> {
    // exact: 8,16,32,64,128 = width as written
    let form = c.form(form::INT, 4);
    let (neg, mag): (bool, u128) = match v {
        Int::I(i) if i < 0 => (true, i as u128),
        Int::I(i) => (false, i as u128),
        Int::U(u) => (false, u),
    };
    let as_signed = |width: u32| -> Option<i128> {
        let i = if neg { mag as i128 } else { i128::try_from(mag).ok()? };
        let ok = match width {
            8 => i8::try_from(i).is_ok(),
            16 => i16::try_from(i).is_ok(),
            32 => i32::try_from(i).is_ok(),
            64 => i64::try_from(i).is_ok(),
            _ => true,
        };
        ok.then_some(i)
    };
    let as_unsigned = |width: u32| -> Option<u128> {
        if neg {
            return None;
        }
        let ok = match width {
            8 => u8::try_from(mag).is_ok(),
            16 => u16::try_from(mag).is_ok(),
            32 => u32::try_from(mag).is_ok(),
            64 => u64::try_from(mag).is_ok(),
            _ => true,
        };
        ok.then_some(mag)
    };
    let written_signed = matches!(v, Int::I(_));
    let (signed, width) = match form {
        0 => (written_signed, exact),
        // like JSON: u64 if non-negative, else i64
        1 => (neg, if as_signed(64).is_some() || as_unsigned(64).is_some() { 64 } else { 128 }),
        // narrowest, as written
        2 => {
            let w = [8, 16, 32, 64, 128]
                .into_iter()
                .find(|w| if written_signed { as_signed(*w).is_some() } else { as_unsigned(*w).is_some() });
            (written_signed, w.unwrap_or(128))
        }
        // the other signedness if possible
        _ => {
            let w = [8, 16, 32, 64, 128].into_iter().find(|w| {
                *w >= exact.min(64) && *w <= exact && if written_signed { as_unsigned(*w).is_some() } else { as_signed(*w).is_some() }
            });
            match w {
                Some(w) => (!written_signed, w),
                None => (written_signed, exact),
            }
        }
    };
    if signed {
        let i = as_signed(width).unwrap_or(mag as i128);
        match width {
            8 => vis.visit_i8(i as i8),
            16 => vis.visit_i16(i as i16),
            32 => vis.visit_i32(i as i32),
            64 => vis.visit_i64(i as i64),
            _ => vis.visit_i128(i),
        }
    } else {
        match width {
            8 => vis.visit_u8(mag as u8),
            16 => vis.visit_u16(mag as u16),
            32 => vis.visit_u32(mag as u32),
            64 => vis.visit_u64(mag as u64),
            _ => vis.visit_u128(mag),
        }
    }
}

fn give_float<'de, V: Visitor<'de>>(c: &DeCtl, v: f64, was32: bool, vis: V) -> Result<V::Value, SimErr> {
    let integral = v.fract() == 0.0 && v.abs() < 1e6 && !(v == 0.0 && v.is_sign_negative());
    if integral && c.form(form::FLOAT_INT, 2) == 1 {
        return give_int(c, Int::I(v as i128), 64, vis);
    }
    let f32_exact = (v as f32) as f64 == v;
    match c.form(form::FLOAT, 2) {
        1 if was32 => vis.visit_f64(v),
        1 if f32_exact => vis.visit_f32(v as f32),
        _ if was32 => vis.visit_f32(v as f32),
        _ => vis.visit_f64(v),
    }
}

impl<'de, 'c> SimDe<'de, 'c> {
    pub fn new(t: &'de Tree, c: &'c DeCtl) -> Self {
        SimDe { t, c }
    }

    fn at(self, t: &'de Tree) -> Self {
        SimDe { t, c: self.c }
    }

    fn body(self) -> Option<(VName<'de>, Body<'de>)> {
        Some(match self.t {
            Tree::UnitVariant(_, i, v) => (VName { s: v, i: Some(*i), t: None }, Body::Unit),
            Tree::NewtypeVariant(_, i, v, b) => (VName { s: v, i: Some(*i), t: None }, Body::One(b)),
            Tree::TupleVariant(_, i, v, b) => (VName { s: v, i: Some(*i), t: None }, Body::Items(b)),
            Tree::StructVariant(_, i, v, b) => (VName { s: v, i: Some(*i), t: None }, Body::Fields(b)),
            _ => return None,
        })
    }

    fn any<V: Visitor<'de>>(self, vis: V) -> Result<V::Value, SimErr> {
        let c = self.c;
        match self.t {
            Tree::Bool(b) => vis.visit_bool(*b),
            Tree::I8(v) => give_int(c, Int::I(*v as i128), 8, vis),
            Tree::I16(v) => give_int(c, Int::I(*v as i128), 16, vis),
            Tree::I32(v) => give_int(c, Int::I(*v as i128), 32, vis),
            Tree::I64(v) => give_int(c, Int::I(*v as i128), 64, vis),
            Tree::I128(v) => give_int(c, Int::I(*v), 128, vis),
            Tree::U8(v) => give_int(c, Int::U(*v as u128), 8, vis),
            Tree::U16(v) => give_int(c, Int::U(*v as u128), 16, vis),
            Tree::U32(v) => give_int(c, Int::U(*v as u128), 32, vis),
            Tree::U64(v) => give_int(c, Int::U(*v as u128), 64, vis),
            Tree::U128(v) => give_int(c, Int::U(*v), 128, vis),
            Tree::F32(v) => give_float(c, *v as f64, true, vis),
            Tree::F64(v) => give_float(c, *v, false, vis),
            Tree::Char(v) => {
                if c.form(form::CHAR_STR, 2) == 1 {
                    let mut b = [0; 4];
                    vis.visit_str(v.encode_utf8(&mut b))
                } else {
                    vis.visit_char(*v)
                }
            }
            Tree::Str(v) => give_str(c, v, vis),
            Tree::Bytes(v) => {
                if c.form(form::BYTES_SEQ, 2) == 1 {
                    let mut a = ByteSeq { c, b: v };
                    let r = vis.visit_seq(&mut a)?;
                    return if a.b.is_empty() { Ok(r) } else { leftover(c, r) };
                }
                give_bytes(c, v, vis)
            }
            Tree::None => {
                if c.form(form::NULL, 2) == 1 {
                    vis.visit_unit()
                } else {
                    vis.visit_none()
                }
            }
            Tree::Some(b) => {
                let lossy = matches!(
                    self.at(b).peel().t,
                    Tree::None | Tree::Unit | Tree::UnitStruct(_) | Tree::Some(_)
                );
                if !lossy && c.form(form::NULL, 2) == 1 {
                    return self.at(b).any(vis);
                }
                vis.visit_some(self.at(b))
            }
            Tree::Unit | Tree::UnitStruct(_) => vis.visit_unit(),
            Tree::Newtype(_, b) => {
                if c.form(form::NEWTYPE, 2) == 1 {
                    vis.visit_newtype_struct(self.at(b))
                } else {
                    self.at(b).any(vis)
                }
            }
            Tree::Seq(v, known) => self.seq(v, *known, vis),
            Tree::Tuple(v) | Tree::TupleStruct(_, v) => self.seq(v, true, vis),
            Tree::Map(v, known) => self.map(v, *known, vis),
            Tree::Struct(_, v) => self.fields(v, vis),
            Tree::UnitVariant(_, _, v) => give_str(c, v, vis),
            _ => {
                let (name, body) = self.body().unwrap();
                let mut a = OneEntry { c, name: Some(name), body: Some(body) };
                let r = vis.visit_map(&mut a)?;
                if a.name.is_some() || a.body.is_some() {
                    return leftover(c, r);
                }
                Ok(r)
            }
        }
    }

    fn seq<V: Visitor<'de>>(self, v: &'de [Tree], known: bool, vis: V) -> Result<V::Value, SimErr> {
        let mut a = SeqAcc { c: self.c, it: v, known };
        let r = vis.visit_seq(&mut a)?;
        if !a.it.is_empty() {
            return leftover(self.c, r);
        }
        Ok(r)
    }

    fn map<V: Visitor<'de>>(self, v: &'de [(Tree, Tree)], known: bool, vis: V) -> Result<V::Value, SimErr> {
        let mut a = MapAcc { c: self.c, it: v, val: None, known };
        let r = vis.visit_map(&mut a)?;
        if a.val.is_some() {
            self.c.violate("a key was read but its value was not".into());
        }
        if !a.it.is_empty() {
            return leftover(self.c, r);
        }
        Ok(r)
    }

    fn fields<V: Visitor<'de>>(self, v: &'de [(&'static str, Tree)], vis: V) -> Result<V::Value, SimErr> {
        if self.c.form(form::POSITIONAL, 2) == 1 {
            return self.fields_seq(v, vis);
        }
        let mut a = FieldAcc { c: self.c, it: v, val: None };
        let r = vis.visit_map(&mut a)?;
        if a.val.is_some() {
            self.c.violate("a key was read but its value was not".into());
        }
        if !a.it.is_empty() {
            return leftover(self.c, r);
        }
        Ok(r)
    }

    fn fields_seq<V: Visitor<'de>>(self, v: &'de [(&'static str, Tree)], vis: V) -> Result<V::Value, SimErr> {
        let mut a = FieldSeq { c: self.c, it: v };
        let r = vis.visit_seq(&mut a)?;
        if !a.it.is_empty() {
            return leftover(self.c, r);
        }
        Ok(r)
    }

    fn unit<V: Visitor<'de>>(self, vis: V) -> Result<V::Value, SimErr> {
        self.c.ev("deserialize_unit")?;
        if self.c.strict {
            return match self.peel().t {
                Tree::Unit | Tree::UnitStruct(_) => vis.visit_unit(),
                _ => self.mismatch("a unit"),
            };
        }
        match self.t {
            Tree::Unit | Tree::UnitStruct(_) => vis.visit_unit(),
            _ => self.any(vis),
        }
    }

    fn tuple<V: Visitor<'de>>(self, len: usize, vis: V) -> Result<V::Value, SimErr> {
        self.c.ev("deserialize_tuple")?;
        if self.c.strict {
            let p = self.peel();
            return match p.t {
                Tree::Tuple(v) | Tree::TupleStruct(_, v) if v.len() == len => p.seq(v, true, vis),
                _ => self.mismatch("a tuple of another kind or length"),
            };
        }
        self.any(vis)
    }

    fn mismatch<T>(self, asked: &str) -> Result<T, SimErr> {
        e(format!("compact format: asked for {asked}, but the writer wrote {}", self.t.show()))
    }

    /// In a format that has names and kinds: was this written as what it is asked for?
    fn of_kind(self, kind: &str, name: &str) -> Result<(), SimErr> {
        if !self.c.named() {
            return Ok(());
        }
        let (k, n) = match self.t {
            Tree::UnitStruct(n) => ("unit struct", *n),
            Tree::Newtype(n, _) => ("newtype struct", *n),
            Tree::Tuple(_) => ("tuple", ""),
            Tree::TupleStruct(n, _) => ("tuple struct", *n),
            Tree::Seq(..) => ("sequence", ""),
            Tree::Map(..) => ("map", ""),
            Tree::Struct(n, _) => ("struct", *n),
            Tree::UnitVariant(n, ..) | Tree::NewtypeVariant(n, ..) | Tree::TupleVariant(n, ..) | Tree::StructVariant(n, ..) => ("enum", *n),
            Tree::Unit => ("unit", ""),
            _ => return Ok(()),
        };
        if (k, n) != (kind, name) {
            return e(format!("format with names: asked for {kind} {name:?}, but the writer wrote {k} {n:?}"));
        }
        Ok(())
    }

    /// Strict mode sees through newtypes.
    fn peel(mut self) -> Self {
        if self.c.named() {
            return self;
        }
        while let Tree::Newtype(_, b) = self.t {
            self = self.at(b);
        }
        self
    }
}

fn leftover<T>(c: &DeCtl, r: T) -> Result<T, SimErr> {
    if c.strict {
        c.leftover.set(true);
        Ok(r)
    } else {
        drop(r);
        e("trailing entries in the message".into())
    }
}

macro_rules! ints {
    ($($m:ident $v:ident,)*) => { $(
        fn $m<V: Visitor<'de>>(self, vis: V) -> Result<V::Value, SimErr> {
            self.c.ev(stringify!($m))?;
            self.of_kind("scalar", "")?;
            if self.c.strict {
                let p = self.peel();
                return match p.t {
                    Tree::$v(_) => p.any(vis),
                    _ => self.mismatch(stringify!($v)),
                };
            }
            self.any(vis)
        }
    )* };
}

impl<'de, 'c> Deserializer<'de> for SimDe<'de, 'c> {
    type Error = SimErr;

    ints! {
        deserialize_bool Bool,
        deserialize_i8 I8,
        deserialize_i16 I16,
        deserialize_i32 I32,
        deserialize_i64 I64,
        deserialize_i128 I128,
        deserialize_u8 U8,
        deserialize_u16 U16,
        deserialize_u32 U32,
        deserialize_u64 U64,
        deserialize_u128 U128,
        deserialize_f32 F32,
        deserialize_f64 F64,
        deserialize_char Char,
        deserialize_str Str,
        deserialize_string Str,
    }

    fn deserialize_any<V: Visitor<'de>>(self, vis: V) -> Result<V::Value, SimErr> {
        self.c.ev("deserialize_any")?;
        if self.c.strict {
            return e("compact format: deserialize_any is not supported".into());
        }
        self.any(vis)
    }
    fn deserialize_ignored_any<V: Visitor<'de>>(self, vis: V) -> Result<V::Value, SimErr> {
        self.c.ev("deserialize_ignored_any")?;
        if self.c.strict {
            return e("compact format: deserialize_ignored_any is not supported".into());
        }
        self.any(vis)
    }
    fn deserialize_identifier<V: Visitor<'de>>(self, vis: V) -> Result<V::Value, SimErr> {
        self.c.ev("deserialize_identifier")?;
        if self.c.strict {
            return e("compact format: deserialize_identifier is not supported".into());
        }
        self.peel().any(vis)
    }
    fn deserialize_bytes<V: Visitor<'de>>(self, vis: V) -> Result<V::Value, SimErr> {
        self.c.ev("deserialize_bytes")?;
        self.of_kind("scalar", "")?;
        if self.c.strict {
            let p = self.peel();
            return match p.t {
                Tree::Bytes(_) => p.any(vis),
                _ => self.mismatch("bytes"),
            };
        }
        self.any(vis)
    }
    fn deserialize_byte_buf<V: Visitor<'de>>(self, vis: V) -> Result<V::Value, SimErr> {
        self.deserialize_bytes(vis)
    }
    fn deserialize_option<V: Visitor<'de>>(self, vis: V) -> Result<V::Value, SimErr> {
        self.c.ev("deserialize_option")?;
        if let Tree::Newtype(..) = self.t {
            self.of_kind("option", "")?;
        }
        let p = self.peel();
        match p.t {
            Tree::None => p.any(vis),
            Tree::Some(b) => vis.visit_some(self.at(b)),
            _ if self.c.strict => self.mismatch("an option"),
            Tree::Unit | Tree::UnitStruct(_) => vis.visit_unit(),
            _ => vis.visit_some(self),
        }
    }
    fn deserialize_unit<V: Visitor<'de>>(self, vis: V) -> Result<V::Value, SimErr> {
        self.of_kind("unit", "")?;
        self.unit(vis)
    }
    fn deserialize_unit_struct<V: Visitor<'de>>(self, name: &'static str, vis: V) -> Result<V::Value, SimErr> {
        self.of_kind("unit struct", name)?;
        self.unit(vis)
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, name: &'static str, vis: V) -> Result<V::Value, SimErr> {
        self.c.ev("deserialize_newtype_struct")?;
        if let Tree::Newtype(..) = self.t {
            self.of_kind("newtype struct", name)?;
        }
        match self.t {
            Tree::Newtype(_, b) => vis.visit_newtype_struct(self.at(b)),
            _ => vis.visit_newtype_struct(self),
        }
    }
    fn deserialize_seq<V: Visitor<'de>>(self, vis: V) -> Result<V::Value, SimErr> {
        self.c.ev("deserialize_seq")?;
        self.of_kind("sequence", "")?;
        if self.c.strict {
            let p = self.peel();
            return match p.t {
                Tree::Seq(..) => p.any(vis),
                _ => self.mismatch("a sequence"),
            };
        }
        self.any(vis)
    }
    fn deserialize_tuple<V: Visitor<'de>>(self, len: usize, vis: V) -> Result<V::Value, SimErr> {
        self.of_kind("tuple", "")?;
        self.tuple(len, vis)
    }
    fn deserialize_tuple_struct<V: Visitor<'de>>(self, name: &'static str, len: usize, vis: V) -> Result<V::Value, SimErr> {
        self.of_kind("tuple struct", name)?;
        self.tuple(len, vis)
    }
    fn deserialize_map<V: Visitor<'de>>(self, vis: V) -> Result<V::Value, SimErr> {
        self.c.ev("deserialize_map")?;
        self.of_kind("map", "")?;
        if self.c.strict {
            let p = self.peel();
            return match p.t {
                Tree::Map(..) => p.any(vis),
                _ => self.mismatch("a map"),
            };
        }
        self.any(vis)
    }
    fn deserialize_struct<V: Visitor<'de>>(self, name: &'static str, fields: &'static [&'static str], vis: V) -> Result<V::Value, SimErr> {
        self.c.ev("deserialize_struct")?;
        self.of_kind("struct", name)?;
        if self.c.strict {
            let p = self.peel();
            return match p.t {
                Tree::Struct(_, v) if v.len() == fields.len() => p.fields_seq(v, vis),
                _ => self.mismatch("a struct with other fields"),
            };
        }
        self.any(vis)
    }
    fn deserialize_enum<V: Visitor<'de>>(self, name: &'static str, _: &'static [&'static str], vis: V) -> Result<V::Value, SimErr> {
        self.c.ev("deserialize_enum")?;
        self.of_kind("enum", name)?;
        let p = self.peel();
        if let Some((name, body)) = p.body() {
            return vis.visit_enum(EnumAcc { c: self.c, name, body });
        }
        if self.c.strict {
            return self.mismatch("an enum");
        }
        match p.t {
            Tree::Str(v) => {
                vis.visit_enum(EnumAcc { c: self.c, name: VName { s: v, i: None, t: None }, body: Body::Unit })
            }
            Tree::Map(v, _) if v.len() == 1 => {
                vis.visit_enum(EnumAcc { c: self.c, name: VName { s: "", i: None, t: Some(&v[0].0) }, body: Body::One(&v[0].1) })
            }
            Tree::Struct(_, v) if v.len() == 1 => {
                vis.visit_enum(EnumAcc { c: self.c, name: VName { s: v[0].0, i: None, t: None }, body: Body::One(&v[0].1) })
            }
            _ => e(format!("expected an enum, found {}", self.t.show())),
        }
    }
    fn is_human_readable(&self) -> bool {
        self.c.hr
    }
}

#[derive(Clone, Copy)]
struct VName<'de> {
    s: &'de str,
    i: Option<u32>,
    t: Option<&'de Tree>,
}

#[derive(Clone, Copy)]
enum Body<'de> {
    Unit,
    One(&'de Tree),
    Items(&'de [Tree]),
    Fields(&'de [(&'static str, Tree)]),
}

/// Keys and variant names.
struct NameDe<'de, 'c> {
    c: &'c DeCtl,
    n: VName<'de>,
    variant: bool,
}

impl<'de, 'c> NameDe<'de, 'c> {
    fn give<V: Visitor<'de>>(self, vis: V) -> Result<V::Value, SimErr> {
        if self.variant && self.c.strict {
            return vis.visit_u32(self.n.i.unwrap_or(0));
        }
        give_str(self.c, self.n.s, vis)
    }
}

impl<'de, 'c> Deserializer<'de> for NameDe<'de, 'c> {
    type Error = SimErr;
    fn deserialize_any<V: Visitor<'de>>(self, vis: V) -> Result<V::Value, SimErr> {
        self.c.ev("name.any")?;
        if self.c.strict && !self.variant {
            return e("compact format: deserialize_any is not supported".into());
        }
        self.give(vis)
    }
    fn deserialize_str<V: Visitor<'de>>(self, vis: V) -> Result<V::Value, SimErr> {
        self.c.ev("name.str")?;
        self.give(vis)
    }
    fn deserialize_string<V: Visitor<'de>>(self, vis: V) -> Result<V::Value, SimErr> {
        self.deserialize_str(vis)
    }
    forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char
        bytes byte_buf option unit unit_struct newtype_struct seq tuple
        tuple_struct map struct enum identifier ignored_any
    }
    fn is_human_readable(&self) -> bool {
        self.c.hr
    }
}

/// Contents of an enum variant delivered as a plain value.
struct BodyDe<'de, 'c> {
    c: &'c DeCtl,
    b: Body<'de>,
}

impl<'de, 'c> Deserializer<'de> for BodyDe<'de, 'c> {
    type Error = SimErr;
    fn deserialize_any<V: Visitor<'de>>(self, vis: V) -> Result<V::Value, SimErr> {
        self.c.ev("variant contents")?;
        let d = SimDe { t: &Tree::Unit, c: self.c };
        match self.b {
            Body::Unit => vis.visit_unit(),
            Body::One(t) => d.at(t).any(vis),
            Body::Items(v) => d.seq(v, true, vis),
            Body::Fields(v) => d.fields(v, vis),
        }
    }
    forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string
        bytes byte_buf option unit unit_struct newtype_struct seq tuple
        tuple_struct map struct enum identifier ignored_any
    }
    fn is_human_readable(&self) -> bool {
        self.c.hr
    }
}

struct SeqAcc<'de, 'c> {
    c: &'c DeCtl,
    it: &'de [Tree],
    known: bool,
}
impl<'de, 'c> SeqAccess<'de> for SeqAcc<'de, 'c> {
    type Error = SimErr;
    fn next_element_seed<S: DeserializeSeed<'de>>(&mut self, seed: S) -> Result<Option<S::Value>, SimErr> {
        self.c.ev("next_element")?;
        match self.it.split_first() {
            None => Ok(None),
            Some((x, rest)) => {
                self.it = rest;
                seed.deserialize(SimDe { t: x, c: self.c }).map(Some)
            }
        }
    }
    fn size_hint(&self) -> Option<usize> {
        if self.known {
            self.c.hint(self.it.len())
        } else {
            None
        }
    }
}

struct ByteSeq<'de, 'c> {
    c: &'c DeCtl,
    b: &'de [u8],
}
impl<'de, 'c> SeqAccess<'de> for ByteSeq<'de, 'c> {
    type Error = SimErr;
    fn next_element_seed<S: DeserializeSeed<'de>>(&mut self, seed: S) -> Result<Option<S::Value>, SimErr> {
        self.c.ev("next_element")?;
        match self.b.split_first() {
            None => Ok(None),
            Some((x, rest)) => {
                self.b = rest;
                seed.deserialize(IntoDeserializer::<SimErr>::into_deserializer(*x)).map(Some)
            }
        }
    }
    fn size_hint(&self) -> Option<usize> {
        self.c.hint(self.b.len())
    }
}

struct FieldSeq<'de, 'c> {
    c: &'c DeCtl,
    it: &'de [(&'static str, Tree)],
}
impl<'de, 'c> SeqAccess<'de> for FieldSeq<'de, 'c> {
    type Error = SimErr;
    fn next_element_seed<S: DeserializeSeed<'de>>(&mut self, seed: S) -> Result<Option<S::Value>, SimErr> {
        self.c.ev("next_element(field)")?;
        match self.it.split_first() {
            None => Ok(None),
            Some(((_, x), rest)) => {
                self.it = rest;
                seed.deserialize(SimDe { t: x, c: self.c }).map(Some)
            }
        }
    }
    fn size_hint(&self) -> Option<usize> {
        self.c.hint(self.it.len())
    }
}

struct MapAcc<'de, 'c> {
    c: &'c DeCtl,
    it: &'de [(Tree, Tree)],
    val: Option<&'de Tree>,
    known: bool,
}
impl<'de, 'c> MapAccess<'de> for MapAcc<'de, 'c> {
    type Error = SimErr;
    fn next_key_seed<S: DeserializeSeed<'de>>(&mut self, seed: S) -> Result<Option<S::Value>, SimErr> {
        self.c.ev("next_key")?;
        if self.val.is_some() {
            self.c.violate("next key requested before the value of the previous one".into());
        }
        match self.it.split_first() {
            None => Ok(None),
            Some(((k, v), rest)) => {
                self.it = rest;
                self.val = Some(v);
                // No format wraps its keys.
                let mut k = k;
                while let (Tree::Newtype(_, b), false) = (k, self.c.strict) {
                    k = b;
                }
                seed.deserialize(SimDe { t: k, c: self.c }).map(Some)
            }
        }
    }
    fn next_value_seed<S: DeserializeSeed<'de>>(&mut self, seed: S) -> Result<S::Value, SimErr> {
        self.c.ev("next_value")?;
        match self.val.take() {
            None => {
                self.c.violate("a map value was requested without its key".into());
                e("value without key".into())
            }
            Some(v) => seed.deserialize(SimDe { t: v, c: self.c }),
        }
    }
    fn size_hint(&self) -> Option<usize> {
        if self.known {
            self.c.hint(self.it.len())
        } else {
            None
        }
    }
}

struct FieldAcc<'de, 'c> {
    c: &'c DeCtl,
    it: &'de [(&'static str, Tree)],
    val: Option<&'de Tree>,
}
impl<'de, 'c> MapAccess<'de> for FieldAcc<'de, 'c> {
    type Error = SimErr;
    fn next_key_seed<S: DeserializeSeed<'de>>(&mut self, seed: S) -> Result<Option<S::Value>, SimErr> {
        self.c.ev("next_key(field)")?;
        if self.val.is_some() {
            self.c.violate("next key requested before the value of the previous one".into());
        }
        match self.it.split_first() {
            None => Ok(None),
            Some(((k, v), rest)) => {
                self.it = rest;
                self.val = Some(v);
                seed.deserialize(NameDe { c: self.c, n: VName { s: k, i: None, t: None }, variant: false }).map(Some)
            }
        }
    }
    fn next_value_seed<S: DeserializeSeed<'de>>(&mut self, seed: S) -> Result<S::Value, SimErr> {
        self.c.ev("next_value(field)")?;
        match self.val.take() {
            None => {
                self.c.violate("a map value was requested without its key".into());
                e("value without key".into())
            }
            Some(v) => seed.deserialize(SimDe { t: v, c: self.c }),
        }
    }
    fn size_hint(&self) -> Option<usize> {
        self.c.hint(self.it.len())
    }
}

struct OneEntry<'de, 'c> {
    c: &'c DeCtl,
    name: Option<VName<'de>>,
    body: Option<Body<'de>>,
}
impl<'de, 'c> MapAccess<'de> for OneEntry<'de, 'c> {
    type Error = SimErr;
    fn next_key_seed<S: DeserializeSeed<'de>>(&mut self, seed: S) -> Result<Option<S::Value>, SimErr> {
        self.c.ev("next_key(variant)")?;
        match self.name.take() {
            None => Ok(None),
            Some(n) => seed.deserialize(NameDe { c: self.c, n, variant: false }).map(Some),
        }
    }
    fn next_value_seed<S: DeserializeSeed<'de>>(&mut self, seed: S) -> Result<S::Value, SimErr> {
        self.c.ev("next_value(variant)")?;
        match self.body.take() {
            None => e("value without key".into()),
            Some(b) => seed.deserialize(BodyDe { c: self.c, b }),
        }
    }
}

struct EnumAcc<'de, 'c> {
    c: &'c DeCtl,
    name: VName<'de>,
    body: Body<'de>,
}
impl<'de, 'c> EnumAccess<'de> for EnumAcc<'de, 'c> {
    type Error = SimErr;
    type Variant = Self;
    fn variant_seed<S: DeserializeSeed<'de>>(self, seed: S) -> Result<(S::Value, Self), SimErr> {
        self.c.ev("variant")?;
        let v = match self.name.t {
            Some(t) => seed.deserialize(SimDe { t, c: self.c })?,
            None => seed.deserialize(NameDe { c: self.c, n: self.name, variant: true })?,
        };
        Ok((v, self))
    }
}
impl<'de, 'c> VariantAccess<'de> for EnumAcc<'de, 'c> {
    type Error = SimErr;
    fn unit_variant(self) -> Result<(), SimErr> {
        self.c.ev("unit_variant")?;
        match self.body {
            Body::Unit => Ok(()),
            Body::One(Tree::Unit | Tree::UnitStruct(_)) if !self.c.strict => Ok(()),
            _ => e("the variant has contents".into()),
        }
    }
    fn newtype_variant_seed<S: DeserializeSeed<'de>>(self, seed: S) -> Result<S::Value, SimErr> {
        self.c.ev("newtype_variant")?;
        match self.body {
            Body::One(t) => seed.deserialize(SimDe { t, c: self.c }),
            Body::Unit => e("the variant has no contents".into()),
            b if !self.c.strict => seed.deserialize(BodyDe { c: self.c, b }),
            _ => e("compact format: not a newtype variant".into()),
        }
    }
    fn tuple_variant<V: Visitor<'de>>(self, len: usize, vis: V) -> Result<V::Value, SimErr> {
        self.c.ev("tuple_variant")?;
        let d = SimDe { t: &Tree::Unit, c: self.c };
        match self.body {
            Body::Items(v) if !self.c.strict || v.len() == len => d.seq(v, true, vis),
            Body::One(t) if !self.c.strict => d.at(t).any(vis),
            _ => e("not a tuple variant of that length".into()),
        }
    }
    fn struct_variant<V: Visitor<'de>>(self, f: &'static [&'static str], vis: V) -> Result<V::Value, SimErr> {
        self.c.ev("struct_variant")?;
        let d = SimDe { t: &Tree::Unit, c: self.c };
        match self.body {
            Body::Fields(v) if self.c.strict && v.len() == f.len() => d.fields_seq(v, vis),
            Body::Fields(v) if !self.c.strict => d.fields(v, vis),
            Body::One(t) if !self.c.strict => d.at(t).any(vis),
            _ => e("not a struct variant with those fields".into()),
        }
    }
}

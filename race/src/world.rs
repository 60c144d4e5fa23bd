//! The programs under simulation: traits, the types behind them, and the messages.
use serde::de::{DeserializeOwned, Deserializer, Error as _};
use serde::ser::{Error as _, Serializer};
use serde::{Deserialize, Serialize};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicPtr, AtomicU64, Ordering};

// ---------------------------------------------------------------- instances

pub static CREATED: AtomicU64 = AtomicU64::new(0);
pub static DROPPED: AtomicU64 = AtomicU64::new(0);
pub static TWICE: AtomicU64 = AtomicU64::new(0);
const LIVE: u64 = 0x11fe_c0de;

pub struct Token(u64);
impl Default for Token {
    fn default() -> Self {
        CREATED.fetch_add(1, Ordering::Relaxed);
        Token(LIVE)
    }
}
impl Drop for Token {
    fn drop(&mut self) {
        DROPPED.fetch_add(1, Ordering::Relaxed);
        if self.0 != LIVE {
            TWICE.fetch_add(1, Ordering::Relaxed);
        }
        unsafe { std::ptr::write_volatile(&mut self.0, 0) }
    }
}

/// A few scheduling points in the middle of user code.
fn work() {
    static W: AtomicU64 = AtomicU64::new(0);
    for _ in 0..4 {
        W.fetch_add(1, Ordering::Relaxed);
    }
}

// ---------------------------------------------------------------- types

pub trait Show {
    fn show(&self) -> String;
}

#[derive(Serialize, Deserialize)]
pub struct Leaf {
    a: u32,
    b: String,
    #[serde(skip)]
    _t: Token,
}
impl Show for Leaf {
    fn show(&self) -> String {
        format!("Leaf({},{})", self.a, self.b)
    }
}

#[derive(Serialize, Deserialize)]
#[serde(transparent)]
pub struct Word {
    w: String,
    #[serde(skip)]
    _t: Token,
}
impl Show for Word {
    fn show(&self) -> String {
        format!("Word({})", self.w)
    }
}

#[derive(Serialize, Deserialize)]
#[serde(transparent)]
pub struct List {
    l: Vec<i64>,
    #[serde(skip)]
    _t: Token,
}
impl Show for List {
    fn show(&self) -> String {
        format!("List({:?})", self.l)
    }
}

#[derive(Serialize, Deserialize)]
pub enum Choice {
    One,
    Two(u32),
    Three { x: Option<bool> },
}
impl Show for Choice {
    fn show(&self) -> String {
        match self {
            Choice::One => "One".into(),
            Choice::Two(n) => format!("Two({n})"),
            Choice::Three { x } => format!("Three({x:?})"),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct Nest {
    a: Box<dyn REx>,
    b: Option<Box<dyn RInt>>,
    c: Vec<Box<dyn RAdj>>,
    #[serde(skip)]
    _t: Token,
}
impl Show for Nest {
    fn show(&self) -> String {
        let c: Vec<String> = self.c.iter().map(|c| c.show()).collect();
        format!("Nest({},{:?},{:?})", self.a.show(), self.b.as_ref().map(|b| b.show()), c)
    }
}

/// Holds another trait's object whose message is text inside a string.
pub struct Inner {
    text: String,
    got: Result<String, String>,
}
impl Serialize for Inner {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&self.text)
    }
}
impl<'de> Deserialize<'de> for Inner {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let text = String::deserialize(d)?;
        let got = match serde_json::from_str::<Box<dyn RSend>>(&text) {
            Ok(b) => Ok(b.show()),
            Err(e) => Err(e.to_string()),
        };
        Ok(Inner { text, got })
    }
}
impl Show for Inner {
    fn show(&self) -> String {
        format!("Inner({:?})", self.got)
    }
}

macro_rules! faulty {
    ($name:ident, $de:expr, $ser:expr) => {
        pub struct $name {
            n: u32,
            _t: Token,
        }
        impl Serialize for $name {
            fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                work();
                match $ser {
                    1 => return Err(S::Error::custom(format!("{} will not be written", self.n))),
                    2 => resume_unwind(Box::new("a panic while writing")),
                    _ => {}
                }
                let r = s.serialize_u32(self.n);
                work();
                r
            }
        }
        impl<'de> Deserialize<'de> for $name {
            fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
                work();
                let t = Token::default();
                let n = u32::deserialize(d)?;
                work();
                match $de {
                    1 => return Err(D::Error::custom(format!("{n} is not wanted"))),
                    2 => resume_unwind(Box::new("a panic while reading")),
                    _ => {}
                }
                Ok($name { n, _t: t })
            }
        }
        impl Show for $name {
            fn show(&self) -> String {
                format!(concat!(stringify!($name), "({})"), self.n)
            }
        }
    };
}
faulty!(Slow, 0, 0);
faulty!(Fail, 1, 0);
faulty!(Boom, 2, 0);
faulty!(WFail, 0, 1);
faulty!(WBoom, 0, 2);

macro_rules! fillers {
    ($tr:ident) => { fillers!($tr: F00 F01 F02 F03 F04 F05 F06 F07 F08 F09 F10 F11 F12 F13 F14 F15 F16 F17 F18 F19 F20 F21 F22 F23); };
    ($tr:ident: $($f:ident)*) => { $( #[typetag::serde] impl $tr for $f {} )* };
}
macro_rules! filler_types {
    ($($f:ident)*) => { $(
        #[derive(Serialize, Deserialize)]
        pub struct $f;
        impl Show for $f {
            fn show(&self) -> String { stringify!($f).into() }
        }
    )* };
}
filler_types!(F00 F01 F02 F03 F04 F05 F06 F07 F08 F09 F10 F11 F12 F13 F14 F15 F16 F17 F18 F19 F20 F21 F22 F23);

// ---------------------------------------------------------------- traits

#[typetag::serde]
pub trait REx: Show {}
#[typetag::serde(tag = "type")]
pub trait RInt: Show {}
#[typetag::serde(tag = "t", content = "c")]
pub trait RAdj: Show {}
#[typetag::serde(tag = "type", default_variant = "Leaf")]
pub trait RIntD: Show {}
#[typetag::serde(tag = "t", content = "c", default_variant = "Leaf", deny_unknown_fields)]
pub trait RAdjD: Show {}
#[typetag::serde(tag = "type")]
pub trait RSend: Show + Send + Sync {}
#[typetag::serde(tag = "k", content = "v")]
pub trait RDup: Show {}
#[typetag::serde]
pub trait RBare: Show {}

macro_rules! register {
    ($($tr:ident)*) => { $(
        #[typetag::serde] impl $tr for Leaf {}
        #[typetag::serde] impl $tr for Word {}
        #[typetag::serde] impl $tr for List {}
        #[typetag::serde] impl $tr for Choice {}
        #[typetag::serde] impl $tr for Slow {}
        #[typetag::serde] impl $tr for Fail {}
        #[typetag::serde] impl $tr for Boom {}
        #[typetag::serde] impl $tr for WFail {}
        #[typetag::serde] impl $tr for WBoom {}
        #[typetag::serde] impl $tr for Inner {}
        fillers!($tr);
    )* };
}
register!(REx RInt RAdj RIntD RAdjD RSend RDup);
macro_rules! nested {
    ($($tr:ident)*) => { $( #[typetag::serde] impl $tr for Nest {} )* };
}
nested!(REx RInt RAdj RIntD RAdjD RDup);

#[derive(Serialize, Deserialize)]
pub struct Twin1;
#[derive(Serialize, Deserialize)]
pub struct Twin2;
impl Show for Twin1 {
    fn show(&self) -> String {
        "Twin1".into()
    }
}
impl Show for Twin2 {
    fn show(&self) -> String {
        "Twin2".into()
    }
}
#[typetag::serde(name = "Twin")]
impl RDup for Twin1 {}
#[typetag::serde(name = "Twin")]
impl RDup for Twin2 {}
#[typetag::serde]
impl RBare for Leaf {}

pub const TRAITS: [&str; 8] = ["REx", "RInt", "RAdj", "RIntD", "RAdjD", "RSend", "RDup", "RBare"];
const NEST_MASK: u32 = 1 | 2 | 4;

// ---------------------------------------------------------------- messages

pub struct Msg {
    pub tr: usize,
    pub cbor: bool,
    pub bytes: Vec<u8>,
    pub label: String,
    pub fails: bool,
    /// Which traits a decoder may get to know.
    pub mask: u32,
}

fn wrap(tr: usize, tag: &str, content: &str, late: bool) -> String {
    let (kind, t, c) = match tr {
        0 | 7 => (0, "", ""),
        1 | 3 | 5 => (1, "type", ""),
        2 | 4 => (2, "t", "c"),
        _ => (2, "k", "v"),
    };
    match kind {
        0 => format!(r#"{{"{tag}":{content}}}"#),
        1 => {
            let fields = match content.strip_prefix('{').and_then(|c| c.strip_suffix('}')) {
                Some(f) => f.to_string(),
                None if content == "null" => String::new(),
                None => format!(r#""value":{content}"#),
            };
            match (fields.is_empty(), late) {
                (true, _) => format!(r#"{{"{t}":"{tag}"}}"#),
                (_, false) => format!(r#"{{"{t}":"{tag}",{fields}}}"#),
                (_, true) => format!(r#"{{{fields},"{t}":"{tag}"}}"#),
            }
        }
        _ if late => format!(r#"{{"{c}":{content},"{t}":"{tag}"}}"#),
        _ => format!(r#"{{"{t}":"{tag}","{c}":{content}}}"#),
    }
}

pub fn messages() -> Vec<Msg> {
    let mut v = Vec::new();
    for tr in 0..TRAITS.len() {
        let me = 1u32 << tr;
        let inner_ok = wrap(5, "Leaf", r#"{"a":5,"b":"in"}"#, false).replace('"', "\\\"");
        let inner_bad = wrap(5, "Nope", r#"{"a":5}"#, false).replace('"', "\\\"");
        let nest = format!(
            r#"{{"a":{},"b":{},"c":[{},{}]}}"#,
            wrap(0, "Slow", "9", false),
            wrap(1, "Leaf", r#"{"a":2,"b":"y"}"#, true),
            wrap(2, "Word", "\"w\"", false),
            wrap(2, "Leaf", r#"{"a":3,"b":"z"}"#, true)
        );
        let deep = format!(r#"{{"a":{},"b":null,"c":[]}}"#, wrap(0, "Nest", &nest, false));
        let nest_boom = format!(r#"{{"a":{},"b":null,"c":[{}]}}"#, wrap(0, "Leaf", r#"{"a":4,"b":"q"}"#, false), wrap(2, "Boom", "7", false));
        let nest_fail = format!(r#"{{"a":{},"b":null,"c":[]}}"#, wrap(0, "Fail", "8", false));
        let mut cases: Vec<(String, String, bool, u32)> = vec![
            ("Leaf".into(), r#"{"a":1,"b":"x"}"#.into(), false, me),
            ("Word".into(), "\"hello\"".into(), false, me),
            ("List".into(), "[1,-2,300]".into(), false, me),
            ("Choice".into(), r#"{"Two":2}"#.into(), false, me),
            ("Choice".into(), r#"{"Three":{"x":null}}"#.into(), false, me),
            ("Slow".into(), "3".into(), false, me),
            ("F00".into(), "null".into(), false, me),
            ("F23".into(), "null".into(), false, me),
            ("Fail".into(), "11".into(), true, me),
            ("Boom".into(), "12".into(), true, me),
            ("WFail".into(), "13".into(), true, me),
            ("WBoom".into(), "14".into(), true, me),
            ("Inner".into(), format!("\"{inner_ok}\""), false, me | 1 << 5),
            ("Inner".into(), format!("\"{inner_bad}\""), false, me | 1 << 5),
            ("Nope".into(), "1".into(), false, me),
            ("Leaf".into(), r#"{"a":"wrong"}"#.into(), false, me),
        ];
        if tr != 5 {
            cases.push(("Nest".into(), nest.clone(), false, me | NEST_MASK));
            cases.push(("Nest".into(), deep, false, me | NEST_MASK));
            cases.push(("Nest".into(), nest_boom, true, me | NEST_MASK));
            cases.push(("Nest".into(), nest_fail, true, me | NEST_MASK));
        }
        if tr == 6 {
            cases.push(("Twin".into(), "null".into(), false, me));
        }
        if tr == 7 {
            cases.retain(|c| c.0 == "Leaf" || c.0 == "Nope");
        }
        for (tag, content, fails, mask) in cases {
            for late in [false, true] {
                if late && matches!(tr, 0 | 7) {
                    continue;
                }
                let text = wrap(tr, &tag, &content, late);
                for cbor in [false, true] {
                    let bytes = if cbor {
                        let val: ciborium::Value = serde_json::from_str(&text).unwrap();
                        let mut b = Vec::new();
                        ciborium::into_writer(&val, &mut b).unwrap();
                        b
                    } else {
                        text.clone().into_bytes()
                    };
                    v.push(Msg { tr, cbor, bytes, label: text.clone(), fails, mask });
                }
            }
        }
        // Damaged ones.
        for text in [r#"{"a":1,"b":"x"}"#, r#"{"c":{"a":1,"b":"x"}}"#, r#"{"c":1,"c":2}"#, r#"{"t":"Leaf","#, r#"{"type":"Leaf","a":1"#, "{}", "17"] {
            v.push(Msg { tr, cbor: false, bytes: text.as_bytes().to_vec(), label: text.into(), fails: false, mask: me });
        }
    }
    v
}

// ---------------------------------------------------------------- operations

#[derive(Clone, Copy, PartialEq)]
pub struct Op {
    pub msg: usize,
    /// 0 decode, 1 decode and write back, 2 decode twice, 3 decode and leave it to
    /// another thread (RSend only).
    pub action: usize,
}
pub const ACTIONS: usize = 4;

static SLOT: AtomicPtr<Box<dyn RSend>> = AtomicPtr::new(std::ptr::null_mut());

fn decode<T>(m: &Msg) -> Result<Box<T>, String>
where
    T: ?Sized,
    Box<T>: DeserializeOwned,
{
    if m.cbor {
        ciborium::from_reader(&m.bytes[..]).map_err(|e| e.to_string())
    } else {
        serde_json::from_slice(&m.bytes).map_err(|e| e.to_string())
    }
}

fn encode<T: ?Sized + Serialize>(m: &Msg, v: &T) -> Result<String, String> {
    if m.cbor {
        let mut b = Vec::new();
        ciborium::into_writer(v, &mut b).map_err(|e| e.to_string())?;
        Ok(b.iter().map(|b| format!("{b:02x}")).collect())
    } else {
        serde_json::to_string(v).map_err(|e| e.to_string())
    }
}

fn act<T>(m: &Msg, action: usize) -> String
where
    T: ?Sized + Show + Serialize,
    Box<T>: DeserializeOwned,
{
    let mut s = match decode::<T>(m) {
        Err(e) => format!("error: {e}"),
        Ok(b) => {
            let mut s = format!("value: {}", b.show());
            if action == 1 {
                match encode::<T>(m, &*b) {
                    Ok(t) => s += &format!(" written: {t}"),
                    Err(e) => s += &format!(" not written: {e}"),
                }
            }
            s
        }
    };
    if action == 2 {
        let again = match decode::<T>(m) {
            Err(e) => format!("error: {e}"),
            Ok(b) => format!("value: {}", b.show()),
        };
        if again != s {
            s = format!("{s}, then {again}");
        }
    }
    s
}

fn share(m: &Msg) -> String {
    let b = match decode::<dyn RSend>(m) {
        Err(e) => return format!("error: {e}"),
        Ok(b) => b,
    };
    let s = format!("value: {}", b.show());
    let old = SLOT.swap(Box::into_raw(Box::new(b)), Ordering::AcqRel);
    if !old.is_null() {
        let old = unsafe { Box::from_raw(old) };
        if old.show().is_empty() {
            return "an empty object".into();
        }
    }
    s
}

/// Clears away what the last thread left.
pub fn sweep() {
    let old = SLOT.swap(std::ptr::null_mut(), Ordering::AcqRel);
    if !old.is_null() {
        drop(unsafe { Box::from_raw(old) });
    }
}

pub fn perform(msgs: &[Msg], op: Op) -> String {
    let m = &msgs[op.msg];
    let r = catch_unwind(AssertUnwindSafe(|| match m.tr {
        0 => act::<dyn REx>(m, op.action),
        1 => act::<dyn RInt>(m, op.action),
        2 => act::<dyn RAdj>(m, op.action),
        3 => act::<dyn RIntD>(m, op.action),
        4 => act::<dyn RAdjD>(m, op.action),
        5 if op.action == 3 => share(m),
        5 => act::<dyn RSend>(m, op.action),
        6 => act::<dyn RDup>(m, op.action),
        _ => act::<dyn RBare>(m, op.action),
    }));
    match r {
        Ok(s) => s,
        Err(p) => {
            let s = match p.downcast_ref::<&str>() {
                Some(s) => format!("panic: {s}"),
                None => match p.downcast_ref::<String>() {
                    Some(s) => format!("panic: {s}"),
                    None => "panic".into(),
                },
            };
            drop(p);
            s
        }
    }
}

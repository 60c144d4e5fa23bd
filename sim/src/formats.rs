//! The formats objects travel through, real and simulated, and the tables of traits.
use crate::simio::{SimReader, SimWriter};
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::io::{BufReader, Read};
use vsim_base::model::{wrap, Info};
use vsim_base::shapes::{Key, ShapeInfo};
use vsim_base::simde::{DeCtl, SimDe};
use vsim_base::simser::{SerCtl, SimErr, SimSer};
use vsim_base::tree::{s, Tree};
use vsim_base::worlds::*;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Fmt {
    JsonStr,
    JsonRead,
    JsonVal,
    JsonValRef,
    Cbor,
    BinRead,
    BinSlice,
    Post,
    /// Simulated self-describing format; human readable or not.
    Sim(bool),
    /// Simulated compact format that checks that reads mirror writes.
    Strict(bool),
}

/// What is written.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Enc {
    Json,
    JsonPretty,
    JsonVal,
    Cbor,
    Bin,
    Post,
    Tree(bool),
}

impl Fmt {
    pub fn enc(self) -> Enc {
        match self {
            Fmt::JsonStr | Fmt::JsonRead => Enc::Json,
            Fmt::JsonVal | Fmt::JsonValRef => Enc::JsonVal,
            Fmt::Cbor => Enc::Cbor,
            Fmt::BinRead | Fmt::BinSlice => Enc::Bin,
            Fmt::Post => Enc::Post,
            Fmt::Sim(h) | Fmt::Strict(h) => Enc::Tree(h),
        }
    }
    pub fn hr(self) -> bool {
        match self {
            Fmt::JsonStr | Fmt::JsonRead | Fmt::JsonVal | Fmt::JsonValRef => true,
            Fmt::Cbor | Fmt::BinRead | Fmt::BinSlice | Fmt::Post => false,
            Fmt::Sim(h) | Fmt::Strict(h) => h,
        }
    }
    pub fn self_describing(self) -> bool {
        !matches!(self, Fmt::BinRead | Fmt::BinSlice | Fmt::Post | Fmt::Strict(_))
    }
    pub fn reader(self) -> bool {
        matches!(self, Fmt::JsonRead | Fmt::Cbor | Fmt::BinRead)
    }
    pub fn json(self) -> bool {
        matches!(self, Fmt::JsonStr | Fmt::JsonRead | Fmt::JsonVal | Fmt::JsonValRef)
    }
    /// Whether errors keep the message of the error that caused them.
    pub fn keeps_messages(self) -> bool {
        self != Fmt::Post
    }
    pub fn name(self) -> &'static str {
        match self {
            Fmt::JsonStr => "json-str",
            Fmt::JsonRead => "json-reader",
            Fmt::JsonVal => "json-value",
            Fmt::JsonValRef => "json-value-ref",
            Fmt::Cbor => "cbor",
            Fmt::BinRead => "bincode-reader",
            Fmt::BinSlice => "bincode-slice",
            Fmt::Post => "postcard",
            Fmt::Sim(true) => "sim-text",
            Fmt::Sim(false) => "sim-binary",
            Fmt::Strict(true) => "sim-compact-text",
            Fmt::Strict(false) => "sim-compact",
        }
    }
}

pub const ALL: &[Fmt] = &[
    Fmt::JsonStr,
    Fmt::JsonRead,
    Fmt::JsonVal,
    Fmt::JsonValRef,
    Fmt::Cbor,
    Fmt::BinRead,
    Fmt::BinSlice,
    Fmt::Post,
    Fmt::Sim(true),
    Fmt::Sim(false),
    Fmt::Strict(false),
    Fmt::Strict(true),
];
pub const SELF: &[Fmt] = &[
    Fmt::JsonStr,
    Fmt::Cbor,
    Fmt::Sim(true),
    Fmt::JsonRead,
    Fmt::JsonVal,
    Fmt::Cbor,
    Fmt::JsonValRef,
    Fmt::Sim(false),
];

/// One message on the simulated wire.
#[derive(Clone, Debug)]
pub enum Wire {
    Bytes(Vec<u8>),
    Val(Value),
    Tree(Tree),
}

impl Wire {
    pub fn bytes(&self) -> &[u8] {
        match self {
            Wire::Bytes(b) => b,
            _ => &[],
        }
    }
    pub fn show(&self) -> String {
        let t = match self {
            Wire::Bytes(b) => match std::str::from_utf8(b) {
                Ok(t) if t.bytes().all(|c| c >= b' ') => t.to_owned(),
                _ => b.iter().map(|x| format!("{x:02x}")).collect::<Vec<_>>().join(""),
            },
            Wire::Val(v) => v.to_string(),
            Wire::Tree(t) => t.show(),
        };
        let mut n = t.len().min(700);
        while !t.is_char_boundary(n) {
            n -= 1;
        }
        t[..n].to_owned()
    }
}

pub fn put<T: Serialize + ?Sized>(v: &T, enc: Enc, w: &mut SimWriter) -> Result<(), String> {
    match enc {
        Enc::Json => serde_json::to_writer(w, v).map_err(|e| e.to_string()),
        Enc::JsonPretty => serde_json::to_writer_pretty(w, v).map_err(|e| e.to_string()),
        Enc::Cbor => ciborium::into_writer(v, w).map_err(|e| e.to_string()),
        Enc::Bin => bincode::serialize_into(w, v).map_err(|e| e.to_string()),
        Enc::Post => postcard::to_io(v, w).map(|_| ()).map_err(|e| e.to_string()),
        Enc::JsonVal | Enc::Tree(_) => unreachable!(),
    }
}

pub fn write<T: Serialize + ?Sized>(v: &T, enc: Enc) -> Result<Wire, String> {
    Ok(match enc {
        Enc::JsonVal => Wire::Val(serde_json::to_value(v).map_err(|e| e.to_string())?),
        Enc::Tree(hr) => Wire::Tree(vsim_base::simser::tree_of(v, hr).map_err(|e| e.0)?),
        _ => {
            let mut w = SimWriter::new();
            put(v, enc, &mut w)?;
            Wire::Bytes(w.out)
        }
    })
}

/// A request to decode `k` consecutive objects.
pub struct Req<'a, 'b> {
    pub fmt: Fmt,
    pub wire: &'a Wire,
    /// For reader formats; wraps the bytes of `wire`.
    pub rd: Option<&'b mut SimReader<'a>>,
    /// Size of a BufReader between, 0 for none.
    pub buf: usize,
    pub ctl: Option<&'b DeCtl>,
    pub k: usize,
    /// bincode size limit (0 = none)
    pub limit: u64,
}

pub struct Out {
    pub res: Result<Box<dyn Held>, String>,
    /// Offset after the object, where the format tells.
    pub pos: Option<usize>,
}

fn read_with<T: DeserializeOwned>(q: &mut Req, out: &mut dyn FnMut(Result<T, String>, Option<usize>) -> bool) {
    let b = q.wire.bytes();
    match q.fmt {
        Fmt::JsonStr => {
            fn go<'a, R: serde_json::de::Read<'a>, T: DeserializeOwned>(mut d: serde_json::Deserializer<R>, k: usize, out: &mut dyn FnMut(Result<T, String>, Option<usize>) -> bool) {
                for i in 0..k {
                    let r = T::deserialize(&mut d).map_err(|e| e.to_string());
                    let r = match r {
                        // `from_str` also checks for trailing characters
                        Ok(v) if i + 1 == k => d.end().map(|_| v).map_err(|e| e.to_string()),
                        r => r,
                    };
                    if !out(r, None) {
                        return;
                    }
                }
            }
            // serde_json cuts a character in two when a key that begins with it is
            // read as a bool from a &str (it does check this in a slice of bytes).
            let cuts = !b.is_ascii() && b.windows(13).any(|w| w == b"BTreeMap<bool");
            match std::str::from_utf8(b) {
                Ok(t) if !cuts => go(serde_json::Deserializer::from_str(t), q.k, out),
                _ => go(serde_json::Deserializer::from_slice(b), q.k, out),
            }
        }
        Fmt::JsonRead => {
            let k = q.k;
            let rd = q.rd.as_mut().unwrap();
            let mut go = |r: &mut dyn Read| {
                let mut d = serde_json::Deserializer::from_reader(r);
                for _ in 0..k {
                    if !out(T::deserialize(&mut d).map_err(|e| e.to_string()), None) {
                        return;
                    }
                }
            };
            if q.buf > 0 {
                go(&mut BufReader::with_capacity(q.buf, &mut **rd))
            } else {
                go(&mut **rd)
            }
        }
        Fmt::JsonVal => {
            let Wire::Val(v) = q.wire else { unreachable!() };
            out(T::deserialize(v.clone()).map_err(|e| e.to_string()), None);
        }
        Fmt::JsonValRef => {
            let Wire::Val(v) = q.wire else { unreachable!() };
            out(T::deserialize(v).map_err(|e| e.to_string()), None);
        }
        Fmt::Cbor => {
            let k = q.k;
            let rd = q.rd.as_mut().unwrap();
            if q.buf > 0 {
                let mut r = BufReader::with_capacity(q.buf, &mut **rd);
                for _ in 0..k {
                    let x = ciborium::from_reader(&mut r as &mut dyn Read).map_err(|e: ciborium::de::Error<std::io::Error>| e.to_string());
                    let pos = r.get_ref().pos - r.buffer().len();
                    if !out(x, Some(pos)) {
                        return;
                    }
                }
            } else {
                for _ in 0..k {
                    let x = ciborium::from_reader(&mut **rd as &mut dyn Read).map_err(|e: ciborium::de::Error<std::io::Error>| e.to_string());
                    if !out(x, Some(rd.pos)) {
                        return;
                    }
                }
            }
        }
        Fmt::BinRead => {
            let k = q.k;
            let rd = q.rd.as_mut().unwrap();
            if q.buf > 0 {
                let mut r = BufReader::with_capacity(q.buf, &mut **rd);
                for _ in 0..k {
                    let x = bincode::deserialize_from(&mut r as &mut dyn Read).map_err(|e| e.to_string());
                    let pos = r.get_ref().pos - r.buffer().len();
                    if !out(x, Some(pos)) {
                        return;
                    }
                }
            } else {
                for _ in 0..k {
                    let x = bincode::deserialize_from(&mut **rd as &mut dyn Read).map_err(|e| e.to_string());
                    if !out(x, Some(rd.pos)) {
                        return;
                    }
                }
            }
        }
        Fmt::BinSlice => {
            let mut pos = 0;
            for _ in 0..q.k {
                let r: Result<T, String> = bincode::deserialize(&b[pos..]).map_err(|e| e.to_string());
                // A slice gives no position; the length of a value is known by writing it.
                if q.k > 1 {
                    unreachable!("bincode slices are decoded one by one");
                }
                pos = b.len();
                if !out(r, None) {
                    return;
                }
            }
        }
        Fmt::Post => {
            let mut rest = b;
            for _ in 0..q.k {
                match postcard::take_from_bytes::<T>(rest) {
                    Ok((v, r)) => {
                        rest = r;
                        if !out(Ok(v), Some(b.len() - rest.len())) {
                            return;
                        }
                    }
                    Err(e) => {
                        out(Err(e.to_string()), None);
                        return;
                    }
                }
            }
        }
        Fmt::Sim(_) | Fmt::Strict(_) => {
            let Wire::Tree(t) = q.wire else { unreachable!() };
            out(T::deserialize(SimDe::new(t, q.ctl.unwrap())).map_err(|e| e.0), None);
        }
    }
}

/// Reads a plain value (the reference side) from a wire, without faults.
pub fn read_plain<T: DeserializeOwned>(fmt: Fmt, wire: &Wire) -> Result<T, String> {
    read_plain_at(fmt, wire).0
}

pub fn read_plain_at<T: DeserializeOwned>(fmt: Fmt, wire: &Wire) -> (Result<T, String>, Option<usize>) {
    let mut rd = SimReader::new(match wire {
        Wire::Bytes(b) => b,
        _ => &[],
    });
    let ctl = DeCtl::plain(matches!(fmt, Fmt::Strict(_)), fmt.hr());
    let mut got = (Err("nothing".to_string()), None);
    let mut q = Req { fmt, wire, rd: Some(&mut rd), buf: 0, ctl: Some(&ctl), k: 1, limit: 0 };
    read_with::<T>(&mut q, &mut |r, at| {
        got = (r, at);
        true
    });
    if matches!(fmt, Fmt::Strict(_)) && ctl.leftover.get() {
        got.0 = Err("some of it is left over".into());
    }
    got
}

thread_local!(static DE: std::cell::Cell<Option<fn(&mut dyn erased_serde::Deserializer) -> Result<String, String>>> = const { std::cell::Cell::new(None) });
struct Any(String);
impl<'de> Deserialize<'de> for Any {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Any, D::Error> {
        let f = DE.with(|x| x.get()).unwrap();
        let mut e = <dyn erased_serde::Deserializer>::erase(d);
        f(&mut e).map(Any).map_err(serde::de::Error::custom)
    }
}
#[derive(Deserialize)]
#[serde(untagged)]
enum Buffered {
    One(Any),
}

/// Decodes a catalogue type, with no trait object at the top, from a wire.
pub fn read_shape(sh: &ShapeInfo, fmt: Fmt, wire: &Wire) -> Result<String, String> {
    DE.with(|x| x.set(Some(sh.de)));
    read_plain::<Any>(fmt, wire).map(|a| a.0)
}

/// The same, and nothing of it may be left over.
pub fn read_shape_whole(sh: &ShapeInfo, fmt: Fmt, wire: &Wire) -> Result<String, String> {
    DE.with(|x| x.set(Some(sh.de)));
    // A slice gives no position.
    let fmt = if fmt == Fmt::BinSlice { Fmt::BinRead } else { fmt };
    let (r, pos) = read_plain_at::<Any>(fmt, wire);
    match pos {
        Some(p) if p != wire.bytes().len() => Err("some of it is left over".into()),
        _ => r.map(|a| a.0),
    }
}

/// The same through serde's own buffer.
pub fn read_shape_buffered(sh: &ShapeInfo, fmt: Fmt, wire: &Wire) -> Result<String, String> {
    DE.with(|x| x.set(Some(sh.de)));
    read_plain::<Buffered>(fmt, wire).map(|Buffered::One(a)| a.0)
}

// ------------------------------------------------------------------ objects

pub struct Item {
    pub tag: &'static str,
    pub dbg: String,
}

/// Something made of trait objects: one box, or boxes inside ordinary data.
pub trait Held {
    fn items(&self) -> Vec<Item>;
    fn payloads(&self, hr: bool) -> Vec<Tree>;
    fn model(&self, info: &Info, hr: bool) -> Result<Tree, String>;
    fn put(&self, enc: Enc, w: &mut SimWriter) -> Result<(), String>;
    fn write(&self, enc: Enc) -> Result<Wire, String>;
    fn sim(&self, ctl: &SerCtl) -> Result<Tree, SimErr>;
}

pub trait Parts: Serialize {
    fn each(&self, f: &mut dyn FnMut(&'static str, String, &dyn Fn(bool) -> Tree));
    fn model(&self, info: &Info, hr: bool) -> Result<Tree, String>;
}

impl<O: ?Sized + Obj> Parts for Box<O>
where
    Box<O>: Serialize,
{
    fn each(&self, f: &mut dyn FnMut(&'static str, String, &dyn Fn(bool) -> Tree)) {
        f(self.tag(), self.dbg(), &|hr| self.as_ref().enc(hr))
    }
    fn model(&self, info: &Info, hr: bool) -> Result<Tree, String> {
        wrap(info, self.as_ref().tag(), self.as_ref().enc(hr))
    }
}

/// Trait objects embedded in ordinary data, so that it shows when one is read or
/// written beyond its own bounds.
#[derive(Serialize, Deserialize)]
#[serde(bound(serialize = "Box<O>: Serialize", deserialize = "Box<O>: Deserialize<'de>"))]
pub struct Envelope<O: ?Sized> {
    pub pre: u32,
    pub list: Vec<Box<O>>,
    pub opt: Option<Box<O>>,
    pub map: Vec<(Key, Box<O>)>,
    pub post: String,
}

impl<O: ?Sized + Obj> Parts for Envelope<O>
where
    Box<O>: Serialize,
{
    fn each(&self, f: &mut dyn FnMut(&'static str, String, &dyn Fn(bool) -> Tree)) {
        f("", format!("{} {} {:?} {:?}", self.pre, self.list.len(), self.opt.is_some(), self.map.iter().map(|x| &x.0).collect::<Vec<_>>()), &|_| Tree::Unit);
        for b in self.list.iter().chain(&self.opt).chain(self.map.iter().map(|(_, b)| b)) {
            b.each(f);
        }
        f("", self.post.clone(), &|_| Tree::Unit);
    }
    fn model(&self, info: &Info, hr: bool) -> Result<Tree, String> {
        let many = |v: &Vec<Box<O>>| v.iter().map(|b| b.model(info, hr)).collect::<Result<Vec<_>, _>>();
        Ok(Tree::Struct(
            "Envelope",
            vec![
                ("pre", Tree::U32(self.pre)),
                ("list", Tree::Seq(many(&self.list)?, true)),
                ("opt", match &self.opt {
                    None => Tree::None,
                    Some(b) => Tree::Some(Box::new(b.model(info, hr)?)),
                }),
                (
                    "map",
                    Tree::Seq(
                        self.map
                            .iter()
                            .map(|(k, b)| Ok(Tree::Tuple(vec![s(&k.0), b.model(info, hr)?])))
                            .collect::<Result<Vec<_>, String>>()?,
                        true,
                    ),
                ),
                ("post", s(&self.post)),
            ],
        ))
    }
}

struct Whole<T>(T);
impl<T: Parts> Held for Whole<T> {
    fn items(&self) -> Vec<Item> {
        let mut v = Vec::new();
        self.0.each(&mut |tag, dbg, _| v.push(Item { tag, dbg }));
        v
    }
    fn payloads(&self, hr: bool) -> Vec<Tree> {
        let mut v = Vec::new();
        self.0.each(&mut |_, _, e| v.push(e(hr)));
        v
    }
    fn model(&self, info: &Info, hr: bool) -> Result<Tree, String> {
        self.0.model(info, hr)
    }
    fn put(&self, enc: Enc, w: &mut SimWriter) -> Result<(), String> {
        put(&self.0, enc, w)
    }
    fn write(&self, enc: Enc) -> Result<Wire, String> {
        write(&self.0, enc)
    }
    fn sim(&self, ctl: &SerCtl) -> Result<Tree, SimErr> {
        self.0.serialize(SimSer(ctl))
    }
}

// ------------------------------------------------------------------ tables

pub struct World {
    pub info: Info,
    pub shapes: Vec<ShapeInfo>,
    pub make: Vec<Box<dyn Fn() -> Box<dyn Held>>>,
    pub envelope: Box<dyn Fn(&[usize], usize, bool) -> Box<dyn Held>>,
    pub dec: fn(&mut Req) -> Vec<Out>,
    pub dec_env: fn(&mut Req) -> Vec<Out>,
    /// Implements the whole catalogue.
    pub main: bool,
}

impl World {
    pub fn find(&self, tag: &str) -> Option<&ShapeInfo> {
        self.shapes.iter().find(|s| s.name == tag)
    }
    pub fn decode(&self, env: bool, q: &mut Req) -> Vec<Out> {
        if env {
            (self.dec_env)(q)
        } else {
            (self.dec)(q)
        }
    }
}

fn dec_t<T: DeserializeOwned + Parts + 'static>(q: &mut Req) -> Vec<Out> {
    let mut v = Vec::new();
    read_with::<T>(q, &mut |r, pos| {
        let ok = r.is_ok();
        v.push(Out { res: r.map(|x| Box::new(Whole(x)) as Box<dyn Held>), pos });
        ok
    });
    v
}

fn world<O: ?Sized + Obj + 'static>(info: Info, makers: Vec<Maker<O>>) -> World
where
    Box<O>: Serialize + DeserializeOwned,
{
    let mut shapes = Vec::new();
    let mut fns = Vec::new();
    for (i, f) in makers {
        shapes.push(i);
        fns.push(f);
    }
    let make = fns
        .iter()
        .map(|f| {
            let f = *f;
            Box::new(move || Box::new(Whole(f())) as Box<dyn Held>) as Box<dyn Fn() -> Box<dyn Held>>
        })
        .collect();
    let envelope = Box::new(move |idx: &[usize], nlist: usize, opt: bool| {
        use vsim_base::shapes::Gen;
        let mut it = idx.iter().map(|i| fns[*i]());
        let list = it.by_ref().take(nlist).collect();
        let opt = if opt { it.next() } else { None };
        let map = it.map(|b| (Key::gen(), b)).collect();
        Box::new(Whole(Envelope::<O> { pre: u32::gen(), list, opt, map, post: String::gen() })) as Box<dyn Held>
    });
    let main = shapes.len() > 40;
    World { info, shapes, make, envelope, dec: dec_t::<Box<O>>, dec_env: dec_t::<Envelope<O>>, main }
}

/// The traits.  The first four implement the whole catalogue.
pub fn worlds() -> Vec<World> {
    use vsim_ext::FromExt;
    fn more<O: ?Sized>(mut v: Vec<Maker<O>>, f: fn() -> Box<O>) -> Vec<Maker<O>> {
        v.push((vsim_base::shapes::info::<FromExt>(), f));
        v
    }
    use vsim_base::shapes::Gen;
    let named = |i: Info, world: &'static str| Info { world, ..i };
    vec![
        world(WEXT, more(wext(), || Box::new(FromExt::gen()))),
        world(WINT, more(wint(), || Box::new(FromExt::gen()))),
        world(WADJ, more(wadj(), || Box::new(FromExt::gen()))),
        world(WINTZ, wintz()),
        world(WINTD, wintd()),
        world(WINTDN, wintdn()),
        world(WINTDM, wintdm()),
        world(WINTDU, wintdu()),
        world(WADJD, wadjd()),
        world(WADJX, wadjx()),
        world(WADJDX, wadjdx()),
        world(WADJA, wadja()),
        world(WADJXD, wadjxd()),
        world(WEXTS, wexts()),
        world(named(WEXTS, "WExtS+Send"), wexts_send()),
        world(named(WEXTS, "WExtS+Sync"), wexts_sync()),
        world(named(WEXTS, "WExtS+Send+Sync"), wexts_both()),
        world(WINTS, wints()),
        world(named(WINTS, "WIntS+Send"), wints_send()),
        world(WADJS, wadjs()),
        world(named(WADJS, "WAdjS+Sync"), wadjs_sync()),
    ]
}
pub const MAIN: usize = 4;

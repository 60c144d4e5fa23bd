//! The tagged traits.  `Obj` is what the simulator needs from every object; the
//! traits differ only in their typetag attributes and bounds.
use crate::model::{Info, Repr};
use crate::poly::*;
use crate::probe::Leaf;
use crate::shapes::*;
use crate::tape::pick;
use crate::tree::Tree;
use std::cell::Cell;
use std::collections::BTreeMap;
use std::fmt::Debug;

pub trait Obj: Debug {
    fn tag(&self) -> &'static str;
    fn dbg(&self) -> String;
    fn enc(&self, hr: bool) -> Tree;
}

impl<T: Shape> Obj for T {
    fn tag(&self) -> &'static str {
        T::NAME
    }
    fn dbg(&self) -> String {
        format!("{self:?}")
    }
    fn enc(&self, hr: bool) -> Tree {
        Shape::enc(self, hr)
    }
}

pub type Maker<O> = (ShapeInfo, fn() -> Box<O>);

macro_rules! attach {
    ($tr:ident, $mode:ident, $($ty:ty, $name:literal, $kind:ident;)*) => {
        $( #[typetag::$mode(name = $name)] impl $tr for $ty {} )*
    };
}
macro_rules! makers {
    ([$obj:ty] $($ty:ty, $name:literal, $kind:ident;)*) => {
        vec![ $( (info::<$ty>(), (|| Box::new(<$ty as Gen>::gen()) as Box<$obj>) as fn() -> Box<$obj>) ),* ]
    };
}

const fn inf(world: &'static str, trait_name: &'static str, repr: Repr, default: Option<&'static str>, deny: bool) -> Info {
    Info { world, trait_name, repr, default, deny }
}
const fn int(tag: &'static str) -> Repr {
    Repr::Internal { tag }
}
const fn adj(tag: &'static str, content: &'static str) -> Repr {
    Repr::Adjacent { tag, content }
}

#[typetag::serde]
pub trait WExt: Obj {}
pub const WEXT: Info = inf("WExt", "WExt", Repr::External, None, false);

#[typetag::serde(tag = "type")]
pub trait WInt: Obj {}
pub const WINT: Info = inf("WInt", "WInt", int("type"), None, false);

#[typetag::serde(tag = "zz_tag")]
pub trait WIntZ: Obj {}
pub const WINTZ: Info = inf("WIntZ", "WIntZ", int("zz_tag"), None, false);

#[typetag::serde(tag = "t", content = "c")]
pub trait WAdj: Obj {}
pub const WADJ: Info = inf("WAdj", "WAdj", adj("t", "c"), None, false);

#[typetag::serde(tag = "type", default_variant = "SStruct")]
pub trait WIntD: Obj {}
pub const WINTD: Info = inf("WIntD", "WIntD", int("type"), Some("SStruct"), false);

#[typetag::serde(tag = "kind", default_variant = "NVec")]
pub trait WIntDN: Obj {}
pub const WINTDN: Info = inf("WIntDN", "WIntDN", int("kind"), Some("NVec"), false);

/// Defaults that take a message without any entry.
#[typetag::serde(tag = "type", default_variant = "PolyMap")]
pub trait WIntDM: Obj {}
pub const WINTDM: Info = inf("WIntDM", "WIntDM", int("type"), Some("PolyMap"), false);
#[typetag::serde(tag = "zz", default_variant = "SUnit")]
pub trait WIntDU: Obj {}
pub const WINTDU: Info = inf("WIntDU", "WIntDU", int("zz"), Some("SUnit"), false);

#[typetag::serde(tag = "t", content = "c", default_variant = "MMap")]
pub trait WAdjD: Obj {}
pub const WADJD: Info = inf("WAdjD", "WAdjD", adj("t", "c"), Some("MMap"), false);

#[typetag::serde(tag = "t", content = "c", deny_unknown_fields)]
pub trait WAdjX: Obj {}
pub const WADJX: Info = inf("WAdjX", "WAdjX", adj("t", "c"), None, true);

#[typetag::serde(tag = "t", content = "c", default_variant = "u32", deny_unknown_fields)]
pub trait WAdjDX: Obj {}
pub const WADJDX: Info = inf("WAdjDX", "WAdjDX", adj("t", "c"), Some("u32"), true);

#[typetag::serde(tag = "ta", content = "tb", deny_unknown_fields, default_variant = "SOpt",)]
pub trait WAdjXD: Obj {}
pub const WADJXD: Info = inf("WAdjXD", "WAdjXD", adj("ta", "tb"), Some("SOpt"), true);

/// Content key sorts before the tag key and equals the internal default key.
#[typetag::serde(tag = "zkind", content = "value")]
pub trait WAdjA: Obj {}
pub const WADJA: Info = inf("WAdjA", "WAdjA", adj("zkind", "value"), None, false);

#[typetag::serde]
pub trait WExtS: Obj + Send + Sync {}
#[typetag::serde(tag = "type")]
pub trait WIntS: Obj + Send {}
#[typetag::serde(tag = "t", content = "c")]
pub trait WAdjS: Sync + Obj {}
pub const WEXTS: Info = inf("WExtS", "WExtS", Repr::External, None, false);
pub const WINTS: Info = inf("WIntS", "WIntS", int("type"), None, false);
pub const WADJS: Info = inf("WAdjS", "WAdjS", adj("t", "c"), None, false);

/// One half each: a service that only writes and one that only reads.
#[typetag::serialize(tag = "type")]
pub trait WSer: Obj {}
#[typetag::deserialize(tag = "type")]
pub trait WDe: Obj {}
pub const WSERDE: Info = inf("WSer/WDe", "WSer", int("type"), None, false);

full_list! { attach WExt, serde, }
full_list! { attach WInt, serde, }
full_list! { attach WIntZ, serde, }
full_list! { attach WAdj, serde, }
holder_list! { attach WExt, serde, }
holder_list! { attach WInt, serde, }
holder_list! { attach WIntZ, serde, }
holder_list! { attach WAdj, serde, }
attach! { WInt, serde, XColl, "XColl", Struct; }
attach! { WExt, serde, HNew, "HNew", Map; }
attach! { WIntZ, serde, HNew, "HNew", Map; }
attach! { WAdj, serde, HNew, "HNew", Map; }
light_list! { attach WIntD, serde, }
light_list! { attach WIntDN, serde, }
light_list! { attach WIntDM, serde, }
light_list! { attach WIntDU, serde, }
light_list! { attach WAdjD, serde, }
light_list! { attach WAdjX, serde, }
light_list! { attach WAdjDX, serde, }
light_list! { attach WAdjA, serde, }
light_list! { attach WAdjXD, serde, }
light_list! { attach WExtS, serde, }
light_list! { attach WIntS, serde, }
light_list! { attach WAdjS, serde, }
light_list! { attach WSer, serialize, }
light_list! { attach WDe, deserialize, }
// One with the name derived from the type.
#[derive(Debug, serde::Serialize, serde::Deserialize)]
pub struct Plain {
    pub a: u8,
}
impl Gen for Plain {
    fn gen() -> Self {
        Plain { a: Gen::gen() }
    }
}
impl Shape for Plain {
    const NAME: &'static str = "Plain";
    const KIND: crate::model::Kind = crate::model::Kind::Struct;
}
#[typetag::serde]
impl WExt for Plain {}
#[typetag::serde]
impl WInt for Plain {}
#[typetag::serde]
impl WAdj for Plain {}

// Names from the end of a path, without its arguments, and from a constant.
pub mod deep {
    pub mod er {
        #[derive(Debug, serde::Serialize, serde::Deserialize)]
        pub struct Far<T> {
            pub a: T,
            pub b: Option<u8>,
        }
    }
}
impl Gen for deep::er::Far<u16> {
    fn gen() -> Self {
        deep::er::Far { a: Gen::gen(), b: Gen::gen() }
    }
}
impl Shape for deep::er::Far<u16> {
    const NAME: &'static str = "Far";
    const KIND: crate::model::Kind = crate::model::Kind::Struct;
}
#[typetag::serde]
impl WExt for deep::er::Far<u16> {}
#[typetag::serde]
impl WInt for self::deep::er::Far<u16> {}
#[typetag::serde]
impl WAdj for crate::worlds::deep::er::Far<u16> {}

const KONST: &str = "name from a constant";
#[derive(Debug, serde::Serialize, serde::Deserialize)]
pub struct Konst(i64, String);
impl Gen for Konst {
    fn gen() -> Self {
        Konst(Gen::gen(), Gen::gen())
    }
}
impl Shape for Konst {
    const NAME: &'static str = KONST;
    const KIND: crate::model::Kind = crate::model::Kind::Value;
}
#[typetag::serde(name = KONST)]
impl WExt for Konst {}
#[typetag::serde(name = self::KONST,)]
impl WInt for Konst {}
#[typetag::serde(name = concat!("name ", "from a constant"))]
impl WAdj for Konst {}

/// Generic traits and implementations can be written only.
#[typetag::serialize]
pub trait GExt<T: Debug + 'static>: Obj {}
#[typetag::serialize(tag = "type")]
pub trait GInt<T>: Obj
where
    T: Debug + 'static,
{
}
#[typetag::serialize(tag = "t", content = "c")]
pub trait GAdj<T: Debug + 'static, U>: Obj + Send {}
pub const GEXT: Info = inf("GExt", "GExt", Repr::External, None, false);
pub const GINT: Info = inf("GInt", "GInt", int("type"), None, false);
pub const GADJ: Info = inf("GAdj", "GAdj", adj("t", "c"), None, false);
macro_rules! generic {
    ($($t:ty, $n:literal;)*) => { $(
        impl Gen for $t {
            fn gen() -> Self {
                Many { list: Gen::gen(), more: Gen::gen() }
            }
        }
        impl Shape for $t {
            const NAME: &'static str = $n;
            const KIND: crate::model::Kind = crate::model::Kind::Struct;
        }
    )* };
}
#[derive(Debug, serde::Serialize, serde::Deserialize)]
pub struct Many<T> {
    pub list: Vec<T>,
    pub more: bool,
}
generic! { Many<u8>, "Many"; Many<String>, "Many"; Many<Option<i64>>, "Many"; }
#[typetag::serialize]
impl<T> GExt<T> for Many<T>
where
    Many<T>: Shape,
    T: serde::Serialize + Debug + 'static,
{
}
#[typetag::serialize]
impl<T: Debug + 'static> GInt<T> for Many<T> where Many<T>: Shape {}
#[typetag::serialize(name = "Many")]
impl<T: Debug + 'static, U> GAdj<T, U> for Many<T> where Many<T>: Shape + Send {}

macro_rules! full_makers {
    ($f:ident, $tr:ident $(, $more:ty)*) => {
        pub fn $f() -> Vec<Maker<dyn $tr>> {
            let mut v: Vec<Maker<dyn $tr>> = full_list! { makers [dyn $tr] };
            let h: Vec<Maker<dyn $tr>> = holder_list! { makers [dyn $tr] };
            v.extend(h);
            $( v.push((info::<$more>(), (|| Box::new(<$more as Gen>::gen()) as Box<dyn $tr>) as fn() -> Box<dyn $tr>)); )*
            v
        }
    };
}
macro_rules! light_makers {
    ($f:ident, $obj:ty) => {
        pub fn $f() -> Vec<Maker<$obj>> {
            light_list! { makers [$obj] }
        }
    };
}
full_makers!(wext, WExt, HNew, Plain, deep::er::Far<u16>, Konst);
full_makers!(wint, WInt, XColl, Plain, deep::er::Far<u16>, Konst);
full_makers!(wintz, WIntZ, HNew);
full_makers!(wadj, WAdj, HNew, Plain, deep::er::Far<u16>, Konst);
light_makers!(wintd, dyn WIntD);
light_makers!(wintdn, dyn WIntDN);
light_makers!(wintdm, dyn WIntDM);
light_makers!(wintdu, dyn WIntDU);
light_makers!(wadjd, dyn WAdjD);
light_makers!(wadjx, dyn WAdjX);
light_makers!(wadjdx, dyn WAdjDX);
light_makers!(wadja, dyn WAdjA);
light_makers!(wadjxd, dyn WAdjXD);
light_makers!(wexts, dyn WExtS);
light_makers!(wexts_send, dyn WExtS + Send);
light_makers!(wexts_sync, dyn WExtS + Sync);
light_makers!(wexts_both, dyn WExtS + Send + Sync);
light_makers!(wints, dyn WIntS);
light_makers!(wints_send, dyn WIntS + Send);
light_makers!(wadjs, dyn WAdjS);
light_makers!(wadjs_sync, dyn WAdjS + Sync);
light_makers!(wser, dyn WSer);
light_makers!(wser_both, dyn WSer + Send + Sync);

// ------------------------------------------------------------ nested objects

thread_local! {
    static DEPTH: Cell<u32> = const { Cell::new(0) };
}

macro_rules! nest {
    ($f:ident, $tr:ident, $n:literal $(, $more:ty)*) => {
        pub fn $f() -> Box<dyn $tr> {
            let deep = DEPTH.with(|d| d.get());
            DEPTH.with(|d| d.set(deep + 1));
            let n = pick(if deep >= 2 { 9 } else { $n });
            let b: Box<dyn $tr> = match n {
                0 => Box::new(<SStruct as Gen>::gen()),
                1 => Box::new(SUnit),
                2 => Box::new(<Leaf as Gen>::gen()),
                3 => Box::new(<NStr as Gen>::gen()),
                4 => Box::new(<NVec as Gen>::gen()),
                5 => Box::new(<E as Gen>::gen()),
                6 => Box::new(<MMap as Gen>::gen()),
                7 => Box::new(<PPair as Gen>::gen()),
                8 => Box::new(<Option<u32> as Gen>::gen()),
                9 => Box::new(<HExt as Gen>::gen()),
                10 => Box::new(<HInt as Gen>::gen()),
                11 => Box::new(<HAdj as Gen>::gen()),
                12 => Box::new(<HVec as Gen>::gen()),
                _ => Box::new(<HEnum as Gen>::gen()),
            };
            DEPTH.with(|d| d.set(deep));
            b
        }
    };
}
nest!(gen_wext, WExt, 14);
nest!(gen_wint, WInt, 14);
nest!(gen_wintz, WIntZ, 14);
nest!(gen_wadj, WAdj, 14);

pub fn reset_depth() {
    DEPTH.with(|d| d.set(0));
}

// ------------------------------------------------------------ ambiguous tags

macro_rules! dups {
    ($($t:ident)*) => { $(
        #[derive(Debug, serde::Serialize, serde::Deserialize)]
        pub struct $t { pub a: u32 }
        impl Claim for $t {
            fn who(&self) -> &'static str { stringify!($t) }
        }
    )* };
}
pub trait Claim: Debug {
    fn who(&self) -> &'static str;
}
dups! { D0 D1 D2 D3 D4 D5 D6 D7 D8 D9 D10 D11 }

#[typetag::serde]
pub trait WDupE: Claim {}
#[typetag::serde(tag = "t", default_variant = "two")]
pub trait WDupI: Claim {}
#[typetag::serde(tag = "t", content = "c", default_variant = "absent")]
pub trait WDupA: Claim {}
#[typetag::serde(tag = "t", content = "c", default_variant = "cross", deny_unknown_fields)]
pub trait WDupX: Claim + Send + Sync {}

macro_rules! dup_world {
    ($($tr:ident)*) => { $(
        #[typetag::serde(name = "solo")] impl $tr for D0 {}
        #[typetag::serde(name = "Zolo")] impl $tr for D1 {}
        #[typetag::serde(name = "é")] impl $tr for D2 {}
        #[typetag::serde(name = "")] impl $tr for D3 {}
        #[typetag::serde(name = "two")] impl $tr for D4 {}
        #[typetag::serde(name = "two")] impl $tr for D5 {}
        #[typetag::serde(name = "three")] impl $tr for D6 {}
        #[typetag::serde(name = "three")] impl $tr for D7 {}
        #[typetag::serde(name = "four")] impl $tr for D8 {}
        #[typetag::serde(name = "four")] impl $tr for D9 {}
        #[typetag::serde(name = "cross")] impl $tr for D10 {}
        #[typetag::serde(name = "twofold")] impl $tr for D11 {}
    )* };
}
dup_world! { WDupE WDupI WDupA WDupX }
// The crate vsim-ext adds: one more "three", two more "four", one more "cross", one
// alone, and five times "five".

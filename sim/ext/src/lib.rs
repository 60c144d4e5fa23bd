//! Implementations of vsim-base's traits from a second crate.
use serde::{Deserialize, Serialize};
use vsim_base::worlds::*;

macro_rules! dups {
    ($($t:ident)*) => { $(
        #[derive(Debug, Serialize, Deserialize)]
        pub struct $t { pub a: u32 }
        impl Claim for $t {
            fn who(&self) -> &'static str { concat!("ext::", stringify!($t)) }
        }
    )* };
}
dups! { X0 X1 X2 X3 X4 X5 X6 X7 X8 X9 }

macro_rules! dup_world {
    ($($tr:ident)*) => { $(
        #[typetag::serde(name = "three")] impl $tr for X0 {}
        #[typetag::serde(name = "four")] impl $tr for X1 {}
        #[typetag::serde(name = "four")] impl $tr for X2 {}
        #[typetag::serde(name = "cross")] impl $tr for X3 {}
        #[typetag::serde(name = "alone")] impl $tr for X4 {}
        #[typetag::serde(name = "five")] impl $tr for X5 {}
        #[typetag::serde(name = "five")] impl $tr for X6 {}
        #[typetag::serde(name = "five")] impl $tr for X7 {}
        #[typetag::serde(name = "five")] impl $tr for X8 {}
        #[typetag::serde(name = "five")] impl $tr for X9 {}
    )* };
}
dup_world! { WDupE WDupI WDupA WDupX }

/// Also in the main catalogue.
#[derive(Debug, Serialize, Deserialize)]
pub struct FromExt {
    pub n: u16,
    pub s: Vec<String>,
}
impl vsim_base::shapes::Gen for FromExt {
    fn gen() -> Self {
        FromExt { n: vsim_base::shapes::Gen::gen(), s: vsim_base::shapes::Gen::gen() }
    }
}
impl vsim_base::shapes::Shape for FromExt {
    const NAME: &'static str = "FromExt";
    const KIND: vsim_base::model::Kind = vsim_base::model::Kind::Struct;
}
#[typetag::serde]
impl WExt for FromExt {}
#[typetag::serde]
impl WInt for FromExt {}
#[typetag::serde]
impl WAdj for FromExt {}

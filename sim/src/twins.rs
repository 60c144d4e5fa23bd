//! The derived enums that trait objects are documented to be equivalent to, as an
//! older node of the same system would have them.
use crate::formats::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use vsim_base::model::Info;
use vsim_base::poly::*;
use vsim_base::probe::Leaf;
use vsim_base::shapes::*;
use vsim_base::simde::{DeCtl, SimDe};
use vsim_base::tree::Tree;
use vsim_base::worlds::Plain;
use vsim_ext::FromExt;

pub trait TwinObj {
    fn tag(&self) -> &'static str;
    fn dbg(&self) -> String;
    fn write(&self, enc: Enc) -> Result<Wire, String>;
}

macro_rules! twin {
    ($(#[$m:meta])* $name:ident { $($v:ident($t:ty) = $tag:literal,)* }) => {
        #[derive(Serialize, Deserialize)]
        $(#[$m])*
        enum $name {
            $( #[serde(rename = $tag)] $v($t), )*
        }
        impl $name {
            const TAGS: &'static [&'static str] = &[$($tag),*];
        }
        impl TwinObj for $name {
            fn tag(&self) -> &'static str {
                match self {
                    $( $name::$v(_) => $tag, )*
                }
            }
            fn dbg(&self) -> String {
                match self {
                    $( $name::$v(x) => format!("{x:?}"), )*
                }
            }
            fn write(&self, enc: Enc) -> Result<Wire, String> {
                write(self, enc)
            }
        }
    };
}

twin! { TExt {
    V0(SStruct) = "SStruct",
    V1(SUnit) = "SUnit",
    V2(SEmpty) = "SEmpty",
    V3(SInts) = "SInts",
    V4(SMisc) = "SMisc",
    V5(S128) = "S128",
    V6(SBytes) = "SBytes",
    V7(SOpt) = "SOpt",
    V8(SNames) = "SNames",
    V9(SColl) = "SColl",
    V10(SIp) = "SIp",
    V11(SRename) = "with \"quotes\" \\ and \u{1F600}",
    V12(SDeny) = "SDeny",
    V13(SSkip) = "SSkip",
    V14(SFlat) = "SFlat",
    V15(SLoose) = "SLoose",
    V16(SEnums) = "SEnums",
    V17(NU64) = "value",
    V18(NStr) = "type",
    V19(NBytes) = "NBytes",
    V20(NOpt) = "NOpt",
    V21(NOptStruct) = "NOptStruct",
    V22(NVec) = "NVec",
    V23(NVecStruct) = "NVecStruct",
    V24(NVecEnum) = "NVecEnum",
    V25(NMap) = "NMap",
    V26(NStruct) = "NStruct",
    V27(NUnit) = "NUnit",
    V28(NEnum) = "NEnum",
    V29(NNew) = "NNew",
    V30(NIp) = "NIp",
    V31(HrVec) = "HrVec",
    V32(HrTup) = "HrTup",
    V33(TPair) = "TPair",
    V34(TDeep) = "TDeep",
    V35(TZero) = "TZero",
    V36(E) = "E",
    V37(EInt) = "EInt",
    V38(EAdj) = "EAdj",
    V39(MMap) = "MMap",
    V40(MSeq) = "MSeq",
    V41(MText) = "MText",
    V42(MCow) = "MCow",
    V43(bool) = "bool",
    V44(i8) = "i8",
    V45(i16) = "i16",
    V46(i32) = "i32",
    V47(i64) = "i64",
    V48(i128) = "i128",
    V49(u8) = "u8",
    V50(u16) = "u16",
    V51(u32) = "u32",
    V52(u64) = "u64",
    V53(u128) = "u128",
    V54(f32) = "f32",
    V55(f64) = "f64",
    V56(char) = "char",
    V57(String) = "",
    V58(()) = "()",
    V59((i8, String)) = "(i8, String)",
    V60([u8; 3]) = "[u8; 3]",
    V61(Vec<String>) = "Vec<String>",
    V62(Option<u32>) = "Option<u32>",
    V63(Option<SStruct>) = "Option<SStruct>",
    V64(Bytes) = "Bytes",
    V65(BTreeMap<Key, String>) = "BTreeMap<Key, String>",
    V66(BTreeMap<u32, String>) = "BTreeMap<u32, String>",
    V67(BTreeMap<i64, bool>) = "BTreeMap<i64, bool>",
    V68(BTreeMap<EKey, u8>) = "BTreeMap<EKey, u8>",
    V69(BTreeMap<char, u8>) = "BTreeMap<char, u8>",
    V70(BTreeMap<bool, u8>) = "BTreeMap<bool, u8>",
    V71(XTagged) = "XTagged",
    V72(Leaf) = "Leaf",
    V73(PPair) = "PPair",
    V74(PWide) = "PWide",
    V75(PSeq) = "PSeq",
    V76(PTup) = "PTup",
    V77(PMap) = "PMap",
    V78(PEnum) = "PEnum",
    V79(FromExt) = "FromExt",
    V80(Plain) = "Plain",
    P0(PolyStruct) = "PolyStruct",
    P1(PolyMap) = "PolyMap",
    P2(PolyUnit) = "PolyUnit",
    P3(PolyOption) = "PolyOption",
    P4(PolyValue) = "PolyValue",
    P5(PolyEnum) = "PolyEnum",
} }

twin! { #[serde(tag = "type")] TInt {
    V0(SStruct) = "SStruct",
    V1(SUnit) = "SUnit",
    V2(SEmpty) = "SEmpty",
    V3(SInts) = "SInts",
    V4(SMisc) = "SMisc",
    V6(SBytes) = "SBytes",
    V7(SOpt) = "SOpt",
    V8(SNames) = "SNames",
    V9(SColl) = "SColl",
    V10(SIp) = "SIp",
    V11(SRename) = "with \"quotes\" \\ and \u{1F600}",
    V12(SDeny) = "SDeny",
    V13(SSkip) = "SSkip",
    V14(SFlat) = "SFlat",
    V15(SLoose) = "SLoose",
    V16(SEnums) = "SEnums",
    V25(NMap) = "NMap",
    V26(NStruct) = "NStruct",
    V27(NUnit) = "NUnit",
    V28(NEnum) = "NEnum",
    V36(E) = "E",
    V37(EInt) = "EInt",
    V38(EAdj) = "EAdj",
    V39(MMap) = "MMap",
    V42(MCow) = "MCow",
    V58(()) = "()",
    V65(BTreeMap<Key, String>) = "BTreeMap<Key, String>",
    V68(BTreeMap<EKey, u8>) = "BTreeMap<EKey, u8>",
    V69(BTreeMap<char, u8>) = "BTreeMap<char, u8>",
    V73(PPair) = "PPair",
    V74(PWide) = "PWide",
    V77(PMap) = "PMap",
    V78(PEnum) = "PEnum",
    V79(FromExt) = "FromExt",
    V80(Plain) = "Plain",
    P0(PolyStruct) = "PolyStruct",
    P1(PolyMap) = "PolyMap",
    P2(PolyUnit) = "PolyUnit",
    P5(PolyEnum) = "PolyEnum",
} }

twin! { #[serde(tag = "t", content = "c")] TAdj {
    V0(SStruct) = "SStruct",
    V1(SUnit) = "SUnit",
    V2(SEmpty) = "SEmpty",
    V3(SInts) = "SInts",
    V4(SMisc) = "SMisc",
    V5(S128) = "S128",
    V6(SBytes) = "SBytes",
    V7(SOpt) = "SOpt",
    V8(SNames) = "SNames",
    V9(SColl) = "SColl",
    V10(SIp) = "SIp",
    V11(SRename) = "with \"quotes\" \\ and \u{1F600}",
    V12(SDeny) = "SDeny",
    V13(SSkip) = "SSkip",
    V14(SFlat) = "SFlat",
    V15(SLoose) = "SLoose",
    V16(SEnums) = "SEnums",
    V17(NU64) = "value",
    V18(NStr) = "type",
    V19(NBytes) = "NBytes",
    V20(NOpt) = "NOpt",
    V21(NOptStruct) = "NOptStruct",
    V22(NVec) = "NVec",
    V23(NVecStruct) = "NVecStruct",
    V24(NVecEnum) = "NVecEnum",
    V25(NMap) = "NMap",
    V26(NStruct) = "NStruct",
    V27(NUnit) = "NUnit",
    V28(NEnum) = "NEnum",
    V29(NNew) = "NNew",
    V30(NIp) = "NIp",
    V31(HrVec) = "HrVec",
    V32(HrTup) = "HrTup",
    V33(TPair) = "TPair",
    V34(TDeep) = "TDeep",
    V35(TZero) = "TZero",
    V36(E) = "E",
    V37(EInt) = "EInt",
    V38(EAdj) = "EAdj",
    V39(MMap) = "MMap",
    V40(MSeq) = "MSeq",
    V41(MText) = "MText",
    V42(MCow) = "MCow",
    V43(bool) = "bool",
    V44(i8) = "i8",
    V45(i16) = "i16",
    V46(i32) = "i32",
    V47(i64) = "i64",
    V48(i128) = "i128",
    V49(u8) = "u8",
    V50(u16) = "u16",
    V51(u32) = "u32",
    V52(u64) = "u64",
    V53(u128) = "u128",
    V54(f32) = "f32",
    V55(f64) = "f64",
    V56(char) = "char",
    V57(String) = "",
    V58(()) = "()",
    V59((i8, String)) = "(i8, String)",
    V60([u8; 3]) = "[u8; 3]",
    V61(Vec<String>) = "Vec<String>",
    V62(Option<u32>) = "Option<u32>",
    V63(Option<SStruct>) = "Option<SStruct>",
    V64(Bytes) = "Bytes",
    V65(BTreeMap<Key, String>) = "BTreeMap<Key, String>",
    V66(BTreeMap<u32, String>) = "BTreeMap<u32, String>",
    V67(BTreeMap<i64, bool>) = "BTreeMap<i64, bool>",
    V68(BTreeMap<EKey, u8>) = "BTreeMap<EKey, u8>",
    V69(BTreeMap<char, u8>) = "BTreeMap<char, u8>",
    V70(BTreeMap<bool, u8>) = "BTreeMap<bool, u8>",
    V71(XTagged) = "XTagged",
    V72(Leaf) = "Leaf",
    V73(PPair) = "PPair",
    V74(PWide) = "PWide",
    V75(PSeq) = "PSeq",
    V76(PTup) = "PTup",
    V77(PMap) = "PMap",
    V78(PEnum) = "PEnum",
    V79(FromExt) = "FromExt",
    V80(Plain) = "Plain",
    P0(PolyStruct) = "PolyStruct",
    P1(PolyMap) = "PolyMap",
    P2(PolyUnit) = "PolyUnit",
    P3(PolyOption) = "PolyOption",
    P4(PolyValue) = "PolyValue",
    P5(PolyEnum) = "PolyEnum",
} }

twin! { #[serde(tag = "t", content = "c", deny_unknown_fields)] TAdjX {
    V0(SStruct) = "SStruct",
    V1(SUnit) = "SUnit",
    V2(SEmpty) = "SEmpty",
    V7(SOpt) = "SOpt",
    V9(SColl) = "SColl",
    V12(SDeny) = "SDeny",
    V17(NU64) = "value",
    V18(NStr) = "type",
    V20(NOpt) = "NOpt",
    V22(NVec) = "NVec",
    V25(NMap) = "NMap",
    V33(TPair) = "TPair",
    V36(E) = "E",
    V39(MMap) = "MMap",
    V51(u32) = "u32",
    V57(String) = "",
    V64(Bytes) = "Bytes",
    V72(Leaf) = "Leaf",
    V73(PPair) = "PPair",
    P0(PolyStruct) = "PolyStruct",
    P1(PolyMap) = "PolyMap",
    P2(PolyUnit) = "PolyUnit",
    P3(PolyOption) = "PolyOption",
    P4(PolyValue) = "PolyValue",
    P5(PolyEnum) = "PolyEnum",
} }

pub fn known(info: &Info, tag: &str) -> bool {
    match info.world {
        "WExt" => TExt::TAGS,
        "WInt" => TInt::TAGS,
        "WAdj" => TAdj::TAGS,
        _ => TAdjX::TAGS,
    }
    .contains(&tag)
}

pub fn from_tree(info: &Info, t: &Tree, ctl: &DeCtl) -> Result<Box<dyn TwinObj>, String> {
    let d = SimDe::new(t, ctl);
    let r: Result<Box<dyn TwinObj>, _> = match info.world {
        "WExt" => TExt::deserialize(d).map(|x| Box::new(x) as _),
        "WInt" => TInt::deserialize(d).map(|x| Box::new(x) as _),
        "WAdj" => TAdj::deserialize(d).map(|x| Box::new(x) as _),
        _ => TAdjX::deserialize(d).map(|x| Box::new(x) as _),
    };
    r.map_err(|e| e.0)
}

pub fn read(info: &Info, fmt: Fmt, wire: &Wire) -> Result<Box<dyn TwinObj>, String> {
    Ok(match info.world {
        "WExt" => Box::new(read_plain::<TExt>(fmt, wire)?) as _,
        "WInt" => Box::new(read_plain::<TInt>(fmt, wire)?) as _,
        "WAdj" => Box::new(read_plain::<TAdj>(fmt, wire)?) as _,
        _ => Box::new(read_plain::<TAdjX>(fmt, wire)?) as _,
    })
}

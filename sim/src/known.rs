//! Findings that are recorded and not repaired (see /verif/known_findings.txt).  Each
//! predicate names the exact shapes, traits and formats that are affected, so that
//! any other violation of the same property is still reported.
use crate::engine::count;
use crate::formats::*;
use crate::props::is_internal;
use serde::{Deserialize, Serialize};
use std::sync::atomic::{AtomicU32, Ordering};
use vsim_base::model::{Info, Kind, Repr};
use vsim_base::poly;
use vsim_base::tree::{s, Tree};
use vsim_base::worlds::*;

pub struct Known {
    pub key: &'static str,
    pub props: &'static [&'static str],
    pub what: &'static str,
    pub still_there: fn() -> bool,
}

static LISTED: AtomicU32 = AtomicU32::new(0);

pub fn load(root: &str) {
    let text = std::fs::read_to_string(format!("{root}/known_findings.txt")).unwrap_or_default();
    let mut bits = 0;
    for (i, k) in LIST.iter().enumerate() {
        if text.lines().any(|l| l.starts_with("known:") && l.split_whitespace().any(|x| x == format!("key={}", k.key))) {
            bits |= 1 << i;
        }
    }
    LISTED.store(bits, Ordering::Relaxed);
}

pub fn listed(key: &str) -> bool {
    LIST.iter().position(|k| k.key == key).is_some_and(|i| LISTED.load(Ordering::Relaxed) >> i & 1 == 1)
}

pub fn excuse(key: &str) -> bool {
    if listed(key) {
        count(&format!("known: {key}"));
        true
    } else {
        false
    }
}

/// F8: `is_human_readable` is not passed on to contents that are buffered.  Writing:
/// internal representation, sequences and tuples.
pub fn f8_write<'a>(w: &World, hr: bool, mut tags: impl Iterator<Item = &'a str>) -> bool {
    is_internal(&w.info) && !hr && tags.any(|t| ["HrVec", "HrTup", "NIp"].contains(&t)) && excuse("F8")
}
/// Reading: anything holding such a value, when it comes before the tag.
pub fn f8_read<'a>(w: &World, hr: bool, mut tags: impl Iterator<Item = &'a str>) -> bool {
    w.info.repr != Repr::External && !hr && tags.any(|t| ["HrVec", "HrTup", "SIp", "NIp"].contains(&t)) && excuse("F8")
}
/// F9: internal representation, a struct with a field of its own that equals the tag
/// entry: one entry fewer than announced is written.
pub fn f9<'a>(w: &World, enc: Enc, mut tags: impl Iterator<Item = &'a str>) -> bool {
    w.info.repr == Repr::Internal { tag: "type" }
        && !matches!(enc, Enc::Json | Enc::JsonPretty | Enc::JsonVal)
        && tags.any(|t| t == "XTagged" || t == "XColl")
        && excuse("F9")
}
/// F12: internal representation, map with keys that are not strings, tag not first.
pub fn f12<'a>(w: &World, fmt: Fmt, mut tags: impl Iterator<Item = &'a str>) -> bool {
    let sim = matches!(fmt, Fmt::Sim(_));
    is_internal(&w.info)
        && (fmt == Fmt::Cbor || sim)
        && tags.any(|t| {
            ["BTreeMap<u32, String>", "BTreeMap<i64, bool>", "BTreeMap<bool, u8>"].contains(&t) || (sim && t == "BTreeMap<char, u8>") || poly::odd_keys(t)
        })
        && excuse("F12")
}
/// F13: the same in JSON values, whose keys are sorted: integers and bools as keys are
/// text there, and a buffered text is not taken for a number.
pub fn f13<'a>(info: &Info, fmt: Fmt, mut tags: impl Iterator<Item = &'a str>) -> bool {
    info.repr != Repr::External
        && matches!(fmt, Fmt::JsonVal | Fmt::JsonValRef)
        && tags.any(|t| ["BTreeMap<u32, String>", "BTreeMap<i64, bool>", "BTreeMap<bool, u8>"].contains(&t) || poly::odd_keys(t))
        && excuse("F13")
}
/// F10: in CBOR, entries after the one that was needed are accepted and left unread.
pub fn f10(w: &World, fmt: Fmt, entries: usize) -> bool {
    fmt == Fmt::Cbor && w.info.repr == Repr::External && entries > 1 && excuse("F10")
}
/// F14: contents that were buffered, a unit struct, an empty map in its place.
pub fn f14(w: &World, tag: &str, payload: &Tree) -> bool {
    w.info.repr != Repr::External
        && (["SUnit", "NUnit", "SMisc"].contains(&tag) || poly::unit_structs(tag) || payload.any(&|t| matches!(t, Tree::Str(x) if ["SUnit", "NUnit", "SMisc"].contains(&&x[..]))))
        && payload.any(&|t| t.normal() == Tree::Map(vec![], true))
        && excuse("F14")
}

/// F15: CBOR, several objects within one another, or contents of more than eight
/// levels, not readable.
pub fn f15(fmt: Fmt, wire: &Wire) -> bool {
    let b = wire.bytes();
    let n = |t: &[u8]| b.windows(t.len()).filter(|w| w == &t).count();
    fmt == Fmt::Cbor && (n(b"HExt") + n(b"HInt") + n(b"HAdj") + n(b"HVec") + n(b"HEnum") > 2 || cbor_depth(&b) > 8) && excuse("F15")
}

/// How many lists and maps are open at once, at most, by their announced lengths.
fn cbor_depth(b: &[u8]) -> usize {
    let (mut open, mut most, mut i): (Vec<Option<u64>>, usize, usize) = (vec![], 0, 0);
    // One item of the innermost list or map is done.
    fn done(open: &mut Vec<Option<u64>>) {
        while let Some(Some(left)) = open.last_mut() {
            *left = left.saturating_sub(1);
            if *left > 0 {
                break;
            }
            open.pop();
        }
    }
    while i < b.len() {
        let (major, info) = (b[i] >> 5, b[i] & 31);
        i += 1;
        let n = match info {
            0..=23 => Some(info as u64),
            24..=27 => {
                let k = 1 << (info - 24);
                let n = b.iter().skip(i).take(k).fold(0u64, |n, x| n << 8 | *x as u64);
                i += k;
                Some(n)
            }
            31 => None,
            _ => break,
        };
        match (major, n) {
            (2 | 3, Some(n)) => i = i.saturating_add(n as usize),
            (2 | 3, None) => break,
            (4 | 5, n) if n != Some(0) => {
                open.push(n.map(|n| n.saturating_mul(major as u64 - 3)));
                most = most.max(open.len());
                continue;
            }
            (6, _) => continue,
            (7, None) => {
                while let Some(x) = open.pop() {
                    if x.is_none() {
                        break;
                    }
                }
            }
            _ => {}
        }
        done(&mut open);
    }
    most
}

/// F16: internal representation, a tuple or struct variant at the top, a format that
/// compares names.
pub fn f16(message: &Tree, error: &str) -> bool {
    let hit = |t: &Tree| match t {
        Tree::Map(es, _) => es.iter().any(|(k, v)| match (k, v) {
            (Tree::Str(k), Tree::TupleStruct(n, _)) => k == n && error.ends_with(&format!("asked for tuple \"\", but the writer wrote tuple struct {n:?}")),
            (Tree::Str(k), Tree::Struct(n, _)) => k == n && error.contains("asked for struct ") && error.ends_with(&format!(", but the writer wrote struct {n:?}")),
            _ => false,
        }),
        _ => false,
    };
    message.any(&hit) && excuse("F16")
}

fn cbor<T: Serialize>(v: &T) -> Vec<u8> {
    let mut b = Vec::new();
    ciborium::into_writer(v, &mut b).unwrap();
    b
}

pub static LIST: &[Known] = &[
    Known {
        key: "F8",
        props: &["C03", "C04", "C07", "C12"],
        what: "contents that typetag buffers are written and read as human-readable even in a compact format (a Vec of IpAddr as internally tagged object in CBOR, bincode or postcard)",
        still_there: || {
            let o: Box<dyn WInt> = Box::new(vsim_base::shapes::HrVec(vec![vsim_base::shapes::Ip(std::net::Ipv4Addr::LOCALHOST.into())]));
            let b = cbor(&o);
            ciborium::from_reader::<Box<dyn WInt>, _>(&b[..]).is_err()
        },
    },
    Known {
        key: "F9",
        props: &["C03", "C07", "C11"],
        what: "an internally tagged struct whose own field equals the tag entry announces one entry more than it writes (corrupt in length-prefixed formats)",
        still_there: || {
            let o: Box<dyn WInt> = Box::new(vsim_base::shapes::XTagged { a: 1 });
            let ctl = vsim_base::simser::SerCtl::new(true, 0);
            let _ = o.serialize(vsim_base::simser::SimSer(&ctl));
            let v = ctl.viol.borrow().is_some();
            v
        },
    },
    Known {
        key: "F10",
        props: &["C12"],
        what: "an externally tagged object in CBOR with more than one entry is accepted and the other entries are left unread, where the derived enum rejects it",
        still_there: || {
            let t = vsim_base::tree::Tree::Map(
                vec![
                    (vsim_base::tree::s("u32"), vsim_base::tree::Tree::U32(1)),
                    (vsim_base::tree::s("i8"), vsim_base::tree::Tree::U32(2)),
                ],
                true,
            );
            ciborium::from_reader::<Box<dyn WExt>, _>(&cbor(&t)[..]).is_ok()
        },
    },
    Known {
        key: "F14",
        props: &["C04", "C05"],
        what: "a unit struct (alone or as a field) accepts an empty map when it has been buffered because it came before the tag, and rejects it after the tag",
        still_there: || {
            serde_json::from_str::<Box<dyn WAdj>>(r#"{"c":{},"t":"SUnit"}"#).is_ok() && serde_json::from_str::<Box<dyn WAdj>>(r#"{"t":"SUnit","c":{}}"#).is_err()
        },
    },
    Known {
        key: "F15",
        props: &["C08"],
        what: "the text of an error in CBOR is escaped again by every layer of contents within a trait object, so its length, and the memory, doubles or more with every layer",
        still_there: || {
            fn err(n: usize) -> usize {
                let mut t = s("bad");
                for _ in 0..n {
                    t = Tree::Map(vec![(s("HExt"), Tree::Map(vec![(s("id"), Tree::U32(0)), (s("inner"), t)], true))], true);
                }
                match ciborium::from_reader::<Box<dyn WExt>, _>(&cbor(&t)[..]) {
                    Err(e) => e.to_string().len(),
                    Ok(_) => 0,
                }
            }
            err(5) > 4 * err(3)
        },
    },
    Known {
        key: "F16",
        props: &["C03"],
        what: "an internally tagged enum in a tuple or struct variant is written as a struct named after the variant and asked for as a plain tuple or as a struct named after the enum, which a format that compares names rejects",
        still_there: || {
            use vsim_base::simde::{form, DeCtl, SimDe};
            let o: Box<dyn WInt> = Box::new(vsim_base::shapes::E::T(0, String::new()));
            let t = vsim_base::simser::tree_of(&o, true).unwrap();
            let ctl = DeCtl::new(false, true, form::NAMED, 0, String::new());
            <Box<dyn WInt>>::deserialize(SimDe::new(&t, &ctl)).is_err()
        },
    },
    Known {
        key: "F13",
        props: &["C03"],
        what: "a tagged map with integer or bool keys cannot be read back from a serde_json::Value whose keys sort before the tag (adjacent representation: whose content key sorts before the tag key)",
        still_there: || serde_json::from_value::<Box<dyn WInt>>(serde_json::json!({"0": "", "type": "BTreeMap<u32, String>"})).is_err(),
    },
    Known {
        key: "F12",
        props: &["C04"],
        what: "an internally tagged map with integer, bool or char keys is rejected when the tag is not the first entry (CBOR and other formats whose keys are not all strings)",
        still_there: || {
            use vsim_base::tree::{s, Tree};
            let t = Tree::Map(vec![(Tree::U32(1), s("x")), (s("type"), s("BTreeMap<u32, String>"))], true);
            ciborium::from_reader::<Box<dyn WInt>, _>(&cbor(&t)[..]).is_err()
        },
    },
];


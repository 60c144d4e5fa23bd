//! C08: input that was corrupted, or made to do harm.
use crate::counting;
use crate::engine::{count, fail, hash, maximum, note};
use crate::formats::*;
use crate::known;
use crate::props::*;
use serde_json::Value;
use vsim_base::simde::form;
use vsim_base::tape::{bits64, chance, of, pick, usize_below};
use vsim_base::tree::{s, Tree};
use vsim_base::{trace, tracing};

pub static C08: Prop = Prop {
    id: "C08",
    runs: 160_000,
    styled: false,
    max_ops: 16,
    setup: nothing,
    op: c08,
    end: nothing,
    rule: "an operation corrupts a valid message (bit flips, cuts, deleted, repeated, spliced and inserted pieces, false lengths; in event streams also altered, removed and repeated nodes and false size hints) one to six times and decodes it; non-trivial: the message changed; distinct by trait, format, concrete types, verdict and the corrupted message itself",
    assumptions: &["bincode is read from slices: its reader for streams allocates what a length field claims, with or without trait objects", "nesting is bounded by the messages that are corrupted, since bincode and postcard themselves recurse without limit", "memory may reach 16 MiB plus 512 bytes per byte delivered (serde's own collections reserve up to 1 MiB on a claimed length)"],
};

fn word() -> String {
    of(&["type", "value", "t", "c", "kind", "zz_tag", "zkind", "SStruct", "", "a", "b", "NVec", "E", "u32", "PWide", "HExt", "content", "SUnit", "x"]).to_string()
}

fn small_tree(depth: u32) -> Tree {
    match pick(if depth == 0 { 12 } else { 16 }) {
        0 => Tree::Unit,
        1 => Tree::Bool(chance(1, 2)),
        2 => Tree::U8(bits64() as u8),
        3 => Tree::I64(bits64() as i64 >> pick(64)),
        4 => Tree::U64(bits64() >> pick(64)),
        5 => Tree::F64(of(&[0.0, -0.5, 1e300, f64::NAN, f64::INFINITY, 3.0])),
        6 => s(&word()),
        7 => Tree::Bytes((0..pick(6)).map(|i| i as u8).collect()),
        8 => Tree::None,
        9 => Tree::Char(of(&['a', '\0', '\u{10ffff}'])),
        10 => Tree::I128(i128::MIN + pick(3) as i128),
        11 => Tree::U128(u128::MAX - pick(3) as u128),
        12 => Tree::Seq((0..pick(4)).map(|_| small_tree(depth - 1)).collect(), chance(1, 2)),
        13 => Tree::Map((0..pick(4)).map(|_| (if chance(1, 4) { small_tree(depth - 1) } else { s(&word()) }, small_tree(depth - 1))).collect(), chance(1, 2)),
        14 => Tree::Some(Box::new(small_tree(depth - 1))),
        _ => Tree::Newtype("N", Box::new(small_tree(depth - 1))),
    }
}

fn nodes(t: &mut Tree) -> Vec<*mut Tree> {
    fn walk(t: &mut Tree, out: &mut Vec<*mut Tree>) {
        out.push(t);
        match t {
            Tree::Some(b) | Tree::Newtype(_, b) | Tree::NewtypeVariant(_, _, _, b) => walk(b, out),
            Tree::Seq(v, _) | Tree::Tuple(v) | Tree::TupleStruct(_, v) | Tree::TupleVariant(_, _, _, v) => v.iter_mut().for_each(|x| walk(x, out)),
            Tree::Map(v, _) => v.iter_mut().for_each(|(k, x)| {
                walk(k, out);
                walk(x, out)
            }),
            Tree::Struct(_, v) | Tree::StructVariant(_, _, _, v) => v.iter_mut().for_each(|(_, x)| walk(x, out)),
            _ => {}
        }
    }
    let mut out = Vec::new();
    walk(t, &mut out);
    out
}

/// A piece of an event stream that is not what it was.
fn mutate_tree(t: &mut Tree) {
    let all = nodes(t);
    let (i, j) = (usize_below(all.len()), usize_below(all.len()));
    let other = unsafe { (*all[j]).clone() };
    let target: *mut Tree = all[i];
    let n = unsafe { &mut *target };
    fn entries(n: &mut Tree) -> Option<&mut Vec<(Tree, Tree)>> {
        match n {
            Tree::Map(v, _) => Some(v),
            _ => None,
        }
    }
    match pick(8) {
        0 | 1 => *n = small_tree(2),
        2 if other.size() < 60 => *n = other,
        3 => {
            *n = match std::mem::replace(n, Tree::Unit) {
                Tree::Struct(_, v) | Tree::StructVariant(_, _, _, v) => Tree::Map(v.into_iter().map(|(k, v)| (s(k), v)).collect(), false),
                Tree::Tuple(v) | Tree::TupleStruct(_, v) | Tree::TupleVariant(_, _, _, v) => Tree::Seq(v, false),
                Tree::Map(v, _) => Tree::Seq(v.into_iter().map(|(_, v)| v).collect(), true),
                Tree::Seq(v, _) => Tree::Map(v.into_iter().enumerate().map(|(i, v)| (Tree::U32(i as u32), v)).collect(), true),
                x => Tree::Seq(vec![x], true),
            }
        }
        4 => {
            if let Some(v) = entries(n) {
                if !v.is_empty() {
                    let i = usize_below(v.len());
                    v.remove(i);
                }
            } else if let Tree::Seq(v, _) | Tree::Tuple(v) = n {
                v.pop();
            }
        }
        5 => {
            if let Some(v) = entries(n) {
                if !v.is_empty() {
                    let e = v[usize_below(v.len())].clone();
                    let at = usize_below(v.len() + 1);
                    v.insert(at, e);
                }
            } else if let Tree::Seq(v, _) = n {
                if !v.is_empty() {
                    let e = v[0].clone();
                    for _ in 0..1 + pick(40) {
                        v.push(e.clone());
                    }
                }
            }
        }
        6 => {
            if let Some(v) = entries(n) {
                let at = usize_below(v.len() + 1);
                v.insert(at, (if chance(1, 5) { small_tree(1) } else { s(&word()) }, small_tree(2)));
            } else {
                *n = small_tree(1);
            }
        }
        _ => {
            if let Tree::Str(x) = n {
                *x = word();
            } else {
                *n = small_tree(0);
            }
        }
    }
    // What travels between processes has no known field names; leave the root a map
    // more often than not.
    if let Tree::Struct(_, v) = t {
        if chance(1, 3) {
            *t = Tree::Map(v.iter().map(|(k, v)| (s(k), v.clone())).collect(), true);
        }
    }
}

fn mutate_value(v: &mut Value) {
    // Walk to some node.
    let mut n = v;
    for _ in 0..pick(5) {
        let step = match n {
            Value::Array(a) => !a.is_empty(),
            Value::Object(o) => !o.is_empty(),
            _ => false,
        };
        if !step {
            break;
        }
        n = match n {
            Value::Array(a) => {
                let i = usize_below(a.len());
                &mut a[i]
            }
            Value::Object(o) => {
                let i = usize_below(o.len());
                o.values_mut().nth(i).unwrap()
            }
            _ => unreachable!(),
        };
    }
    let fresh = || match write(&small_tree(2), Enc::JsonVal) {
        Ok(Wire::Val(v)) => v,
        _ => Value::Null,
    };
    match pick(5) {
        0 | 1 => *n = fresh(),
        2 => {
            if let Value::Object(o) = n {
                if !o.is_empty() {
                    let k = o.keys().nth(usize_below(o.len())).unwrap().clone();
                    o.remove(&k);
                }
            } else if let Value::Array(a) = n {
                a.pop();
            }
        }
        3 => {
            if let Value::Object(o) = n {
                o.insert(word(), fresh());
            } else if let Value::Array(a) = n {
                a.push(fresh());
            }
        }
        _ => *n = Value::String(word()),
    }
}

/// A length that the data does not have.
fn false_length(b: &mut Vec<u8>, fmt: Fmt) {
    if b.is_empty() {
        return;
    }
    let at = usize_below(b.len());
    let huge = of(&[u64::MAX, 1 << 62, 1 << 40, 1 << 32, 0xffff_ffff, 1 << 31, 1 << 24, 0x7fff_ffff_ffff_ffff, (1 << 59) + 3]);
    match fmt {
        Fmt::Cbor => {
            // The head at a position where one already is, if any is near.
            let at = (at..b.len()).chain(0..at).find(|i| matches!(b[*i] >> 5, 2..=5) && b[*i] & 31 < 24).unwrap_or(at);
            let major = b[at] & 0xe0;
            let mut head = vec![major | 27];
            head.extend_from_slice(&huge.to_be_bytes());
            b.splice(at..at + 1, head);
        }
        Fmt::BinRead | Fmt::BinSlice => {
            // Lengths are eight bytes; most begin with a small number and zeros.
            let at = (at..b.len()).chain(0..at).find(|i| b.len() >= i + 8 && b[i + 1..i + 8].iter().all(|x| *x == 0)).unwrap_or(at);
            for (i, x) in huge.to_le_bytes().iter().enumerate() {
                if at + i < b.len() {
                    b[at + i] = *x;
                }
            }
        }
        _ => {
            let mut v = Vec::new();
            let mut x = huge;
            while x >= 0x80 {
                v.push(x as u8 | 0x80);
                x >>= 7;
            }
            v.push(x as u8);
            b.splice(at..at + 1, v);
        }
    }
}

fn mutate_bytes(b: &mut Vec<u8>, fmt: Fmt) {
    let n = b.len();
    let at = usize_below(n.max(1));
    match pick(10) {
        0 if n > 0 => b[at] ^= 1 << pick(8),
        1 if n > 0 => {
            b[at] = of(&[0u8, 1, 0xff, 0x7f, 0x80, b'{', b'[', b'"', b',', b'}', b']', b':', b'0', b'-', b'e', 0x9f, 0xbf, 0xf6, 0xf7, 0x5f, 0x7f, 0xc0, 0xfb, 0x1b])
        }
        2 => b.truncate(at),
        3 if n > 0 => {
            let to = (at + 1 + usize_below(12)).min(n);
            b.drain(at..to);
        }
        4 if n > 0 && n < 1 << 16 => {
            let to = (at + 1 + usize_below(24)).min(n);
            let piece = b[at..to].to_vec();
            let dst = usize_below(n);
            for _ in 0..1 + pick(3) {
                b.splice(dst..dst, piece.iter().copied());
            }
        }
        5 => {
            let piece: Vec<u8> = (0..1 + pick(9)).map(|_| pick(256) as u8).collect();
            b.splice(at..at, piece);
        }
        6 => {
            // A well-formed piece of something else.
            if let Ok(Wire::Bytes(p)) = write(&small_tree(2), fmt.enc()) {
                let to = (at + usize_below(10)).min(n);
                b.splice(at.min(to)..to, p);
            }
        }
        7 if n > 0 => {
            let to = (at + 1 + usize_below(16)).min(n);
            let piece = b[at..to].to_vec();
            let dst = usize_below(n);
            let end = (dst + piece.len()).min(n);
            b.splice(dst..end, piece);
        }
        8 if n > 0 && fmt.json() => {
            let p = of(&["1e999", "-0", "18446744073709551616", "340282366920938463463374607431768211456", "\\ud800", "\"\\u0000\"", "null", "{}", "[]", "tru", "1.5", "-9223372036854775809"]);
            b.splice(at..at, p.bytes());
        }
        _ => {
            count("fault: false length");
            false_length(b, fmt)
        }
    }
}

pub fn mutate(wire: &mut Wire, fmt: Fmt) {
    count("fault: corruption");
    match wire {
        Wire::Bytes(b) => mutate_bytes(b, fmt),
        Wire::Val(v) => mutate_value(v),
        Wire::Tree(t) => mutate_tree(t),
    }
}

fn size_of(w: &Wire) -> usize {
    match w {
        Wire::Bytes(b) => b.len(),
        Wire::Val(v) => v.to_string().len(),
        Wire::Tree(t) => t.size() * 16 + t.show().len(),
    }
}

fn c08(ctx: &mut Ctx) {
    let w = ctx.world();
    let fmt = match ctx.fmt(ALL) {
        Fmt::BinRead => Fmt::BinSlice,
        f => f,
    };
    let Some(sent) = anything(w, 6, &|_| true) else { return };
    let Ok(model) = sent.held.model(&w.info, fmt.hr()) else { return };
    let model = if fmt.self_describing() && chance(2, 3) { crate::messages::permute(&model, 1) } else { model };
    let Ok(clean) = write(&model, fmt.enc()) else { return };
    let mut wire = clean.clone();
    for _ in 0..1 + pick(if chance(1, 3) { 6 } else { 2 }) {
        mutate(&mut wire, fmt);
    }
    if tracing() {
        trace(&format!("  message   {}", clean.show()));
        trace(&format!("  corrupted {}", wire.show()));
    }
    let mut src = Source::calm();
    if let Fmt::Sim(_) | Fmt::Strict(_) = fmt {
        src.forms = pick(form::ALL_BENIGN + 1) & form::ALL_BENIGN;
        if chance(1, 2) {
            src.forms |= form::HINT_LIE;
        }
    } else if fmt.reader() {
        src.short = chance(1, 4);
    }
    if crate::known::f15(fmt, &wire) {
        return;
    }
    let size = size_of(&wire);
    let lies = if src.forms & form::HINT_LIE != 0 { size as i64 / 16 * (2 << 20) } else { 0 };
    let allowed = (16 << 20) + 512 * size as i64 + lies;
    let base = counting::reset_peak();
    let got = decode(w, sent.env, fmt, &wire, &src);
    let peak = counting::peak() - base;
    let say = |m: String| format!("{} in {}: {m}\n  corrupted message: {}", w.info.world, fmt.name(), wire.show());
    maximum("max KiB allocated in one call", peak as u64 / 1024);
    if peak > allowed {
        fail("memory", &say(format!("{peak} bytes were allocated for a message of {size}")));
    }
    let res = got.one();
    note(res.is_ok() as u64);
    let verdict = match res {
        Err(e) => {
            if e.len() > (1 << 20) {
                // Formats quote errors within errors.
                count("skip: very long error");
            }
            count("outcome: rejected");
            0
        }
        Ok(h) => {
            count("outcome: accepted");
            genuine(w, sent.env, fmt, h, &say);
            1
        }
    };
    seen("C08", w, fmt.name(), &sent.label, &[verdict, hash(&[&wire.show()], &[])]);
}

/// What was accepted can be written and read back.
fn genuine(w: &World, env: bool, fmt: Fmt, h: Box<dyn Held>, say: &dyn Fn(String) -> String) {
    let items = h.items();
    let sent = Sent { held: h, env, label: String::new(), items };
    for i in &sent.items {
        if w.find(i.tag).is_some_and(|s| s.holder) || ["Ip(", "XTagged", "XColl"].iter().any(|p| i.dbg.contains(p)) {
            return count("skip: accepted value has other properties");
        }
    }
    let tk = tag_key(&w.info);
    if is_internal(&w.info) {
        for p in sent.held.payloads(fmt.hr()) {
            let mut p = &p;
            while let Tree::Newtype(_, b) = p {
                p = b;
            }
            if let Some(es) = vsim_base::model::entries(p) {
                if es.iter().any(|(k, _)| *k == s(tk)) {
                    return count("skip: collides with the tag");
                }
            }
        }
    }
    if carried(w, &sent, fmt).is_none() {
        return;
    }
    let wire = match sent.held.write(fmt.enc()) {
        Ok(x) => x,
        Err(e) => fail("accepted-unwritable", &say(format!("{} was accepted but cannot be written: {e}", show_items(&sent.items)))),
    };
    let got = decode(w, env, fmt, &wire, &Source::calm()).one();
    if !matches!(&got, Ok(h) if same(&sent.items, &h.items())) && known::f8_read(w, fmt.hr(), sent.tags()) {
        return;
    }
    must_equal("accepted", w, fmt, &sent.items, &got, &wire);
    count("outcome: accepted value is genuine");
}

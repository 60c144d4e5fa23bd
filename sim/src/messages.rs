//! C04, C05, C12: messages whose entries are reordered, lost, duplicated, altered or
//! joined by foreign ones in flight.
use crate::engine::{count, fail, hash, note};
use crate::formats::*;
use crate::known;
use crate::props::*;
use vsim_base::model::{entries, judge, wrap, Info, Kind, Repr, Verdict};
use vsim_base::simde::DeCtl;
use vsim_base::tape::{chance, of, permutation, pick, usize_below};
use vsim_base::tree::{s, Tree};
use vsim_base::{trace, tracing};

/// Reorders the entries of maps and structs: the outermost one always, inner ones in
/// one of `inner` cases.
pub fn permute(t: &Tree, inner: u32) -> Tree {
    reorder(t, true, inner)
}

fn reorder(t: &Tree, now: bool, inner: u32) -> Tree {
    let deep = |t: &Tree| reorder(t, inner > 0 && chance(1, inner + 1), inner);
    let many = |v: &Vec<Tree>| v.iter().map(deep).collect::<Vec<_>>();
    fn order<T: Clone>(v: Vec<T>, now: bool) -> Vec<T> {
        if !now || v.len() < 2 {
            return v;
        }
        permutation(v.len()).into_iter().map(|i| v[i].clone()).collect()
    }
    match t {
        Tree::Some(b) => Tree::Some(Box::new(deep(b))),
        Tree::Newtype(n, b) => Tree::Newtype(n, Box::new(reorder(b, now, inner))),
        Tree::NewtypeVariant(n, i, v, b) => Tree::NewtypeVariant(n, *i, v, Box::new(deep(b))),
        Tree::Seq(v, k) => Tree::Seq(many(v), *k),
        Tree::Tuple(v) => Tree::Tuple(many(v)),
        Tree::TupleStruct(n, v) => Tree::TupleStruct(n, many(v)),
        Tree::TupleVariant(n, i, w, v) => Tree::TupleVariant(n, *i, w, many(v)),
        Tree::Map(v, k) => Tree::Map(order(v.iter().map(|(k, v)| (k.clone(), deep(v))).collect(), now), *k),
        Tree::Struct(n, v) => Tree::Struct(n, order(v.iter().map(|(k, v)| (*k, deep(v))).collect(), now)),
        Tree::StructVariant(n, i, w, v) => Tree::StructVariant(n, *i, w, order(v.iter().map(|(k, v)| (*k, deep(v))).collect(), now)),
        other => other.clone(),
    }
}

// ------------------------------------------------------------------ C04

pub static C04: Prop = Prop {
    id: "C04",
    runs: 160_000,
    styled: false,
    max_ops: 16,
    setup: nothing,
    op: c04,
    end: nothing,
    rule: "an operation decodes a message and the same message with the entries of its maps reordered at every level, delivered in varying forms; non-trivial: some order changed and the format describes the payload completely (it survives an independent buffer); distinct by trait, format, concrete types and order",
    assumptions: &["payloads that an independent buffer of the format's events cannot reproduce are not held against typetag"],
};

/// A message with contents that are perhaps not valid: the verdict must not depend on
/// the order either.
fn c04_altered(ctx: &mut Ctx) {
    let w = ctx.world();
    let fmt = ctx.fmt(SELF);
    let Some(sent) = object(w, &|s| s.name != "XColl") else { return };
    let Some(model) = carried(w, &sent, fmt) else { return };
    let tag = sent.items[0].tag;
    let Some(sh) = w.find(tag) else { return };
    let kind = kind_of(sh, fmt.hr());
    let payload = &sent.held.payloads(fmt.hr())[0];
    let payload = match payload {
        Tree::Newtype(_, b) => b,
        p => p,
    };
    let mut changed = payload.clone();
    for _ in 0..1 + pick(2) {
        changed = alter(&changed);
    }
    // The representation decides what may stand there.
    let fits = match (w.info.repr, kind) {
        (Repr::Internal { .. }, Kind::Struct | Kind::Map) => matches!(changed, Tree::Map(..) | Tree::Struct(..)),
        (Repr::Internal { .. }, Kind::Value) => !matches!(changed, Tree::Map(..) | Tree::Struct(..) | Tree::Unit | Tree::None | Tree::Some(_) | Tree::UnitStruct(_) | Tree::UnitVariant(..) | Tree::NewtypeVariant(..) | Tree::TupleVariant(..) | Tree::StructVariant(..)),
        (Repr::Internal { .. }, _) => false,
        _ => true,
    };
    if !fits || changed.normal() == payload.normal() || (fmt == Fmt::Cbor && sizes(&changed) != sizes(payload)) {
        return count("skip: no fitting alteration");
    }
    let tk = tag_key(&w.info);
    if is_internal(&w.info) && entries(&changed).is_some_and(|es| es.iter().any(|(k, _)| *k == s(tk) || !matches!(k, Tree::Str(_)))) {
        return count("skip: collides with the tag");
    }
    if let Some(es) = entries(&changed) {
        // Of two entries with one key, the last counts in a map: order matters.
        if es.iter().enumerate().any(|(i, (k, _))| es[..i].iter().any(|(l, _)| l == k)) {
            return count("skip: duplicated keys");
        }
    }
    let Ok(usual) = wrap(&w.info, tag, changed.clone()) else { return };
    let Some(es) = entries(&usual) else { return };
    let mut order: Vec<usize> = permutation(es.len());
    if order.iter().enumerate().all(|(i, x)| i == *x) {
        order.reverse();
    }
    if es.len() < 2 {
        return count("skip: a single entry");
    }
    let moved = Tree::Map(order.iter().map(|i| es[*i].clone()).collect(), true);
    let (Ok(a), Ok(b)) = (write(&Tree::Map(es, true), fmt.enc()), write(&moved, fmt.enc())) else { return count("skip: format cannot write the encoding") };
    if tracing() {
        trace(&format!("  usual order {}", a.show()));
        trace(&format!("  message     {}", b.show()));
    }
    // What the payload is worth, without typetag, directly and through a buffer.
    if worth(sh, fmt, &changed).is_none() {
        return count("skip: reference undecided");
    }
    let mut src = Source::erratic();
    if matches!(fmt, Fmt::Sim(_)) {
        use vsim_base::simde::form;
        src.forms &= form::STR | form::BYTES | form::HINT_NONE;
    }
    let show = |r: &Result<Box<dyn Held>, String>| match r {
        Ok(h) => show_items(&h.items()),
        Err(e) => format!("error: {e}"),
    };
    let first = decode(w, false, fmt, &a, &Source::calm()).one();
    let second = decode(w, false, fmt, &b, &src).one();
    let same = match (&first, &second) {
        (Ok(x), Ok(y)) => same(&x.items(), &y.items()),
        (Err(_), Err(_)) => true,
        _ => false,
    };
    note(first.is_ok() as u64);
    if !same {
        if known::f8_read(w, fmt.hr(), sent.tags()) || known::f12(w, fmt, sent.tags()) || known::f14(w, tag, &changed) {
            return;
        }
        fail(
            "verdict-depends-on-order",
            &format!("{} in {}: {tag:?} with altered contents\n  usual order: {}\n    gives {}\n  reordered:   {}\n    gives {}", w.info.world, fmt.name(), a.show(), show(&first), b.show(), show(&second)),
        );
    }
    count("fault: content altered");
    count("fault: entries reordered");
    count(if first.is_ok() { "outcome: accepted in every order" } else { "outcome: rejected in every order" });
    seen("C04", w, fmt.name(), &sent.label, &[hash(&["altered", &b.show()], &[]), src.forms as u64]);
}

/// A foreign entry beside contents that have no place for it: accepted or not, but
/// the same wherever the tag stands.
fn c04_beside(ctx: &mut Ctx) {
    let w = ctx.world();
    let fmt = ctx.fmt(&[Fmt::JsonStr, Fmt::Sim(true), Fmt::JsonRead, Fmt::Sim(false)]);
    if !is_internal(&w.info) {
        return count("skip: not internally tagged");
    }
    let Some(sent) = object(w, &|s| s.name != "XColl") else { return };
    let Some(model) = carried(w, &sent, fmt) else { return };
    let Some(mut es) = entries(&model) else { return };
    let tag = sent.items[0].tag;
    let kind = w.find(tag).map(|sh| kind_of(sh, fmt.hr()));
    if matches!(kind, None | Some(Kind::Struct | Kind::Map)) {
        return count("skip: foreign entries are contents");
    }
    if vsim_base::poly::skips(tag) || !buffers(w, &sent, fmt) {
        return count("skip: format does not describe the payload");
    }
    let tk = tag_key(&w.info);
    for _ in 0..1 + usize_below(2) {
        let k = if chance(1, 3) { near("value") } else { of(&["zzz", "a", "", "content", "U", "N"]).to_string() };
        if k != tk && es.iter().all(|(x, _)| *x != s(&k)) {
            es.insert(usize_below(es.len() + 1), (s(&k), other_value()));
        }
    }
    if es.iter().any(|(k, _)| !matches!(k, Tree::Str(_))) {
        return count("skip: keys of another type");
    }
    let Some(at) = es.iter().position(|(k, _)| *k == s(tk)) else { return };
    let entry = es.remove(at);
    let mut outcome = |at: usize| {
        let mut es = es.clone();
        es.insert(at, entry.clone());
        let Ok(wire) = write(&Tree::Map(es, true), fmt.enc()) else { return None };
        let got = decode(w, false, fmt, &wire, &Source::calm());
        let left = got.leftover;
        let shown = match got.one() {
            Ok(_) if left => "error: entries are left over".into(),
            Ok(h) => show_items(&h.items()),
            Err(e) => format!("error: {e}"),
        };
        if tracing() {
            trace(&format!("  message {}", wire.show()));
            trace(&format!("  gives {shown}"));
        }
        Some((shown, wire))
    };
    let (Some((a, wa)), Some((b, wb))) = (outcome(0), outcome(1 + usize_below(es.len().max(1)).min(es.len()))) else {
        return count("skip: format cannot write the encoding");
    };
    if a != b && !(a.starts_with("error") && b.starts_with("error")) {
        if known::f8_read(w, fmt.hr(), sent.tags()) || known::f12(w, fmt, sent.tags()) || known::f14(w, tag, &model) {
            return;
        }
        fail(
            "verdict-depends-on-order",
            &format!("{} in {}: {tag:?} with foreign entries\n  tag first: {}\n    gives {a}\n  tag later: {}\n    gives {b}", w.info.world, fmt.name(), wa.show(), wb.show()),
        );
    }
    count("fault: foreign entry");
    count("fault: entries reordered");
    count(if a.starts_with("error") { "outcome: rejected in every order" } else { "outcome: accepted in every order" });
    seen("C04", w, fmt.name(), &sent.label, &[hash(&["beside", &wb.show()], &[])]);
}

fn c04(ctx: &mut Ctx) {
    match pick(8) {
        6 => return c04_beside(ctx),
        7 => return c04_altered(ctx),
        5 if chance(1, 2) => return c04_altered(ctx),
        _ => {}
    }
    let w = ctx.world();
    let fmt = ctx.fmt(SELF);
    let Some(sent) = anything(w, 6, &|s| s.name != "XColl") else { return };
    let Some(model) = carried(w, &sent, fmt) else { return };
    if !buffers(w, &sent, fmt) {
        return;
    }
    let Ok(wire0) = write(&model, fmt.enc()) else { return };
    match decode(w, sent.env, fmt, &wire0, &Source::calm()).one() {
        Ok(h) if same(&h.items(), &sent.items) => {}
        _ => return count("skip: not read in the usual order"),
    }
    let moved = permute(&model, if ctx.on(3) { 1 } else { 0 });
    let changed = moved != model;
    let Ok(wire) = write(&moved, fmt.enc()) else { return };
    let src = Source::erratic();
    if tracing() {
        trace(&format!("  usual order {}", wire0.show()));
        trace(&format!("  message     {}", wire.show()));
    }
    let got = decode(w, sent.env, fmt, &wire, &src).one();
    let ok = matches!(&got, Ok(h) if same(&h.items(), &sent.items));
    if !ok && (known::f8_read(w, fmt.hr(), sent.tags()) || known::f12(w, fmt, sent.tags())) {
        return;
    }
    must_equal("reordered", w, fmt, &sent.items, &got, &wire);
    if changed {
        count("fault: entries reordered");
        count("outcome: same object in another order");
        let order = entries(&moved).map(|e| e.iter().map(|(k, _)| k.show()).collect::<Vec<_>>().join(",")).unwrap_or_default();
        seen("C04", w, fmt.name(), &sent.label, &[hash(&[&order], &[]), src.forms as u64]);
    }
}

// ------------------------------------------------------------------ damage

#[derive(Clone, Debug, PartialEq)]
pub enum Hurt {
    Dropped(String),
    Doubled(String),
    Foreign(String),
    TagAltered(Tree),
    ContentAltered,
    Emptied,
    Moved,
}

fn keytext(k: &Tree) -> String {
    match k {
        Tree::Str(x) => x.clone(),
        k => k.show(),
    }
}

fn other_value() -> Tree {
    match pick(9) {
        0 => Tree::Unit,
        1 => Tree::U32(pick(300)),
        2 => s("x"),
        3 => Tree::Bool(true),
        4 => Tree::Seq(vec![Tree::U8(1), Tree::U8(2)], true),
        5 => Tree::Map(vec![(s("a"), Tree::U8(1))], true),
        6 => Tree::F64(1.5),
        7 => Tree::I64(-3),
        _ => Tree::Map(vec![], true),
    }
}

/// Something close to this text, and not equal to it.
fn near(x: &str) -> String {
    let y = match pick(10) {
        0 => x.to_uppercase(),
        1 => x.to_lowercase(),
        2 => format!("{x} "),
        3 => format!(" {x}"),
        4 => format!("{x}\0"),
        5 => format!("{x}s"),
        6 => x.chars().skip(1).collect(),
        7 => {
            let n = x.chars().count();
            x.chars().take(n.saturating_sub(1)).collect()
        }
        8 => x.replace('_', "-"),
        _ => {
            let mut c = x.chars();
            c.next().map(|a| if a.is_lowercase() { a.to_uppercase().collect::<String>() } else { a.to_lowercase().collect() } + c.as_str()).unwrap_or_default()
        }
    };
    if y == x {
        format!("{x}_")
    } else {
        y
    }
}

fn altered_tag(w: &World) -> Tree {
    match pick(10) {
        0 | 1 => s(w.shapes[usize_below(w.shapes.len())].name),
        2 => s("NoSuchType"),
        3 => s("sstruct"),
        4 => Tree::U32(pick(3)),
        5 => Tree::Unit,
        6 => Tree::Seq(vec![s("SStruct")], true),
        7 | 8 => s(&near(w.shapes[usize_below(w.shapes.len())].name)),
        _ => of(&[Tree::Bool(true), Tree::Map(vec![], true), Tree::Map(vec![(s("SStruct"), Tree::Unit)], true), Tree::F64(0.5)].each_ref()).clone(),
    }
}

/// A scalar of another kind or value.
fn other_scalar(t: &Tree) -> Tree {
    use Tree as T;
    let int = match t {
        T::I8(x) => Some(*x as i128),
        T::I16(x) => Some(*x as i128),
        T::I32(x) => Some(*x as i128),
        T::I64(x) => Some(*x as i128),
        T::I128(x) => Some(*x),
        T::U8(x) => Some(*x as i128),
        T::U16(x) => Some(*x as i128),
        T::U32(x) => Some(*x as i128),
        T::U64(x) => Some(*x as i128),
        _ => None,
    };
    if let Some(x) = int {
        return match pick(9) {
            0 => s(&x.to_string()),
            1 => T::F64(x as f64),
            2 => T::F64(x as f64 + 0.5),
            3 => T::I64(-1 - (x as i64 & 0xffff)),
            4 => T::U64(u64::MAX),
            5 => T::U64(x.unsigned_abs() as u64 | 1 << 40),
            6 => T::Bool(x & 1 == 1),
            7 => T::I64(i64::MIN),
            _ => T::Unit,
        };
    }
    match t {
        T::Str(x) => match pick(8) {
            6 => T::Map(vec![(s(x), T::Unit)], true),
            7 => T::Map(vec![(s(x), other_value())], true),
            0 => s(""),
            1 => s(&near(x)),
            2 => s("12"),
            3 => T::Bytes(x.as_bytes().to_vec()),
            4 => T::Unit,
            _ => T::U32(x.len() as u32),
        },
        T::Bool(x) => match pick(3) {
            0 => T::U8(*x as u8),
            1 => s(if *x { "true" } else { "false" }),
            _ => T::Unit,
        },
        T::Char(x) => match pick(5) {
            0 => s("ab"),
            1 => s(""),
            2 => T::U32(*x as u32),
            3 => s(&format!("{x}{x}")),
            _ => T::Unit,
        },
        T::F32(_) | T::F64(_) => match pick(4) {
            0 => T::U32(7),
            1 => T::I64(-7),
            2 => s("1.5"),
            _ => T::Unit,
        },
        T::Bytes(x) => match pick(4) {
            0 => T::Seq(x.iter().map(|b| T::U8(*b)).collect(), true),
            1 => s("text"),
            2 => T::Seq(vec![T::U32(300)], true),
            _ => T::Unit,
        },
        T::Unit | T::None | T::UnitStruct(_) => match pick(6) {
            0 => T::Map(vec![], true),
            1 => T::Seq(vec![], true),
            2 => T::Bool(false),
            3 => s(""),
            4 => T::U8(0),
            _ => T::Seq(vec![T::Unit], true),
        },
        T::UnitVariant(_, i, v) => match pick(4) {
            0 => s(&near(v)),
            1 => T::U32(*i),
            2 => T::Map(vec![(s(v), T::Unit)], true),
            _ => T::Map(vec![(s(v), T::U8(1))], true),
        },
        _ => other_value(),
    }
}

/// How many there are of lists and maps of each length.  ciborium takes a list or map of
/// another length than asked for and loses its place in the message.
fn sizes(t: &Tree) -> std::collections::BTreeMap<(bool, usize), u32> {
    fn walk(t: &Tree, to: &mut std::collections::BTreeMap<(bool, usize), u32>) {
        match t {
            Tree::Seq(v, _) => *to.entry((false, v.len())).or_default() += 1,
            Tree::Map(v, _) => *to.entry((true, v.len())).or_default() += 1,
            _ => {}
        }
        t.children().into_iter().for_each(|c| walk(c, to));
    }
    let mut m = Default::default();
    walk(&t.normal(), &mut m);
    m
}

/// Changes one thing somewhere within.
pub fn alter(t: &Tree) -> Tree {
    use Tree as T;
    let list = |v: &Vec<Tree>| -> Vec<Tree> {
        let mut v = v.clone();
        match pick(5) {
            0 => {
                v.pop();
            }
            1 => v.push(v.last().cloned().unwrap_or(T::U8(1))),
            _ => {
                let i = usize_below(v.len());
                v[i] = alter(&v[i]);
            }
        }
        v
    };
    let map = |v: Vec<(Tree, Tree)>| -> Vec<(Tree, Tree)> {
        let mut v = v;
        let i = usize_below(v.len());
        match pick(8) {
            0 => {
                v.remove(i);
            }
            1 => {
                let e = v[i].clone();
                v.push(e);
            }
            2 => {
                if let T::Str(k) = &v[i].0 {
                    v[i].0 = s(&near(k));
                }
            }
            3 => v.insert(i, (s("zzz"), other_value())),
            _ => v[i].1 = alter(&v[i].1),
        }
        v
    };
    if chance(1, 6) {
        return other_value();
    }
    match t {
        T::Some(b) => T::Some(Box::new(alter(b))),
        T::Newtype(n, b) => T::Newtype(n, Box::new(alter(b))),
        T::NewtypeVariant(n, i, v, b) => match pick(4) {
            0 => T::UnitVariant(n, *i, v),
            1 => T::Map(vec![(s(&near(v)), (**b).clone())], true),
            _ => T::NewtypeVariant(n, *i, v, Box::new(alter(b))),
        },
        T::Seq(v, k) if !v.is_empty() => T::Seq(list(v), *k),
        T::Tuple(v) if !v.is_empty() => T::Seq(list(v), true),
        T::TupleStruct(_, v) if !v.is_empty() => T::Seq(list(v), true),
        T::TupleVariant(_, _, w, v) if !v.is_empty() => T::Map(vec![(s(w), T::Seq(list(v), true))], true),
        T::Map(v, k) if !v.is_empty() => T::Map(map(v.clone()), *k),
        T::Struct(_, v) if !v.is_empty() => T::Map(map(v.iter().map(|(k, v)| (s(k), v.clone())).collect()), true),
        T::StructVariant(_, _, w, v) if !v.is_empty() => {
            let v = v.iter().map(|(k, v)| (s(k), v.clone())).collect();
            T::Map(vec![(s(w), T::Map(map(v), true))], true)
        }
        t => other_scalar(t),
    }
}

/// A message of the same meaning: with foreign entries where they are skipped, and
/// without the tag where the variant is the default.
pub fn embellish(w: &World, sent: &Sent, model: &Tree) -> Tree {
    if sent.env {
        return model.clone();
    }
    let Some(mut es) = entries(model) else { return model.clone() };
    let tk = tag_key(&w.info);
    let tag = sent.items[0].tag;
    let struct_like = w.find(tag).is_some_and(|sh| sh.kind == Kind::Struct && !sh.holder && sh.name != "SDeny" && sh.name != "SFlat");
    let skips = match w.info.repr {
        Repr::External => false,
        Repr::Internal { .. } => struct_like,
        Repr::Adjacent { .. } => !w.info.deny,
    };
    if skips && chance(1, 2) {
        let many = vsim_base::scale::elements();
        for i in 0..many.unwrap_or_else(|| 1 + pick(2)) {
            let k = &match many {
                Some(_) => format!("foreign {i}"),
                None => of(&["zzz", "foreign", "", "typ", "contents", "x-9"]).to_owned(),
            };
            if es.iter().all(|(x, _)| *x != s(k)) {
                let v = match pick(4) {
                    0 => s(&"skipped ".repeat(1 + usize_below(20))),
                    1 => Tree::Seq((0..pick(12)).map(Tree::U32).collect(), true),
                    2 => Tree::Map(vec![(s("a"), Tree::Seq(vec![Tree::F64(0.5), Tree::Unit], true)), (s(tk), s("SUnit"))], true),
                    _ => other_value(),
                };
                es.insert(usize_below(es.len() + 1), (s(k), v));
                count("fault: foreign entry");
            }
        }
    }
    if w.info.default == Some(tag) && chance(1, 2) {
        es.retain(|(k, _)| *k != s(tk));
        count("fault: entry lost");
    }
    Tree::Map(es, true)
}

/// Damages a message `n` times.
pub fn damage(w: &World, fmt: Fmt, mut es: Vec<(Tree, Tree)>, n: u32, reorder_too: bool) -> (Vec<(Tree, Tree)>, Vec<Hurt>) {
    let mut done = Vec::new();
    let tk = tag_key(&w.info);
    for _ in 0..n {
        match pick(if reorder_too { 6 } else { 5 }) {
            0 if !es.is_empty() && chance(1, 12) => {
                es.clear();
                done.push(Hurt::Emptied);
                count("fault: all entries lost");
            }
            0 if !es.is_empty() => {
                let i = usize_below(es.len());
                let (k, _) = es.remove(i);
                count("fault: entry lost");
                done.push(Hurt::Dropped(keytext(&k)));
            }
            1 if !es.is_empty() => {
                let (k, v) = es[usize_below(es.len())].clone();
                let v = if chance(1, 2) { other_value() } else { v };
                let at = usize_below(es.len() + 1);
                done.push(Hurt::Doubled(keytext(&k)));
                count("fault: entry duplicated");
                es.insert(at, (k, v));
            }
            2 if !es.is_empty() && chance(1, 4) => {
                let i = usize_below(es.len());
                if let Tree::Str(k) = es[i].0.clone() {
                    let n = near(&k);
                    if es.iter().all(|(x, _)| *x != s(&n)) {
                        es[i].0 = s(&n);
                        count("fault: key altered");
                        done.push(Hurt::Dropped(k));
                        done.push(Hurt::Foreign(n));
                    }
                }
            }
            2 if vsim_base::scale::long() && w.info.repr != Repr::External => {
                let at = usize_below(es.len() + 1);
                let run: Vec<_> = (0..vsim_base::scale::elements().unwrap_or(2)).map(|i| (s(&format!("foreign {i}")), Tree::U32(i))).collect();
                if es.iter().all(|(k, _)| *k != run[0].0) {
                    es.splice(at..at, run);
                    count("fault: foreign entries in a row");
                    done.push(Hurt::Foreign("foreign 0".into()));
                }
            }
            2 => {
                let k = match (pick(3), w.info.repr) {
                    (0, Repr::Internal { tag }) => near(tag),
                    (0, Repr::Adjacent { tag, content }) => near(of(&[tag, content])),
                    _ => of(&["zzz", "value", "t", "c", "type", "kind", "a", "", "tag", "content", "typ", "contents"]).into(),
                };
                if es.iter().any(|(x, _)| *x == s(&k)) {
                    continue;
                }
                let at = usize_below(es.len() + 1);
                count("fault: foreign entry");
                es.insert(at, (s(&k), other_value()));
                done.push(Hurt::Foreign(k));
            }
            3 => {
                let v = altered_tag(w);
                if w.info.repr == Repr::External {
                    if let (Tree::Str(_), false) = (&v, es.is_empty()) {
                        es[0].0 = v.clone();
                        done.push(Hurt::TagAltered(v));
                        count("fault: tag altered");
                    }
                } else if let Some(e) = es.iter_mut().find(|(k, _)| *k == s(tk)) {
                    e.1 = v.clone();
                    done.push(Hurt::TagAltered(v));
                    count("fault: tag altered");
                }
            }
            4 => {
                if let Some(e) = es.iter_mut().find(|(k, _)| tk.is_empty() || *k != s(tk)) {
                    let v = alter(&e.1);
                    if v.normal() != e.1.normal() && (fmt != Fmt::Cbor || sizes(&v) == sizes(&e.1)) {
                        e.1 = v;
                        count("fault: content altered");
                        done.push(Hurt::ContentAltered);
                    }
                }
            }
            _ => {
                if es.len() > 1 {
                    es = permutation(es.len()).into_iter().map(|i| es[i].clone()).collect();
                    done.push(Hurt::Moved);
                    count("fault: entries reordered");
                }
            }
        }
    }
    if tracing() {
        trace(&format!("  damage {done:?}"));
    }
    (es, done)
}

// ------------------------------------------------------------------ C05

pub static C05: Prop = Prop {
    id: "C05",
    runs: 160_000,
    styled: false,
    max_ops: 16,
    setup: nothing,
    op: c05,
    end: nothing,
    rule: "an operation damages a valid message (entries dropped, duplicated, added, tag altered, reordered; 1 to 3 of these) and compares the verdict and value with a reference decoder over the entries; non-trivial: damaged and the reference gives a verdict; distinct by trait, format, concrete type, kinds of damage and resulting order of keys",
    assumptions: &["the payload's own Deserialize decides what a payload is worth, directly and through an independent buffer; where the two disagree the case is discarded", "messages whose meaning the documentation leaves open (more entries than the representation has) only must not yield another type"],
};

/// Whether the text has this word.
fn names(text: &str, word: &str) -> bool {
    text.split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| w == word)
}

fn c05(ctx: &mut Ctx) {
    let w = ctx.world();
    let fmt = ctx.fmt(SELF);
    let Some(sent) = object(w, &|s| s.name != "XColl") else { return };
    let Some(model) = carried(w, &sent, fmt) else { return };
    let Some(es) = entries(&model) else { return };
    let (es, hurt) = damage(w, fmt, es, 1 + pick(3), true);
    if hurt.is_empty() {
        return;
    }
    let Ok(wire) = write(&Tree::Map(es, true), fmt.enc()) else { return count("skip: format cannot write the encoding") };
    if tracing() {
        trace(&format!("  message {}", wire.show()));
    }
    let seen_by_all = match &wire {
        Wire::Tree(t) => Ok(t.clone()),
        wire => read_plain::<Tree>(fmt, wire),
    };
    let Ok(Some(es)) = seen_by_all.map(|t| entries(&t)) else { return count("skip: not readable as any") };
    // A key that is an enum's variant is the same text to whoever asks for an identifier.
    if es.iter().any(|(k, _)| matches!(k, Tree::UnitVariant(..))) {
        return count("skip: a variant as key");
    }
    // A reader without type knowledge may see less than is there (numbers beyond f64).
    if fmt.json() {
        let again = write(&Tree::Map(es.clone(), true), fmt.enc());
        let same = match (&again, &wire) {
            (Ok(Wire::Bytes(a)), Wire::Bytes(b)) => a == b,
            (Ok(Wire::Val(a)), Wire::Val(b)) => a == b,
            _ => false,
        };
        if !same {
            return count("skip: not readable as any");
        }
    }
    let verdict = judge(&w.info, &es, &|t| w.find(t).map(|sh| kind_of(sh, fmt.hr())));
    let mut src = Source::erratic();
    if matches!(fmt, Fmt::Sim(_)) && hurt.iter().any(|h| matches!(h, Hurt::ContentAltered) || matches!(h, Hurt::TagAltered(t) if !matches!(t, Tree::Str(_)))) {
        // What is wrongly typed must stay so.
        src.forms = 0;
    }
    let got = decode(w, false, fmt, &wire, &src).one();
    note(got.is_ok() as u64);
    let say = |m: String| {
        format!("{} in {} (default {:?}, deny {}): {m}\n  sent: {}\n  damage: {hurt:?}\n  message: {}", w.info.world, fmt.name(), w.info.default, w.info.deny, show_items(&sent.items), wire.show())
    };
    let verdict_name;
    match verdict {
        Verdict::Reject { must_name } => {
            verdict_name = "reject";
            match got {
                Ok(h) => {
                    if vsim_base::poly::skips(h.items()[0].tag) {
                        return count("skip: passed over by its type");
                    }
                    if known::f10(w, fmt, es.len()) {
                        return;
                    }
                    fail("accepted", &say(format!("must be rejected, but was read as {}", show_items(&h.items()))))
                }
                Err(e) => {
                    if hurt.iter().filter(|h| **h != Hurt::Moved).count() == 1 && !vsim_base::poly::odd_keys(sent.items[0].tag) && es.iter().all(|(k, _)| matches!(k, Tree::Str(_))) {
                        for n in must_name {
                            // The first of two contents may be unfit in itself.
                            let mut same = es.iter().filter(|(k, _)| *k == s(&n)).map(|(_, v)| v);
                            let first = same.next();
                            if same.any(|v| Some(v) != first) {
                                continue;
                            }
                            // So may one that the format does not carry through a buffer,
                            // whichever key is the one repeated.
                            if let Repr::Adjacent { content, .. } = w.info.repr {
                                let carried = es.iter().find(|(k, _)| *k == s(content)).map(|(_, v)| v);
                                if carried.is_some_and(|v| {
                                    !w.find(sent.items[0].tag).is_some_and(|sh| matches!(worth(sh, fmt, v), Some(Ok(_))))
                                }) {
                                    continue;
                                }
                            }
                            if !n.is_empty() && n.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'_') && !names(&e, &n) {
                                fail("error-text", &say(format!("the error does not name {n:?}: {e}")));
                            }
                        }
                    }
                    count("outcome: rejected as specified");
                }
            }
        }
        // A unit struct needs no content.
        Verdict::Either { tag } if tag == "SUnit" && matches!(w.info.repr, Repr::Adjacent { content, .. } if es.iter().all(|(k, _)| *k != s(content))) => {
            verdict_name = "contentless";
            match got {
                Ok(h) if h.items()[0].tag == tag => count("outcome: accepted as specified"),
                Ok(h) => fail("wrong-type", &say(format!("the tag says {tag:?}, but it was read as {}", show_items(&h.items())))),
                Err(e) => fail("rejected", &say(format!("a unit struct without content must be read, but: {e}"))),
            }
        }
        Verdict::Either { tag } => {
            verdict_name = "either";
            if let Ok(h) = got {
                if h.items()[0].tag != tag {
                    fail("wrong-type", &say(format!("the tag says {tag:?}, but it was read as {}", show_items(&h.items()))));
                }
            }
            count("outcome: left open by the documentation");
        }
        Verdict::Payload { tag, payload } => {
            let Some(sh) = w.find(&tag) else { return };
            if is_internal(&w.info) && tag != sent.items[0].tag && es.iter().any(|(k, _)| !matches!(k, Tree::Str(_))) {
                return count("skip: keys of another type");
            }
            let direct = write(&payload, fmt.enc()).map_err(|_| ()).and_then(|wr| read_shape(sh, fmt, &wr).map_err(|_| ()));
            let ctl = DeCtl::plain(false, fmt.hr());
            let buffered = sh.de_tree(&payload, &ctl).map_err(|_| ());
            // Whether one type's data can be read as another's is up to the format.
            if matches!(fmt, Fmt::Sim(_)) && tag != sent.items[0].tag && direct.is_ok() != got.is_ok() {
                return count("skip: payload of another type");
            }
            if direct != buffered || hurt.contains(&Hurt::ContentAltered) && worth(sh, fmt, &payload).is_none() {
                return count("skip: reference undecided");
            }
            match (direct, got) {
                (Ok(d), Ok(h)) => {
                    let items = h.items();
                    if items[0].tag != tag {
                        fail("wrong-type", &say(format!("must be {tag:?}, but was read as {}", show_items(&items))));
                    }
                    if items[0].dbg != d {
                        fail("wrong-value", &say(format!("must be {tag:?} = {d}, but was read as {}", show_items(&items))));
                    }
                    verdict_name = "accept";
                    count("outcome: accepted as specified");
                }
                (Ok(_), Err(_)) if src.forms != 0 && matches!(fmt, Fmt::Sim(_)) && decode(w, false, fmt, &wire, &Source::calm()).one().is_ok() => {
                    return count("skip: valid in another delivery form only");
                }
                (Err(()), Err(_)) => {
                    verdict_name = "payload";
                    count("outcome: payload rejected as specified");
                }
                (Ok(d), Err(e)) => {
                    if known::f8_read(w, fmt.hr(), std::iter::once(tag.as_str())) || known::f12(w, fmt, std::iter::once(tag.as_str())) {
                        return;
                    }
                    fail("rejected", &say(format!("must be read as {tag:?} = {}, but: {e}", clip(&d))))
                }
                (Err(()), Ok(h)) if h.items()[0].tag == tag && known::f14(w, &tag, &payload) => return,
                (Err(()), Ok(h)) if src.forms != 0 && matches!(fmt, Fmt::Sim(_)) && h.items()[0].tag == tag && decode(w, false, fmt, &wire, &Source::calm()).one().is_err() => {
                    return count("skip: valid in another delivery form only");
                }
                (Err(()), Ok(h)) => fail("accepted", &say(format!("the payload is not a valid {tag:?}, but was read as {}", show_items(&h.items())))),
            }
        }
    }
    let order = es.iter().map(|(k, _)| keytext(k)).collect::<Vec<_>>().join(",");
    seen("C05", w, fmt.name(), &format!("{}/{verdict_name}/{order}", sent.label), &[hurt.len() as u64]);
}

// ------------------------------------------------------------------ C12

pub static C12: Prop = Prop {
    id: "C12",
    runs: 160_000,
    styled: false,
    max_ops: 16,
    setup: nothing,
    op: c12,
    end: nothing,
    rule: "an operation sends a value between a node that uses trait objects and a node that uses the derived enum with the same tagging, over 1-3 hops of a channel that reorders, drops, alters and adds entries; non-trivial: both nodes gave a verdict on the same message; distinct by trait, format, concrete type, damage kinds and order of keys",
    assumptions: &["the derived enum is the specification, so shapes that serde's own buffering does not support (128-bit integers, maps with integer keys in internal form) and forms that serde leaves open (duplicated internal tag, entries beyond an internally tagged unit or scalar) are left out"],
};

const TALK: &[Fmt] = &[Fmt::JsonStr, Fmt::Cbor, Fmt::JsonVal, Fmt::JsonRead, Fmt::JsonValRef];

fn twin_world(info: &Info) -> bool {
    ["WExt", "WInt", "WAdj", "WAdjX"].contains(&info.world)
}

fn c12(ctx: &mut Ctx) {
    let mine: Vec<usize> = ctx.on_worlds.iter().copied().filter(|i| twin_world(&ctx.worlds[*i].info)).collect();
    let w = if mine.is_empty() {
        let all: Vec<usize> = (0..ctx.worlds.len()).filter(|i| twin_world(&ctx.worlds[*i].info)).collect();
        &ctx.worlds[of(&all)]
    } else {
        &ctx.worlds[of(&mine)]
    };
    let fmt = ctx.fmt(TALK);
    let internal = is_internal(&w.info);
    let allowed = |n: &str| {
        crate::twins::known(&w.info, n) && !(internal && fmt == Fmt::Cbor && ["SIp", "NIp", "HrVec", "HrTup"].contains(&n))
    };
    if tracing() {
        trace(&format!("  trait {}", w.info.world));
    }
    let Some(sent) = object(w, &|sh| allowed(sh.name)) else { return };
    let tag = sent.items[0].tag;
    if carried(w, &sent, fmt).is_none() {
        return;
    }
    let say = |m: String| format!("{} in {}: {m}\n  object: {}", w.info.world, fmt.name(), show_items(&sent.items));
    // The same value at the other node, by way of its own Deserialize.
    let Ok(model) = sent.held.model(&w.info, fmt.hr()) else { return };
    let plain = DeCtl::plain(false, fmt.hr());
    let Ok(twin) = crate::twins::from_tree(&w.info, &model, &plain) else { return count("skip: derived enum does not take it") };
    if twin.tag() != tag || twin.dbg() != sent.items[0].dbg {
        return count("skip: derived enum reads another value");
    }
    let (Ok(a), b) = (twin.write(fmt.enc()), sent.held.write(fmt.enc())) else { return count("skip: derived enum does not write it") };
    let b = match b {
        Ok(b) => b,
        Err(e) => fail("write-error", &say(format!("the derived enum writes it, the trait object does not: {e}"))),
    };
    let equal = match (&a, &b) {
        (Wire::Bytes(x), Wire::Bytes(y)) => x == y,
        (Wire::Val(x), Wire::Val(y)) => x == y,
        _ => false,
    };
    if !equal {
        if known::f8_write(w, fmt.hr(), sent.tags()) {
            return;
        }
        fail("bytes-differ", &say(format!("\n  derived enum: {}\n  trait object: {}", a.show(), b.show())));
    }
    count("outcome: same bytes");
    // Hop by hop through the channel.
    let hops = 1 + pick(3);
    let mut wire = a;
    for hop in 0..hops {
        let t = match &wire {
            Wire::Tree(t) => Ok(t.clone()),
            wire => read_plain::<Tree>(fmt, wire),
        };
        let Ok(Some(es)) = t.map(|t| entries(&t)) else { return count("skip: not readable as any") };
        let (mut es, hurt) = if hop == 0 && pick(4) == 0 { (es, vec![]) } else { damage(w, fmt, es, 1 + pick(2), true) };
        let listed = hop == 0 && hurt.is_empty() && matches!(w.info.repr, Repr::Adjacent { .. }) && pick(3) == 0;
        let msg = if listed {
            // Adjacent representation as a sequence.
            let mut v: Vec<Tree> = es.iter().map(|(_, v)| v.clone()).collect();
            match pick(4) {
                0 => {
                    v.pop();
                }
                1 => v.push(Tree::U8(1)),
                _ => {}
            }
            Tree::Seq(v, true)
        } else {
            Tree::Map(std::mem::take(&mut es), true)
        };
        let Ok(next) = write(&msg, fmt.enc()) else { return count("skip: format cannot write the encoding") };
        wire = next;
        // What arrives (a serde_json::Value sorts its entries and merges duplicates).
        let arrived = match &wire {
            Wire::Tree(t) => Ok(t.clone()),
            wire => read_plain::<Tree>(fmt, wire),
        };
        let Ok(arrived) = arrived else { return count("skip: not readable as any") };
        let seen_es = entries(&arrived);
        let n_entries = seen_es.as_ref().map_or(0, |e| e.len());
        let tk = tag_key(&w.info);
        // A derived enum reads its tag as an identifier, which some formats give in
        // other forms than text; wrongly typed tags are a matter of C05.
        let odd_tag = match w.info.repr {
            Repr::External => false,
            _ => match &seen_es {
                Some(es) => es.iter().any(|(k, v)| *k == s(tk) && !matches!(v, Tree::Str(_))),
                None => matches!(&arrived, Tree::Seq(v, _) if !matches!(v.first(), Some(Tree::Str(_)))),
            },
        };
        if odd_tag {
            return count("skip: tag is not text");
        }
        if let Some(seen) = &seen_es {
            // What the derived enum itself leaves open or does not support.
            if internal && seen.iter().filter(|(k, _)| *k == s(tk)).count() > 1 {
                return count("skip: duplicated internal tag");
            }
            let claimed = match w.info.repr {
                Repr::External => seen.first().map(|(k, _)| keytext(k)),
                _ => seen.iter().find(|(k, _)| *k == s(tk)).map(|(_, v)| keytext(v)),
            };
            if let Some(sh) = claimed.as_deref().and_then(|c| w.find(c)) {
                if !allowed(sh.name) {
                    return count("skip: no such variant");
                }
                let kind = kind_of(sh, fmt.hr());
                let wide = ["S128", "u128", "i128"].contains(&sh.name) || vsim_base::poly::wide(sh.name);
                let n = seen.len();
                match w.info.repr {
                    Repr::Internal { .. } if kind != Kind::Struct && kind != Kind::Map && n > if kind == Kind::Unit { 1 } else { 2 } => {
                        return count("skip: left open by serde");
                    }
                    Repr::Internal { .. } if wide => return count("skip: 128-bit integers"),
                    Repr::Adjacent { content, .. } => {
                        let c = seen.iter().position(|(k, _)| *k == s(content));
                        let t = seen.iter().position(|(k, _)| *k == s(tk));
                        if c.is_none() && matches!(kind, Kind::Unit | Kind::Option) {
                            return count("skip: lost content of a unit");
                        }
                        if wide && c < t {
                            return count("skip: 128-bit integers");
                        }
                    }
                    _ => {}
                }
            }
        }
        if tracing() {
            trace(&format!("  hop {hop}: {}", wire.show()));
        }
        let src = if fmt.reader() { Source::erratic() } else { Source::calm() };
        let ours = decode(w, false, fmt, &wire, &src).one();
        let theirs = crate::twins::read(&w.info, fmt, &wire);
        note(ours.is_ok() as u64);
        let say = |m: String| say(format!("hop {hop}: {m}\n  damage: {hurt:?}\n  message: {}", wire.show()));
        match (ours, theirs) {
            (Err(_), Err(_)) => {
                count("outcome: both reject");
                seen("C12", w, fmt.name(), &format!("{tag}/reject/{}", order(&msg)), &[hurt.len() as u64]);
                return;
            }
            (Ok(o), Ok(t)) => {
                let i = o.items();
                if i[0].tag != t.tag() || i[0].dbg != t.dbg() {
                    fail("values-differ", &say(format!("\n  derived enum: {:?} = {}\n  trait object: {}", t.tag(), clip(&t.dbg()), show_items(&i))));
                }
                count("outcome: both accept equal values");
                seen("C12", w, fmt.name(), &format!("{tag}/accept/{}", order(&msg)), &[hurt.len() as u64]);
                // One of them passes it on.
                let pass = if pick(2) == 0 { o.write(fmt.enc()) } else { t.write(fmt.enc()) };
                match pass {
                    Ok(p) => wire = p,
                    Err(_) => return,
                }
            }
            (Ok(o), Err(e)) => {
                if vsim_base::poly::skips(o.items()[0].tag) {
                    return count("skip: passed over by its type");
                }
                if known::f10(w, fmt, n_entries) {
                    return;
                }
                // The derived enum may be unable to buffer what the payload needs.
                if let Some(Verdict::Payload { tag, payload }) = seen_es.as_ref().map(|es| judge(&w.info, es, &|t| w.find(t).map(|sh| kind_of(sh, fmt.hr())))) {
                    if let (Some(sh), Ok(wr)) = (w.find(&tag), write(&payload, fmt.enc())) {
                        if read_shape_buffered(sh, fmt, &wr).is_err() && worth(sh, fmt, &payload).is_none() {
                            return count("skip: beyond serde's own buffer");
                        }
                    }
                }
                fail("verdicts-differ", &say(format!("the derived enum rejects ({e}), the trait object reads {}", show_items(&o.items()))))
            }
            (Err(e), Ok(t)) => {
                let tags = std::iter::once(t.tag());
                if known::f8_read(w, fmt.hr(), tags.clone()) || known::f12(w, fmt, tags) {
                    return;
                }
                // serde's buffer takes an empty list or map for a unit, which the format
                // itself does not.
                if let Some(Verdict::Payload { tag, payload }) = seen_es.as_ref().map(|es| judge(&w.info, es, &|t| w.find(t).map(|sh| kind_of(sh, fmt.hr())))) {
                    if let (Some(sh), Ok(wr)) = (w.find(&tag), write(&payload, fmt.enc())) {
                        if read_shape(sh, fmt, &wr).is_err() || worth(sh, fmt, &payload).is_none() {
                            return count("skip: accepted by serde's own buffer only");
                        }
                    }
                }
                fail("verdicts-differ", &say(format!("the derived enum reads {:?} = {}, the trait object rejects: {e}", t.tag(), clip(&t.dbg()))))
            }
        }
    }
}

fn order(t: &Tree) -> String {
    match entries(t) {
        Some(es) => es.iter().map(|(k, _)| keytext(k)).collect::<Vec<_>>().join(","),
        None => "[]".into(),
    }
}

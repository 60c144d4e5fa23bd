//! C02: every registration order, and tags claimed more than once.
use crate::engine::{count, fail, hash, note};
use crate::formats::*;
use crate::props::*;
use serde::de::DeserializeOwned;
use vsim_base::model::{wrap, Info, Repr};
use vsim_base::simde::{form, DeCtl, SimDe};
use vsim_base::tape::{chance, of, pick, usize_below};
use vsim_base::tree::{s, Tree};
use vsim_base::worlds::*;
use vsim_base::{trace, tracing};

pub static C02: Prop = Prop {
    id: "C02",
    runs: 160_000,
    styled: false,
    max_ops: 12,
    setup: nothing,
    op: c02,
    end: nothing,
    rule: "a run starts a process and executes its registration constructors (two crates, 26 traits) in an order of its own; an operation then decodes or writes by a unique, ambiguous (claimed 2 to 5 times), unknown or absent tag; non-trivial: the verdict was compared with the set of linked implementations; distinct by trait, format, tag, kind of operation and position in the run",
    assumptions: &["registration happens before main, as with the linker sections that inventory uses; loading further libraries later is not simulated"],
};

const UNIQUE: &[(&str, &str)] = &[("solo", "D0"), ("Zolo", "D1"), ("é", "D2"), ("", "D3"), ("twofold", "D11"), ("alone", "ext::X4")];
const TWICE: &[&str] = &["two", "three", "four", "cross", "five"];
const UNKNOWN: &[&str] = &["nosuch", "Solo", "tw", "twoo", "three2", "D4", "solo_", "Five", "zzz", "A"];

const WDUPE: Info = Info { world: "WDupE", trait_name: "WDupE", repr: Repr::External, default: None, deny: false };
const WDUPI: Info = Info { world: "WDupI", trait_name: "WDupI", repr: Repr::Internal { tag: "t" }, default: Some("two"), deny: false };
const WDUPA: Info = Info { world: "WDupA", trait_name: "WDupA", repr: Repr::Adjacent { tag: "t", content: "c" }, default: Some("absent"), deny: false };
const WDUPX: Info = Info { world: "WDupX", trait_name: "WDupX", repr: Repr::Adjacent { tag: "t", content: "c" }, default: Some("cross"), deny: true };

fn get<T: DeserializeOwned>(fmt: Fmt, wire: &Wire, forms: u32) -> Result<T, String> {
    match (fmt, wire) {
        (Fmt::Sim(hr), Wire::Tree(t)) => {
            let ctl = DeCtl::new(false, hr, forms, 0, String::new());
            T::deserialize(SimDe::new(t, &ctl)).map_err(|e| e.0)
        }
        _ => read_plain(fmt, wire),
    }
}

struct Dup {
    info: Info,
    get: fn(Fmt, &Wire, u32) -> Result<(String, String), String>,
    put: fn(usize, u32, Enc) -> (Tree, &'static str, Result<Wire, String>),
}

fn get_as<O: ?Sized + Claim>(fmt: Fmt, wire: &Wire, forms: u32) -> Result<(String, String), String>
where
    Box<O>: DeserializeOwned,
{
    let o: Box<O> = get(fmt, wire, forms)?;
    Ok((o.who().to_owned(), format!("{o:?}")))
}

macro_rules! dup {
    ($info:ident, $obj:ty) => {
        Dup {
            info: $info,
            get: get_as::<$obj>,
            put: |which, a, enc| {
                let (o, tag): (Box<$obj>, _) = match which {
                    0 => (Box::new(D4 { a }), "two"),
                    1 => (Box::new(D5 { a }), "two"),
                    2 => (Box::new(D7 { a }), "three"),
                    3 => (Box::new(vsim_ext::X0 { a }), "three"),
                    4 => (Box::new(D9 { a }), "four"),
                    5 => (Box::new(vsim_ext::X3 { a }), "cross"),
                    6 => (Box::new(vsim_ext::X9 { a }), "five"),
                    7 => (Box::new(D0 { a }), "solo"),
                    _ => (Box::new(vsim_ext::X4 { a }), "alone"),
                };
                (Tree::Struct("D", vec![("a", Tree::U32(a))]), tag, write(&o, enc))
            },
        }
    };
}

fn dups() -> [Dup; 6] {
    [
        dup!(WDUPE, dyn WDupE),
        dup!(WDUPI, dyn WDupI),
        dup!(WDUPA, dyn WDupA),
        dup!(WDUPX, dyn WDupX),
        dup!(WDUPX, dyn WDupX + Send),
        dup!(WDUPX, dyn WDupX + Send + Sync),
    ]
}

const TAGGED: &[Fmt] = &[
    Fmt::JsonStr,
    Fmt::Cbor,
    Fmt::Sim(true),
    Fmt::BinSlice,
    Fmt::JsonVal,
    Fmt::Sim(false),
    Fmt::Strict(false),
    Fmt::JsonRead,
    Fmt::BinRead,
];

fn c02(ctx: &mut Ctx) {
    match pick(5) {
        0..=2 => by_tag(ctx),
        3 => written(ctx),
        _ => catalogue(ctx),
    }
}

fn by_tag(ctx: &mut Ctx) {
    let table = dups();
    let d = &table[usize_below(table.len())];
    let fmt = ctx.fmt(TAGGED);
    let a = pick(1000);
    let (tag, kind): (&str, _) = match pick(4) {
        0 => (of(&["", "solo", "Zolo", "é", "twofold", "alone"]), 0),
        1 | 2 => (of(TWICE), 1),
        _ => (of(UNKNOWN), 2),
    };
    let payload = Tree::Struct("D", vec![("a", Tree::U32(a))]);
    let model = wrap(&d.info, tag, payload.clone()).unwrap();
    // The tag lost, or in another place.
    let tk = tag_key(&d.info);
    let mut lost = false;
    let model = if fmt.self_describing() && d.info.repr != Repr::External {
        match pick(4) {
            0 => crate::messages::permute(&model, 0),
            1 => {
                lost = true;
                let es = vsim_base::model::entries(&model).unwrap();
                Tree::Map(es.into_iter().filter(|(k, _)| *k != s(tk)).collect(), true)
            }
            _ => model,
        }
    } else {
        model
    };
    let Ok(wire) = write(&model, fmt.enc()) else { return };
    let forms = if chance(1, 2) { form::STR | form::HINT_NONE } else { 0 };
    if tracing() {
        trace(&format!("  trait {} in {}: {}", d.info.world, fmt.name(), wire.show()));
    }
    let got = (d.get)(fmt, &wire, forms);
    note(got.is_ok() as u64);
    let say = |m: String| format!("{} in {}: {m}\n  message: {}", d.info.world, fmt.name(), wire.show());
    let (tag, kind) = match (lost, d.info.default) {
        (false, _) => (tag, kind),
        (true, Some(t)) => (t, if TWICE.contains(&t) { 1 } else { 2 }),
        (true, None) => unreachable!(),
    };
    match (kind, got) {
        (0, Ok((who, dbg))) => {
            let want = UNIQUE.iter().find(|u| u.0 == tag).unwrap().1;
            if who != want || !dbg.contains(&format!("a: {a} ")) {
                fail("wrong-type", &say(format!("tag {tag:?} belongs to {want}, but was read as {who}: {dbg}")));
            }
            count("outcome: unique tag decoded");
        }
        (0, Err(e)) => fail("missing-type", &say(format!("tag {tag:?} has one implementation, but: {e}"))),
        (1, Ok((who, _))) => fail("ambiguous-accepted", &say(format!("tag {tag:?} is claimed several times, but was read as {who}"))),
        (1, Err(e)) => {
            if !e.contains(tag) {
                fail("ambiguous-error", &say(format!("the error does not name the tag {tag:?}: {e}")));
            }
            count("outcome: ambiguous tag rejected");
        }
        (_, Ok((who, _))) => fail("unknown-accepted", &say(format!("tag {tag:?} has no implementation, but was read as {who}"))),
        (_, Err(e)) => {
            let mut names: Vec<&str> = UNIQUE.iter().map(|u| u.0).chain(TWICE.iter().copied()).collect();
            names.sort_unstable();
            lists(&e, tag, &names, lost, &say);
            count("outcome: unknown tag rejected");
        }
    }
    seen("C02", &ctx.worlds[0], fmt.name(), &format!("{}/{tag}/{lost}", d.info.world), &[forms as u64, kind, crate::engine::sh().op]);
}

/// The error names the tag and then lists the registered ones in order.
fn lists(e: &str, tag: &str, names: &[&str], lost: bool, say: &dyn Fn(String) -> String) {
    if !e.contains(tag) {
        fail("unknown-error", &say(format!("the error does not name the tag {tag:?}: {e}")));
    }
    if lost {
        return;
    }
    let at = e.find(tag).unwrap() + tag.len();
    let mut listed: Vec<&str> = e[at..].split('`').skip(1).collect();
    // The text before the first backquote belongs to the tag's own quotation.
    if listed.first().is_some_and(|x| x.contains("expected")) {
        listed.remove(0);
    }
    let plain = |x: &&str| x.chars().filter(|c| !['\\', '"'].contains(c)).collect::<String>();
    // Formats may quote a message within another.
    let mut found: Vec<String> = listed.iter().step_by(2).map(plain).collect();
    found.dedup();
    if found != names.iter().map(plain).collect::<Vec<_>>() {
        fail("unknown-list", &say(format!("the error does not list the registered tags in order: {e}\n  expected: {names:?}")));
    }
}

fn written(ctx: &mut Ctx) {
    let table = dups();
    let d = &table[usize_below(table.len())];
    let fmt = ctx.fmt(ALL);
    let a = pick(1000);
    let (payload, tag, wire) = (d.put)(usize_below(9), a, fmt.enc());
    let model = wrap(&d.info, tag, payload).unwrap();
    let Ok(want) = write(&model, fmt.enc()) else { return };
    let say = |m: String| format!("{} in {}: an object of tag {tag:?} {m}", d.info.world, fmt.name());
    let wire = match wire {
        Ok(w) => w,
        Err(e) => fail("write-error", &say(format!("cannot be written: {e}"))),
    };
    let equal = match (&wire, &want) {
        (Wire::Bytes(x), Wire::Bytes(y)) => x == y,
        (Wire::Val(x), Wire::Val(y)) => x == y,
        (Wire::Tree(x), Wire::Tree(y)) => strip(&x.normal()) == strip(&y.normal()),
        _ => false,
    };
    if !equal {
        fail("written", &say(format!("is written as {}, not {}", wire.show(), want.show())));
    }
    let got = (d.get)(fmt, &wire, 0);
    match (TWICE.contains(&tag), got) {
        (true, Ok((who, _))) => fail("ambiguous-accepted", &say(format!("is read back as {who}"))),
        (false, Err(e)) => fail("missing-type", &say(format!("is not read back: {e}"))),
        (true, Err(_)) => count("outcome: written, not read back"),
        (false, Ok((who, _))) => {
            let want = UNIQUE.iter().find(|u| u.0 == tag).unwrap().1;
            if who != want {
                fail("wrong-type", &say(format!("is read back as {who}")));
            }
            count("outcome: written and read back");
        }
    }
    seen("C02w", &ctx.worlds[0], fmt.name(), &format!("{}/{tag}", d.info.world), &[crate::engine::sh().op]);
}

/// Without the names of structs.
fn strip(t: &Tree) -> Tree {
    match t {
        Tree::Struct(_, v) => Tree::Map(v.iter().map(|(k, v)| (s(k), strip(v))).collect(), true),
        Tree::Map(v, k) => Tree::Map(v.iter().map(|(k, v)| (strip(k), strip(v))).collect(), *k),
        other => other.clone(),
    }
}

/// Any implementation of any other trait, from whichever crate.
fn catalogue(ctx: &mut Ctx) {
    let w = ctx.world();
    let fmt = ctx.fmt(TAGGED);
    if pick(3) == 0 {
        let tag = of(UNKNOWN);
        let Ok(wire) = wrap(&w.info, tag, Tree::Map(vec![(s("a"), Tree::U32(1))], true)).and_then(|m| write(&m, fmt.enc())) else { return };
        let say = |m: String| format!("{} in {}: {m}\n  message: {}", w.info.world, fmt.name(), wire.show());
        match decode(w, false, fmt, &wire, &Source::calm()).one() {
            Ok(h) => fail("unknown-accepted", &say(format!("unknown tag {tag:?} was read as {}", show_items(&h.items())))),
            Err(e) => {
                let mut names: Vec<&str> = w.shapes.iter().map(|s| s.name).collect();
                names.sort_unstable();
                lists(&e, tag, &names, false, &say);
            }
        }
        count("outcome: unknown tag rejected");
        return seen("C02u", w, fmt.name(), tag, &[crate::engine::sh().op]);
    }
    let i = if pick(4) == 0 { w.shapes.len() - 1 } else { usize_below(w.shapes.len()) };
    if !usable(w, i) {
        return;
    }
    let sent = made(w, i);
    let Some(model) = carried(w, &sent, fmt) else { return };
    let Ok(wire) = write(&model, fmt.enc()) else { return };
    if tracing() {
        trace(&format!("  message {}", wire.show()));
    }
    match decode(w, false, fmt, &wire, &Source::calm()).one() {
        Ok(h) if h.items()[0].tag == sent.items[0].tag => {}
        Ok(h) => fail("wrong-type", &format!("{} in {}: {} was read as {}", w.info.world, fmt.name(), show_items(&sent.items), show_items(&h.items()))),
        Err(e) => {
            // What else may go wrong with a payload has properties of its own.
            if e.contains("unknown variant") || e.contains("non-unique") {
                fail("missing-type", &format!("{} in {}: {} is not found: {e}", w.info.world, fmt.name(), show_items(&sent.items)));
            }
            return count("skip: payload not read");
        }
    }
    count("outcome: unique tag decoded");
    note(hash(&[sent.items[0].tag], &[]));
    seen("C02c", w, fmt.name(), &sent.label, &[crate::engine::sh().op]);
}

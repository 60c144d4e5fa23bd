//! C03, C06, C07, C11: streams and protocols.
use crate::engine::{count, fail, hash, note, steps};
use crate::formats::*;
use crate::known;
use crate::props::*;
use crate::simio::{marker, End, SimWriter};
use serde::de::DeserializeOwned;
use serde::Serialize;
use vsim_base::probe::{self, Mode};
use vsim_base::simde::{form, DeCtl};
use vsim_base::simser::SerCtl;
use vsim_base::tape::{chance, of, pick, usize_below};
use vsim_base::tree::Tree;
use vsim_base::model::Info;
use vsim_base::worlds::*;
use vsim_base::{trace, tracing};

// ------------------------------------------------------------------ C03

pub static C03: Prop = Prop {
    id: "C03",
    runs: 160_000,
    styled: false,
    max_ops: 16,
    setup: nothing,
    op: c03,
    end: nothing,
    rule: "an operation writes 1-3 trait objects (or ordinary data holding several) through one of 8 formats over a sink that takes short and interrupted writes, and reads them back from a source that gives short and interrupted reads and delivers data in varying forms; non-trivial: the format alone carries the payload; distinct by trait, marker form, format, concrete types, envelope, fault kinds and bucketed message size",
    assumptions: &["a format that cannot carry the payload without any trait object is not held against typetag", "values are compared by their Debug output, which shows every field"],
};

fn bucket(n: usize) -> u64 {
    (usize::BITS - n.leading_zeros()) as u64
}

fn c03(ctx: &mut Ctx) {
    if chance(1, 12) {
        return split(ctx);
    }
    let w = ctx.world();
    let fmt = ctx.fmt(ALL);
    let single = matches!(fmt, Fmt::BinSlice | Fmt::JsonVal | Fmt::JsonValRef | Fmt::Sim(_) | Fmt::Strict(_));
    let env = chance(1, 5);
    let k = match vsim_base::scale::long() {
        _ if single || env => 1,
        true => vsim_base::scale::elements().unwrap_or(3) as usize,
        false => 1 + usize_below(3),
    };
    let mut sent = Vec::new();
    for _ in 0..k {
        let Some(s) = (if env { envelope(w, &|s| s.name != "XColl") } else { object(w, &|s| s.name != "XColl") }) else { return };
        if carried(w, &s, fmt).is_none() {
            return;
        }
        sent.push(s);
    }
    let tags: Vec<&str> = sent.iter().flat_map(|s| s.tags()).collect();
    let mut ends = Vec::new();
    let wire = match fmt.enc() {
        enc @ (Enc::Json | Enc::Cbor | Enc::Bin | Enc::Post) => {
            let mut sink = SimWriter::new();
            sink.short = ctx.on(0) && chance(1, 2);
            sink.eintr = ctx.on(1) && chance(1, 2);
            let enc = if enc == Enc::Json && chance(1, 4) { Enc::JsonPretty } else { enc };
            for s in &sent {
                if let Err(e) = encode_into(&*s.held, enc, &mut sink) {
                    if known::f9(w, enc, tags.iter().copied()) {
                        return;
                    }
                    fail("write-error", &format!("{} in {}: {} cannot be written: {e}", w.info.world, fmt.name(), show_items(&s.items)));
                }
                ends.push(sink.out.len());
            }
            if fmt.reader() && fmt != Fmt::JsonRead || fmt == Fmt::Post {
                // Something else follows in the stream.
                let junk = usize_below(4);
                sink.out.extend(std::iter::repeat_n(0xff, junk));
            }
            Wire::Bytes(sink.out)
        }
        enc => match sent[0].held.write(enc) {
            Ok(w) => w,
            Err(e) => {
                if known::f9(w, enc, tags.iter().copied()) {
                    return;
                }
                fail("write-error", &format!("{} in {}: {} cannot be written: {e}", w.info.world, fmt.name(), show_items(&sent[0].items)))
            }
        },
    };
    let mut src = Source::erratic();
    src.k = k;
    if matches!(fmt, Fmt::Sim(_) | Fmt::Strict(_)) && chance(1, 3) && carried_with_names(w, &sent[0], fmt) {
        src.forms |= form::NAMED;
    }
    if tracing() {
        trace(&format!("  message {}", wire.show()));
        trace(&format!("  source {src:?}"));
    }
    let got = decode(w, env, fmt, &wire, &src);
    let excused = |n: usize| {
        let t = || sent[n].tags();
        known::f8_write(w, fmt.hr(), t()) || known::f9(w, fmt.enc(), tags.iter().copied()) || known::f13(&w.info, fmt, t())
    };
    for (i, s) in sent.iter().enumerate() {
        let Some(out) = got.outs.get(i) else {
            if excused(i) {
                return;
            }
            fail("read-missing", &format!("{} in {}: object {i} of {k} was not read", w.info.world, fmt.name()));
        };
        let ok = matches!(&out.res, Ok(h) if same(&s.items, &h.items()));
        if !ok && excused(i) {
            return;
        }
        if src.forms & form::NAMED != 0 && matches!((&out.res, &wire), (Err(e), Wire::Tree(t)) if known::f16(t, e)) {
            return;
        }
        must_equal("round-trip", w, fmt, &s.items, &out.res, &wire);
        if let Some(pos) = out.pos {
            if pos != ends[i] {
                if excused(i) {
                    return;
                }
                fail("position", &format!("{} in {}: {} ends at byte {} but reading stopped at {pos}\n  message: {}", w.info.world, fmt.name(), show_items(&s.items), ends[i], wire.show()));
            }
        }
    }
    if got.leftover && !excused(0) {
        fail("unread", &format!("{} in {}: {} was read without consuming all of it\n  message: {}", w.info.world, fmt.name(), show_items(&sent[0].items), wire.show()));
    }
    count("outcome: equal objects");
    count(&format!("format {}", fmt.name()));
    seen("C03", w, fmt.name(), &sent.iter().map(|s| s.label.as_str()).collect::<Vec<_>>().join("|"), &[src.short as u64, src.eintr as u64, src.buf as u64, src.forms as u64, bucket(wire.bytes().len())]);
}

/// Whether a format that compares names and kinds carries the payloads.
fn carried_with_names(w: &World, sent: &Sent, fmt: Fmt) -> bool {
    let payloads = sent.held.payloads(fmt.hr());
    sent.items.iter().zip(&payloads).all(|(item, p)| {
        w.find(item.tag).is_none_or(|sh| {
            let ctl = DeCtl::new(matches!(fmt, Fmt::Strict(_)), fmt.hr(), form::NAMED, 0, String::new());
            sh.holder || item.tag.is_empty() || sh.de_tree(p, &ctl).as_ref() == Ok(&item.dbg)
        })
    })
}

/// Traits with parameters, which can be written only: the documented encoding.
fn generic(ctx: &mut Ctx) {
    use vsim_base::shapes::Gen;
    let fmt = ctx.fmt(ALL);
    fn go<O: ?Sized + Obj>(info: &Info, o: Box<O>, fmt: Fmt)
    where
        Box<O>: Serialize,
    {
        let Ok(model) = vsim_base::model::wrap(info, o.tag(), o.enc(fmt.hr())) else { return };
        let Ok(want) = write(&model, fmt.enc()) else { return count("skip: format cannot write the encoding") };
        if tracing() {
            trace(&format!("  trait {}, {} object {:?} = {}", info.world, fmt.name(), o.tag(), o.dbg()));
        }
        match write(&o, fmt.enc()) {
            Ok(got) if got.show() == want.show() => {}
            Ok(got) => fail("generic-bytes", &format!("{} in {}: {:?} = {} is written as\n  {}\n  and documented as\n  {}", info.world, fmt.name(), o.tag(), o.dbg(), got.show(), want.show())),
            Err(e) => fail("generic-error", &format!("{} in {}: {:?} = {} cannot be written: {e}", info.world, fmt.name(), o.tag(), o.dbg())),
        }
        count("outcome: generic objects as documented");
        note(hash(&[info.world, &o.dbg()], &[]));
    }
    match pick(7) {
        0 => go(&GEXT, Box::new(Many::<u8>::gen()) as Box<dyn GExt<u8>>, fmt),
        1 => go(&GEXT, Box::new(Many::<String>::gen()) as Box<dyn GExt<String> + Send + Sync>, fmt),
        2 => go(&GINT, Box::new(Many::<Option<i64>>::gen()) as Box<dyn GInt<Option<i64>>>, fmt),
        3 => go(&GINT, Box::new(Many::<String>::gen()) as Box<dyn GInt<String> + Send>, fmt),
        4 => go(&GADJ, Box::new(Many::<u8>::gen()) as Box<dyn GAdj<u8, ()>>, fmt),
        5 => go(&GADJ, Box::new(Many::<String>::gen()) as Box<dyn GAdj<String, char> + Sync>, fmt),
        _ => go(&GADJ, Box::new(Many::<String>::gen()) as Box<dyn GAdj<String, u8> + Send>, fmt),
    }
}

/// A service that only writes and one that only reads.
fn split(ctx: &mut Ctx) {
    if chance(1, 5) {
        return generic(ctx);
    }
    let fmt = ctx.fmt(ALL);
    let i = usize_below(wser().len());
    let marked = chance(1, 3);
    let (tag, dbg, payload, kind, wire) = {
        fn go<O: ?Sized + Obj>(o: Box<O>, fmt: Fmt) -> (&'static str, String, Tree, Result<Wire, String>)
        where
            Box<O>: Serialize,
        {
            (o.tag(), o.dbg(), o.enc(fmt.hr()), write(&o, fmt.enc()))
        }
        let (tag, dbg, payload, wire) = if marked { go((wser_both()[i].1)(), fmt) } else { go((wser()[i].1)(), fmt) };
        (tag, dbg, payload, &wser()[i].0, wire)
    };
    let Ok(alone) = write(&payload, fmt.enc()) else { return count("skip: format cannot write the payload") };
    if read_shape_whole(kind, fmt, &alone).as_ref() != Ok(&dbg) {
        return count("skip: format does not carry the payload");
    }
    let Ok(model) = vsim_base::model::wrap(&WSERDE, tag, payload) else { return };
    if write(&model, fmt.enc()).is_err() {
        return count("skip: format cannot write the encoding");
    }
    let wire = match wire {
        Ok(w) => w,
        Err(e) => fail("split-write", &format!("serialize-only trait in {}: {tag:?} = {dbg} cannot be written: {e}", fmt.name())),
    };
    fn back<T: DeserializeOwned>(fmt: Fmt, wire: &Wire) -> Result<T, String> {
        read_plain(fmt, wire)
    }
    match back::<Box<dyn WDe>>(fmt, &wire) {
        Ok(o) if o.tag() == tag && o.dbg() == dbg => {}
        Err(_) if known::f13(&WSERDE, fmt, std::iter::once(tag)) => {}
        Ok(o) => fail("split-value", &format!("deserialize-only trait in {}: {tag:?} = {dbg} is read as {:?} = {}", fmt.name(), o.tag(), o.dbg())),
        Err(e) => fail("split-error", &format!("deserialize-only trait in {}: {tag:?} = {dbg} is not accepted: {e}\n  message: {}", fmt.name(), wire.show())),
    }
    count("outcome: equal objects through split traits");
    note(hash(&[tag, &dbg], &[]));
}

// ------------------------------------------------------------------ C06

pub static C06: Prop = Prop {
    id: "C06",
    runs: 160_000,
    styled: true,
    max_ops: 16,
    setup: nothing,
    op: c06,
    end: nothing,
    rule: "an operation decodes a valid message from a source that fails or ends at a chosen byte or deserializer call, then decodes the intact message, on the same or another thread; non-trivial: the fault fired; distinct by trait, format, concrete types, kind of fault and position of the fault",
    assumptions: &["postcard's error type carries no message, so only the fact of an error is checked there", "serde_json reads its source once more after an error of its own accord, so reads after the failure are counted for CBOR, bincode and the simulated formats only"],
};

const FAILING: &[Fmt] = &[
    Fmt::JsonRead,
    Fmt::Cbor,
    Fmt::Sim(true),
    Fmt::BinRead,
    Fmt::JsonStr,
    Fmt::BinSlice,
    Fmt::Post,
    Fmt::Sim(false),
    Fmt::Strict(false),
    Fmt::Strict(true),
];

fn c06(ctx: &mut Ctx) {
    let w = ctx.world();
    let fmt = ctx.fmt(FAILING);
    let Some(sent) = anything(w, 6, &|s| s.name != "XColl") else { return };
    let Some(model) = carried(w, &sent, fmt) else { return };
    // The message, possibly with its entries in another order.
    let model = if chance(1, 2) && fmt.self_describing() { crate::messages::permute(&model, 2) } else { model };
    let model = if chance(1, 2) && fmt.self_describing() { crate::messages::embellish(w, &sent, &model) } else { model };
    let Ok(wire) = write(&model, fmt.enc()) else { return };
    let intact = decode(w, sent.env, fmt, &wire, &Source::calm());
    let calls = intact.calls;
    match intact.one() {
        Ok(h) if same(&h.items(), &sent.items) => {}
        _ => return count("skip: intact message not read"),
    }
    if tracing() {
        trace(&format!("  message {}", wire.show()));
    }
    let len = wire.bytes().len();
    let mut src = Source::calm();
    let mut cut = None;
    let (kind, at);
    match fmt {
        Fmt::JsonRead | Fmt::Cbor | Fmt::BinRead => {
            if len == 0 {
                return;
            }
            at = usize_below(len);
            src.short = chance(1, 2);
            src.eintr = chance(1, 3);
            src.buf = of(&[0, 0, 0, 1, 3, 16]);
            if chance(2, 3) {
                src.end = End::Error(at);
                kind = "read error";
            } else {
                src.end = End::Stop(at);
                kind = "early end";
            }
        }
        Fmt::JsonStr | Fmt::BinSlice | Fmt::Post => {
            if len == 0 {
                return;
            }
            at = usize_below(len);
            cut = Some(Wire::Bytes(wire.bytes()[..at].to_vec()));
            kind = "cut message";
            count("fault: message cut short");
        }
        _ => {
            if calls == 0 {
                return;
            }
            at = 1 + usize_below(calls as usize);
            src.fail_at = at as u64;
            src.forms = if chance(1, 2) { pick(form::ALL_BENIGN + 1) & form::ALL_BENIGN } else { 0 };
            kind = "call error";
        }
    }
    let got = decode(w, sent.env, fmt, cut.as_ref().unwrap_or(&wire), &src);
    let (failed, after, viol) = (got.failed, got.after, got.viol.clone());
    if !failed && cut.is_none() {
        return count("skip: fault not reached");
    }
    let say = |m: String| format!("{} in {}, {kind} at {at}: {m}\n  object: {}\n  message: {}", w.info.world, fmt.name(), show_items(&sent.items), wire.show());
    match got.one() {
        Ok(h) => fail("value-from-failed-source", &say(format!("decoding returned {}", show_items(&h.items())))),
        Err(e) => {
            let want = match (kind, fmt) {
                ("read error", _) => Some(marker(at)),
                ("call error", _) => Some(probe::dressed(&format!("{MARK}{at}."))),
                _ => None,
            };
            if let Some(m) = want {
                if fmt == Fmt::BinRead && e.contains("char is not valid") {
                    return count("skip: bincode replaces errors within a char");
                }
                if fmt.keeps_messages() && !probe::carries(&e, &m, fmt == Fmt::Cbor) {
                    fail("error-replaced", &say(format!("the source's error {m:?} became {e:?}")));
                }
            }
        }
    }
    if let Some(v) = viol {
        if v.contains("after it had returned an error") {
            fail("used-after-error", &say(v));
        }
    }
    if after > 0 && src.buf == 0 && matches!(fmt, Fmt::Cbor | Fmt::BinRead) {
        fail("read-after-error", &say(format!("the source was read {after} more times after it had failed")));
    }
    // Again and again.
    for i in 0..repeats(len) {
        if let Ok(h) = decode(w, sent.env, fmt, cut.as_ref().unwrap_or(&wire), &src).one() {
            fail("value-from-failed-source", &say(format!("the {i}th time, decoding returned {}", show_items(&h.items()))));
        }
    }
    // Afterwards everything works.
    let mut again = Source::erratic();
    again.k = 1;
    let res = if chance(1, 4) {
        count("recovery on another thread");
        again = Source::calm();
        let (wp, hp) = (SendPtr(w as *const World), SendPtr(&wire as *const Wire));
        let (env, again) = (sent.env, again.clone());
        let r = elsewhere(move || {
            let (w, wire) = unsafe { (wp.get(), hp.get()) };
            decode(w, env, fmt, wire, &again).one().map(|h| h.items().into_iter().map(|i| (i.tag, i.dbg)).collect::<Vec<_>>())
        });
        r.map(|v| v.into_iter().map(|(tag, dbg)| Item { tag, dbg }).collect::<Vec<_>>())
    } else {
        decode(w, sent.env, fmt, &wire, &again).one().map(|h| h.items())
    };
    match res {
        Ok(items) if same(&items, &sent.items) => {}
        Ok(items) => fail("residue-value", &say(format!("the intact message is then read as {}", show_items(&items)))),
        Err(e) => {
            // Other delivery forms need the buffering path, which has its own property.
            let calm = decode(w, sent.env, fmt, &wire, &Source::calm()).one();
            if matches!(&calm, Ok(h) if same(&h.items(), &sent.items)) {
                return count("skip: delivery form not accepted");
            }
            fail("residue-error", &say(format!("the intact message is then not accepted: {e}")));
        }
    }
    count(&format!("outcome: {kind} reported"));
    seen("C06", w, fmt.name(), &sent.label, &[hash(&[kind], &[]), at as u64]);
}

// ------------------------------------------------------------------ C07

pub static C07: Prop = Prop {
    id: "C07",
    runs: 160_000,
    styled: true,
    max_ops: 16,
    setup: nothing,
    op: c07,
    end: nothing,
    rule: "an operation writes an object (or ordinary data holding several) to a sink with short and interrupted writes, or one that fails at a chosen byte or serializer call, or with user code failing at a chosen callback; non-trivial: the bytes were compared with the reference encoding, or the fault fired; distinct by trait, format, concrete types, kind of fault and its position",
    assumptions: &["the reference encoding is the documented representation written over the payload's own calls, rendered by the same format crate", "CBOR text of collections of undeclared length is not compared (definite or indefinite form)"],
};

const ENCS: &[Enc] = &[Enc::Json, Enc::Cbor, Enc::Bin, Enc::Post, Enc::Tree(true), Enc::JsonPretty, Enc::JsonVal, Enc::Tree(false)];

fn hr_of(e: Enc) -> bool {
    match e {
        Enc::Json | Enc::JsonPretty | Enc::JsonVal => true,
        Enc::Cbor | Enc::Bin | Enc::Post => false,
        Enc::Tree(h) => h,
    }
}

fn c07(ctx: &mut Ctx) {
    let w = ctx.world();
    let enc = of(ENCS);
    let Some(sent) = anything(w, 6, &|_| true) else { return };
    let hr = hr_of(enc);
    let en = format!("{enc:?}");
    let say = |m: String| format!("{} in {en}: {m}\n  object: {}", w.info.world, show_items(&sent.items));
    if tracing() {
        trace(&format!("  encoding {en}"));
    }
    let full = sent.held.write(enc);
    let model = match sent.held.model(&w.info, hr) {
        Ok(m) => m,
        Err(why) => {
            // A field that contradicts the tag.
            count("collision with the tag");
            if full.is_ok() {
                fail("collision-accepted", &say(format!("written although: {why}")));
            }
            return;
        }
    };
    let Ok(want) = write(&model, enc) else { return count("skip: format cannot write the encoding") };
    let full = match full {
        Ok(f) => f,
        Err(e) => {
            if known::f9(w, enc, sent.tags()) {
                return;
            }
            fail("write-error", &say(format!("cannot be written: {e}")))
        }
    };
    let equal = match (&full, &want) {
        (Wire::Bytes(a), Wire::Bytes(b)) => a == b || enc == Enc::Cbor && model.has_unknown_len(),
        (Wire::Val(a), Wire::Val(b)) => a == b,
        (Wire::Tree(a), Wire::Tree(b)) => a.normal() == b.normal(),
        _ => false,
    };
    if !equal {
        if known::f8_write(w, hr, sent.tags()) || known::f9(w, enc, sent.tags()) {
            return;
        }
        fail("encoding", &say(format!("\n  written:  {}\n  expected: {}", full.show(), want.show())));
    }
    count("outcome: encoding equals the reference");
    let probed = pick(3) == 0;
    match full {
        Wire::Bytes(full) => {
            let mut sink = SimWriter::new();
            sink.short = chance(1, 2);
            sink.eintr = chance(1, 3);
            let at;
            let kind;
            if probed && callbacks(&sent, enc) > 0 {
                let n = callbacks(&sent, enc);
                at = 1 + usize_below(n as usize);
                kind = "user error";
                probe::arm(at as u64, Mode::Error);
            } else {
                at = usize_below(full.len() + 1);
                kind = if at == full.len() { "none" } else if chance(2, 3) { "write error" } else { "sink full" };
                sink.end = match kind {
                    "none" => End::No,
                    "write error" => End::Error(at),
                    _ => End::Stop(at),
                };
            }
            let res = encode_into(&*sent.held, enc, &mut sink);
            probe::disarm();
            if kind == "user error" {
                count("fault: user callback error");
            }
            let say = |m: String| say(format!("{kind} at {at}: {m}\n  complete: {}\n  sink got: {}", Wire::Bytes(full.clone()).show(), Wire::Bytes(sink.out.clone()).show()));
            if kind == "none" {
                if res.is_err() || sink.out != full {
                    fail("fragmented-write", &say(format!("{res:?}")));
                }
                count("outcome: complete over erratic sink");
            } else {
                let Err(e) = res else { fail("error-swallowed", &say("success was reported".into())) };
                let want = match kind {
                    "write error" => Some(marker(at)),
                    "user error" => Some(probe::marker(at as u64)),
                    _ => None,
                };
                if let Some(m) = want {
                    if enc != Enc::Post && !probe::carries(&e, &m, enc == Enc::Cbor) {
                        fail("error-replaced", &say(format!("the error {m:?} became {e:?}")));
                    }
                }
                if sink.after > 0 {
                    fail("write-after-error", &say(format!("{} more writes after the sink had failed", sink.after)));
                }
                if kind == "user error" && probe::after() > 0 {
                    fail("call-after-error", &say(format!("user code was called {} more times", probe::after())));
                }
                if !full.starts_with(&sink.out) {
                    fail("not-a-prefix", &say("what the sink holds is no prefix".into()));
                }
                count(&format!("outcome: {kind} reported"));
            }
            seen("C07", w, &en, &sent.label, &[hash(&[kind], &[]), at as u64]);
        }
        Wire::Tree(_) => {
            let plain = SerCtl::new(hr, 0);
            let _ = sent.held.sim(&plain);
            let at = 1 + usize_below(plain.n.get() as usize);
            let ctl = SerCtl::new(hr, at as u64);
            let res = sent.held.sim(&ctl);
            steps(ctl.n.get());
            note(hash(&[], &[ctl.hash.get()]));
            if !ctl.failed.get() {
                return count("skip: fault not reached");
            }
            count("fault: serializer call error");
            match res {
                Ok(t) => fail("error-swallowed", &say(format!("serializer call {at} failed, yet success was reported: {}", t.show()))),
                Err(e) if e.0 != ctl.marker() && !e.0.contains(&ctl.marker()) => {
                    fail("error-replaced", &say(format!("the serializer's error {:?} became {:?}", ctl.marker(), e.0)))
                }
                Err(_) => {}
            }
            if let Some(v) = ctl.viol.borrow().as_ref() {
                if v.contains("after it had returned an error") {
                    fail("used-after-error", &say(v.clone()));
                }
            }
            count("outcome: call error reported");
            seen("C07", w, &en, &sent.label, &[3, at as u64]);
        }
        Wire::Val(_) => seen("C07", w, &en, &sent.label, &[4]),
    }
}

fn callbacks(sent: &Sent, enc: Enc) -> u64 {
    probe::arm(0, Mode::Off);
    let mut sink = SimWriter::new();
    let _ = sent.held.put(enc, &mut sink);
    probe::count()
}

// ------------------------------------------------------------------ C11

pub static C11: Prop = Prop {
    id: "C11",
    runs: 160_000,
    styled: true,
    max_ops: 16,
    setup: nothing,
    op: c11,
    end: nothing,
    rule: "an operation serializes to, or deserializes from, a simulated format that checks each call against serde's protocol and fails at a chosen call; messages may have entries reordered, dropped, duplicated or added; non-trivial: at least one call was checked; distinct by trait, direction, concrete types, call sequence and fault position",
    assumptions: &["the catalogue types themselves obey the protocol (they are derived, or written to)"],
};

fn c11(ctx: &mut Ctx) {
    let w = ctx.world();
    let hr = chance(1, 2);
    if pick(2) == 0 {
        let collide = is_internal(&w.info) && pick(4) == 0;
        let Some(sent) = (if collide {
            object(w, &|s| s.name.starts_with('X')).or_else(|| object(w, &|_| true))
        } else {
            anything(w, 6, &|_| true)
        }) else {
            return;
        };
        let say = |m: String| format!("{} (simulated serializer, human readable {hr}): {m}\n  object: {}", w.info.world, show_items(&sent.items));
        let plain = SerCtl::new(hr, 0);
        let res = sent.held.sim(&plain);
        steps(plain.n.get());
        let model = sent.held.model(&w.info, hr);
        let viol = plain.viol.borrow().clone();
        if let Some(v) = viol {
            if !(v.starts_with("declared length") && known::f9(w, Enc::Tree(hr), sent.tags())) {
                fail("protocol", &say(v));
            }
        }
        match (&res, &model) {
            (Ok(t), Ok(m)) => {
                if plain.open.get() != 0 {
                    fail("not-ended", &say(format!("{} compounds were opened and never ended", plain.open.get())));
                }
                if t.normal() != m.normal() {
                    if !known::f8_write(w, hr, sent.tags()) {
                        fail("entries", &say(format!("\n  written:  {}\n  expected: {}", t.show(), m.show())));
                    }
                }
            }
            (Err(_), Err(_)) => count("collision rejected"),
            (Ok(t), Err(why)) => fail("collision-accepted", &say(format!("written although {why}: {}", t.show()))),
            (Err(e), Ok(_)) => fail("write-error", &say(format!("cannot be written: {}", e.0))),
        }
        let n = plain.n.get();
        let at = if n > 0 { 1 + usize_below(n as usize) as u64 } else { 0 };
        let ctl = SerCtl::new(hr, at);
        let res = sent.held.sim(&ctl);
        steps(ctl.n.get());
        note(hash(&[], &[plain.hash.get(), ctl.hash.get()]));
        if ctl.failed.get() {
            count("fault: serializer call error");
            if let Ok(t) = res {
                fail("error-swallowed", &say(format!("serializer call {at} failed, yet success was reported: {}", t.show())));
            }
        }
        let viol = ctl.viol.borrow().clone();
        if let Some(v) = viol {
            if !(v.starts_with("declared length") && known::f9(w, Enc::Tree(hr), sent.tags())) {
                fail("protocol", &say(format!("call {at} fails: {v}")));
            }
        }
        count("outcome: serializer calls in order");
        seen("C11s", w, "", &sent.label, &[plain.hash.get(), at]);
    } else {
        let Some(sent) = anything(w, 6, &|s| s.name != "XColl") else { return };
        let strict = pick(4) == 0;
        let fmt = if strict { Fmt::Strict(hr) } else { Fmt::Sim(hr) };
        if tracing() {
            trace(&format!("  format {}", fmt.name()));
        }
        let Ok(model) = sent.held.model(&w.info, hr) else { return };
        let mut t = model;
        if !strict {
            if chance(1, 2) {
                t = crate::messages::permute(&t, 1);
            }
            if chance(1, 2) && !sent.env {
                if let Some(es) = vsim_base::model::entries(&t) {
                    let (es, _) = crate::messages::damage(w, fmt, es, 1 + pick(2), true);
                    t = Tree::Map(es, true);
                }
            }
        }
        let wire = Wire::Tree(t);
        if tracing() {
            trace(&format!("  message {}", wire.show()));
        }
        let mut src = Source::erratic();
        if ctx.on(2) && chance(1, 3) {
            src.forms |= form::HINT_LIE;
        }
        let got = decode(w, sent.env, fmt, &wire, &src);
        let say = |m: String| format!("{} in {}: {m}\n  object: {}\n  message: {}", w.info.world, fmt.name(), show_items(&sent.items), wire.show());
        if let Some(v) = got.viol.clone() {
            fail("protocol", &say(v));
        }
        let calls = got.calls;
        drop(got);
        if calls > 0 {
            src.fail_at = 1 + usize_below(calls as usize) as u64;
            let got = decode(w, sent.env, fmt, &wire, &src);
            if let Some(v) = got.viol.clone() {
                fail("protocol", &say(format!("call {} fails: {v}", src.fail_at)));
            }
            if got.failed {
                if let Ok(h) = got.one() {
                    fail("error-swallowed", &say(format!("deserializer call {} failed, yet the result is {}", src.fail_at, show_items(&h.items()))));
                }
            }
        }
        count("outcome: deserializer calls in order");
        seen("C11d", w, fmt.name(), &sent.label, &[calls, src.fail_at]);
    }
}

//! C09, C10: failing user code, and who owns what whatever happens.
use crate::counting;
use crate::engine::{count, fail, forget_panic, hash, note};
use crate::formats::*;
use crate::props::*;
use crate::simio::{End, SimWriter};
use std::panic::AssertUnwindSafe;
use vsim_base::probe::{self, Mode, UserPanic};
use vsim_base::tape::{chance, drawn, of, pick, usize_below};
use vsim_base::{trace, tracing};

const PROBED: &[&str] = &["PPair", "PWide", "Leaf", "PSeq", "PTup", "PMap", "PEnum", "HExt", "HInt", "HAdj", "HVec", "HEnum", "HNew", "PolyStruct", "PolyMap", "PolyOption", "PolyValue", "PolyEnum"];

// ------------------------------------------------------------------ C09

pub static C09: Prop = Prop {
    id: "C09",
    runs: 80_000,
    styled: true,
    max_ops: 14,
    setup: nothing,
    op: c09,
    end: nothing,
    rule: "an operation writes or reads objects (alone, within ordinary data, or within one another, to depth 4) while the user code's n-th callback returns an error or panics, often as the first use of the trait in the process, then repeats the operation without the failure on the same or another thread; non-trivial: the failure fired; distinct by trait, format, concrete types, direction, error or panic, callback number and nesting",
    assumptions: &["postcard's error type carries no message, so only the fact of an error is checked there"],
};

fn probed(ctx: &Ctx) -> (&World, Option<Sent>) {
    let mine: Vec<usize> = ctx.on_worlds.iter().copied().filter(|i| ctx.worlds[*i].main).collect();
    let i = if mine.is_empty() || pick(6) == 0 { usize_below(MAIN) } else { of(&mine) };
    let w = &ctx.worlds[i];
    if tracing() {
        trace(&format!("  trait {}", w.info.world));
    }
    for _ in 0..4 {
        let sent = anything(w, 4, &|s| PROBED.contains(&s.name));
        if sent.as_ref().is_some_and(|s| ticks(s) > 0) {
            return (w, sent);
        }
    }
    count("skip: no user code drawn");
    (w, None)
}

/// How many user callbacks writing it takes, about.
fn ticks(sent: &Sent) -> u32 {
    probe::arm(0, Mode::Off);
    let _ = sent.held.payloads(true);
    let n = probe::count() as u32;
    // What is nested is not written here.
    n.clamp(if sent.tags().any(|t| t.starts_with('H')) { 20 } else { 0 }, 300)
}

enum How {
    Done(Result<String, String>),
    Panicked(Option<u64>, String),
}

/// What an operation gives, as text that can be compared.
fn attempt(f: impl FnOnce() -> Result<String, String>) -> How {
    match std::panic::catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => How::Done(r),
        Err(p) => How::Panicked(p.downcast_ref::<UserPanic>().map(|u| u.0), crate::engine::last_panic()),
    }
}

fn c09(ctx: &mut Ctx) {
    let (w, sent) = probed(ctx);
    let Some(sent) = sent else { return };
    let fmt = ctx.fmt(ALL);
    let Some(model) = carried(w, &sent, fmt) else { return };
    let reading = pick(3) > 0;
    let mode = if chance(1, 2) { Mode::Panic } else { Mode::Error };
    let at = match pick(6) {
        0 => 1,
        1 => 1 + pick(2) as u64,
        2 => 1 + pick(8) as u64,
        _ => 1 + pick(ticks(&sent)) as u64,
    };
    let wire = if reading {
        let m = if fmt.self_describing() && chance(1, 2) { crate::messages::permute(&model, 2) } else { model };
        let m = if fmt.self_describing() && chance(1, 3) { crate::messages::embellish(w, &sent, &m) } else { m };
        let Ok(wire) = write(&m, fmt.enc()) else { return };
        wire
    } else {
        Wire::Bytes(vec![])
    };
    if reading && fmt.self_describing() {
        // Some formats do not describe some payloads completely; a process of its own
        // says whether this message can be read at all.
        let readable = crate::os::ask(&|| matches!(decode(w, sent.env, fmt, &wire, &Source::calm()).one(), Ok(h) if same(&h.items(), &sent.items)));
        if !readable {
            return count("skip: intact message not read");
        }
    }
    let src = if reading && chance(1, 2) { Source::erratic() } else { Source::calm() };
    let go = |src: &Source| -> Result<String, String> {
        if reading {
            decode(w, sent.env, fmt, &wire, src).one().map(|h| h.items().iter().map(|i| format!("{}={};", i.tag, i.dbg)).collect())
        } else {
            sent.held.write(fmt.enc()).map(|x| x.show())
        }
    };
    let want = if reading { sent.items.iter().map(|i| format!("{}={};", i.tag, i.dbg)).collect::<String>() } else { String::new() };
    let what = if reading { "reading" } else { "writing" };
    let say = |m: String| format!("{} in {}, {what}, callback {at} gives {mode:?}: {m}\n  object: {}\n  message: {}", w.info.world, fmt.name(), show_items(&sent.items), wire.show());
    if tracing() {
        trace(&format!("  {what} with {mode:?} at user callback {at}; message {}", wire.show()));
    }
    let live = probe::LIVE.load(std::sync::atomic::Ordering::Relaxed);
    probe::arm(at, mode);
    let how = attempt(|| go(&src));
    let (fired, after) = (probe::fired(), probe::after());
    probe::disarm();
    note(hash(&[what], &[at, fired as u64, after]));
    if !fired {
        count("skip: failure not reached");
    } else {
        count(if mode == Mode::Panic { "fault: user panic" } else { "fault: user error" });
        match (mode, how) {
            (Mode::Error, How::Done(Ok(x))) => fail("error-swallowed", &say(format!("success was reported: {}", clip(&x)))),
            (Mode::Error, How::Done(Err(e))) => {
                if fmt.keeps_messages() && !probe::carries(&e, &probe::marker(at), fmt == Fmt::Cbor) {
                    fail("error-replaced", &say(format!("the error became {e:?}")));
                }
            }
            (Mode::Error, How::Panicked(_, m)) => fail("error-became-panic", &say(m)),
            (_, How::Panicked(Some(n), _)) if n == at => {}
            (_, How::Panicked(_, m)) => fail("panic-replaced", &say(format!("another panic arrived: {m}"))),
            (_, How::Done(r)) => fail("panic-swallowed", &say(format!("the call returned {r:?}"))),
        }
        if after > 0 {
            fail("continued", &say(format!("user code was called {after} more times")));
        }
        let now = probe::LIVE.load(std::sync::atomic::Ordering::Relaxed);
        if now != live {
            fail("leak", &say(format!("{} values were constructed and not dropped", now - live)));
        }
    }
    // Again and again.
    let n = if fired { repeats(wire.bytes().len()) } else { 0 };
    for i in 0..n {
        probe::arm(at, mode);
        let how = attempt(|| go(&src));
        probe::disarm();
        match (mode, how) {
            (Mode::Error, How::Done(Err(e))) if fmt == Fmt::Post || probe::carries(&e, &probe::marker(at), fmt == Fmt::Cbor) => {}
            (Mode::Panic, How::Panicked(Some(x), _)) if x == at => {}
            (_, How::Done(r)) => fail("residue-error", &say(format!("the {}th time the call returned {r:?}", i + 2))),
            (_, How::Panicked(_, m)) => fail("residue-panic", &say(format!("the {}th time another panic arrived: {m}", i + 2))),
        }
    }
    // Later calls, here and elsewhere.
    let calm = Source::calm();
    let check = |where_: &str, how: How, want: &str| match how {
        How::Done(Ok(x)) if x == want => {}
        How::Done(Ok(x)) => fail("residue-value", &say(format!("afterwards, {where_}, the result is {}\n  expected: {}", clip(&x), clip(want)))),
        How::Done(Err(e)) => fail("residue-error", &say(format!("afterwards, {where_}: {e}"))),
        How::Panicked(_, m) => fail("residue-panic", &say(format!("afterwards, {where_}: {m}"))),
    };
    let op: &dyn Fn(&Source) -> Result<String, String> = &go;
    let first = pick(3);
    if first == 1 {
        count("recovery on another thread");
        let p = SendPtr(op as *const _);
        let calm = calm.clone();
        let r = elsewhere(move || {
            let op: &dyn Fn(&Source) -> Result<String, String> = unsafe { p.get() };
            attempt(|| op(&calm))
        });
        if reading {
            check("on another thread", r, &want)
        } else if let How::Panicked(_, m) = r {
            fail("residue-panic", &say(m))
        }
    } else {
        let r = attempt(|| go(&calm));
        if reading {
            check("on the same thread", r, &want)
        } else {
            match r {
                How::Done(Ok(x)) => {
                    let fresh = write(&sent.held.model(&w.info, fmt.hr()).unwrap(), fmt.enc()).map(|x| x.show());
                    if let Ok(f) = fresh {
                        if !matches!(fmt.enc(), Enc::Tree(_) | Enc::Cbor) && f != x && !matches!(f.len(), 700) {
                            fail("residue-value", &say(format!("afterwards it is written as {}\n  expected: {}", clip(&x), clip(&f))));
                        }
                    }
                }
                How::Done(Err(e)) => fail("residue-error", &say(format!("afterwards: {e}"))),
                How::Panicked(_, m) => fail("residue-panic", &say(m)),
            }
        }
    }
    if fired {
        count(&format!("outcome: {what}: {} contained", if mode == Mode::Panic { "panic" } else { "error" }));
        seen("C09", w, fmt.name(), &sent.label, &[reading as u64, (mode == Mode::Panic) as u64, at, hash(&[&want], &[])]);
    }
}

// ------------------------------------------------------------------ C10

pub static C10: Prop = Prop {
    id: "C10",
    runs: 80_000,
    styled: true,
    max_ops: 16,
    setup: c10_setup,
    op: c10,
    end: nothing,
    rule: "an operation reads or writes objects with one of seven outcomes (success, damaged message, corrupted bytes, failing source, failing sink, user error, user panic) and compares live heap blocks, live heap bytes and live instances before and after; non-trivial: every trait involved had been set up before; distinct by trait, format, concrete types, outcome and position of the fault",
    assumptions: &["the one-time set-up of each trait is performed by one call before the comparison"],
};

fn c10_setup(ctx: &mut Ctx) {
    // Everything that is created once: registries, thread-locals, counters.
    for w in &ctx.worlds {
        for _ in 0..2 {
            let wire = Wire::Val(serde_json::Value::Null);
            let _ = decode(w, false, Fmt::JsonVal, &wire, &Source::calm());
            let wire = Wire::Val(serde_json::json!({"no such": 1, "t": "no such", "type": "no such", "zz_tag": "no such", "kind": "no such", "zkind": "no such"}));
            let _ = decode(w, false, Fmt::JsonVal, &wire, &Source::calm());
        }
    }
    let _ = std::panic::catch_unwind(|| std::panic::panic_any(UserPanic(0)));
    elsewhere(|| ());
    forget_panic();
}

fn c10(ctx: &mut Ctx) {
    let bad = probe::BAD_DROPS.load(std::sync::atomic::Ordering::Relaxed);
    let instances = probe::LIVE.load(std::sync::atomic::Ordering::Relaxed);
    let before = counting::live();
    let told = one(ctx);
    vsim_base::poly::reset(false);
    forget_panic();
    let label = told.as_ref().map(|t| hash(&[t], &[])).unwrap_or(0);
    let text_len = told.as_ref().map_or(0, |t| t.capacity()) as i64;
    let after = counting::live();
    let now = probe::LIVE.load(std::sync::atomic::Ordering::Relaxed);
    let bad = probe::BAD_DROPS.load(std::sync::atomic::Ordering::Relaxed) - bad;
    let Some(told) = told else { return };
    if drawn() > 1 << 14 {
        return count("skip: very long operation");
    }
    if bad > 0 {
        fail("double-drop", &format!("{bad} values were dropped twice or overwritten: {told}"));
    }
    if now != instances {
        fail("instances", &format!("{} instances were not dropped: {told}", now - instances));
    }
    let blocks = after.0 - before.0 - if text_len > 0 { 1 } else { 0 };
    let bytes = after.1 - before.1 - text_len;
    if blocks != 0 || bytes != 0 {
        fail("memory", &format!("{blocks} heap blocks with {bytes} bytes were not released: {told}"));
    }
    count("outcome: everything released");
    let _ = label;
}

/// One operation.  Nothing it allocates may live on, except the returned text.
fn one(ctx: &Ctx) -> Option<String> {
    let w = ctx.world();
    let fmt = ctx.fmt(ALL);
    let kind = pick(7);
    let fmt = if fmt == Fmt::BinRead && (kind == 1 || kind == 2) { Fmt::BinSlice } else { fmt };
    let sent = anything(w, 5, &|s| s.name != "XColl" && (kind < 5 || !w.main || PROBED.contains(&s.name)))?;
    let model = if fmt == Fmt::BinRead { carried(w, &sent, fmt)? } else { sent.held.model(&w.info, fmt.hr()).ok()? };
    let model = if fmt.self_describing() && chance(1, 2) { crate::messages::permute(&model, 2) } else { model };
    let model = if fmt.self_describing() && chance(1, 3) { crate::messages::embellish(w, &sent, &model) } else { model };
    let Ok(mut wire) = write(&model, fmt.enc()) else { return None };
    let mut at = 0;
    let name;
    let result: String;
    let show = |r: Result<Box<dyn Held>, String>| match r {
        Ok(h) => {
            if chance(1, 3) {
                // Dropped elsewhere.
                struct Carry(Box<dyn Held>);
                unsafe impl Send for Carry {}
                let c = Carry(h);
                elsewhere(move || {
                    let c = c;
                    drop(c.0);
                });
                count("dropped on another thread");
            }
            "a value".to_owned()
        }
        Err(e) => {
            drop(e);
            "an error".to_owned()
        }
    };
    match kind {
        0 => {
            name = "success";
            result = show(decode(w, sent.env, fmt, &wire, &Source::erratic()).one());
        }
        1 => {
            name = "damaged";
            let es = vsim_base::model::entries(&model)?;
            let (es, _) = crate::messages::damage(w, fmt, es, 1 + pick(3), true);
            let Ok(x) = write(&vsim_base::tree::Tree::Map(es, true), fmt.enc()) else { return None };
            wire = x;
            result = show(decode(w, false, fmt, &wire, &Source::erratic()).one());
        }
        2 => {
            name = "corrupted";
            crate::hostile::mutate(&mut wire, fmt);
            result = show(decode(w, sent.env, fmt, &wire, &Source::calm()).one());
        }
        3 => {
            name = "failing source";
            let mut src = Source::calm();
            if fmt.reader() {
                at = usize_below(wire.bytes().len().max(1));
                src.end = if chance(1, 2) { End::Error(at) } else { End::Stop(at) };
                src.short = chance(1, 2);
            } else {
                at = 1 + usize_below(40);
                src.fail_at = at as u64;
                src.forms = pick(vsim_base::simde::form::ALL_BENIGN + 1) & vsim_base::simde::form::ALL_BENIGN;
                if let Wire::Bytes(b) = &mut wire {
                    b.truncate(b.len() * at / 41);
                }
            }
            result = show(decode(w, sent.env, fmt, &wire, &src).one());
        }
        4 => {
            name = "failing sink";
            match fmt.enc() {
                enc @ (Enc::JsonVal | Enc::Tree(_)) => {
                    if let Enc::Tree(hr) = enc {
                        at = 1 + usize_below(40);
                        let ctl = vsim_base::simser::SerCtl::new(hr, at as u64);
                        result = if sent.held.sim(&ctl).is_ok() { "a value".into() } else { "an error".into() };
                    } else {
                        result = if sent.held.write(enc).is_ok() { "a value".into() } else { "an error".into() };
                    }
                }
                enc => {
                    at = usize_below(wire.bytes().len() + 1);
                    let mut sink = SimWriter::new();
                    sink.short = chance(1, 2);
                    sink.eintr = chance(1, 2);
                    sink.end = if chance(1, 2) { End::Error(at) } else { End::Stop(at) };
                    result = if encode_into(&*sent.held, enc, &mut sink).is_ok() { "a value".into() } else { "an error".into() };
                }
            }
        }
        _ => {
            let mode = if kind == 5 { Mode::Error } else { Mode::Panic };
            name = if kind == 5 { "user error" } else { "user panic" };
            at = 1 + usize_below(if chance(1, 2) { 4 } else { 40 });
            probe::arm(at as u64, mode);
            let reading = pick(3) > 0;
            let how = attempt(|| {
                if reading {
                    decode(w, sent.env, fmt, &wire, &Source::erratic()).one().map(|_| String::new())
                } else {
                    sent.held.write(fmt.enc()).map(|_| String::new())
                }
            });
            let fired = probe::fired();
            probe::disarm();
            if fired {
                count(if mode == Mode::Panic { "fault: user panic" } else { "fault: user error" });
            }
            result = match how {
                How::Done(Ok(_)) => "a value".into(),
                How::Done(Err(_)) => "an error".into(),
                How::Panicked(..) => "a panic".into(),
            };
        }
    }
    count(&format!("{name}: {result}"));
    seen("C10", w, fmt.name(), &sent.label, &[hash(&[name, &result], &[]), at as u64]);
    Some(format!("{name} at {at} gave {result}: {} in {}, {}", w.info.world, fmt.name(), sent.label))
}

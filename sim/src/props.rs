//! The properties: what each simulated operation does and what must hold.
use crate::engine::{add, count, fail, hash, maximum, note, steps, visit};
use crate::formats::*;
use crate::simio::{End, SimReader, SimWriter};
use vsim_base::model::{entries, judge, wrap, Info, Kind, Repr, Verdict};
use vsim_base::shapes::ShapeInfo;
use vsim_base::simde::{form, DeCtl};
use vsim_base::tape::{chance, of, pick, usize_below};
use vsim_base::tree::Tree;
use vsim_base::{trace, tracing};

pub struct Prop {
    pub id: &'static str,
    /// Simulated runs in the quick tier.
    pub runs: u64,
    /// Whether injected errors have texts of all kinds.
    pub styled: bool,
    pub max_ops: u64,
    pub setup: fn(&mut Ctx),
    pub op: fn(&mut Ctx),
    pub end: fn(&mut Ctx),
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
}

pub fn nothing(_: &mut Ctx) {}

pub fn find(id: &str) -> Option<&'static Prop> {
    ALL_PROPS.iter().copied().find(|p| p.id == id)
}

pub static ALL_PROPS: &[&Prop] = &[
    &crate::registry::C02,
    &crate::streams::C03,
    &crate::messages::C04,
    &crate::messages::C05,
    &crate::streams::C06,
    &crate::streams::C07,
    &crate::hostile::C08,
    &crate::usercode::C09,
    &crate::usercode::C10,
    &crate::streams::C11,
    &crate::messages::C12,
];

/// What one run is configured to use (swarm testing: a subset of everything).
pub struct Ctx {
    pub worlds: Vec<World>,
    pub on_worlds: Vec<usize>,
    pub on_fmts: Vec<Fmt>,
    pub faults: u32,
}

impl Ctx {
    pub fn new(_: &'static Prop) -> Ctx {
        let worlds = worlds();
        let n = worlds.len();
        let on_worlds = if chance(1, 4) {
            (0..n).collect()
        } else {
            (0..1 + pick(3)).map(|_| if pick(3) < 2 { usize_below(MAIN) } else { usize_below(n) }).collect()
        };
        let on_fmts = if chance(1, 4) { ALL.to_vec() } else { (0..1 + pick(4)).map(|_| of(ALL)).collect() };
        Ctx { worlds, on_worlds, on_fmts, faults: pick(256) }
    }
    pub fn world(&self) -> &World {
        let w = &self.worlds[of(&self.on_worlds)];
        if tracing() {
            trace(&format!("  trait {} ({:?}, default {:?}, deny {})", w.info.world, w.info.repr, w.info.default, w.info.deny));
        }
        w
    }
    pub fn fmt(&self, pool: &[Fmt]) -> Fmt {
        let both: Vec<Fmt> = self.on_fmts.iter().copied().filter(|f| pool.contains(f)).collect();
        let mut f = if both.is_empty() { of(pool) } else { of(&both) };
        // F15: the error for something deep does not fit in memory.
        if f == Fmt::Cbor && vsim_base::scale::deep() && crate::known::excuse("F15") {
            f = pool.iter().copied().find(|f| *f != Fmt::Cbor).unwrap_or(f);
        }
        if tracing() {
            trace(&format!("  format {}", f.name()));
        }
        f
    }
    /// Draws one swarm switch.
    pub fn on(&self, bit: u32) -> bool {
        self.faults >> bit & 1 == 1
    }
}

pub fn is_internal(i: &Info) -> bool {
    matches!(i.repr, Repr::Internal { .. })
}
pub fn tag_key(i: &Info) -> &'static str {
    match i.repr {
        Repr::External => "",
        Repr::Internal { tag } | Repr::Adjacent { tag, .. } => tag,
    }
}
pub fn kind_of(sh: &ShapeInfo, hr: bool) -> Kind {
    if sh.name == "NIp" && !hr {
        Kind::Enum
    } else {
        sh.kind
    }
}

/// Something to send.
pub struct Sent {
    pub held: Box<dyn Held>,
    pub env: bool,
    pub items: Vec<Item>,
    pub label: String,
}

impl Sent {
    pub fn tags(&self) -> impl Iterator<Item = &'static str> + '_ {
        self.items.iter().map(|i| i.tag)
    }
}

pub fn usable(w: &World, i: usize) -> bool {
    w.shapes[i].name != "XColl"
}

/// One object, of any shape for which `ok` holds.
pub fn object(w: &World, ok: &dyn Fn(&ShapeInfo) -> bool) -> Option<Sent> {
    for _ in 0..12 {
        let mut i = usize_below(w.shapes.len());
        if vsim_base::scale::shaped() && chance(2, 3) {
            // Only types drawn at random are as wide or deep as that.
            i = (0..w.shapes.len()).map(|d| (i + d * 7) % w.shapes.len()).find(|i| w.shapes[*i].name.starts_with("Poly")).unwrap_or(i);
        }
        if ok(&w.shapes[i]) {
            return Some(made(w, i));
        }
    }
    count("skip: no suitable shape drawn");
    None
}

pub fn made(w: &World, i: usize) -> Sent {
    vsim_base::worlds::reset_depth();
    let held = (w.make[i])();
    let items = held.items();
    if tracing() {
        trace(&format!("  object {:?} = {}", items[0].tag, clip(&items[0].dbg)));
    }
    Sent { held, env: false, label: items[0].tag.to_owned(), items }
}

/// Objects within ordinary data.
pub fn envelope(w: &World, ok: &dyn Fn(&ShapeInfo) -> bool) -> Option<Sent> {
    let n = usize_below(4);
    let mut idx = Vec::new();
    for _ in 0..n * 3 {
        let i = usize_below(w.shapes.len());
        if ok(&w.shapes[i]) && idx.len() < n {
            idx.push(i);
        }
    }
    let nlist = usize_below(idx.len() + 1);
    let opt = chance(1, 2);
    vsim_base::worlds::reset_depth();
    let held = (w.envelope)(&idx, nlist, opt);
    let items = held.items();
    let label = format!("envelope of {}", items.iter().map(|i| i.tag).collect::<Vec<_>>().join(","));
    if tracing() {
        trace(&format!("  {label}"));
        for i in &items {
            trace(&format!("    {:?} = {}", i.tag, clip(&i.dbg)));
        }
    }
    Some(Sent { held, env: true, items, label })
}

pub fn anything(w: &World, env_of: u32, ok: &dyn Fn(&ShapeInfo) -> bool) -> Option<Sent> {
    if env_of > 0 && chance(1, env_of) {
        envelope(w, ok)
    } else {
        object(w, ok)
    }
}

pub fn clip(t: &str) -> String {
    let mut n = t.len().min(300);
    while !t.is_char_boundary(n) {
        n -= 1;
    }
    if n < t.len() {
        format!("{}...", &t[..n])
    } else {
        t.to_owned()
    }
}

/// Whether the format can carry the payloads, and the documented encoding as a whole,
/// when no trait object is involved.  Otherwise the case says nothing about typetag.
pub fn carried(w: &World, sent: &Sent, fmt: Fmt) -> Option<Tree> {
    let payloads = sent.held.payloads(fmt.hr());
    for (item, p) in sent.items.iter().zip(&payloads) {
        let Some(sh) = w.find(item.tag) else { continue };
        // serde_json gives an empty list as unit to a tuple variant.
        if sh.holder && matches!(fmt, Fmt::JsonVal | Fmt::JsonValRef) && p.any(&|t| matches!(t, Tree::TupleVariant(_, _, _, v) if v.is_empty())) {
            count("skip: format does not carry the payload");
            return None;
        }
        if sh.holder || (item.tag.is_empty() && *p == Tree::Unit) {
            continue;
        }
        let Ok(wire) = write(p, fmt.enc()) else {
            count("skip: format cannot write the payload");
            return None;
        };
        match read_shape_whole(sh, fmt, &wire) {
            Ok(d) if d == item.dbg => {}
            _ => {
                count("skip: format does not carry the payload");
                return None;
            }
        }
    }
    let Ok(m) = sent.held.model(&w.info, fmt.hr()) else {
        count("skip: collides with the tag");
        return None;
    };
    if write(&m, fmt.enc()).is_err() {
        count("skip: format cannot write the encoding");
        return None;
    }
    Some(m)
}

/// What a payload is worth without typetag: directly, through an independent buffer and
/// through serde's own.  None where these disagree.
pub fn worth(sh: &ShapeInfo, fmt: Fmt, payload: &Tree) -> Option<Result<String, ()>> {
    let wire = write(payload, fmt.enc()).ok()?;
    let direct = read_shape(sh, fmt, &wire).map_err(|_| ());
    if direct.is_ok() && read_shape_whole(sh, fmt, &wire).is_err() {
        return None;
    }
    let seen = reparse(fmt, payload).ok()?;
    let buffered = sh.de_tree(&seen, &DeCtl::plain(false, fmt.hr())).map_err(|_| ());
    let serdes = read_shape_buffered(sh, fmt, &wire).map_err(|_| ());
    (direct == buffered && direct == serdes).then_some(direct)
}

/// Whether the payloads also survive being buffered and replayed by an independent
/// buffer.
pub fn buffers(w: &World, sent: &Sent, fmt: Fmt) -> bool {
    let payloads = sent.held.payloads(fmt.hr());
    for (item, p) in sent.items.iter().zip(&payloads) {
        let Some(sh) = w.find(item.tag) else { continue };
        if sh.holder && fmt == Fmt::Cbor && p.any(&|t| matches!(t, Tree::Unit | Tree::UnitStruct(_) | Tree::U128(_) | Tree::I128(_))) {
            count("skip: format does not describe the payload");
            return false;
        }
        if sh.holder || (item.tag.is_empty() && *p == Tree::Unit) {
            continue;
        }
        let Ok(t) = reparse(fmt, p) else {
            count("skip: not readable as any");
            return false;
        };
        let ctl = DeCtl::plain(false, fmt.hr());
        match sh.de_tree(&t, &ctl) {
            Ok(d) if d == item.dbg => {}
            _ => {
                count("skip: format does not describe the payload");
                return false;
            }
        }
        // The representation may need what the payload itself does not (null for a
        // unit variant).
        let whole = wrap(&w.info, item.tag, p.clone()).and_then(|m| reparse(fmt, &m));
        if let Some(es) = whole.ok().and_then(|m| entries(&m)) {
            if let Verdict::Payload { payload, .. } = judge(&w.info, &es, &|t| w.find(t).map(|sh| kind_of(sh, fmt.hr()))) {
                if sh.de_tree(&payload, &ctl).as_ref() != Ok(&item.dbg) {
                    count("skip: format does not describe the payload");
                    return false;
                }
            }
        }
    }
    true
}

/// What a reader without any type knowledge sees.
pub fn reparse(fmt: Fmt, t: &Tree) -> Result<Tree, String> {
    let wire = write(t, fmt.enc())?;
    match wire {
        Wire::Tree(t) => Ok(t),
        wire => read_plain::<Tree>(fmt, &wire),
    }
}

#[derive(Clone, Debug)]
pub struct Source {
    pub end: End,
    pub short: bool,
    pub eintr: bool,
    pub buf: usize,
    pub forms: u32,
    pub fail_at: u64,
    pub k: usize,
}

impl Source {
    pub fn calm() -> Source {
        Source { end: End::No, short: false, eintr: false, buf: 0, forms: 0, fail_at: 0, k: 1 }
    }
    pub fn erratic() -> Source {
        let level = pick(3);
        Source {
            end: End::No,
            short: level > 0 && chance(1, 2),
            eintr: level > 0 && chance(1, 2),
            buf: if level > 0 { of(&[0, 0, 1, 2, 7, 64]) } else { 0 },
            forms: match pick(4) {
                0 => 0,
                1 => form::ALL_BENIGN,
                _ => pick(form::ALL_BENIGN + 1) & form::ALL_BENIGN,
            },
            fail_at: 0,
            k: 1,
        }
    }
}

pub const MARK: &str = "SIMFAULT-D";

/// What decoding did.
pub struct Got {
    pub outs: Vec<Out>,
    pub failed: bool,
    pub after: u64,
    pub viol: Option<String>,
    pub leftover: bool,
    pub calls: u64,
}

impl Got {
    pub fn one(mut self) -> Result<Box<dyn Held>, String> {
        match self.outs.pop() {
            Some(o) => o.res,
            None => Err("nothing was decoded".into()),
        }
    }
}

pub fn decode(w: &World, env: bool, fmt: Fmt, wire: &Wire, src: &Source) -> Got {
    let mut rd = SimReader::new(wire.bytes());
    if src.forms & form::NAMED != 0 {
        count("form: names and kinds compared");
    }
    rd.end = src.end;
    rd.short = src.short;
    rd.eintr = src.eintr;
    let ctl = DeCtl::new(
        matches!(fmt, Fmt::Strict(_)),
        fmt.hr(),
        if matches!(fmt, Fmt::Strict(_)) { src.forms & (form::STR | form::BYTES | form::HINT_NONE | form::HINT_LIE | form::NAMED) } else { src.forms },
        src.fail_at,
        vsim_base::probe::dressed(&format!("{MARK}{}.", src.fail_at)),
    );
    let outs = {
        let mut q = Req { fmt, wire, rd: Some(&mut rd), buf: src.buf, ctl: Some(&ctl), k: src.k, limit: 0 };
        w.decode(env, &mut q)
    };
    steps(rd.reads + ctl.n.get());
    if rd.shorts > 0 {
        add("fault: short read", rd.shorts);
    }
    if rd.eintrs > 0 {
        add("fault: interrupted read", rd.eintrs);
    }
    if rd.failed && rd.end != End::No {
        count(match rd.end {
            End::Error(_) => "fault: read error",
            _ => "fault: early end of data",
        });
    }
    if ctl.failed.get() {
        count("fault: deserializer call error");
    }
    let used = ctl.forms_used.get();
    for (bit, name) in [
        (form::STR, "form: transient or owned string"),
        (form::INT, "form: other integer width"),
        (form::FLOAT, "form: other float width"),
        (form::FLOAT_INT, "form: float as integer"),
        (form::CHAR_STR, "form: char as string"),
        (form::BYTES, "form: transient or owned bytes"),
        (form::BYTES_SEQ, "form: bytes as sequence"),
        (form::NULL, "form: null for option or unit"),
        (form::NEWTYPE, "form: newtype delivered as such"),
        (form::HINT_NONE, "form: no size hint"),
        (form::HINT_LIE, "form: false size hint"),
    ] {
        if used & bit != 0 {
            count(name);
        }
    }
    note(hash(&[], &[rd.reads, ctl.hash.get(), rd.pos as u64]));
    let viol = ctl.viol.borrow().clone();
    Got { outs, failed: rd.failed || ctl.failed.get(), after: rd.after, viol, leftover: ctl.leftover.get(), calls: ctl.n.get() }
}

pub fn same(a: &[Item], b: &[Item]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.tag == y.tag && x.dbg == y.dbg)
}

pub fn show_items(v: &[Item]) -> String {
    v.iter().map(|i| format!("{:?} = {}", i.tag, clip(&i.dbg))).collect::<Vec<_>>().join("; ")
}

/// The decoded object must be the one that was sent.
pub fn must_equal(what: &str, w: &World, fmt: Fmt, sent: &[Item], got: &Result<Box<dyn Held>, String>, wire: &Wire) {
    match got {
        Err(e) => fail(
            &format!("{what}-error"),
            &format!("{} in {}: {} is not accepted: {e}\n  message: {}", w.info.world, fmt.name(), show_items(sent), wire.show()),
        ),
        Ok(h) => {
            let items = h.items();
            if !same(sent, &items) {
                let wrong_type = sent.len() == items.len() && sent.iter().zip(&items).any(|(a, b)| a.tag != b.tag);
                fail(
                    &format!("{what}-{}", if wrong_type { "type" } else { "value" }),
                    &format!("{} in {}: {} is read as {}\n  message: {}", w.info.world, fmt.name(), show_items(sent), show_items(&items), wire.show()),
                )
            }
        }
    }
}

pub fn encode_into(held: &dyn Held, enc: Enc, sink: &mut SimWriter) -> Result<(), String> {
    let r = held.put(enc, sink);
    steps(sink.writes);
    if sink.shorts > 0 {
        add("fault: short write", sink.shorts);
        sink.shorts = 0;
    }
    if sink.eintrs > 0 {
        add("fault: interrupted write", sink.eintrs);
        sink.eintrs = 0;
    }
    if sink.failed {
        count(match sink.end {
            End::Error(_) => "fault: write error",
            _ => "fault: sink full",
        });
    }
    note(hash(&[], &[sink.writes, sink.out.len() as u64]));
    r
}

pub fn seen(what: &str, w: &World, fmt: &str, label: &str, nums: &[u64]) {
    visit(hash(&[what, w.info.world, fmt, label], nums));
    maximum("max operations in one run", crate::engine::sh().op);
}

/// Runs something on another thread, one at a time.
/// How often a failing call is repeated: seldom, but then often enough that whatever
/// every such call leaves behind shows.
pub fn repeats(size: usize) -> usize {
    if !chance(1, 1500) {
        return 0;
    }
    count("long histories");
    let n = match pick(8) {
        0 => 66_000,
        1 | 2 => 5_000,
        3 | 4 => 1_200,
        _ => 300,
    };
    n.min(3_000_000 / (size + 40))
}

pub fn elsewhere<R: Send>(f: impl FnOnce() -> R + Send) -> R {
    std::thread::scope(|s| match s.spawn(f).join() {
        Ok(r) => r,
        Err(p) => std::panic::resume_unwind(p),
    })
}

pub struct SendPtr<T: ?Sized>(pub *const T);
unsafe impl<T: ?Sized> Send for SendPtr<T> {}
impl<T: ?Sized> SendPtr<T> {
    /// The other thread runs while this one waits for it.
    pub unsafe fn get(&self) -> &T {
        &*self.0
    }
}

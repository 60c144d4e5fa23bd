//! User code with a fault switch: every callback counts, and a chosen one fails or
//! panics.  Instances are counted so that leaks and double drops show.
use crate::shapes::Gen;
use crate::tape;
use serde::{de, ser, Deserialize, Deserializer, Serialize, Serializer};
use std::cell::Cell;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::Relaxed};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Mode {
    Off,
    Error,
    Panic,
}

thread_local! {
    static COUNT: Cell<u64> = const { Cell::new(0) };
    static FAIL_AT: Cell<u64> = const { Cell::new(0) };
    static MODE: Cell<Mode> = const { Cell::new(Mode::Off) };
    static FIRED: Cell<bool> = const { Cell::new(false) };
    static AFTER: Cell<u64> = const { Cell::new(0) };
}

pub static LIVE: AtomicI64 = AtomicI64::new(0);
pub static BAD_DROPS: AtomicU64 = AtomicU64::new(0);
pub static MADE: AtomicU64 = AtomicU64::new(0);

pub fn arm(at: u64, mode: Mode) {
    COUNT.with(|c| c.set(0));
    FAIL_AT.with(|c| c.set(at));
    MODE.with(|c| c.set(mode));
    FIRED.with(|c| c.set(false));
    AFTER.with(|c| c.set(0));
}
pub fn disarm() {
    MODE.with(|c| c.set(Mode::Off));
    FAIL_AT.with(|c| c.set(0));
}
pub fn count() -> u64 {
    COUNT.with(|c| c.get())
}
pub fn fired() -> bool {
    FIRED.with(|c| c.get())
}
/// Callbacks made after the failing one.
pub fn after() -> u64 {
    AFTER.with(|c| c.get())
}
pub fn marker(at: u64) -> String {
    dressed(&format!("USERFAIL-{at}."))
}

thread_local! {
    static STYLE: Cell<u32> = const { Cell::new(0) };
}

/// What the text of the next injected errors looks like.
pub fn style(n: u32) {
    STYLE.with(|s| s.set(n));
}
/// The text of an error: whatever it looks like, it must arrive unchanged.
pub fn dressed(core: &str) -> String {
    match STYLE.with(|s| s.get()) {
        2 => format!("{core} first line\n second \"line\" with \\ and \t\r\n\nEND{core}"),
        3 => format!("{core} \u{e9}\u{65e5}\u{672c}\u{1F600}\u{0} END{core}"),
        4 => format!("{core} {} END{core}", "long ".repeat(800)),
        5 => format!("{core} missing field `type`, unknown variant `NoSuchType`, expected one of `a`, `b` {{}} {{0}} %s END{core}"),
        6 => format!("{core}\nduplicate field `t`\nEND{core}"),
        7 => format!("{core}  END{core}"),
        _ => core.to_owned(),
    }
}
/// Whether an error carries that text; some formats print the text of an error escaped.
pub fn carries(e: &str, text: &str, escaped: bool) -> bool {
    if e.contains(text) {
        return true;
    }
    let Some(core) = text.split_inclusive('.').next() else { return false };
    escaped && e.contains(core) && (core == text || e.contains(&format!("END{core}")))
}

pub struct UserPanic(pub u64);

/// One user callback.
pub fn tick(what: &str) -> Result<(), String> {
    let n = COUNT.with(|c| {
        c.set(c.get() + 1);
        c.get()
    });
    if fired() {
        AFTER.with(|c| c.set(c.get() + 1));
        return Ok(());
    }
    if MODE.with(|m| m.get()) != Mode::Off && n == FAIL_AT.with(|c| c.get()) {
        FIRED.with(|c| c.set(true));
        if crate::tracing() {
            crate::trace(&format!("  FAULT: user callback {n} ({what}) {:?}", MODE.with(|m| m.get())));
        }
        if MODE.with(|m| m.get()) == Mode::Panic {
            std::panic::panic_any(UserPanic(n));
        }
        return Err(marker(n));
    }
    Ok(())
}

const ALIVE: u32 = 0xA11F_E00D;

pub struct Leaf {
    magic: u32,
    pub n: u32,
    heap: Box<u32>,
}

impl Leaf {
    pub fn new(n: u32) -> Leaf {
        LIVE.fetch_add(1, Relaxed);
        MADE.fetch_add(1, Relaxed);
        Leaf { magic: ALIVE, n, heap: Box::new(n) }
    }
}

impl Drop for Leaf {
    fn drop(&mut self) {
        LIVE.fetch_sub(1, Relaxed);
        if self.magic != ALIVE || *self.heap != self.n {
            BAD_DROPS.fetch_add(1, Relaxed);
        }
        self.magic = 0xDEAD;
    }
}

impl std::fmt::Debug for Leaf {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "Leaf({})", self.n)
    }
}

impl Serialize for Leaf {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        tick("Leaf::serialize, before").map_err(ser::Error::custom)?;
        let ok = s.serialize_u32(self.n)?;
        tick("Leaf::serialize, after").map_err(ser::Error::custom)?;
        Ok(ok)
    }
}

impl<'de> Deserialize<'de> for Leaf {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Leaf, D::Error> {
        tick("Leaf::deserialize, before").map_err(de::Error::custom)?;
        let n = u32::deserialize(d)?;
        let leaf = Leaf::new(n);
        tick("Leaf::deserialize, after").map_err(de::Error::custom)?;
        Ok(leaf)
    }
}

impl Gen for Leaf {
    fn gen() -> Leaf {
        Leaf::new(tape::pick(1000))
    }
}

//! Size: now and then an operation has one thing in it that is long, wide or deep.
//! Nothing is drawn when it has not.
use crate::tape::{chance, of, pick};
use std::sync::atomic::{AtomicU32, Ordering::Relaxed};

const OFF: u32 = 0;
const LONG: u32 = 1;
const WIDE: u32 = 2;
const DEEP: u32 = 3;
static MODE: AtomicU32 = AtomicU32::new(OFF);
/// How many more things may be long.
static LEFT: AtomicU32 = AtomicU32::new(0);

/// For the operation that begins.
pub fn draw() -> Option<&'static str> {
    let (mode, left) = match pick(48) {
        45 => (DEEP, 0),
        46 => (WIDE, 2),
        47 => (LONG, 1 + pick(2)),
        _ => (OFF, 0),
    };
    MODE.store(mode, Relaxed);
    LEFT.store(left, Relaxed);
    [None, Some("long"), Some("wide"), Some("deep")][mode as usize]
}

fn take(mode: u32) -> bool {
    MODE.load(Relaxed) == mode && LEFT.load(Relaxed) > 0 && chance(1, 2) && {
        LEFT.fetch_sub(1, Relaxed);
        true
    }
}

/// The number of elements, if it is to be a large one.
pub fn elements() -> Option<u32> {
    take(LONG).then(|| of(&[33, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 512, 1000, 1024, 1025]))
}
/// The number of bytes, if it is to be a large one.
pub fn bytes() -> Option<usize> {
    take(LONG).then(|| of(&[127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, 8193, 65535, 65536, 70000]))
}
pub fn long() -> bool {
    MODE.load(Relaxed) == LONG
}
/// Whether something is to have many parts.
pub fn wide() -> bool {
    take(WIDE)
}
/// How many layers, if they are to be many.
pub fn layers() -> Option<u32> {
    deep().then(|| of(&[6, 8, 12, 16, 20, 31, 32, 33, 40, 45]))
}
/// Whether it is the type that is out of the ordinary.
pub fn shaped() -> bool {
    matches!(MODE.load(Relaxed), WIDE | DEEP)
}
pub fn deep() -> bool {
    MODE.load(Relaxed) == DEEP
}

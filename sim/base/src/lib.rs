//! Pieces shared by the simulators: choice tape, data-model trees, simulated
//! serializer and deserializer, the catalogue of payload types and the tagged traits.
pub mod model;
pub mod poly;
pub mod probe;
pub mod scale;
pub mod shapes;
pub mod simde;
pub mod simser;
pub mod tape;
pub mod tree;
pub mod worlds;

use std::sync::atomic::{AtomicBool, AtomicPtr, AtomicUsize, Ordering};

static TRACING: AtomicBool = AtomicBool::new(false);
static TRACE: AtomicPtr<u8> = AtomicPtr::new(std::ptr::null_mut());
static TRACE_CAP: AtomicUsize = AtomicUsize::new(0);
static TRACE_LEN: AtomicUsize = AtomicUsize::new(0);

/// Tracing is only switched on while a replay file is written or replayed, in
/// single-threaded fault simulations.  It draws nothing from the tape.  The text goes
/// straight to shared memory, so that it survives a crash.
pub fn tracing() -> bool {
    TRACING.load(Ordering::Relaxed)
}
/// `buf` is a u32 length followed by `cap` bytes.
pub fn start_trace(buf: *mut u8, cap: usize) {
    TRACE.store(buf, Ordering::Relaxed);
    TRACE_CAP.store(cap, Ordering::Relaxed);
    TRACE_LEN.store(0, Ordering::Relaxed);
    TRACING.store(!buf.is_null(), Ordering::Relaxed);
}
pub fn trace(m: &str) {
    if !tracing() {
        return;
    }
    let p = TRACE.load(Ordering::Relaxed);
    let n = TRACE_LEN.load(Ordering::Relaxed);
    if n + m.len() + 1 > TRACE_CAP.load(Ordering::Relaxed) {
        return;
    }
    unsafe {
        std::ptr::copy_nonoverlapping(m.as_ptr(), p.add(4 + n), m.len());
        *p.add(4 + n + m.len()) = b'\n';
        *(p as *mut u32) = (n + m.len() + 1) as u32;
    }
    TRACE_LEN.store(n + m.len() + 1, Ordering::Relaxed);
}

//! Counting allocator: live blocks and bytes, peak, and a refusal of absurd requests.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::Relaxed};

pub struct Counting;

static BLOCKS: AtomicI64 = AtomicI64::new(0);
static BYTES: AtomicI64 = AtomicI64::new(0);
static PEAK: AtomicI64 = AtomicI64::new(0);
static CALLS: AtomicU64 = AtomicU64::new(0);
/// Largest single request served; larger ones fail as on a machine out of memory.
pub const REFUSE: usize = 1 << 30;

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > REFUSE {
            return std::ptr::null_mut();
        }
        let p = System.alloc(l);
        if !p.is_null() {
            add(l.size());
            if l.size() >= 64 {
                // Fresh memory is never zero, so that reads of it do not look right by luck.
                std::ptr::write_bytes(p, 0xA5, l.size().min(4096));
            } else {
                std::ptr::write_bytes(p, 0xA5, l.size());
            }
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if l.size() > REFUSE {
            return std::ptr::null_mut();
        }
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            add(l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        BLOCKS.fetch_sub(1, Relaxed);
        BYTES.fetch_sub(l.size() as i64, Relaxed);
        // Freed memory is overwritten, so that use after free shows.
        std::ptr::write_bytes(p, 0x5A, l.size().min(4096));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > REFUSE {
            return std::ptr::null_mut();
        }
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            let b = BYTES.fetch_add(n as i64 - l.size() as i64, Relaxed) + n as i64 - l.size() as i64;
            PEAK.fetch_max(b, Relaxed);
            CALLS.fetch_add(1, Relaxed);
        }
        q
    }
}

fn add(n: usize) {
    BLOCKS.fetch_add(1, Relaxed);
    let b = BYTES.fetch_add(n as i64, Relaxed) + n as i64;
    PEAK.fetch_max(b, Relaxed);
    CALLS.fetch_add(1, Relaxed);
}

pub fn live() -> (i64, i64) {
    (BLOCKS.load(Relaxed), BYTES.load(Relaxed))
}
pub fn reset_peak() -> i64 {
    let b = BYTES.load(Relaxed);
    PEAK.store(b, Relaxed);
    b
}
pub fn peak() -> i64 {
    PEAK.load(Relaxed)
}

//! The few system calls the simulator needs.
#![allow(non_camel_case_types)]
use std::ffi::c_void;

pub type c_int = i32;

#[repr(C)]
pub struct RLimit {
    pub cur: u64,
    pub max: u64,
}

extern "C" {
    pub fn fork() -> c_int;
    pub fn waitpid(pid: c_int, status: *mut c_int, opts: c_int) -> c_int;
    pub fn _exit(code: c_int) -> !;
    pub fn alarm(s: u32) -> u32;
    fn mmap(a: *mut c_void, len: usize, prot: c_int, flags: c_int, fd: c_int, off: i64) -> *mut c_void;
    pub fn mprotect(a: *mut c_void, len: usize, prot: c_int) -> c_int;
    fn setrlimit(res: c_int, r: *const RLimit) -> c_int;
    fn prctl(op: c_int, a: u64, b: u64, c: u64, d: u64) -> c_int;
}

pub fn shared(len: usize) -> *mut u8 {
    // PROT_READ|WRITE, MAP_SHARED|ANONYMOUS|NORESERVE
    let p = unsafe { mmap(std::ptr::null_mut(), len, 3, 0x01 | 0x20 | 0x4000, -1, 0) };
    assert!(p as isize != -1, "mmap");
    p as *mut u8
}

/// CPU limit in seconds, no core files, and die with the parent.
pub fn child_limits(cpu: u64) {
    unsafe {
        setrlimit(0, &RLimit { cur: cpu, max: cpu + 5 });
        setrlimit(4, &RLimit { cur: 0, max: 0 });
        prctl(1, 9, 0, 0, 0);
    }
}
pub fn die_with_parent() {
    unsafe {
        prctl(1, 9, 0, 0, 0);
    }
}

pub enum Ended {
    Exit(i32),
    Signal(i32),
}

pub fn wait(pid: c_int) -> Ended {
    let mut st = 0;
    loop {
        let r = unsafe { waitpid(pid, &mut st, 0) };
        if r == pid {
            break;
        }
        if r < 0 && std::io::Error::last_os_error().kind() != std::io::ErrorKind::Interrupted {
            return Ended::Exit(99);
        }
    }
    if st & 0x7f == 0 {
        Ended::Exit((st >> 8) & 0xff)
    } else {
        Ended::Signal(st & 0x7f)
    }
}

/// Asks a copy of this process, which then ends.
pub fn ask(f: &dyn Fn() -> bool) -> bool {
    let pid = unsafe { fork() };
    if pid == 0 {
        let yes = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).unwrap_or(false);
        unsafe { _exit(yes as i32) }
    }
    matches!(wait(pid), Ended::Exit(1))
}

// Randomness (the keys of hash maps) behind a seam: it comes from the execution's seed.
static RANDOM: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0x5eed);

pub fn seed_random(seed: u64) {
    RANDOM.store(seed | 1, std::sync::atomic::Ordering::Relaxed);
}

#[no_mangle]
unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    for i in 0..len {
        let x = RANDOM.fetch_add(0x9e37_79b9_7f4a_7c15, std::sync::atomic::Ordering::Relaxed);
        let x = (x ^ x >> 30).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        *buf.add(i) = ((x ^ x >> 27).wrapping_mul(0x94d0_49bb_1331_11eb) >> 56) as u8;
    }
    len as isize
}

//! Control over the program's registration constructors.  Every entry of the ELF
//! constructor array is held back at start-up; each simulated execution runs them in
//! an order of its own, as a different link order would.
use std::ffi::c_void;

type Ctor = extern "C" fn(i32, *const *const i8, *const *const i8);

extern "C" {
    static mut __init_array_start: [usize; 0];
    static mut __init_array_end: [usize; 0];
}

const MAX: usize = 8192;
static mut HELD: [usize; MAX] = [0; MAX];
static mut COUNT: usize = 0;
static mut ARGS: (i32, *const *const i8, *const *const i8) = (0, std::ptr::null(), std::ptr::null());

extern "C" fn nothing(_: i32, _: *const *const i8, _: *const *const i8) {}

#[cfg_attr(feature = "race", allow(dead_code))]
extern "C" fn intercept(argc: i32, argv: *const *const i8, envp: *const *const i8) {
    unsafe {
        ARGS = (argc, argv, envp);
        let start = &raw mut __init_array_start as *mut usize;
        let end = &raw mut __init_array_end as *mut usize;
        let n = (end as usize - start as usize) / 8;
        if n > MAX {
            return;
        }
        let page = start as usize & !4095;
        let len = (end as usize - page + 4095) & !4095;
        if crate::os::mprotect(page as *mut c_void, len, 3) != 0 {
            return;
        }
        for i in 0..n {
            HELD[i] = *start.add(i);
            *start.add(i) = nothing as *const () as usize;
        }
        COUNT = n;
    }
}

#[used]
#[link_section = ".preinit_array"]
static HOOK: Ctor = intercept;

pub fn count() -> usize {
    unsafe { COUNT }
}

/// Runs the held constructors in the given order, once per process.
pub fn run(order: &[usize]) {
    unsafe {
        assert_eq!(order.len(), COUNT);
        for &i in order {
            let f: Ctor = std::mem::transmute::<usize, Ctor>(HELD[i]);
            f(ARGS.0, ARGS.1, ARGS.2);
        }
    }
}

pub fn args() -> Vec<String> {
    let b = std::fs::read("/proc/self/cmdline").unwrap_or_default();
    b.split(|c| *c == 0).map(|s| String::from_utf8_lossy(s).into_owned()).filter(|s| !s.is_empty()).collect()
}

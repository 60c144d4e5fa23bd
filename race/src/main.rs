//! Deterministic simulation of threads that use typetag (see /verif/DESIGN.md).
mod search;
mod world;

use std::alloc::{GlobalAlloc, Layout, System};
use std::collections::HashMap;

pub const MAXT: usize = 9;
pub const MAXOPS: usize = 4;
pub const LOGMAX: usize = 4096;
pub const TEXT: usize = 1024;

#[repr(C)]
#[derive(Clone, Copy, Default, Debug, PartialEq)]
pub struct Entry {
    pub ev: u64,
    pub action: u32,
    pub target: u32,
}

/// How a run is scheduled.
#[repr(C)]
#[derive(Clone, Copy, Default, Debug)]
pub struct Knobs {
    pub mode: u64,
    pub seed: u64,
    pub nthreads: u64,
    pub atomic_den: u64,
    pub plain_den: u64,
    pub pct_points: u64,
    pub stalls: u64,
    pub horizon: u64,
    pub budget: u64,
    pub stale_den: u64,
}

#[repr(C)]
#[derive(Clone, Copy)]
pub struct Out {
    pub len: u64,
    pub text: [u8; TEXT],
}

/// Shared with rt.c and with the process that waits for the run.
#[repr(C)]
pub struct Shared {
    pub knobs: Knobs,
    pub nlog: u64,
    pub log: [Entry; LOGMAX],
    pub events: u64,
    pub atomics: u64,
    pub switches: u64,
    pub stalls_done: u64,
    pub futex_waits: u64,
    pub hash: u64,
    pub locations: u64,
    pub stale_reads: u64,
    pub blocks: i64,
    pub bytes: i64,
    pub npcs: u64,
    pub pcs: [u64; 128],
    pub class_len: u64,
    pub msg_len: u64,
    pub class: [u8; 64],
    pub msg: [u8; 2048],
    // From here on only ours.
    pub finished: u64,
    pub created: u64,
    pub dropped: u64,
    pub twice: u64,
    pub out: [[Out; MAXOPS]; MAXT],
}

extern "C" {
    fn rt_setup(s: *mut Shared);
    fn rt_enter(t: i32);
    fn rt_leave();
    fn rt_go();
    fn rt_alloc(p: *mut u8, n: u64) -> i32;
    fn rt_free(p: *mut u8, n: u64) -> i32;
}

extern "C" {
    pub fn fork() -> i32;
    pub fn waitpid(p: i32, st: *mut i32, o: i32) -> i32;
    pub fn _exit(c: i32) -> !;
    pub fn alarm(s: u32) -> u32;
    pub fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn prctl(o: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
}

struct Tracked;
unsafe impl GlobalAlloc for Tracked {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            rt_alloc(p, l.size() as u64);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        // Released blocks are kept back, so that a late use of them is noticed.
        if rt_free(p, l.size() as u64) == 0 {
            System.dealloc(p, l)
        }
    }
}
#[global_allocator]
static A: Tracked = Tracked;

pub fn shared_memory(n: usize) -> *mut u8 {
    let p = unsafe { mmap(std::ptr::null_mut(), n, 3, 0x21, -1, 0) };
    assert!(p as isize > 0);
    p
}

#[derive(Clone, PartialEq)]
pub struct Work {
    pub threads: Vec<Vec<world::Op>>,
}

pub fn sh(p: *mut Shared) -> &'static mut Shared {
    unsafe { &mut *p }
}

/// In the child: performs the work under the scheduler.
fn child(s: *mut Shared, msgs: &'static [world::Msg], w: &Work) -> ! {
    unsafe {
        prctl(1, 9, 0, 0, 0); // die with the parent
        setrlimit(4, &[0, 0]); // no core files
        alarm(20);
        rt_setup(s);
    }
    let mut hs = Vec::new();
    for (t, ops) in w.threads.iter().enumerate() {
        let ops = ops.clone();
        let addr = s as usize;
        hs.push(std::thread::spawn(move || {
            let s = addr as *mut Shared;
            unsafe { rt_enter(t as i32) };
            for (i, op) in ops.iter().enumerate() {
                let text = world::perform(msgs, *op);
                let o = unsafe { &mut (*s).out[t][i] };
                let n = text.len().min(TEXT);
                o.text[..n].copy_from_slice(&text.as_bytes()[..n]);
                o.len = n as u64 + 1;
            }
            world::sweep();
            unsafe { rt_leave() };
            drop(ops);
        }));
    }
    unsafe { rt_go() };
    for h in hs {
        let _ = h.join();
    }
    let s = sh(s);
    use std::sync::atomic::Ordering::Relaxed;
    s.created = world::CREATED.load(Relaxed);
    s.dropped = world::DROPPED.load(Relaxed);
    s.twice = world::TWICE.load(Relaxed);
    s.finished = 1;
    unsafe { _exit(0) }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Verdict {
    pub class: String,
    pub msg: String,
}

pub struct Reference {
    pub text: HashMap<(usize, usize), String>,
    pub events: HashMap<(usize, usize), u64>,
    pub blocks: HashMap<(usize, usize), i64>,
    /// Blocks that the first use of a trait leaves behind.
    pub retained: [i64; world::TRAITS.len()],
}

/// Runs the work in a process of its own.
pub fn run(s: *mut Shared, msgs: &'static [world::Msg], w: &Work) -> Option<Verdict> {
    let d = sh(s);
    d.events = 0;
    d.atomics = 0;
    d.switches = 0;
    d.stalls_done = 0;
    d.futex_waits = 0;
    d.hash = 0;
    d.locations = 0;
    d.stale_reads = 0;
    d.blocks = 0;
    d.bytes = 0;
    d.npcs = 0;
    d.class_len = 0;
    d.msg_len = 0;
    d.finished = 0;
    for t in d.out.iter_mut() {
        for o in t.iter_mut() {
            o.len = 0;
        }
    }
    let p = unsafe { fork() };
    assert!(p >= 0, "cannot fork");
    if p == 0 {
        child(s, msgs, w);
    }
    let mut st = 0;
    unsafe { waitpid(p, &mut st, 0) };
    let v = |c: &str, m: String| Some(Verdict { class: c.into(), msg: m });
    if st & 0x7f != 0 {
        let sig = st & 0x7f;
        if sig == 14 {
            return v("hang", "the run did not come to an end".into());
        }
        return v("crash", format!("the process was ended by signal {sig}"));
    }
    if st >> 8 == 10 {
        let c = String::from_utf8_lossy(&d.class[..d.class_len as usize]).into_owned();
        let m = String::from_utf8_lossy(&d.msg[..d.msg_len as usize]).into_owned();
        return v(&c, m);
    }
    if d.finished == 0 {
        return v("crash", format!("the process ended early with status {}", st >> 8));
    }
    None
}

/// What the results of a finished run are worth.
pub fn judge(s: *mut Shared, msgs: &[world::Msg], w: &Work, r: &Reference) -> Option<Verdict> {
    let d = sh(s);
    let mut mask = 0;
    for (t, ops) in w.threads.iter().enumerate() {
        for (i, op) in ops.iter().enumerate() {
            mask |= msgs[op.msg].mask;
            let o = &d.out[t][i];
            let got = String::from_utf8_lossy(&o.text[..(o.len.max(1) - 1) as usize]).into_owned();
            let want = &r.text[&(op.msg, op.action)];
            if o.len == 0 || &got != want {
                let m = &msgs[op.msg];
                return Some(Verdict { class: "wrong-result".into(), msg: format!("thread {t}, operation {i}, dyn {} from {}{}: got {got:?}, alone it gives {want:?}", world::TRAITS[m.tr], m.label, if m.cbor { " (cbor)" } else { "" }) });
            }
        }
    }
    if d.twice != 0 {
        return Some(Verdict { class: "drop".into(), msg: format!("{} instances were dropped twice", d.twice) });
    }
    if d.created != d.dropped {
        return Some(Verdict { class: "drop".into(), msg: format!("{} instances were made and {} dropped", d.created, d.dropped) });
    }
    let kept: i64 = (0..r.retained.len()).filter(|t| mask >> t & 1 == 1).map(|t| r.retained[t]).sum();
    if d.blocks != kept && d.blocks <= kept {
        // A trait that an operation did not come to use keeps nothing.
        return None;
    }
    if d.blocks != kept {
        return Some(Verdict { class: "leak".into(), msg: format!("{} blocks are still allocated; setting these traits up once keeps {kept}", d.blocks) });
    }
    None
}

#[repr(C)]
struct Alone {
    state: u64, // 1 done, 2 failed
    events: u64,
    blocks: i64,
    out: Out,
}

/// What each operation gives in a process of its own.
pub fn reference(msgs: &'static [world::Msg], workers: usize) -> Result<Reference, String> {
    let n = msgs.len() * world::ACTIONS;
    let all = shared_memory(n * std::mem::size_of::<Alone>()) as *mut Alone;
    let knobs = Knobs { nthreads: 1, budget: 1 << 40, horizon: 1, ..Knobs::default() };
    let possible = |j: usize| j % world::ACTIONS != 3 || msgs[j / world::ACTIONS].tr == 5;
    let mut kids = Vec::new();
    for w in 0..workers {
        let p = unsafe { fork() };
        assert!(p >= 0, "cannot fork");
        if p == 0 {
            let s = shared_memory(std::mem::size_of::<Shared>()) as *mut Shared;
            for j in (w..n).step_by(workers).filter(|j| possible(*j)) {
                let a = unsafe { &mut *all.add(j) };
                let op = world::Op { msg: j / world::ACTIONS, action: j % world::ACTIONS };
                sh(s).knobs = knobs;
                match run(s, msgs, &Work { threads: vec![vec![op]] }) {
                    None => {
                        let d = sh(s);
                        a.events = d.events;
                        a.blocks = d.blocks;
                        a.out = d.out[0][0];
                        a.state = 1;
                    }
                    Some(v) => {
                        let t = format!("{}: {}", v.class, v.msg);
                        let n = t.len().min(TEXT);
                        a.out.text[..n].copy_from_slice(&t.as_bytes()[..n]);
                        a.out.len = n as u64 + 1;
                        a.state = 2;
                    }
                }
            }
            unsafe { _exit(0) }
        }
        kids.push(p);
    }
    for p in kids {
        unsafe { waitpid(p, &mut 0, 0) };
    }
    let mut r = Reference { text: HashMap::new(), events: HashMap::new(), blocks: HashMap::new(), retained: [i64::MAX; world::TRAITS.len()] };
    for j in (0..n).filter(|j| possible(*j)) {
        let a = unsafe { &*all.add(j) };
        let (i, action) = (j / world::ACTIONS, j % world::ACTIONS);
        let m = &msgs[i];
        let text = String::from_utf8_lossy(&a.out.text[..(a.out.len.max(1) - 1) as usize]).into_owned();
        if a.state != 1 {
            return Err(format!("dyn {} from {} on a single thread: {text}", world::TRAITS[m.tr], m.label));
        }
        if m.mask.count_ones() == 1 && text.starts_with("value") {
            r.retained[m.tr] = r.retained[m.tr].min(a.blocks);
        }
        r.text.insert((i, action), text);
        r.events.insert((i, action), a.events);
        r.blocks.insert((i, action), a.blocks);
    }
    if r.retained.contains(&i64::MAX) {
        return Err("a trait of which nothing can be decoded".into());
    }
    Ok(r)
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let code = search::main(&a[1..]);
    use std::io::Write;
    let _ = std::io::stdout().flush();
    unsafe { _exit(code) }
}

//! Runs simulated executions in forked processes, collects what they covered,
//! minimises failures and writes replay files.
use crate::{counting, ctors, known, os, props};
use std::panic::AssertUnwindSafe;
use std::time::Instant;
use vsim_base::tape::{self, mix, Src};
use vsim_base::trace;

pub const MSG: usize = 1 << 16;
pub const TRACE: usize = 1 << 19;
pub const TAPE: usize = 1 << 18;
pub const NCOUNT: usize = 320;
pub const TABLE: usize = 1 << 19;
const NAME: usize = 56;
const SAMPLES: usize = 3;
const SAMPLE: usize = 6000;

#[repr(C)]
pub struct Slot {
    len: u64,
    name: [u8; NAME],
    n: u64,
}

/// What a worker and its children share.
#[repr(C)]
pub struct Shared {
    pub run: u64,
    pub op: u64,
    pub class_len: u64,
    pub class: [u8; 128],
    pub msg_len: u64,
    pub msg: [u8; MSG],
    pub fingerprint: u64,
    pub n_tapes: u64,
    pub tape: [u32; TAPE],
    pub trace: [u8; TRACE + 8],
    pub counters: [Slot; NCOUNT],
    pub table: [u64; TABLE],
    pub table_n: u64,
    pub visits: u64,
    pub runs: u64,
    pub ops: u64,
    pub steps: u64,
    pub sample_n: u64,
    pub sample_len: [u64; SAMPLES],
    pub sample: [[u8; SAMPLE]; SAMPLES],
    pub bad_run: u64, // 1 + run
    pub capped: u64,
}

static mut SH: *mut Shared = std::ptr::null_mut();

pub fn sh() -> &'static mut Shared {
    unsafe { &mut *SH }
}
pub fn use_shared(p: *mut Shared) {
    unsafe { SH = p }
}
pub fn new_shared() -> *mut Shared {
    os::shared(std::mem::size_of::<Shared>()) as *mut Shared
}

fn slot(name: &str) -> Option<&'static mut Slot> {
    let b = name.as_bytes();
    let b = &b[..b.len().min(NAME)];
    for c in sh().counters.iter_mut() {
        if c.len == 0 {
            c.name[..b.len()].copy_from_slice(b);
            c.len = b.len() as u64;
            return Some(c);
        }
        if c.len as usize == b.len() && &c.name[..b.len()] == b {
            return Some(c);
        }
    }
    None
}

pub fn count(name: &str) {
    add(name, 1)
}
pub fn add(name: &str, k: u64) {
    if let Some(c) = slot(name) {
        c.n += k;
    }
}
pub fn maximum(name: &str, k: u64) {
    if let Some(c) = slot(name) {
        c.n = c.n.max(k);
    }
}

/// Records that a non-trivial case was seen; equal hashes count once.
pub fn visit(h: u64) {
    let s = sh();
    s.visits += 1;
    let h = if h == 0 { 1 } else { h };
    if s.table_n as usize > TABLE / 4 * 3 {
        return;
    }
    let mut i = (h.wrapping_mul(0x9E3779B97F4A7C15) >> 40) as usize % TABLE;
    loop {
        if s.table[i] == h {
            return;
        }
        if s.table[i] == 0 {
            s.table[i] = h;
            s.table_n += 1;
            return;
        }
        i = (i + 1) % TABLE;
    }
}

pub fn note(h: u64) {
    let s = sh();
    s.fingerprint = mix(&[s.fingerprint, h]);
}
pub fn steps(n: u64) {
    sh().steps += n;
}

pub fn hash(parts: &[&str], nums: &[u64]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for p in parts {
        for b in p.bytes() {
            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
        }
        h = (h ^ 0xff).wrapping_mul(0x100000001b3);
    }
    mix(&[h, nums.len() as u64]).wrapping_add(mix(nums))
}

fn record(class: &str, msg: &str) {
    let s = sh();
    let c = class.as_bytes();
    let c = &c[..c.len().min(128)];
    s.class[..c.len()].copy_from_slice(c);
    s.class_len = c.len() as u64;
    let m = msg.as_bytes();
    let m = &m[..m.len().min(MSG)];
    s.msg[..m.len()].copy_from_slice(m);
    s.msg_len = m.len() as u64;
}

/// A property does not hold: end this execution.
pub fn fail(class: &str, msg: &str) -> ! {
    trace(&format!("VIOLATED: {class}: {msg}"));
    record(class, msg);
    unsafe { os::_exit(10) }
}

// -------------------------------------------------------------- one execution

#[derive(Clone)]
pub enum Source {
    Seeded { seed: u64, run: u64 },
    Fixed { header: Vec<u32>, ops: Vec<Vec<u32>> },
}

static mut LAST_PANIC: String = String::new();

#[allow(static_mut_refs)]
pub fn last_panic() -> String {
    unsafe { LAST_PANIC.clone() }
}

#[allow(static_mut_refs)]
pub fn forget_panic() {
    unsafe { LAST_PANIC = String::new() }
}

#[allow(static_mut_refs)]
fn quiet_panics() {
    std::panic::set_hook(Box::new(|info| {
        let m = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "(no text)".into()
        };
        let at = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        unsafe { LAST_PANIC = format!("{m} at {at}") };
    }));
}

/// Runs one execution in this (already forked) process and ends it.
pub fn child(prop: &'static props::Prop, source: Source, tracing: bool) -> ! {
    os::child_limits(20);
    unsafe {
        os::alarm(120);
    }
    quiet_panics();
    let s = sh();
    s.class_len = 0;
    s.msg_len = 0;
    s.op = 0;
    s.fingerprint = 1;
    s.n_tapes = 0;
    s.trace[..4].fill(0);
    if tracing {
        vsim_base::start_trace(s.trace.as_mut_ptr(), TRACE);
    }
    let (header, ops): (Src, Vec<Src>) = match source {
        Source::Seeded { seed, run } => {
            let id = prop.id.bytes().fold(0u64, |a, b| a << 8 | b as u64);
            let base = mix(&[seed, id, run]);
            let n = 1 + mix(&[base, 77]) % prop.max_ops;
            (Src::Rng(mix(&[base, 0])), (0..n).map(|i| Src::Rng(mix(&[base, 1 + i]))).collect())
        }
        Source::Fixed { header, ops } => (Src::Fixed(header), ops.into_iter().map(Src::Fixed).collect()),
    };
    let mut at = 0usize;
    let mut begin = |src: Src| {
        if at + 2 >= TAPE {
            tape::start(src, std::ptr::null_mut(), 0);
            return;
        }
        // The previous tape's length is where it was written.
        if sh().n_tapes > 0 {
            at += 1 + sh().tape[at] as usize;
        }
        if at + 2 >= TAPE {
            tape::start(src, std::ptr::null_mut(), 0);
            return;
        }
        sh().n_tapes += 1;
        tape::start(src, unsafe { sh().tape.as_mut_ptr().add(at) }, TAPE - at - 1);
    };
    begin(header);
    os::seed_random((tape::pick(1 << 16) as u64) << 16 | 0x5eed);
    ctors::run(&{
        let n = ctors::count();
        match tape::pick(4) {
            0 => (0..n).collect::<Vec<_>>(),
            1 => (0..n).rev().collect(),
            _ => tape::shuffle(n),
        }
    });
    let mut ctx = props::Ctx::new(prop);
    let guard = |f: &mut dyn FnMut()| {
        if std::panic::catch_unwind(AssertUnwindSafe(|| f())).is_err() {
            let m = last_panic();
            // serde_json reads a bool key that begins with a character of several bytes
            // from the middle of that character, and shows it.
            if m.contains("out of bounds for string of length") && m.contains("/library/core/src/fmt/mod.rs") {
                return count("skip: serde_json shows half a character");
            }
            fail("panic", &format!("a panic left the call: {m}"));
        }
    };
    guard(&mut || (prop.setup)(&mut ctx));
    for (i, src) in ops.into_iter().enumerate() {
        begin(src);
        vsim_base::worlds::reset_depth();
        if let Some(size) = vsim_base::scale::draw() {
            count(&format!("size: {size}"));
        }
        vsim_base::poly::reset(matches!(prop.id, "C09" | "C10"));
        if prop.styled {
            vsim_base::probe::style(tape::pick(20));
        }
        sh().op = 1 + i as u64;
        if tracing {
            trace(&format!("operation {}", i + 1));
        }
        guard(&mut || (prop.op)(&mut ctx));
        sh().ops += 1;
        note(tape::drawn() as u64);
    }
    guard(&mut || (prop.end)(&mut ctx));
    unsafe { os::_exit(0) }
}

#[derive(Clone, Debug)]
pub struct Bad {
    pub class: String,
    pub msg: String,
}

pub enum Res {
    Fine,
    Bad(Bad),
    Harness(String),
}

/// Forks an execution and waits for it.
pub fn execute(prop: &'static props::Prop, source: Source, tracing: bool) -> Res {
    let pid = unsafe { os::fork() };
    if pid == 0 {
        child(prop, source, tracing);
    }
    if pid < 0 {
        return Res::Harness("fork failed".into());
    }
    let text = |b: &[u8], n: u64| String::from_utf8_lossy(&b[..n as usize]).into_owned();
    let s = sh();
    match os::wait(pid) {
        os::Ended::Exit(0) => Res::Fine,
        os::Ended::Exit(10) => Res::Bad(Bad { class: text(&s.class, s.class_len), msg: text(&s.msg, s.msg_len) }),
        os::Ended::Exit(12) => Res::Harness(text(&s.msg, s.msg_len)),
        os::Ended::Exit(n) => Res::Harness(format!("execution ended with status {n}")),
        os::Ended::Signal(9) => Res::Harness("execution was killed".into()),
        os::Ended::Signal(n) => {
            let class = match n {
                14 | 24 => "hang",
                6 => "abort",
                4 | 5 | 7 | 8 | 11 => "crash",
                _ => return Res::Harness(format!("execution ended by signal {n}")),
            };
            Res::Bad(Bad { class: class.into(), msg: format!("the process ended by signal {n} in operation {}", s.op) })
        }
    }
}

fn tapes() -> (Vec<u32>, Vec<Vec<u32>>) {
    let s = sh();
    let mut v = Vec::new();
    let mut at = 0;
    for _ in 0..s.n_tapes {
        let n = s.tape[at] as usize;
        v.push(s.tape[at + 1..at + 1 + n].to_vec());
        at += 1 + n;
    }
    if v.is_empty() {
        return (vec![], vec![]);
    }
    (v.remove(0), v)
}

// -------------------------------------------------------------- a batch

pub struct Batch {
    pub shares: Vec<*mut Shared>,
    pub bad: Option<u64>,
    pub harness: Option<String>,
    pub wall: f64,
}

/// `runs` executions over `workers` processes, or as many as fit in `cap` seconds.
pub fn batch(prop: &'static props::Prop, seed: u64, runs: u64, workers: u64, cap: f64) -> Batch {
    let t = Instant::now();
    // Lowest failing run so far, for everybody.
    let low = os::shared(4096) as *mut std::sync::atomic::AtomicU64;
    unsafe { (*low).store(u64::MAX, std::sync::atomic::Ordering::SeqCst) };
    let shares: Vec<*mut Shared> = (0..workers).map(|_| new_shared()).collect();
    let mut pids = Vec::new();
    for (w, share) in shares.iter().enumerate() {
        let pid = unsafe { os::fork() };
        if pid == 0 {
            os::die_with_parent();
            use_shared(*share);
            let s = sh();
            let mut run = w as u64;
            let mut code = 0;
            while run < runs {
                if run > unsafe { (*low).load(std::sync::atomic::Ordering::SeqCst) } {
                    break;
                }
                if t.elapsed().as_secs_f64() > cap {
                    s.capped = 1;
                    break;
                }
                let sampling = w == 0 && (run / workers) % 40 == 3 && (s.sample_n as usize) < SAMPLES;
                s.run = run;
                match execute(prop, Source::Seeded { seed, run }, sampling) {
                    Res::Fine => {}
                    Res::Bad(_) => {
                        s.bad_run = run + 1;
                        unsafe { (*low).fetch_min(run, std::sync::atomic::Ordering::SeqCst) };
                        break;
                    }
                    Res::Harness(m) => {
                        record("harness", &format!("run {run}: {m}"));
                        code = 12;
                        break;
                    }
                }
                s.runs += 1;
                if sampling {
                    let n = u32::from_le_bytes(s.trace[..4].try_into().unwrap()) as usize;
                    let n = n.min(SAMPLE);
                    let k = s.sample_n as usize;
                    s.sample[k][..n].copy_from_slice(&s.trace[4..4 + n]);
                    s.sample_len[k] = n as u64;
                    s.sample_n += 1;
                }
                run += workers;
            }
            unsafe { os::_exit(code) }
        }
        pids.push(pid);
    }
    let mut harness = None;
    for (w, pid) in pids.into_iter().enumerate() {
        match os::wait(pid) {
            os::Ended::Exit(0) => {}
            os::Ended::Exit(12) => {
                let s = unsafe { &*shares[w] };
                harness = Some(String::from_utf8_lossy(&s.msg[..s.msg_len as usize]).into_owned());
            }
            _ => harness = Some("a worker process ended unexpectedly".into()),
        }
    }
    let low = unsafe { (*low).load(std::sync::atomic::Ordering::SeqCst) };
    Batch { shares, bad: (low != u64::MAX).then_some(low), harness, wall: t.elapsed().as_secs_f64() }
}

// -------------------------------------------------------------- minimising

type Tapes = (Vec<u32>, Vec<Vec<u32>>);

pub fn shrink(prop: &'static props::Prop, first: Tapes, class: &str, cap: f64) -> (Tapes, u64) {
    let t = Instant::now();
    let mut best = first;
    let mut tries = 0u64;
    let mut attempt = |cand: &Tapes| -> Option<Tapes> {
        if t.elapsed().as_secs_f64() > cap {
            return None;
        }
        tries += 1;
        match execute(prop, Source::Fixed { header: cand.0.clone(), ops: cand.1.clone() }, false) {
            Res::Bad(b) if b.class == class => Some(tapes()),
            _ => None,
        }
    };
    let cost = |t: &Tapes| (t.1.len(), t.0.len() + t.1.iter().map(|o| o.len()).sum::<usize>(), t.0.iter().map(|x| *x as u64).sum::<u64>() + t.1.iter().flatten().map(|x| *x as u64).sum::<u64>());
    loop {
        let before = cost(&best);
        // Operations after the failing one do not matter; earlier ones may not.
        let mut i = best.1.len();
        while i > 0 {
            i -= 1;
            if best.1.len() <= 1 {
                break;
            }
            let mut c = best.clone();
            c.1.remove(i);
            if let Some(n) = attempt(&c) {
                if cost(&n) < cost(&best) {
                    best = n;
                    i = i.min(best.1.len());
                }
            }
        }
        // The header: all zero, then piece by piece; then each operation.
        for which in 0..=best.1.len() {
            if which > best.1.len() {
                break;
            }
            let get = |b: &Tapes| if which == 0 { b.0.clone() } else { b.1[which - 1].clone() };
            let with = |b: &Tapes, v: Vec<u32>| {
                let mut c = b.clone();
                if which == 0 {
                    c.0 = v
                } else {
                    c.1[which - 1] = v
                }
                c
            };
            let mut try_it = |best: &mut Tapes, v: Vec<u32>| -> bool {
                let c = with(best, v);
                match attempt(&c) {
                    Some(n) if n.1.len() == best.1.len() && cost(&n) < cost(best) => {
                        *best = n;
                        true
                    }
                    _ => false,
                }
            };
            let all = get(&best);
            if all.iter().any(|x| *x != 0) {
                try_it(&mut best, vec![]);
            }
            let mut size = get(&best).len().max(1);
            loop {
                // Delete blocks.
                let mut at = 0;
                while at < get(&best).len() {
                    let mut v = get(&best);
                    let to = (at + size).min(v.len());
                    if v[at..to].iter().all(|x| *x == 0) && to == v.len() {
                        break;
                    }
                    v.drain(at..to);
                    if !try_it(&mut best, v) {
                        at += size;
                    }
                }
                // Zero blocks.
                let mut at = 0;
                while at < get(&best).len() {
                    let mut v = get(&best);
                    let to = (at + size).min(v.len());
                    if v[at..to].iter().any(|x| *x != 0) {
                        v[at..to].fill(0);
                        try_it(&mut best, v);
                    }
                    at += size;
                }
                if size == 1 {
                    break;
                }
                size = (size / 2).max(1);
            }
            // Smaller numbers.
            let mut at = 0;
            while at < get(&best).len() {
                let x = get(&best)[at];
                for y in [1, x / 2, x.saturating_sub(1)] {
                    let v0 = get(&best);
                    if at < v0.len() && y < v0[at] {
                        let mut v = v0;
                        v[at] = y;
                        try_it(&mut best, v);
                    }
                }
                at += 1;
            }
        }
        if cost(&best) >= before || t.elapsed().as_secs_f64() > cap {
            return (best, tries);
        }
    }
}

// -------------------------------------------------------------- the check

fn json_tapes(v: &[u32]) -> serde_json::Value {
    serde_json::Value::Array(v.iter().map(|x| (*x).into()).collect())
}

fn trace_text() -> String {
    let s = sh();
    let n = u32::from_le_bytes(s.trace[..4].try_into().unwrap()) as usize;
    String::from_utf8_lossy(&s.trace[4..4 + n]).into_owned()
}

pub struct Opts {
    pub tier: String,
    pub seed: u64,
    pub runs: Option<u64>,
    pub workers: u64,
    pub root: String,
    pub verbose: bool,
}

pub fn check(prop: &'static props::Prop, o: &Opts) -> i32 {
    let t0 = Instant::now();
    let mine = new_shared();
    use_shared(mine);
    println!("check {} tier={} seed={}", prop.id, o.tier, o.seed);

    // Findings that are listed and still there.
    let mut reported = 0;
    for k in known::LIST.iter().filter(|k| known::listed(k.key) && k.props.contains(&prop.id)) {
        let pid = unsafe { os::fork() };
        if pid == 0 {
            os::child_limits(20);
            quiet_panics();
            ctors::run(&(0..ctors::count()).collect::<Vec<_>>());
            let there = std::panic::catch_unwind(|| (k.still_there)()).unwrap_or(true);
            unsafe { os::_exit(if there { 3 } else { 0 }) }
        }
        if let os::Ended::Exit(0) = os::wait(pid) {
            println!("note: listed finding {} does not occur any more", k.key);
        } else {
            println!("KNOWN-FINDING: property={} {}: {}", prop.id, k.key, k.what);
            reported += 1;
        }
    }

    // Determinism: the same seed gives the same execution, twice.
    let pairs = 24u64;
    for run in 0..pairs {
        let mut seen: Option<(u64, Tapes, String)> = None;
        for _ in 0..2 {
            let r = execute(prop, Source::Seeded { seed: o.seed, run: run * 7919 }, false);
            let out = match r {
                Res::Fine => "fine".to_string(),
                Res::Bad(b) => b.class,
                Res::Harness(m) => {
                    eprintln!("harness error: {m}");
                    return 2;
                }
            };
            let now = (sh().fingerprint, tapes(), out);
            match &seen {
                None => seen = Some(now),
                Some(s) if *s != now => {
                    eprintln!("harness error: run {} is not repeatable ({:x} {} / {:x} {})", run * 7919, s.0, s.2, now.0, now.2);
                    return 2;
                }
                _ => {}
            }
        }
    }

    let thorough = o.tier == "thorough";
    let runs = o.runs.unwrap_or(if thorough { prop.runs * 25 } else { prop.runs });
    let cap = if thorough { 1500.0 } else { 240.0 };
    let b = batch(prop, o.seed, runs, o.workers, cap);
    if let Some(m) = b.harness {
        eprintln!("harness error: {m}");
        return 2;
    }
    let mut code = 0;
    let mut violations = 0;
    let mut shrink_tries = 0;
    if let Some(run) = b.bad {
        violations = 1;
        match report(prop, o, run) {
            Ok(tries) => {
                shrink_tries = tries;
                code = 1
            }
            Err(m) => {
                eprintln!("harness error: {m}");
                return 2;
            }
        }
    }
    evidence(prop, o, &b, t0.elapsed().as_secs_f64(), violations, reported, pairs, shrink_tries, runs);
    if o.verbose {
        let mut all = std::collections::BTreeMap::new();
        for s in &b.shares {
            merge(unsafe { &**s }, &mut all);
        }
        for (k, v) in all {
            println!("  {k}: {v}");
        }
    }
    code
}

fn report(prop: &'static props::Prop, o: &Opts, run: u64) -> Result<u64, String> {
    let src = Source::Seeded { seed: o.seed, run };
    let bad = match execute(prop, src.clone(), false) {
        Res::Bad(b) => b,
        _ => return Err(format!("run {run} failed once and then not again")),
    };
    let first = tapes();
    let cap = if o.tier == "thorough" { 120.0 } else { 45.0 };
    let (small, tries) = shrink(prop, first.clone(), &bad.class, cap);
    for (cand, minimised) in [(small, true), (first, false)] {
        // Trace and final words of exactly this candidate.
        let b = match execute(prop, Source::Fixed { header: cand.0.clone(), ops: cand.1.clone() }, true) {
            Res::Bad(b) if b.class == bad.class => b,
            _ => continue,
        };
        let fp = sh().fingerprint;
        let dir = format!("{}/replays", o.root);
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{dir}/{}-{}-{run}.json", prop.id, o.seed);
        let trace_lines: Vec<String> = trace_text().lines().map(|l| l.to_owned()).collect();
        let doc = serde_json::json!({
            "property": prop.id, "engine": "fault", "seed": o.seed, "run": run, "class": b.class, "message": b.msg,
            "minimised": minimised, "executions_while_minimising": tries,
            "fingerprint": format!("{fp:016x}"),
            "header": json_tapes(&cand.0),
            "operations": cand.1.iter().map(|t| json_tapes(t)).collect::<Vec<_>>(),
            "trace": trace_lines,
        });
        std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap() + "\n").map_err(|e| format!("{path}: {e}"))?;
        // Again, in a fresh process.
        let again = std::process::Command::new("/proc/self/exe").args(["--root", &o.root, "replay"]).arg(&path).output().map_err(|e| e.to_string())?;
        if again.status.code() == Some(1) {
            println!("violation in run {run} of seed {}: {}: {}", o.seed, b.class, b.msg);
            for l in trace_text().lines().take(60) {
                println!("  | {l}");
            }
            println!("VIOLATION property={} replay={path}", prop.id);
            return Ok(tries);
        }
    }
    Err(format!("run {run} ({}: {}) does not replay", bad.class, bad.msg))
}

pub fn replay(path: &str) -> i32 {
    let fail = |m: &str| {
        eprintln!("replay: {m}");
        2
    };
    let Ok(text) = std::fs::read_to_string(path) else { return fail("cannot read the file") };
    let Ok(doc) = serde_json::from_str::<serde_json::Value>(&text) else { return fail("not JSON") };
    let Some(prop) = doc["property"].as_str().and_then(props::find) else { return fail("unknown property") };
    let tape = |v: &serde_json::Value| v.as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap_or(0) as u32).collect::<Vec<u32>>()).unwrap_or_default();
    let header = tape(&doc["header"]);
    let ops = doc["operations"].as_array().map(|a| a.iter().map(tape).collect()).unwrap_or_default();
    use_shared(new_shared());
    match execute(prop, Source::Fixed { header, ops }, true) {
        Res::Bad(b) => {
            for l in trace_text().lines() {
                println!("  | {l}");
            }
            println!("{}: {}", b.class, b.msg);
            let same = format!("{:016x}", sh().fingerprint) == doc["fingerprint"].as_str().unwrap_or("");
            if Some(b.class.as_str()) == doc["class"].as_str() && same {
                println!("VIOLATION property={} replay={path}", prop.id);
                1
            } else {
                fail("a different execution")
            }
        }
        Res::Fine => {
            println!("the property holds in this execution");
            0
        }
        Res::Harness(m) => fail(&m),
    }
}

fn merge(s: &Shared, all: &mut std::collections::BTreeMap<String, u64>) {
    for c in s.counters.iter().take_while(|c| c.len > 0) {
        let name = String::from_utf8_lossy(&c.name[..c.len as usize]).into_owned();
        let e = all.entry(name.clone()).or_insert(0);
        if name.starts_with("max ") {
            *e = (*e).max(c.n)
        } else {
            *e += c.n
        }
    }
}

#[allow(clippy::too_many_arguments)]
fn evidence(prop: &'static props::Prop, o: &Opts, b: &Batch, wall: f64, violations: u64, reported: u64, pairs: u64, shrink_tries: u64, asked: u64) {
    let mut counters = std::collections::BTreeMap::new();
    let mut distinct = std::collections::HashSet::new();
    let (mut runs, mut ops, mut steps, mut visits, mut capped) = (0, 0, 0, 0, 0);
    for s in &b.shares {
        let s = unsafe { &**s };
        merge(s, &mut counters);
        runs += s.runs;
        ops += s.ops;
        steps += s.steps;
        visits += s.visits;
        capped |= s.capped;
        distinct.extend(s.table.iter().copied().filter(|x| *x != 0));
    }
    let s0 = unsafe { &*b.shares[0] };
    let mut samples: Vec<serde_json::Value> = (0..s0.sample_n as usize)
        .map(|i| {
            let t = String::from_utf8_lossy(&s0.sample[i][..s0.sample_len[i] as usize]).into_owned();
            serde_json::Value::Array(t.lines().map(|l| l.into()).collect())
        })
        .collect();
    if samples.is_empty() {
        samples.push(format!("seed {} run 0", o.seed).into());
    }
    let pick = |p: &str| {
        counters
            .iter()
            .filter(|(k, _)| k.starts_with(p))
            .map(|(k, v)| (k[p.len()..].to_owned(), serde_json::Value::from(*v)))
            .collect::<serde_json::Map<_, _>>()
    };
    let other: serde_json::Map<String, serde_json::Value> = counters
        .iter()
        .filter(|(k, _)| !["fault: ", "form: ", "outcome: ", "skip: ", "known: "].iter().any(|p| k.starts_with(p)))
        .map(|(k, v)| (k.clone(), serde_json::Value::from(*v)))
        .collect();
    let per_hour = |n: u64| (n as f64 / b.wall.max(0.001) * 3600.0) as u64;
    let doc = serde_json::json!({
        "property": prop.id,
        "tier": o.tier,
        "seed": o.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": ops,
            "distinct_nontrivial": distinct.len(),
            "rule": prop.rule,
            "samples": samples,
            "simulated_runs": runs,
            "runs_asked_for": asked,
            "stopped_by_time_cap": capped == 1,
            "cases_counted_for_distinctness": visits,
            "seeds_per_hour": per_hour(runs),
            "operations_per_hour": per_hour(ops),
            "simulated_time": "none: the library reads no clock and has no timers; simulated steps are counted instead",
            "simulated_steps": steps,
            "faults_injected": pick("fault: "),
            "delivery_forms": pick("form: "),
            "outcomes": pick("outcome: "),
            "discarded": pick("skip: "),
            "matched_known_findings": pick("known: "),
            "counters": other,
            "known_findings_reported": reported,
            "determinism_pairs": pairs,
            "executions_while_minimising": shrink_tries,
            "real_components": "typetag, typetag-impl expansions, inventory, once_cell, erased-serde, serde, serde_json, ciborium, bincode, postcard, liballoc; each run is a forked process whose registries were never built",
            "simulated_components": "byte source and sink, Serializer/Deserializer of the sim-* formats, order of registration constructors, user Serialize/Deserialize code with fault switch, allocator accounting and refusal",
            "workers": o.workers,
        },
        "assumptions": prop.assumptions,
        "wall_s": wall,
        "violations": violations,
    });
    let dir = format!("{}/evidence", o.root);
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{}.json", prop.id);
    if let Err(e) = std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap() + "\n") {
        eprintln!("{path}: {e}");
    }
    println!(
        "{}: {} runs, {} operations, {} distinct cases in {:.1} s ({} runs per hour){}",
        prop.id,
        runs,
        ops,
        distinct.len(),
        b.wall,
        per_hour(runs),
        if capped == 1 { ", stopped by the time cap" } else { "" }
    );
    let _ = counting::live();
}

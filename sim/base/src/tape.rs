//! The choice tape: every decision of a simulated execution is one draw.
//! `0` is always the simplest choice, so that shrinking towards zero simplifies.
use std::cell::RefCell;

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn mix(parts: &[u64]) -> u64 {
    let mut s = 0x243F6A8885A308D3u64;
    for p in parts {
        s ^= *p;
        s = splitmix(&mut s).rotate_left(17);
    }
    s
}

#[derive(Clone)]
pub enum Src {
    Rng(u64),
    Fixed(Vec<u32>),
}

pub struct Tape {
    src: Src,
    pos: usize,
    pub rec: Vec<u32>,
    pub sink: *mut u32, // optional shared-memory copy of rec; [0] = len
    pub sink_cap: usize,
}

thread_local! {
    static TAPE: RefCell<Tape> = const { RefCell::new(Tape { src: Src::Rng(0), pos: 0, rec: Vec::new(), sink: std::ptr::null_mut(), sink_cap: 0 }) };
}

/// Installs a new tape (keeping the buffer) and forgets the old one.
pub fn start(src: Src, sink: *mut u32, sink_cap: usize) {
    TAPE.with(|t| {
        let mut t = t.borrow_mut();
        t.src = src;
        t.pos = 0;
        t.rec.clear();
        t.rec.reserve(1 << 14);
        t.sink = sink;
        t.sink_cap = sink_cap;
        if !sink.is_null() {
            unsafe { *sink = 0 }
        }
    })
}

pub fn recorded() -> Vec<u32> {
    TAPE.with(|t| t.borrow().rec.clone())
}

/// Draws made since the tape was started.
pub fn drawn() -> usize {
    TAPE.with(|t| t.borrow().pos)
}

/// A number below `n`.
pub fn pick(n: u32) -> u32 {
    if n <= 1 {
        return 0;
    }
    TAPE.with(|t| {
        let mut t = t.borrow_mut();
        let pos = t.pos;
        let v = match &mut t.src {
            Src::Rng(s) => ((splitmix(s) >> 32) * n as u64 >> 32) as u32,
            Src::Fixed(v) => v.get(pos).copied().unwrap_or(0) % n,
        };
        t.pos += 1;
        t.rec.push(v);
        if !t.sink.is_null() && t.pos < t.sink_cap {
            unsafe {
                *t.sink.add(t.pos) = v;
                *t.sink = t.pos as u32;
            }
        }
        v
    })
}

pub fn usize_below(n: usize) -> usize {
    pick(n as u32) as usize
}

/// True in `num` of `den` cases; the zero draw is false.
pub fn chance(num: u32, den: u32) -> bool {
    pick(den) >= den - num
}

pub fn bits64() -> u64 {
    let a = pick(u32::MAX) as u64;
    let b = pick(u32::MAX) as u64;
    (a << 32) | b
}

pub fn of<T: Copy>(s: &[T]) -> T {
    s[usize_below(s.len())]
}

/// A permutation of 0..n; all-zero draws give the identity.
pub fn permutation(n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..n).collect();
    for i in 0..n.saturating_sub(1) {
        let j = i + usize_below(n - i);
        v.swap(i, j);
    }
    v
}

/// A permutation of 0..n from a single draw.
pub fn shuffle(n: usize) -> Vec<usize> {
    let mut state = pick(u32::MAX) as u64;
    let mut v: Vec<usize> = (0..n).collect();
    if state == 0 {
        return v;
    }
    for i in 0..n.saturating_sub(1) {
        let j = i + (splitmix(&mut state) % (n - i) as u64) as usize;
        v.swap(i, j);
    }
    v
}

//! Seeded search over schedules, minimisation and replay.
use crate::world::{self, Msg, Op};
use crate::*;
use serde_json::{json, Value};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed, Ordering::SeqCst};
use std::time::Instant;

pub fn mix(a: u64, b: u64) -> u64 {
    let mut x = a ^ b.wrapping_mul(0x9e3779b97f4a7c15).rotate_left(31);
    x = (x ^ x >> 30).wrapping_mul(0xbf58476d1ce4e5b9);
    x = (x ^ x >> 27).wrapping_mul(0x94d049bb133111eb);
    x ^ x >> 31
}
struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        mix(self.0, 1)
    }
    fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
    fn pick<T: Copy>(&mut self, v: &[T]) -> T {
        v[self.below(v.len() as u64) as usize]
    }
}

fn plan(prop: &str, seed: u64, run: u64, msgs: &[Msg], r: &Reference) -> (Work, Knobs) {
    let mut g = Rng(mix(mix(seed, 0x7ace), run));
    let n = g.pick(&[2, 2, 2, 2, 2, 2, 2, 2, 2, 3, 3, 3, 3, 3, 3, 4, 4, 4, 5, 5, 8]);
    let mut focus: Vec<usize> = (0..g.pick(&[1, 1, 2, 3])).map(|_| g.below(world::TRAITS.len() as u64) as usize).collect();
    if focus.len() == 1 && g.below(3) == 0 {
        focus.push(0);
    }
    let draw = |g: &mut Rng, only_failing: bool| -> Op {
        loop {
            let m = g.below(msgs.len() as u64) as usize;
            if only_failing && !msgs[m].fails {
                continue;
            }
            if !focus.contains(&msgs[m].tr) && g.below(40) != 0 {
                continue;
            }
            let action = match g.below(6) {
                0 => 1,
                1 => 2,
                2 if msgs[m].tr == 5 => 3,
                _ => 0,
            };
            return Op { msg: m, action };
        }
    };
    let mut threads: Vec<Vec<Op>> = Vec::new();
    let same = if g.below(4) == 0 { Some(draw(&mut g, false)) } else { None };
    for _ in 0..n {
        let k = g.pick(&[1, 1, 1, 2, 3]);
        threads.push((0..k).map(|_| same.filter(|_| g.below(3) > 0).unwrap_or_else(|| draw(&mut g, false))).collect());
    }
    if prop == "C09" && !threads.iter().flatten().any(|o| msgs[o.msg].fails) {
        let t = g.below(n) as usize;
        let failing_traits = focus.iter().any(|f| msgs.iter().any(|m| m.fails && m.tr == *f));
        if failing_traits {
            threads[t][0] = draw(&mut g, true);
        } else {
            let m = loop {
                let m = g.below(msgs.len() as u64) as usize;
                if msgs[m].fails {
                    break m;
                }
            };
            threads[t][0] = Op { msg: m, action: 0 };
        }
    }
    let events: u64 = threads.iter().flatten().map(|o| r.events[&(o.msg, o.action)]).sum();
    let mut k = Knobs {
        mode: 0,
        seed: mix(mix(seed, 0x5eed), run),
        nthreads: n,
        horizon: events.max(10),
        budget: events * 20 + 100_000,
        ..Knobs::default()
    };
    schedule(&mut g, &mut k, events);
    (Work { threads }, k)
}

fn schedule(g: &mut Rng, k: &mut Knobs, events: u64) {
    // Sparse enough for the schedule to be written down.
    let least = events / 1500 + 1;
    match g.below(10) {
        0..=3 => {
            k.atomic_den = g.pick(&[1, 2, 3, 8]);
            k.plain_den = g.pick(&[0, 0, 400, 100, 20]);
            if k.plain_den > 0 {
                k.plain_den = k.plain_den.max(least);
            }
        }
        4..=6 => {
            k.pct_points = 1 + g.below(5);
            // Mostly early, where set-up happens.
            k.horizon = g.pick(&[k.horizon, k.horizon / 2, k.horizon / 4, 2000]).max(10);
        }
        7 => {
            k.plain_den = g.pick(&[30, 100, 300]).max(least);
        }
        _ => {
            k.atomic_den = g.pick(&[2, 4, 0]);
            k.plain_den = g.pick(&[300, 1000]).max(least);
            k.stalls = 1;
        }
    }
    if k.stalls == 0 && g.below(3) == 0 {
        k.stalls = 1 + g.below(2);
    }
    k.stale_den = g.pick(&[0, 1, 2, 4]);
}

/// Does this class of failure say something about this property?
fn concerns(prop: &str, class: &str) -> bool {
    match prop {
        "C01" => matches!(class, "data-race" | "use-after-free" | "deadlock" | "no-progress" | "stall-blocks" | "wrong-result" | "crash" | "hang"),
        "C09" => matches!(class, "wrong-result" | "crash" | "hang" | "deadlock" | "no-progress"),
        "C10" => matches!(class, "leak" | "drop" | "use-after-free"),
        _ => false,
    }
}

fn once(s: *mut Shared, msgs: &'static [Msg], w: &Work, k: &Knobs, r: &Reference) -> Option<Verdict> {
    sh(s).knobs = *k;
    run(s, msgs, w).or_else(|| judge(s, msgs, w, r))
}

const TABLE: usize = 1 << 20;
const COUNTERS: usize = 40;
#[repr(C)]
struct Agg {
    bad: AtomicU64, // 1 + the lowest run that failed
    n: [AtomicU64; COUNTERS],
    distinct: AtomicU64,
    harness_len: AtomicU64,
    table: [AtomicU64; TABLE],
}
const NAMES: [&str; COUNTERS] = {
    let mut n = [""; COUNTERS];
    n[0] = "runs";
    n[1] = "events";
    n[2] = "atomic accesses";
    n[3] = "switches between threads";
    n[4] = "threads stalled inside a call";
    n[5] = "loads of an older store";
    n[6] = "waits on a futex";
    n[7] = "operations";
    n[8] = "operations whose user code fails or panics";
    n[9] = "runs by random switching";
    n[10] = "runs by random priorities";
    n[11] = "runs with two threads";
    n[12] = "runs with three threads";
    n[13] = "runs with four or more threads";
    n[14] = "runs repeated to compare";
    n[15] = "repeated runs that differed";
    n[16] = "runs abandoned by the harness";
    n[17] = "findings that concern another property";
    n[18] = "first uses of a trait by several threads";
    n[19] = "objects handed to another thread";
    n
};

fn seen(a: &Agg, h: u64) {
    let h = h.max(1);
    let mut i = (h.wrapping_mul(0x9E3779B97F4A7C15) >> 44) as usize % TABLE;
    if a.distinct.load(Relaxed) as usize > TABLE / 4 * 3 {
        return;
    }
    loop {
        match a.table[i].compare_exchange(0, h, SeqCst, SeqCst) {
            Ok(_) => {
                a.distinct.fetch_add(1, Relaxed);
                return;
            }
            Err(x) if x == h => return,
            Err(_) => i = (i + 1) % TABLE,
        }
    }
}

fn worker(prop: &str, seed: u64, id: u64, workers: u64, runs: u64, until: Instant, a: &Agg, msgs: &'static [Msg], r: &Reference) {
    let s = shared_memory(std::mem::size_of::<Shared>()) as *mut Shared;
    let mut i = id;
    while i < runs && Instant::now() < until {
        let bad = a.bad.load(SeqCst);
        if bad != 0 && bad - 1 < i {
            return;
        }
        let (w, k) = plan(prop, seed, i, msgs, r);
        let v = once(s, msgs, &w, &k, r);
        let d = sh(s);
        let add = |j: usize, x: u64| {
            a.n[j].fetch_add(x, Relaxed);
        };
        add(0, 1);
        add(1, d.events);
        add(2, d.atomics);
        add(3, d.switches);
        add(4, d.stalls_done);
        add(5, d.stale_reads);
        add(6, d.futex_waits);
        add(7, w.threads.iter().map(|t| t.len() as u64).sum());
        add(8, w.threads.iter().flatten().filter(|o| msgs[o.msg].fails).count() as u64);
        add(if k.pct_points > 0 { 10 } else { 9 }, 1);
        add(match w.threads.len() { 2 => 11, 3 => 12, _ => 13 }, 1);
        add(19, w.threads.iter().flatten().filter(|o| o.action == 3).count() as u64);
        let mut users = [0u32; world::TRAITS.len()];
        for t in &w.threads {
            let m = t.iter().fold(0, |m, o| m | msgs[o.msg].mask);
            (0..users.len()).for_each(|b| users[b] += m >> b & 1);
        }
        add(18, users.iter().filter(|u| **u > 1).count() as u64);
        match &v {
            None => seen(a, mix(d.hash, w.threads.iter().flatten().fold(7, |h, o| mix(h, (o.msg * 8 + o.action) as u64)))),
            Some(v) if v.class == "harness" => add(16, 1),
            Some(v) if concerns(prop, &v.class) => {
                #[allow(deprecated)]
                a.bad.fetch_update(SeqCst, SeqCst, |b| if b == 0 || b - 1 > i { Some(i + 1) } else { None }).ok();
                return;
            }
            Some(_) => add(17, 1),
        }
        if v.is_none() && (i / workers) % 211 == 3 {
            let first = (d.hash, d.events, d.switches);
            let again = once(s, msgs, &w, &k, r);
            add(14, 1);
            if again.is_some() || first != (sh(s).hash, sh(s).events, sh(s).switches) {
                add(15, 1);
            }
        }
        i += workers;
    }
}

fn symbols(pcs: &[u64]) -> Vec<String> {
    // Relative to where the program was loaded.
    let maps = std::fs::read_to_string("/proc/self/maps").unwrap_or_default();
    let exe = std::env::current_exe().unwrap_or_default();
    let base = maps.lines().find(|l| l.ends_with(&*exe.to_string_lossy())).and_then(|l| u64::from_str_radix(l.split('-').next()?, 16).ok()).unwrap_or(0);
    let mut c = std::process::Command::new("addr2line");
    c.arg("-f").arg("-C").arg("-e").arg(&exe);
    let mut n = 0;
    for p in pcs.iter().filter(|p| **p > base) {
        c.arg(format!("{:x}", p - base - 1));
        n += 1;
    }
    if n == 0 {
        return vec![];
    }
    let o = match c.output() {
        Ok(o) => String::from_utf8_lossy(&o.stdout).into_owned(),
        Err(_) => return vec![],
    };
    let l: Vec<&str> = o.lines().collect();
    l.chunks(2).map(|c| format!("{} {}", c[0], c.get(1).unwrap_or(&""))).filter(|s| !s.contains("/rustc/")).collect()
}

fn reproduce(s: *mut Shared, msgs: &'static [Msg], w: &Work, k: &Knobs, log: &[Entry], r: &Reference) -> Option<Verdict> {
    let mut k = *k;
    k.mode = 1;
    let d = sh(s);
    d.nlog = log.len() as u64;
    d.log[..log.len()].copy_from_slice(log);
    once(s, msgs, w, &k, r)
}

struct Found {
    w: Work,
    k: Knobs,
    log: Vec<Entry>,
    v: Verdict,
}

/// A stretch of one thread's events: how it ends (0 it is preempted, 2 it cannot go on)
/// and the older stores it sees.
#[derive(Clone)]
struct Seg {
    t: u32,
    len: u64,
    end: u32,
    seen: Vec<(u64, u32)>,
}

fn segments(log: &[Entry]) -> Option<Vec<Seg>> {
    let first = log.first()?;
    if first.ev != 0 || first.action != 2 {
        return None;
    }
    let mut v: Vec<Seg> = Vec::new();
    let mut cur = Seg { t: first.target, len: 0, end: 0, seen: vec![] };
    let mut at = 0;
    for e in &log[1..] {
        match e.action {
            0 | 1 | 2 => {
                cur.len = e.ev - at;
                cur.end = e.action;
                at = e.ev;
                v.push(std::mem::replace(&mut cur, Seg { t: e.target, len: 0, end: 0, seen: vec![] }));
            }
            3 => cur.seen.push((e.ev - at, e.target)),
            _ => return None,
        }
    }
    cur.len = 1 << 40;
    v.push(cur);
    Some(v)
}

fn join(v: Vec<Seg>) -> Vec<Seg> {
    let mut out: Vec<Seg> = Vec::new();
    for s in v {
        match out.last_mut() {
            Some(l) if l.t == s.t => {
                l.seen.extend(s.seen.iter().map(|(a, k)| (a + l.len, *k)));
                l.len += s.len;
                l.end = s.end;
            }
            _ => out.push(s),
        }
    }
    out
}

fn serialise(g: &[Seg], from: usize, to: usize, reverse: bool) -> Vec<Seg> {
    let mut v = g[..from].to_vec();
    let mut order: Vec<u32> = Vec::new();
    for s in &g[from..to] {
        if !order.contains(&s.t) {
            order.push(s.t);
        }
    }
    if reverse {
        order.reverse();
    }
    if to == g.len() {
        let last = g[to - 1].t;
        order.retain(|t| *t != last);
        order.push(last);
    }
    for t in order {
        v.extend(g[from..to].iter().filter(|s| s.t == t).cloned());
    }
    v.extend_from_slice(&g[to..]);
    join(v)
}

fn rebuild(g: &[Seg]) -> Vec<Entry> {
    let mut v = vec![Entry { ev: 0, action: 2, target: g[0].t }];
    let mut at = 0;
    for (i, s) in g.iter().enumerate() {
        v.extend(s.seen.iter().map(|(a, k)| Entry { ev: at + a, action: 3, target: *k }));
        at += s.len;
        if let Some(n) = g.get(i + 1) {
            v.push(Entry { ev: at, action: s.end, target: n.t });
        }
    }
    v
}

fn minimise(s: *mut Shared, msgs: &'static [Msg], prop: &str, w: Work, k: Knobs, v: Verdict, r: &Reference) -> Found {
    let stop = Instant::now() + std::time::Duration::from_secs(40);
    let take = |s: *mut Shared| sh(s).log[..sh(s).nlog as usize].to_vec();
    // Once more, to get its schedule.
    let first = once(s, msgs, &w, &k, r);
    let mut f = Found { w, k, log: take(s), v: first.filter(|x| x.class == v.class).unwrap_or(v) };
    // Fewer operations, by searching for another schedule of the smaller work.
    let mut g = Rng(k.seed);
    let mut again = true;
    while again && Instant::now() < stop {
        again = false;
        let mut smaller = Vec::new();
        for t in 0..f.w.threads.len() {
            if f.w.threads.len() > 2 {
                let mut x = f.w.clone();
                x.threads.remove(t);
                smaller.push(x);
            }
            for i in 0..f.w.threads[t].len() {
                if f.w.threads[t].len() > 1 {
                    let mut x = f.w.clone();
                    x.threads[t].remove(i);
                    smaller.push(x);
                }
            }
        }
        'w: for x in smaller {
            for _ in 0..60 {
                if Instant::now() > stop {
                    break 'w;
                }
                let mut k = f.k;
                k.nthreads = x.threads.len() as u64;
                k.seed = g.next();
                if let Some(v) = once(s, msgs, &x, &k, r) {
                    if v.class == f.v.class && concerns(prop, &v.class) {
                        f = Found { w: x, k, log: take(s), v };
                        again = true;
                        break 'w;
                    }
                }
            }
        }
    }
    // A schedule that switches rarely from the start.
    for round in 0..300 {
        if f.log.len() < 4 || Instant::now() > stop {
            break;
        }
        let mut k = Knobs { atomic_den: 0, plain_den: 0, stalls: f.k.stalls, stale_den: if round % 2 == 0 { 0 } else { f.k.stale_den }, ..f.k };
        k.pct_points = 1 + round / 100;
        k.horizon = [2000, f.k.horizon, f.k.horizon / 4 + 10][round as usize % 3];
        k.seed = g.next();
        if let Some(v) = once(s, msgs, &f.w, &k, r) {
            let log = take(s);
            if v.class == f.v.class && log.len() < f.log.len() {
                f = Found { w: f.w, k, log, v };
            }
        }
    }
    // Windows of the schedule in which each thread goes once.
    if let Some(mut g) = segments(&f.log) {
        let mut size = g.len();
        while size >= 2 && Instant::now() < stop {
            let mut i = 0;
            while i + 1 < g.len() && Instant::now() < stop {
                let mut done = false;
                for reverse in [false, true] {
                    let x = serialise(&g, i, (i + size).min(g.len()), reverse);
                    if x.len() >= g.len() {
                        continue;
                    }
                    let log = rebuild(&x);
                    if let Some(v) = reproduce(s, msgs, &f.w, &f.k, &log, r) {
                        if v.class == f.v.class {
                            f.log = log;
                            f.v = v;
                            g = x;
                            done = true;
                            break;
                        }
                    }
                }
                if !done {
                    i += size / 2;
                }
            }
            size = if size == 3 { 2 } else { size / 2 };
        }
    }
    // Fewer switches.
    let mut chunk = (f.log.len() / 2).max(1);
    while Instant::now() < stop {
        let mut i = 0;
        let mut any = false;
        while i < f.log.len() && Instant::now() < stop {
            let mut l = f.log.clone();
            l.drain(i..(i + chunk).min(l.len()));
            match reproduce(s, msgs, &f.w, &f.k, &l, r) {
                Some(v) if v.class == f.v.class => {
                    f.log = l;
                    f.v = v;
                    any = true;
                }
                _ => i += chunk,
            }
        }
        if chunk > 1 {
            chunk /= 2;
        } else if !any {
            break;
        }
    }
    f
}

fn describe(f: &Found, msgs: &[Msg]) -> Vec<Value> {
    f.w.threads
        .iter()
        .map(|t| {
            Value::Array(
                t.iter()
                    .map(|o| {
                        let m = &msgs[o.msg];
                        json!({"message": o.msg, "action": o.action, "trait": world::TRAITS[m.tr], "format": if m.cbor { "cbor" } else { "json" }, "text": m.label,
                               "then": THEN[o.action]})
                    })
                    .collect(),
            )
        })
        .collect()
}

fn write_replay(root: &str, prop: &str, seed: u64, run: u64, f: &Found, s: *mut Shared, msgs: &[Msg]) -> String {
    let d = sh(s);
    let n = d.npcs as usize;
    let stacks: Vec<Vec<String>> = d.pcs[..n].chunks(64).map(symbols).collect();
    let path = format!("{root}/replays/{prop}-threads-{seed}-{run}.json");
    let _ = std::fs::create_dir_all(format!("{root}/replays"));
    let doc = json!({
        "engine": "threads",
        "property": prop,
        "seed": seed,
        "run": run,
        "class": f.v.class,
        "message": f.v.msg,
        "threads": describe(f, msgs),
        "budget": f.k.budget,
        "stale_den": f.k.stale_den,
        "schedule": f.log.iter().map(|e| json!([e.ev, KINDS[e.action as usize & 3], e.target])).collect::<Vec<_>>(),
        "stacks": stacks,
    });
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap());
    path
}

fn replay(file: &str, s: *mut Shared, msgs: &'static [Msg]) -> i32 {
    let doc: Value = match std::fs::read(file).ok().and_then(|b| serde_json::from_slice(&b).ok()) {
        Some(d) => d,
        None => {
            eprintln!("cannot read {file}");
            return 2;
        }
    };
    let threads: Vec<Vec<Op>> = doc["threads"]
        .as_array()
        .map(|a| a.iter().map(|t| t.as_array().map(|t| t.iter().map(|o| Op { msg: o["message"].as_u64().unwrap_or(0) as usize, action: o["action"].as_u64().unwrap_or(0) as usize }).collect()).unwrap_or_default()).collect())
        .unwrap_or_default();
    let log: Vec<Entry> = doc["schedule"]
        .as_array()
        .map(|a| {
            a.iter()
                .map(|e| Entry {
                    ev: e[0].as_u64().unwrap_or(0),
                    action: KINDS.iter().position(|n| Some(*n) == e[1].as_str()).unwrap_or(0) as u32,
                    target: e[2].as_u64().unwrap_or(0) as u32,
                })
                .collect()
        })
        .unwrap_or_default();
    let prop = doc["property"].as_str().unwrap_or("C01").to_string();
    let k = Knobs { mode: 1, nthreads: threads.len() as u64, budget: doc["budget"].as_u64().unwrap_or(1 << 30), stale_den: doc["stale_den"].as_u64().unwrap_or(0), ..Knobs::default() };
    let r = match reference(msgs, 8) {
        Ok(r) => r,
        Err(e) => {
            println!("VIOLATION property={prop} replay={file}");
            println!("  {e}");
            return 1;
        }
    };
    let w = Work { threads };
    match reproduce(s, msgs, &w, &k, &log, &r) {
        Some(v) if concerns(&prop, &v.class) => {
            println!("VIOLATION property={prop} replay={file}");
            println!("  {}: {}", v.class, v.msg);
            let same = Some(v.class.as_str()) == doc["class"].as_str() && Some(v.msg.as_str()) == doc["message"].as_str();
            println!("  {}", if same { "exactly as recorded" } else { "not as recorded" });
            1
        }
        Some(v) => {
            println!("{}: {} (not {prop})", v.class, v.msg);
            0
        }
        None => {
            println!("no violation");
            0
        }
    }
}

fn check(prop: &str, o: &Opts, msgs: &'static [Msg]) -> i32 {
    let start = Instant::now();
    let s = shared_memory(std::mem::size_of::<Shared>()) as *mut Shared;
    let r = match reference(msgs, 8) {
        Ok(r) => r,
        Err(e) => {
            // A single thread on its own fails: not a matter of interleaving.
            let path = format!("{}/replays/{prop}-threads-alone.json", o.root);
            let _ = std::fs::create_dir_all(format!("{}/replays", o.root));
            let _ = std::fs::write(&path, json!({"engine": "threads", "property": prop, "class": "alone", "message": e}).to_string());
            println!("VIOLATION property={prop} replay={path}");
            println!("  {e}");
            return 1;
        }
    };
    let until = start + std::time::Duration::from_secs(o.seconds);
    let agg = unsafe { &*(shared_memory(std::mem::size_of::<Agg>()) as *const Agg) };
    let mut kids = Vec::new();
    for id in 0..o.workers {
        let p = unsafe { fork() };
        if p == 0 {
            worker(prop, o.seed, id, o.workers, o.runs, until, agg, msgs, &r);
            unsafe { _exit(0) }
        }
        kids.push(p);
    }
    for p in kids {
        let mut st = 0;
        unsafe { waitpid(p, &mut st, 0) };
        if st != 0 {
            eprintln!("a worker failed: status {st:#x}");
            return 2;
        }
    }
    let bad = agg.bad.load(SeqCst);
    let mut code = 0;
    if bad != 0 {
        let i = bad - 1;
        let (w, k) = plan(prop, o.seed, i, msgs, &r);
        let mut v = None;
        for _ in 0..3 {
            v = once(s, msgs, &w, &k, &r).filter(|v| concerns(prop, &v.class));
            if v.is_some() {
                break;
            }
        }
        match v {
            None => {
                eprintln!("run {i} failed once and does not fail again");
                return 2;
            }
            Some(v) => {
                let f = minimise(s, msgs, prop, w, k, v, &r);
                let last = reproduce(s, msgs, &f.w, &f.k, &f.log, &r);
                let exact = last.as_ref() == Some(&f.v);
                let path = write_replay(&o.root, prop, o.seed, i, &f, s, msgs);
                println!("VIOLATION property={prop} replay={path}");
                println!("  {}: {}", f.v.class, f.v.msg);
                println!("  {} threads, {} entries in the schedule, {}", f.w.threads.len(), f.log.len(), if exact { "reproduced exactly" } else { "NOT reproduced by its schedule" });
                code = 1;
            }
        }
    }
    let secs = start.elapsed().as_secs_f64();
    let runs = agg.n[0].load(Relaxed);
    let mut counts = serde_json::Map::new();
    for j in 0..COUNTERS {
        if !NAMES[j].is_empty() {
            counts.insert(NAMES[j].into(), json!(agg.n[j].load(Relaxed)));
        }
    }
    // A few of the cases, written out.
    let mut samples = Vec::new();
    for i in 0..3u64.min(runs) {
        let (w, k) = plan(prop, o.seed, i, msgs, &r);
        let v = once(s, msgs, &w, &k, &r);
        let d = sh(s);
        let log = &d.log[..d.nlog as usize];
        samples.push(json!({
            "run": i,
            "threads": w.threads.iter().map(|t| t.iter().map(|o| format!("dyn {} from {}{}, then {}", world::TRAITS[msgs[o.msg].tr], msgs[o.msg].label, if msgs[o.msg].cbor { " (cbor)" } else { "" }, THEN[o.action])).collect::<Vec<_>>()).collect::<Vec<_>>(),
            "events": d.events,
            "schedule": log.iter().take(40).map(|e| format!("{} {} {}", e.ev, KINDS[e.action as usize & 3], e.target)).collect::<Vec<_>>(),
            "entries_in_the_schedule": log.len(),
            "result": v.map_or("as expected".to_string(), |v| v.class),
        }));
    }
    let distinct = agg.distinct.load(Relaxed);
    let coverage = json!({
        "engine": "threads: real threads of one process, one running at a time, switched at instrumented memory accesses",
        "evaluations": runs,
        "distinct_nontrivial": distinct,
        "rule": "a run is a process that has not used typetag yet, in which 2 to 8 threads perform 1 to 3 operations each on 1 to 4 of 8 traits under a schedule drawn from the seed; non-trivial: the run came to its end and was judged; distinct by the order in which the threads performed their atomic accesses, together with the operations",
        "samples": samples,
        "runs_per_hour": (runs as f64 / secs * 3600.0) as u64,
        "simulated_time": "events: memory accesses performed under the scheduler, see counts",
        "counts": counts,
        "faults_injected": {
            "preemption at a memory access": agg.n[3].load(Relaxed),
            "thread stalled until all others have finished": agg.n[4].load(Relaxed),
            "load that returns an older store": agg.n[5].load(Relaxed),
            "failing or panicking user code": agg.n[8].load(Relaxed),
        },
        "distinct_table_full": distinct as usize >= TABLE / 4 * 3,
        "real_components": "typetag, typetag-impl expansions, inventory, once_cell, erased-serde, serde, serde_json, ciborium; std's own precompiled code runs uninstrumented between scheduling points",
        "stubs": "the ThreadSanitizer runtime is replaced by the scheduler and race detector of rt/rt.c",
    });
    let dir = format!("{}/evidence", o.root);
    let _ = std::fs::create_dir_all(&dir);
    let name = format!("{dir}/{prop}.json");
    let assumptions = json!([
        "code that is not instrumented (std's precompiled part, libc) is atomic between scheduling points and does not race",
        "weak memory is modelled as loads that may return an older store allowed by coherence and happens-before; stores are not delayed otherwise",
    ]);
    let old: Option<Value> = if prop == "C01" { None } else { std::fs::read(&name).ok().and_then(|b| serde_json::from_slice(&b).ok()) };
    let doc = match old.filter(|d| d["property"] == prop && d["coverage"].is_object()) {
        Some(mut d) => {
            d["coverage"]["threads_engine"] = coverage;
            let wall = d["wall_s"].as_f64().unwrap_or(0.0) + secs;
            d["wall_s"] = json!((wall * 100.0).round() / 100.0);
            d["violations"] = json!(d["violations"].as_u64().unwrap_or(0) + code as u64);
            if let Some(a) = d["assumptions"].as_array_mut() {
                a.extend(assumptions.as_array().cloned().unwrap_or_default());
            }
            d
        }
        None => json!({
            "property": prop,
            "tier": o.tier,
            "seed": o.seed,
            "level": "exploration",
            "coverage": coverage,
            "assumptions": assumptions,
            "wall_s": (secs * 100.0).round() / 100.0,
            "violations": code,
        }),
    };
    let _ = std::fs::write(&name, serde_json::to_string_pretty(&doc).unwrap() + "\n");
    println!("{prop} threads: {runs} runs, {} interleavings, {:.1} s", agg.distinct.load(Relaxed), secs);
    if o.verbose {
        println!("{}", serde_json::to_string_pretty(&doc).unwrap());
    }
    if code == 0 && agg.n[15].load(Relaxed) > 0 {
        eprintln!("{} of the repeated runs differed", agg.n[15].load(Relaxed));
        return 2;
    }
    code
}

struct Opts {
    tier: String,
    seed: u64,
    runs: u64,
    seconds: u64,
    workers: u64,
    root: String,
    verbose: bool,
}

pub fn main(a: &[String]) -> i32 {
    let env = |n: &str| std::env::var(n).ok();
    let mut o = Opts {
        tier: env("VERIF_TIER").unwrap_or("quick".into()),
        seed: env("VERIF_SEED").and_then(|s| s.parse().ok()).unwrap_or(1),
        runs: 0,
        seconds: 0,
        workers: std::thread::available_parallelism().map_or(4, |n| n.get() as u64).clamp(1, 16),
        root: "/verif".into(),
        verbose: false,
    };
    let mut rest = Vec::new();
    let mut it = a.iter();
    while let Some(x) = it.next() {
        let mut val = || it.next().cloned().unwrap_or_default();
        match x.as_str() {
            "--tier" => o.tier = val(),
            "--runs" => o.runs = val().parse().unwrap_or(0),
            "--workers" => o.workers = val().parse().unwrap_or(8),
            "--seed" => o.seed = val().parse().unwrap_or(1),
            "--seconds" => o.seconds = val().parse().unwrap_or(0),
            "--root" => o.root = val(),
            "-v" => o.verbose = true,
            _ => rest.push(x.clone()),
        }
    }
    let thorough = o.tier == "thorough";
    if o.runs == 0 {
        o.runs = if thorough { 2_000_000 } else { 30_000 };
    }
    if o.seconds == 0 {
        o.seconds = if thorough { 1200 } else { 120 };
    }
    let msgs: &'static [Msg] = Box::leak(world::messages().into_boxed_slice());
    match (rest.first().map(|s| s.as_str()), rest.get(1)) {
        (Some("check"), Some(p)) => check(p, &o, msgs),
        (Some("replay"), Some(f)) => {
            let s = shared_memory(std::mem::size_of::<Shared>()) as *mut Shared;
            replay(f, s, msgs)
        }
        (Some("dump"), _) => {
            match reference(msgs, 8) {
                Ok(r) => {
                    for (i, m) in msgs.iter().enumerate() {
                        println!("{i} {} {} {} -> {} [{} events, {} blocks]", world::TRAITS[m.tr], if m.cbor { "cbor" } else { "json" }, m.label, r.text[&(i, 0)], r.events[&(i, 0)], r.blocks[&(i, 0)]);
                    }
                    println!("{:?}", r.retained);
                    0
                }
                Err(e) => {
                    println!("{e}");
                    2
                }
            }
        }
        _ => {
            eprintln!("usage: vrace check <property> | replay <file> | dump");
            2
        }
    }
}

const THEN: [&str; 4] = ["drop", "write back", "decode again", "leave to another thread"];
const KINDS: [&str; 4] = ["switch", "stall", "start", "older store"];

//! Deterministic simulation of programs that use typetag (see /verif/DESIGN.md).
mod counting;
mod ctors;
mod engine;
mod formats;
mod hostile;
mod known;
mod messages;
mod os;
mod props;
mod registry;
mod simio;
mod streams;
mod twins;
mod usercode;

#[global_allocator]
static A: counting::Counting = counting::Counting;

const USAGE: &str = "usage: vsim check <property> [--tier quick|thorough] [--runs N] [--workers N] [--root DIR] [-v]\n       vsim replay <file>\n       vsim list";

fn environment(name: &str) -> Option<String> {
    let b = std::fs::read("/proc/self/environ").unwrap_or_default();
    let p = format!("{name}=");
    b.split(|c| *c == 0).filter_map(|s| std::str::from_utf8(s).ok()).find_map(|s| s.strip_prefix(&p).map(|v| v.to_owned()))
}

fn real_main() -> i32 {
    let a = ctors::args();
    let mut o = engine::Opts {
        tier: environment("VERIF_TIER").filter(|t| t == "thorough").unwrap_or("quick".into()),
        seed: environment("VERIF_SEED").and_then(|s| s.parse().ok()).unwrap_or(1),
        runs: None,
        workers: std::thread::available_parallelism().map_or(4, |n| n.get() as u64).clamp(1, 16),
        root: "/verif".into(),
        verbose: false,
    };
    let mut rest = Vec::new();
    let mut it = a.iter().skip(1);
    while let Some(x) = it.next() {
        let mut val = || it.next().cloned().unwrap_or_default();
        match x.as_str() {
            "--tier" => o.tier = val(),
            "--runs" => o.runs = val().parse().ok(),
            "--workers" => o.workers = val().parse().unwrap_or(8),
            "--seed" => o.seed = val().parse().unwrap_or(1),
            "--root" => o.root = val(),
            "-v" => o.verbose = true,
            _ => rest.push(x.clone()),
        }
    }
    known::load(&o.root);
    match (rest.first().map(|s| s.as_str()), rest.get(1)) {
        (Some("check"), Some(id)) => match props::find(id) {
            Some(p) => engine::check(p, &o),
            None => {
                eprintln!("no such property: {id}");
                2
            }
        },
        (Some("replay"), Some(f)) => engine::replay(f),
        (Some("list"), _) => {
            props::ALL_PROPS.iter().for_each(|p| println!("{}", p.id));
            0
        }
        _ => {
            eprintln!("{USAGE}");
            2
        }
    }
}

fn main() {
    let code = real_main();
    use std::io::Write;
    let _ = std::io::stdout().flush();
    unsafe { os::_exit(code) }
}

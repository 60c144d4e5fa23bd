use std::process::Command;
fn main() {
    println!("cargo:rerun-if-changed=rt/rt.c");
    println!("cargo:rerun-if-changed=build.rs");
    let out = std::env::var("OUT_DIR").unwrap();
    let obj = format!("{out}/rt.o");
    let lib = format!("{out}/libvrt.a");
    let ok = |c: &mut Command| assert!(c.status().expect("cannot run a tool").success());
    ok(Command::new("gcc").args(["-O2", "-g1", "-fPIC", "-fno-builtin-malloc", "-Wall", "-c", "rt/rt.c", "-o", &obj]));
    let _ = std::fs::remove_file(&lib);
    ok(Command::new("ar").args(["crs", &lib, &obj]));
    println!("cargo:rustc-link-search=native={out}");
    println!("cargo:rustc-link-lib=static:+whole-archive=vrt");
}

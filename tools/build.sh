# Sourced: build_sim and build_race, which build against /repo's working tree.
export CARGO_NET_OFFLINE=true
unset CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET CARGO_TARGET_DIR RUSTFLAGS RUSTC_WRAPPER
SIM=$root/sim/target/debug/vsim
RACE=$root/race/target/x86_64-unknown-linux-gnu/debug/vrace
logged() { # DIR COMMAND...
    local dir=$1 log=$1/target/build.log
    shift
    mkdir -p "$dir/target"
    (cd "$dir" && "$@") >"$log" 2>&1 && return 0
    echo "$dir does not build against /repo:" >&2
    tail -n 40 "$log" >&2
    return 1
}
build_sim() {
    CARGO_TARGET_DIR=$root/sim/target logged "$root/sim" cargo build --offline --locked
}
# Compiled with ThreadSanitizer's instrumentation, for which rt/rt.c is the runtime.
build_race() {
    RUSTFLAGS="-Zsanitizer=thread -Zexternal-clangrt -Cunsafe-allow-abi-mismatch=sanitizer" \
        CARGO_TARGET_DIR=$root/race/target logged "$root/race" \
        cargo +nightly build --offline --locked --target x86_64-unknown-linux-gnu
}

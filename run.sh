#!/bin/bash
# run.sh ID: builds the harness against /repo's working tree and runs the check of one property.
# Exit 0: held; 1: VIOLATION printed; 2: the check could not be run.
cd "$(dirname "$0")" || exit 2
unset RUSTFLAGS CARGO_BUILD_RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET_DIR RUSTC_WRAPPER
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable RUST_BACKTRACE=0
build() {
    cargo build --release --offline --locked --quiet --manifest-path harness/Cargo.toml "$@"
}
plain() {
    if ! build 2>build.log; then
        cat build.log >&2
        echo "the harness does not build against /repo" >&2
        exit 2
    fi
}
# with the observable mutex (see DESIGN.md, C26)
hooked() {
    RUSTFLAGS="--cfg k_verif" build --target-dir harness/target-sched 2>build.log
}
case "$1" in
setup)
    plain
    hooked || cat build.log >&2
    exit 0
    ;;
C26 | C29 | C32 | C33)
    # without the hook the threads still run, but the system chooses the schedule
    if hooked; then
        exec ./harness/target-sched/release/kprops run "$@"
    fi
    cat build.log >&2
    echo "the hook does not build, running without it" >&2
    ;;
esac
plain
exec ./harness/target/release/kprops run "$@"

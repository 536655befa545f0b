# Sourced by check.sh and setup.sh
export RUSTUP_TOOLCHAIN=1.99.1-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUST_BACKTRACE=0
unset RUSTFLAGS CARGO_BUILD_RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER CARGO_TARGET_DIR CARGO_BUILD_TARGET
CRATES="core wire eusb icd web link"
crate_of() {
    case "$1" in
        C01|C02|C03|C04|C05|C06|C07|C08|C09|C10|C11|C12|C13|C15|C20|C24|C25) echo core ;;
        C16|C21|C23) echo wire ;;
        C17|C18|C19|C27) echo eusb ;;
        C14) echo icd ;;
        C22) echo web ;;
        C26) echo link ;;
        *) return 1 ;;
    esac
}
bin_of() { echo "$ROOT/harness/$1/target/debug/v$1"; }
build_crate() {
    (cd "$ROOT/harness/$1" && cargo build --offline --quiet 2>"$ROOT/harness/$1/.build.log") || {
        tail -40 "$ROOT/harness/$1/.build.log"
        return 1
    }
    rm -f "$ROOT/harness/$1/.build.log"
}

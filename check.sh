#!/bin/bash
# check.sh PID [args]   builds the simulator against /repo's current working tree and runs one check.
# check.sh --setup      builds only.
set -u
cd "$(dirname "$(readlink -f "$0")")" || exit 2
ROOT=$PWD
export VERIF_ROOT=$ROOT
export HOME=${HOME:-/root}
[ -d /root/.cargo/bin ] && { export HOME=/root; export PATH=/root/.cargo/bin:$PATH; }
export CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR=$ROOT/target
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_RUSTFLAGS RUSTC_WRAPPER RUSTC_WORKSPACE_WRAPPER
if rustup toolchain list 2>/dev/null | grep -q '^stable'; then export RUSTUP_TOOLCHAIN=stable; fi
mkdir -p target evidence replays
find target -maxdepth 1 -name "sim-[0-9]*" -mmin +120 -delete 2>/dev/null

build() {
    # cargo decides by modification times; decide by content, so that no change is ever missed
    local h old
    h=$( { find /repo/src sim/src sim/.cargo -type f -print0; printf '%s\0' /repo/Cargo.toml sim/Cargo.toml; } \
        | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
    old=$(cat target/.built 2>/dev/null)
    if [ "$h" = "$old" ] && [ -x target/release/sim ]; then return 0; fi
    rm -f "$ROOT/target/.built"
    (
        cd sim || exit 2
        cargo clean --release --offline -p il2-iltags -p sim >/dev/null 2>&1
        cargo build --release --offline >"$ROOT/target/build.log" 2>&1
    ) || { echo "build failed:"; tail -n 40 target/build.log; return 1; }
    echo "$h" >target/.built
}

exec 9>target/.lock
flock 9
build || exit 2
# a private copy, so that a later build cannot change a running check
BIN=$ROOT/target/sim-$$
cp -f target/release/sim "$BIN" || exit 2
flock -u 9
exec 9>&-
if [ "${1:-}" = "--setup" ]; then rm -f "$BIN"; echo built; exit 0; fi
trap 'rm -f "$BIN"' EXIT
if [ "${1:-}" = "--sim" ]; then shift; "$BIN" "$@"; exit $?; fi
"$BIN" check "$@"
exit $?

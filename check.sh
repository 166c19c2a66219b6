#!/bin/bash
# bash check.sh C01    (VERIF_SEED, VERIF_TIER from the environment)
set -u
cd "$(dirname "$0")" || exit 2
export WF_HOME="$PWD"
export HOME="${HOME:-/root}"
export PATH="/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN="${RUSTUP_TOOLCHAIN:-stable-x86_64-unknown-linux-gnu}"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_TARGET_DIR="$PWD/target" RUSTC_WRAPPER=
unset RUSTFLAGS CARGO_BUILD_RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
export VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="${VERIF_TIER:-quick}"
mkdir -p target evidence
if ! cargo build --offline --manifest-path wfmon/Cargo.toml --message-format=json-render-diagnostics \
        > target/messages.json 2> "target/build-${1:-setup}.log"; then
    grep -E '^(error|warning: unused)' -A 12 "target/build-${1:-setup}.log" | head -60
    echo "the monitor did not build"
    exit 2
fi
# the library as built just now, for programs that use its macros
grep -o '"filenames":\["[^"]*/libwayfinder-[^"/]*\.rlib"' target/messages.json | tail -1 | sed 's/.*\["//; s/"$//' > target/rlib.path
[ "${1:-setup}" = setup ] && exit 0
exec target/debug/wfmon "$1"

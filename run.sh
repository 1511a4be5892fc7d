#!/bin/bash
# run.sh <property> [quick|thorough]: builds the harness against /repo's current tree and runs one check.
# run.sh --replay <file>: runs one saved case again.
# run.sh --build: builds only.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never VERIF_DIR=$here
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
unset RUSTFLAGS CARGO_TARGET_DIR
target=$here/target
mkdir -p "$target" || exit 2

# one build at a time
exec 9> "$target/.lock"
flock 9

# cargo goes by mtimes; a file put back with an old mtime must not go unnoticed
stamp=$target/.inputs
inputs() {
    (cd /repo && find . \( -path ./.git -o -path ./target \) -prune -o -type f \
        \( -name '*.rs' -o -name '*.lalrpop' -o -name '*.toml' \) ! -name '*_syntax.rs' -print0 | LC_ALL=C sort -z | xargs -0 sha256sum)
    (cd "$here/harness" && find . -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum)
}
now=$(inputs)
if [ ! -f "$stamp" ] || [ "$now" != "$(cat "$stamp")" ]; then
    rm -rf "$stamp" "$target"/release/.fingerprint/luafmt-* "$target"/release/.fingerprint/harness-*
fi
log=$target/build.log
if ! cargo build --release --offline --locked --manifest-path "$here/harness/Cargo.toml" --target-dir "$target" > "$log" 2>&1; then
    tail -40 "$log"
    echo "ERROR: the build failed; no verdict"
    exit 2
fi
echo "$now" > "$stamp"
flock -u 9
exec 9>&-

case "$1" in
--build) exit 0 ;;
--replay) exec "$target/release/check" --replay "$2" ;;
*) # luafmt reports every bad option value on stderr; only what the harness says is of interest
    exec "$target/release/check" "$1" --tier "${2:-${VERIF_TIER:-quick}}" 2> >(grep -a -v -E '^(Invalid|Unrecognized) ' >&2) ;;
esac

#!/bin/bash
# check.sh ID [quick|thorough] [facet]   builds the check from /repo's working tree and runs it
# check.sh --build                       builds every check binary
# check.sh --replay FILE                 re-runs the failing case in FILE
export HOME="${HOME:-/root}" LANG="${LANG:-C.UTF-8}"
export PATH="/root/.cargo/bin:${PATH:-/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin}"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUST_BACKTRACE=0
unset RUSTFLAGS RUSTDOCFLAGS CI
here=$(cd "$(dirname "$0")" && pwd)
export VP_ROOT="$here" CARGO_TARGET_DIR="$here/target"
cd "$here/harness" || exit 2

# automod::dir! lists a directory at compile time and cargo does not notice an added or removed file
list="$CARGO_TARGET_DIR/.rs-files"
mkdir -p "$CARGO_TARGET_DIR"
now=$(cd /repo && find bin/src libs arma -name target -prune -o -name '*.rs' -print | LC_ALL=C sort)
if [ -f "$list" ] && [ "$now" != "$(cat "$list")" ]; then
    cargo clean --offline -q -p hemtt-common -p hemtt-config -p hemtt-preprocessor -p hemtt-stringtable \
        -p hemtt-workspace -p hemtt-sqf -p hemtt 2>/dev/null
fi
printf '%s\n' "$now" > "$list"

build() {
    local log="$CARGO_TARGET_DIR/build.log"
    if ! cargo build --offline --locked -q "$@" > "$log" 2>&1; then
        echo "check.sh: the build failed"
        grep -E '^error' -A8 "$log" | head -60
        return 1
    fi
}
bin_of() { case "$1" in Q*|E*) echo vp-sqf ;; H*) echo vp-hls ;; *) echo vp-lib ;; esac; }

case "$1" in
    # one by one: the features of their dependencies differ
    --build) for p in vp-lib vp-sqf vp-hls; do build -p $p || bad=2; done; exit ${bad:-0} ;;
    --replay)
        f=$(realpath "$OLDPWD/$2" 2>/dev/null || realpath "$2")
        id=$(sed -n 's/.*"property": *"\([A-Z0-9]*\)".*/\1/p' "$f" | head -1)
        b=$(bin_of "$id"); build -p "$b" || exit 2
        exec "$CARGO_TARGET_DIR/debug/$b" --replay "$f" ;;
esac
b=$(bin_of "$1")
build -p "$b" || exit 2
exec "$CARGO_TARGET_DIR/debug/$b" "$@"

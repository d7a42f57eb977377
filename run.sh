#!/bin/bash
# run.sh build            build everything the checks need
# run.sh <property id>    build what this check needs from /repo's working tree, run it
# Environment: VERIF_SEED, VERIF_TIER (quick or thorough), VH_ONLY=<stage>:<case> to replay one case.
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/root/.cargo/bin:$PATH:/usr/local/bin:/usr/bin:/bin
export RUSTUP_HOME=${RUSTUP_HOME:-/root/.rustup} CARGO_HOME=${CARGO_HOME:-/root/.cargo}
export VH_VERIF=$here VH_BIN=$here/.build/repo/debug VH_SHIM=$here/.build/shim.so
export CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_TARGET_DIR RUST_BACKTRACE RAYON_NUM_THREADS TMPDIR
ulimit -c 0
id=$1
B=$here/.build
mkdir -p "$B" "$here/evidence" "$here/replays"

say() { echo "$*" >&2; }

# Cargo trusts modification times; a changed tree may carry old ones. Make it look at these crates again.
stale() {
    local d
    for d in "$1"/.fingerprint/pw_* "$1"/.fingerprint/vh-*; do
        [ -e "$d" ] && /bin/rm -rf "$d"
    done
    return 0
}

# The part of the harness this check needs, should the whole not build with a changed public interface.
part() {
    case $id in
    C03 | C04 | C05) echo changes ;;
    C07 | C08 | C09 | C10 | C11) echo apply ;;
    C13 | C14 | C15 | C16) echo cli ;;
    C17 | C18 | C19 | C20) echo unified ;;
    C21) echo det ;;
    C22 | C23) echo cmds ;;
    C24 | C25) echo views ;;
    esac
}

build_harness() {
    stale "$B/harness/debug"
    (cd "$here/harness" && CARGO_TARGET_DIR=$B/harness cargo build --offline --locked -q) >"$B/harness.log" 2>&1 && return
    [ "$id" != build ] &&
        (cd "$here/harness" && CARGO_TARGET_DIR=$B/harness cargo build --offline --locked -q --no-default-features --features "$(part)") >"$B/part.log" 2>&1 &&
        { say "only a part of the harness builds: see $B/harness.log"; return; }
    say "the harness does not build:"
    grep -A12 '^error' "$B/harness.log" | head -60 >&2
    return 1
}

build_tools() {
    stale "$B/repo/debug"
    (cd /repo && CARGO_TARGET_DIR=$B/repo cargo build --offline -q -p pw_diff -p pw_patch) >"$B/repo.log" 2>&1 ||
        { say "the commands do not build:"; grep -A12 '^error' "$B/repo.log" | head -60 >&2; return 1; }
    gcc -shared -fPIC -O1 -w -o "$B/shim.so.new" "$here/shim/shim.c" -ldl >"$B/shim.log" 2>&1 && mv "$B/shim.so.new" "$B/shim.so" ||
        { say "the monitor does not build:"; head -30 "$B/shim.log" >&2; return 1; }
}

# With a race detector in everything, the standard library included. Where this cannot be built the check
# goes without, and its evidence says so.
build_tsan() {
    stale "$B/tsan/x86_64-unknown-linux-gnu/debug"
    /bin/rm -f "$B/tsan/x86_64-unknown-linux-gnu/debug/vh"
    (cd "$here/harness" && RUSTFLAGS=-Zsanitizer=thread CARGO_TARGET_DIR=$B/tsan timeout 400 \
        cargo +nightly build --offline --locked -q --no-default-features --features det -Zbuild-std --target x86_64-unknown-linux-gnu) >"$B/tsan.log" 2>&1 ||
        say "no build with the race detector: see $B/tsan.log"
    return 0
}

exec 9>"$B/lock"
flock 9
case $id in
build)
    # Each check builds again what it needs and says so if it cannot.
    build_harness
    build_tools
    build_tsan
    exit 0 ;;
C13 | C14 | C15 | C16 | C22 | C23) build_harness && build_tools || exit 2 ;;
C21)
    build_harness && build_tools || exit 2
    if [ -z "$VH_ONLY" ]; then
        build_tsan
        stale "$B/miri/miri/x86_64-unknown-linux-gnu/debug"
        export VH_TSAN=$B/tsan/x86_64-unknown-linux-gnu/debug/vh VH_MIRI=$here/harness
    fi ;;
C[0-9][0-9]) build_harness || exit 2 ;;
*) say "usage: run.sh build|C01..C25"; exit 2 ;;
esac
flock -u 9

VH_SCRATCH=$(mktemp -d /tmp/vh.XXXXXXXX) || exit 2
chmod 711 "$VH_SCRATCH"
export VH_SCRATCH VH_SCRATCH2=/dev/shm/${VH_SCRATCH##*/}
clean() {
    case $VH_SCRATCH in
    /tmp/vh.????????) /bin/rm -rf "$VH_SCRATCH" "/dev/shm/${VH_SCRATCH##*/}" ;;
    esac
}
trap clean EXIT
trap 'exit 2' INT TERM
limit=840
[ "$VERIF_TIER" = thorough ] && limit=7200
timeout -k 10 $limit "$B/harness/debug/vh" "$id" 9>&-
rc=$?
[ $rc -gt 2 ] && { say "the check gave no answer (exit $rc)"; rc=2; }
exit $rc

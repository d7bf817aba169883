#!/bin/bash
# run.sh check ID [--tier T] [--case SUBSTR] | replay FILE | list ID | build
# Builds the explorers from /repo's current working tree (whatever changed there is rebuilt), then runs one.
V="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
export MC_ROOT="$V" CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET CARGO_INCREMENTAL
cd "$V/mc" || exit 2
# the code under test is identified by content, not by file times
export BIGO_HASH="$(cd /repo && find src Cargo.toml README.md -type f 2>/dev/null | LC_ALL=C sort | xargs sha256sum | sha256sum | cut -c1-32)"

build() { # package binary
    local log; log="$(mktemp)"
    if [ -z "$MC_FORCE_PLAIN" ] && cargo build --offline -q -p "$1" >"$log" 2>&1; then rm -f "$log"; BIN="$V/mc/target/debug/$2"; return 0; fi
    # the code under test may use something of std the stand-in lacks: fall back to the real std (without controlled atomics)
    if CARGO_TARGET_DIR="$V/mc/target_plain" cargo build --offline -q -p "$1" --features plain >"$log.2" 2>&1; then
        echo "note: built without the stand-in std:" >&2; tail -5 "$log" >&2; rm -f "$log" "$log.2"; BIN="$V/mc/target_plain/debug/$2"; return 0
    fi
    echo "the harness does not build against /repo:" >&2; tail -n 40 "$log" >&2; tail -n 40 "$log.2" >&2; rm -f "$log" "$log.2"; return 1
}

case "$1" in
  build) exec 9>"$V/mc/.lock"; flock 9; build harness_fast mcf && build harness mc || exit 2; cargo build --offline -q -p featdeps >&2 || exit 2; exit 0 ;;
  check|replay|list)
    id="$2"; [ "$1" = replay ] && id="$(grep -o '"property": *"[^"]*"' "$2" | head -1 | cut -d'"' -f4)"
    exec 9>"$V/mc/.lock"; flock 9
    case "$id" in
      C04) build harness_fast mcf || exit 2 ;;
      C05|C06) build harness_fast mcf && build harness mc || exit 2 ;;
      *)   build harness mc || exit 2 ;;
    esac
    flock -u 9; exec 9>&-
    exec "$BIN" "$@" ;;
  selftest) exec 9>"$V/mc/.lock"; flock 9; build harness mc || exit 2; flock -u 9; exec 9>&-; exec "$BIN" selftest ;;
  *) echo "usage: run.sh check|replay|list|build|selftest ..." >&2; exit 2 ;;
esac

#!/bin/bash
# check.sh <property>     builds the harness against /repo's working tree and runs one check
# check.sh --build        only builds
# check.sh --replay FILE  replays one case
set -u
here="$(cd "$(dirname "$0")" && pwd)"
[ "${1:-}" != --replay ] || file="$(realpath -- "$2")" || exit 2
cd "$here/harness" || exit 2
export CARGO_NET_OFFLINE=true VERIF_ROOT="$here"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET
mkdir -p ../out ../evidence
# build DIRECTORY FEATURES
# cargo trusts modification times; the code under test is identified by its content instead
build() {
  export CARGO_TARGET_DIR="$here/harness/$1"
  mkdir -p "$1"
  (
    flock 9
    stamp="$( { cd /repo && find Cargo.toml src util/Cargo.toml util/src -type f | LC_ALL=C sort | xargs sha256sum; } | sha256sum )"
    if [ "$(cat "$1/repo.stamp" 2>/dev/null)" != "$stamp" ]; then
      cargo clean --release --offline -p newton_rootfinder -p util >/dev/null 2>&1
      rm -f "$1/repo.stamp"
    fi
    cargo build --release --offline --locked --features "$2" >"$1/build.log" 2>&1 || { tail -n 60 "$1/build.log" >&2; exit 2; }
    echo "$stamp" > "$1/repo.stamp"
  ) 9>"$1/lock" || { echo "error: the harness does not build against /repo" >&2; exit 2; }
}
# C33 is about the code built with its feature `additional_log_info`, and has a build of its own
of() {
  case "$1" in
    C33) build target/info loginfo ;;
    *) build target "" ;;
  esac
}
case "${1:-}" in
  --build) of C01; of C33; exit 0 ;;
  --replay)
    of "$(grep -o '"property": *"C[0-9]*"' "$file" | head -1 | grep -o 'C[0-9]*')"
    exec "$CARGO_TARGET_DIR/release/nrfcheck" replay "$file" ;;
  "") echo "usage: check.sh <property>|--build|--replay FILE" >&2; exit 2 ;;
  *) of "$1"; exec "$CARGO_TARGET_DIR/release/nrfcheck" run "$1" ;;
esac

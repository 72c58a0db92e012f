#!/bin/bash
# build.sh <history|plain|full|checked|mcd>: one build of a harness against the current tree of /repo
#   history  the library with the feature "history", release
#   plain    the library without optional features, release
#   full     the library with all features, release
#   checked  as history, with debug assertions and overflow checks
#   mcd      the harness for dead-stone detection
V=$(cd "$(dirname "$0")" && pwd) || exit 2
CRATE=mc PROFILE=release T=$V/target ARGS=
case $1 in
  history) ;;
  plain) T=$V/target/plain ARGS=--no-default-features ;;
  full) T=$V/target/full ARGS="--features deadstones" ;;
  checked) PROFILE=checked ;;
  mcd) CRATE=mcd ;;
  *) exit 2 ;;
esac
export CARGO_TARGET_DIR=$T CARGO_TERM_COLOR=never
mkdir -p "$T"
# cargo looks at modification times only; a tree that was replaced by an older one is rebuilt as well
H=$( (cd /repo && find Cargo.toml src -type f | LC_ALL=C sort | xargs -d '\n' sha256sum; cd "$V" && find $CRATE mc/src -name target -prune -o -type f -print | LC_ALL=C sort | xargs -d '\n' sha256sum) | sha256sum | cut -d' ' -f1)
S=$V/target/.stamp-$1
L=$V/target/build-$1.log
cd "$V/$CRATE" || exit 2
if [ "$(cat "$S" 2>/dev/null)" != "$H" ]; then
  cargo clean --offline --quiet --profile $PROFILE -p goban -p $CRATE >/dev/null 2>&1
fi
# shellcheck disable=SC2086
if ! cargo build --offline --quiet --profile $PROFILE $ARGS >"$L" 2>&1; then
  rm -f "$S"
  echo "build $1 failed:"
  grep -E '^error' -A6 "$L" | head -40
  exit 2
fi
echo "$H" >"$S"

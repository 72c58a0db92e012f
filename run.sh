#!/bin/bash
# run.sh <property>: build the harness from the current tree of /repo and explore the property.
# exit 0 held, 1 violated, 2 the check could not run
cd "$(dirname "$0")" || exit 2
V=$PWD
P=$1
export VERIF_TIER=${VERIF_TIER:-quick} VERIF_SEED=${VERIF_SEED:-1} VERIF_DIR=$V CARGO_TERM_COLOR=never
mkdir -p "$V/evidence" "$V/target"
# the builds a check needs: <name>, see build.sh
case $P in
  C17) BUILDS="mcd" ;;
  C18) BUILDS="history" ;;
  C19) BUILDS="checked plain" ;;
  C22) BUILDS="history plain full checked" ;;
  *) BUILDS="history plain" ;;
esac
PIDS=()
for b in $BUILDS; do
  "$V/build.sh" "$b" &
  PIDS+=($!)
done
for p in "${PIDS[@]}"; do
  wait "$p" || FAILED=1
done
[ -z "$FAILED" ] || { echo "the harness does not build against /repo"; exit 2; }
case $P in C17 | C18) ;; *) export MC_PLAIN=$V/target/plain/release/mc ;; esac
export MC_FULL=$V/target/full/release/mc MC_CHECKED=$V/target/checked/mc
case $P in
  C17) exec "$V/target/release/mcd" "$P" ;;
  C19) exec "$V/target/checked/mc" "$P" ;;
  *) exec "$V/target/release/mc" "$P" ;;
esac

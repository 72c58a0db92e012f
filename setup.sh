#!/bin/bash
# build all harnesses once (every check rebuilds what it needs from /repo by itself)
cd "$(dirname "$0")" || exit 2
mkdir -p evidence target
for b in history plain full checked mcd; do
  ./build.sh $b || exit 1
done

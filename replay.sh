#!/bin/bash
# usage: replay.sh <replay file>  - rebuild from /repo's working tree and replay one execution; exit 1 if it violates
f=$(realpath "$1")
cd "$(dirname "$0")" || exit 2
. ./env.sh
program "$(sed -n 's/^prop //p' "$f" | head -1)"
mkdir -p .build
build >.build/build-replay.log 2>&1 || { tail -40 .build/build-replay.log; exit 2; }
exec .build/target/release/$prog replay "$f"

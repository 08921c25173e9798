#!/bin/bash
# usage: check.sh <property> [quick|thorough]  - rebuild from /repo's working tree, then run the seeded search
cd "$(dirname "$0")" || exit 2
root=$PWD
prop=$1
export VERIF_TIER=${2:-${VERIF_TIER:-quick}}
. ./env.sh
program "$prop"
mkdir -p .build evidence replays
if ! build >.build/build-$prop.log 2>&1; then
  tail -40 .build/build-$prop.log
  echo "build failed: no answer"
  exit 2
fi
exec .build/target/release/$prog check "$prop" --root "$root"

#!/bin/bash
# Warm the build; checks build again themselves (a no-op when nothing changed)
cd "$(dirname "$0")" || exit 2
. ./env.sh
program P01
build || exit
program P21
build

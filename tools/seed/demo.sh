#!/bin/bash
# Builds the demonstration against the sources in the current directory and runs it.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 3
trap 'rm -rf -- "$T"' EXIT
S=$PWD/src
gcc -g -w -O0 -fno-strict-aliasing -I"$S" -I"$S/embedDB" -I"$S/spline" -I"$S/query-interface" -I"$PWD/lib/EmbedDB-Utility" -I"$D" \
    "$D/demo.c" "$S/embedDB/embedDB.c" "$S/spline/"*.c "$S/query-interface/"*.c "$PWD/lib/EmbedDB-Utility/embedDBUtility.c" -lm -o "$T/demo" || exit 3
cd "$T" && timeout 120 ./demo

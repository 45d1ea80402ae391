#!/bin/bash
# Builds the demonstration with the sources of the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 2
trap 'rm -f "$d/demo"; rmdir "$d"' EXIT
gcc -std=c11 -w -g -O1 -D_GNU_SOURCE @FLAGS@ -DZYCORE_STATIC_BUILD -I"$here" -Iinclude -Isrc "$here/demo.c" $(find src -name '*.c') -o "$d/demo" -lpthread || exit 3
timeout 120 "$d/demo"

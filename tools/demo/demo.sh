#!/bin/bash
# Exit 0 when the property holds, 1 when it is broken. Run in /repo after the build.
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 99
trap 'rm -rf "$t"' EXIT
lib=$(find "$PWD/_build" -name 'libmabain.so*' -type f | head -1)
g++ -std=c++17 -O1 -I"$PWD/src" "$here/demo.cpp" -o "$t/demo" "$lib" -Wl,-rpath,"$(dirname "$lib")" -lpthread -lrt || exit 98
cd "$t" && mkdir db && timeout 250 ./demo "$t"

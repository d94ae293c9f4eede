#!/bin/bash
# builds demo.c against /repo's headers and the built runtime and runs it (exit 0: property holds)
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d) || exit 4
trap 'rm -rf "$t"' EXIT
B=$PWD/_build
ln -s "$B/liboclgrind-rt.so" "$t/libOpenCL.so"; ln -s "$B/liboclgrind.so" "$t/"
gcc -w -I"$PWD/src" -I"$d" "$d/demo.c" -o "$t/demo" -L"$B" -loclgrind-rt -Wl,-rpath,"$t" -Wl,-rpath-link,"$B" -lpthread -lm || exit 4
cd "$t" && B=$B timeout 120 ./demo

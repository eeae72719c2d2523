#!/bin/bash
# Exits 0 if the property holds for the inputs of demo.c.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'find "$T" -delete' EXIT
gcc -g -w -o "$T/demo" "$D/demo.c" -I_build/tree/src "$PWD/_build/out/libohcount.so" || exit 2
cd "$T" && ./demo

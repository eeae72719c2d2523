#!/bin/bash
# Exits 0 if the property holds for the inputs of demo.c.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'find "$T" -delete' EXIT
gcc -g -w -fsanitize=address -o "$T/demo" "$D/demo.c" -I_build/tree/src _build/tree/src/{sourcefile,detector,licenses,parser,loc,log,diff,parsed_language}.c _build/tree/src/hash/language_hash.c -lpcre -lmagic || exit 2
cd "$T" && ./demo

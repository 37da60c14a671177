#!/bin/bash
# exits 0 if the property holds for the demonstrated case
H=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
gcc -g -O1 -w -D_GNU_SOURCE -Ilib/src -o "$T/demo" "$H/demo.c" lib/src/.libs/libcypher-parser.a -lm -lpthread || exit 2
cd "$T" && timeout 120 ./demo

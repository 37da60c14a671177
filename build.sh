#!/bin/bash
# build.sh: builds the library of /repo's working tree and the harness; prints the binary directory
set -e
cd "$(dirname "$0")"; ROOT=$PWD; REPO=${REPO:-/repo}
SAN="-g -O1 -fsanitize=address,undefined -fno-sanitize=nonnull-attribute,pointer-overflow -fno-sanitize-recover=undefined -fno-omit-frame-pointer"
mkdir -p build
lk=$(cat build.sh tools/buildlib.sh "$REPO"/lib/src/*.[ch] "$REPO"/lib/src/*.leg "$REPO"/lib/src/*.in "$REPO"/linter/src/*.[ch] 2>/dev/null | sha256sum | cut -c1-16)
hk=$(cat harness/*.cc harness/tsan/* harness/*.h harness/*.def build.sh "$REPO"/lib/src/cypher-parser.h.in | sha256sum | cut -c1-16)
L=$ROOT/build/lib-$lk; H=$ROOT/build/har-$hk; B=$ROOT/build/bin-$lk-$hk
if [ ! -e "$B/ok" ]; then
  if [ ! -e "$L/ok" ]; then
    ls -dt build/lib-* 2>/dev/null | tail -n +4 | xargs -r rm -rf
    REPO=$REPO bash tools/buildlib.sh "$L" clang "$SAN" >&2
    cp "$L/libcypher.a" "$L/libcypher_vf.a"
    objcopy --redefine-sym malloc=vf_malloc --redefine-sym calloc=vf_calloc --redefine-sym realloc=vf_realloc --redefine-sym free=vf_free --redefine-sym strdup=vf_strdup --redefine-sym strndup=vf_strndup "$L/libcypher_vf.a"
    clang -fsanitize=address,undefined "$L/cypher-lint.o" "$L/libcypher.a" -lm -o "$L/cypher-lint"
    # a variant that counts executed edges, for the work bounds of P02
    REPO=$REPO bash tools/buildlib.sh "$L/cov" clang "-O1 -g1 -fno-inline -fsanitize-coverage=trace-pc-guard" >&2
    objcopy --redefine-sym malloc=vf_malloc --redefine-sym calloc=vf_calloc --redefine-sym realloc=vf_realloc --redefine-sym free=vf_free --redefine-sym strdup=vf_strdup --redefine-sym strndup=vf_strndup "$L/cov/libcypher.a"
    # and one under the thread sanitizer, for P21
    REPO=$REPO bash tools/buildlib.sh "$L/tsan" clang "-O1 -g1 -fsanitize=thread" >&2
    rm -rf "$L"/*/obj "$L"/*/lib "$L"/*/linter "$L/obj"
    touch "$L/ok"
  fi
  if [ ! -e "$H/ok" ]; then
    ls -dt build/har-* 2>/dev/null | tail -n +3 | xargs -r rm -rf
    rm -rf "$H"; mkdir -p "$H"
    ls harness/*.cc | xargs -P 8 -I{} sh -c 'g++ -w -O1 -g1 -std=c++17 -Iharness -I'"$L/include"' -c {} -o '"$H"'/$(basename {} .cc).o' >&2
    touch "$H/ok"
  fi
  ls -dt build/bin-* 2>/dev/null | tail -n +4 | xargs -r rm -rf
  rm -rf "$B"; mkdir -p "$B"
  clang++ -fsanitize=address,undefined "$H"/*.o "$L/libcypher_vf.a" -lm -lpthread -o "$B/vf" >&2
  clang++ "$H"/*.o "$L/cov/libcypher.a" -lm -lpthread -o "$B/vf-cov" >&2
  [ ! -e harness/tsan/race.cc ] || clang++ -w -std=c++17 -O1 -g1 -fsanitize=thread -Iharness -I"$L/include" harness/tsan/race.cc "$L/tsan/libcypher.a" -lm -lpthread -o "$B/vf-race" >&2
  ln -s "$L/cypher-lint" "$B/cypher-lint"
  touch "$B/ok"
fi
echo "$B"

#!/bin/bash
# buildlib.sh OUTDIR CC "CFLAGS"
# Builds the library of /repo's current working tree, out of tree, as a static
# archive OUTDIR/libcypher.a with OUTDIR/include/cypher-parser.h.
# Nothing is written in /repo; only its sources are taken.
set -e
OUT=$1; CC=$2; CFLAGS=$3
REPO=${REPO:-/repo}
rm -rf "$OUT"; mkdir -p "$OUT/lib/src" "$OUT/linter/src" "$OUT/include" "$OUT/obj"
cp "$REPO"/lib/src/*.c "$REPO"/lib/src/*.h "$REPO"/lib/src/*.leg "$REPO"/lib/src/*.in "$OUT/lib/src/" 2>/dev/null || true
cp "$REPO"/linter/src/*.c "$OUT/linter/src/"
cp "$REPO"/linter/src/*.h "$OUT/linter/src/" 2>/dev/null || true
rm -f "$OUT"/lib/src/*_leg.c "$OUT/lib/src/cypher-parser.h"
cat > "$OUT/config.h" <<'EOC'
#define HAVE_C_VARARRAYS 1
#define HAVE_DECL_STRERROR_R 1
#define HAVE_ENDIAN_H 1
#define HAVE_INTTYPES_H 1
#define HAVE_OPEN_MEMSTREAM 1
#define HAVE_PTHREADS 1
#define HAVE_STDBOOL_H 1
#define HAVE_STDINT_H 1
#define HAVE_STDIO_H 1
#define HAVE_STDLIB_H 1
#define HAVE_STRERROR_R 1
#define HAVE_STRINGS_H 1
#define HAVE_STRING_H 1
#define HAVE_SYS_STAT_H 1
#define HAVE_SYS_TYPES_H 1
#define HAVE_UNISTD_H 1
#define HAVE__BOOL 1
#define STDC_HEADERS 1
#define TLS _Thread_local
#define PACKAGE "libcypher-parser"
#define PACKAGE_NAME "libcypher-parser"
#define PACKAGE_VERSION "0.6.4~devel"
#define PACKAGE_STRING "libcypher-parser 0.6.4~devel"
#define PACKAGE_BUGREPORT ""
#define PACKAGE_DEVELOPMENT_VERSION "devel"
#define PACKAGE_MAJOR_VERSION 0
#define PACKAGE_MINOR_VERSION 6
#define PACKAGE_PATCH_VERSION 4
#define VERSION "0.6.4~devel"
EOC
for h in "$OUT"/lib/src/*.h.in; do
  sed -e 's/@PACKAGE_VERSION@/0.6.4~devel/g' -e 's/@PACKAGE_MAJOR_VERSION@/0/g' \
      -e 's/@PACKAGE_MINOR_VERSION@/6/g' -e 's/@PACKAGE_PATCH_VERSION@/4/g' \
      -e 's/@PACKAGE_DEVELOPMENT_VERSION@/devel/g' -e 's/@PACKAGE_STATUS_VERSION@/0/g' \
      "$h" > "${h%.in}"
done
cp "$OUT/lib/src/cypher-parser.h" "$OUT/include/"
for g in "$OUT"/lib/src/*.leg; do leg -o "${g%.leg}_leg.c" "$g" 2>/dev/null; [ -s "${g%.leg}_leg.c" ]; done
cd "$OUT/lib/src"
ls *.c | grep -v '_leg\.c$' | xargs -P "${JOBS:-8}" -I{} $CC -std=gnu11 $CFLAGS -w -D_GNU_SOURCE -I. -c {} -o ../../obj/{}.o
cd "$OUT"; ar rcs libcypher.a obj/*.o
$CC -std=gnu11 $CFLAGS -w -D_GNU_SOURCE -Ilib/src -c linter/src/cypher-lint.c -o cypher-lint.o

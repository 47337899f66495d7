#!/bin/bash
# check.sh ID            run the check of one property (VERIF_SEED, VERIF_TIER from the environment)
# check.sh --replay FILE re-run one saved failure
# Builds everything it needs from /repo's working tree in a scratch directory it removes.
set -u
ROOT=$(cd "$(dirname "$0")" && pwd)
REPO=${VP_REPO:-/repo}
export LC_ALL=C VP_ROOT=$ROOT
if [ "${1:-}" = --replay ]; then ID=$(sed -n 's/^property //p' "$2" | head -1); FILE=$(realpath "$2"); else ID=${1:?usage: check.sh ID}; fi
B=$(mktemp -d /tmp/vp-check-XXXXXX) || exit 3
trap 'rm -rf "$B"' EXIT
trap 'exit 3' INT TERM
export VP_SCRATCH=$B/scratch; mkdir -p "$VP_SCRATCH" "$B/lib"
SAN="-fsanitize=address,bounds,null,integer-divide-by-zero,return,vla-bound,object-size,alignment,unreachable -fno-sanitize-recover=all -fno-omit-frame-pointer"
[ "${VP_SAN:-}" = none ] && SAN=""
[ "$ID" = C41 ] && SAN= # billions of frames
SHIM=$SAN
[ "$ID" = C37 ] && SAN="-fsanitize=thread -fno-omit-frame-pointer" && SHIM=
CF="-O1 -g $SAN -w -I$REPO/src"
[ "$ID" = C41 ] && CF="-O2 -g -w -I$REPO/src"
export ASAN_OPTIONS=detect_leaks=0:allocator_may_return_null=1:exitcode=99:symbolize=${VP_SYMBOLIZE:-1}:handle_abort=1:max_malloc_fill_size=0
export TSAN_OPTIONS=halt_on_error=1:exitcode=99:report_atomic_races=0
export UBSAN_OPTIONS=print_stacktrace=1
LF=""; EXTRA=""
if [ "$ID" = C32 ]; then # the library as 32-bit targets build it
  LF="-include $ROOT/src/narrow.h"; EXTRA="$B/narrow.o $B/narrowtime.o"
fi
ALT=""
if [ "$ID" = C36 ]; then # the library built in other ways, each with the observing code, as shared objects
  ALT="0 1 2 3"; export VP_ALT=$B
  A[0]="gcc -O2 -std=c11 -D_GNU_SOURCE"; A[1]="gcc -O0 -funsigned-char -ftrivial-auto-var-init=pattern"; A[2]="gcc -O3"; A[3]="clang -O3 -ftrivial-auto-var-init=zero"
fi
{
  for f in "$REPO"/src/*.c; do echo "clang $CF $LF -fwrapv -c $f -o $B/lib/$(basename "$f" .c).o"; done
  for i in $ALT; do mkdir -p "$B/a$i"; for f in "$REPO"/src/*.c; do echo "${A[$i]} -fPIC -w -I$REPO/src -c $f -o $B/a$i/$(basename "$f" .c).o"; done; done
  [ -n "$ALT" ] && echo "clang++ -std=c++17 -O1 -fPIC -fvisibility=hidden -w -I$REPO/src -I$ROOT/src -c $ROOT/src/alt.cpp -o $B/altobs.o"
  [ -n "$EXTRA" ] && echo "clang $CF -c $ROOT/src/narrow.c -o $B/narrow.o" && echo "clang $CF $LF -fwrapv -c $ROOT/src/narrowtime.c -o $B/narrowtime.o"
  echo "clang -O1 -g $SHIM -w -c $ROOT/src/shim.c -o $B/shim.o"
  echo "clang++ -std=c++17 $CF -c $ROOT/src/engine.cpp -o $B/engine.o"
  echo "clang++ -std=c++17 $CF -I$ROOT/src -c $ROOT/props/$ID.cpp -o $B/prop.o"
} | xargs -P 8 -I{} sh -c '{} || exit 255' || { echo "build failed"; exit 3; }
clang++ $SAN -Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free "$B"/lib/*.o $EXTRA "$B"/shim.o "$B"/engine.o "$B"/prop.o -O1 -lm -o "$B/check" || { echo "link failed"; exit 3; }
for i in $ALT; do clang++ -shared -Wl,-Bsymbolic "$B/a$i"/*.o "$B/altobs.o" -lm -o "$B/alt$i.so" || { echo "link failed"; exit 3; }; done
cd "$ROOT" || exit 3
if [ "$1" = --replay ]; then "$B/check" --replay "$FILE"; else "$B/check" "$ID"; fi
exit $?

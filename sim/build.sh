#!/bin/bash
# Builds the simulator and the instrumented library copies from /repo's working
# tree into $1 (default /verif/build).  Offline, parallel, cached by content.
set -e
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=${SIM_REPO:-/repo}
OUT=${1:-$HERE/../build}
N=${SIM_NINST:-14}
mkdir -p "$OUT/lib" "$OUT/exe"
OUT=$(cd "$OUT" && pwd)
J=$(nproc)
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
CXX=clang++
LF="-g1 -fPIC -O1 -std=c++17 -fsanitize=thread -mllvm -tsan-instrument-func-entry-exit=1 -D__LOCK_FREE__ -DMB_ENABLE_TRAVERSAL_LIMIT -I$REPO/src -I$REPO/src/util -w"
KEY=$( (cd "$REPO/src" && find . -maxdepth 2 \( -name '*.cpp' -o -name '*.h' -o -name '*.hpp' \) -not -path './unittest/*' -not -path './test/*' -print0 | sort -z | xargs -0 sha256sum; cat "$HERE"/shim* "$HERE/build.sh"; echo "$N") | sha256sum | cut -c1-24)
LIBKEY="$OUT/lib/key"
job() { echo "$@"; }
{
  for f in "$REPO"/src/*.cpp "$REPO"/src/util/*.cpp "$REPO"/src/detail/*.cpp; do
    b=$(basename "$f" .cpp)
    [ "$b" = lb_range_cache_shared ] && continue
    d=$(basename "$(dirname "$f")")
    if [ "$(cat "$LIBKEY" 2>/dev/null)" != "$KEY" ]; then
      echo "$CXX $LF -c $f -o $OUT/lib/$d-$b.o"
    fi
  done
  if [ "$(cat "$LIBKEY" 2>/dev/null)" != "$KEY" ]; then
    rm -f "$OUT"/lib/*.o
    echo "$CXX -g1 -fPIC -O1 -std=c++17 -w -I$REPO/src -I$REPO/src/util -I$HERE -c $HERE/shim.cpp -o $OUT/lib/zz-shim.o"
  fi
  for f in "$HERE"/*.cpp; do
    b=$(basename "$f" .cpp)
    [ "$b" = shim ] && continue
    o="$OUT/exe/$b.o"
    if [ ! -e "$o" ] || [ -n "$(find "$HERE" -maxdepth 1 \( -name '*.h' -newer "$o" -o -path "$f" -newer "$o" \) | head -1)" ]; then
      echo "g++ -g1 -O1 -std=c++17 -D_GNU_SOURCE -Wall -Wno-unused-result -Wno-missing-attributes -Wno-nonnull-compare -Wno-builtin-declaration-mismatch -fno-builtin -c $f -o $o"
    fi
  done
} > "$OUT/jobs"
xargs -P "$J" -I{} sh -c '{} || exit 255' < "$OUT/jobs"
if [ "$(cat "$LIBKEY" 2>/dev/null)" != "$KEY" ]; then
  $CXX -shared -Wl,-Bsymbolic -Wl,--gc-sections -o "$OUT/lib/inst0.so" "$OUT"/lib/*.o -lpthread
  for i in $(seq 1 $((N-1))); do cp "$OUT/lib/inst0.so" "$OUT/lib/inst$i.so"; done
  echo "$KEY" > "$LIBKEY"
fi
if [ ! -e "$OUT/exe/jemalloc.a" ]; then
  JA=/usr/lib/x86_64-linux-gnu/libjemalloc_pic.a
  nm "$JA" 2>/dev/null | awk '$2 ~ /^[TWB]$/ && $3 !~ /^je_/ {print $3, "jx_" $3}' | sort -u > "$OUT/exe/je.syms"
  objcopy --redefine-syms="$OUT/exe/je.syms" "$JA" "$OUT/exe/jemalloc.a"
fi
g++ -rdynamic -o "$OUT/simx" "$OUT"/exe/*.o "$OUT/exe/jemalloc.a" -lm -ldl -lpthread

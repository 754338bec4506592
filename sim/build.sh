#!/bin/bash
# build.sh OUTDIR - build the simulator from /repo's current working tree (nothing is written to /repo)
set -e
OUT=$1
REPO=${REPO:-/repo}
HERE=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$OUT/o" "$OUT/h"
INC="-I$REPO/include -I$REPO/src -I/usr/include/libxml2"
LIBF="-g1 -O0 -fno-builtin -fstack-protector-all -fsanitize=thread --param tsan-instrument-func-entry-exit=0 -fPIC -Wno-nonnull-compare -Wno-psabi -w -DBIN_WRITE_PLUGIN"
jobs_file="$OUT/jobs"; : > "$jobs_file"
for f in $(cd "$REPO/src" && find . -name '*.cpp' -not -path './tests/*' | sort); do
  o="$OUT/o/$(echo "$f" | tr '/.' '__').o"
  echo "g++ $LIBF $INC -c $REPO/src/$f -o $o" >> "$jobs_file"
done
for f in $(cd "$REPO/src" && find . -name '*.c' -not -path './tests/*' | sort); do
  o="$OUT/o/$(echo "$f" | tr '/.' '__').o"
  echo "gcc $LIBF $INC -c $REPO/src/$f -o $o" >> "$jobs_file"
done
for f in "$HERE"/*.cpp; do
  o="$OUT/h/$(basename "$f").o"
  echo "g++ -g1 -O1 -std=c++17 -fno-builtin-malloc -w -DBIN_WRITE_PLUGIN $INC -I$HERE -c $f -o $o" >> "$jobs_file"
done
xargs -P 8 -I{} sh -c '{}' < "$jobs_file"
ld -r --force-group-allocation -o "$OUT/lib.o" "$OUT"/o/*.o
"$HERE/mkredir.sh" > "$OUT/redir"
# template instantiations of the library stay private to it (the harness has its own, not instrumented)
nm "$OUT/lib.o" | awk '($2=="W"||$2=="V") && $3 ~ /^_Z(N|NK|T.)?St|^_ZN(K)?9__gnu_cxx|^_ZSt/ {print $3}' > "$OUT/localize"
objcopy --redefine-syms="$OUT/redir" --localize-symbols="$OUT/localize" "$OUT/lib.o" "$OUT/lib_sim.o"
g++ -no-pie -o "$OUT/simrun" "$OUT/lib_sim.o" "$OUT"/h/*.o -lxml2

#!/bin/bash
# build.sh OUTDIR: builds the conformance driver from /repo's working tree.
set -e
H=$(cd "$(dirname "$0")" && pwd)
R=${REPO:-/repo}
O=$1
mkdir -p "$O"
SRC=$(find "$R/src" -name '*.c' | sort)
W="-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free,--wrap=time,--wrap=rand"
F="-std=gnu11 -O0 -g -w -fno-builtin-malloc -fsanitize=address -I$R"
gcc $F -c "$H/driver.c" -o "$O/driver.o" &
D=$(mktemp -d "$O/objXXXXXX")
N=0
for f in $SRC; do
  N=$((N + 1))
  gcc $F -fsanitize-coverage=trace-pc -c "$f" -o "$D/$N.o" &
done
for j in $(jobs -p); do wait $j; done
gcc -fsanitize=address "$O/driver.o" "$D"/*.o -o "$O/driver" $W -lm -lpthread

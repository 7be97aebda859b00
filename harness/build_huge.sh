#!/bin/bash
# build_huge.sh OUTDIR: builds the harness for huge tensors from /repo's working tree.
set -e
H=$(cd "$(dirname "$0")" && pwd)
R=${REPO:-/repo}
O=$1
mkdir -p "$O"
W="-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free,--wrap=time,--wrap=rand"
F="-std=gnu11 -O1 -g -w -fwrapv -fno-builtin-malloc -I$R"
D=$(mktemp -d "$O/hobjXXXXXX")
gcc $F -c "$H/huge.c" -o "$D/huge.o" &
N=0
for f in $(find "$R/src" -name '*.c' | sort); do
  N=$((N + 1))
  gcc $F -c "$f" -o "$D/$N.o" &
done
for j in $(jobs -p); do wait $j; done
gcc "$D"/*.o -o "$O/huge" $W -lm -lpthread

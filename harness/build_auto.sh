#!/bin/bash
# build_auto.sh OUTDIR: builds the conformance driver of auto_test from /repo's working tree.
set -e
H=$(cd "$(dirname "$0")" && pwd)
R=${REPO:-/repo}
O=$1
mkdir -p "$O"
F="-std=gnu++14 -O0 -g -w -fsanitize=address -I$R"
SRC=$(find "$R/auto_test" -maxdepth 1 -name '*.cpp' | sort)
D=$(mktemp -d "$O/aobjXXXXXX")
N=0
g++ $F -c "$H/auto_driver.cpp" -o "$D/driver.o" &
for f in $SRC; do
  N=$((N + 1))
  g++ $F -c "$f" -o "$D/$N.o" &
done
for f in $(find "$R/src" -name '*.c' | sort); do
  N=$((N + 1))
  gcc -std=gnu11 -O0 -g -w -fsanitize=address -I"$R" -c "$f" -o "$D/$N.o" &
done
for j in $(jobs -p); do wait $j; done
g++ -fsanitize=address "$D"/*.o -o "$O/auto_driver" -lgtest -lm -lpthread

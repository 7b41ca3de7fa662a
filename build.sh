#!/bin/bash
# build.sh OUTDIR [asan]  -- builds the simulator and the daemon library from /repo's working tree
set -e
OUT=$1; REPO=${REPO:-/repo}; V=$(cd "$(dirname "$0")" && pwd); mkdir -p "$OUT"
GL=$(pkg-config --cflags glib-2.0); GLL=$(pkg-config --libs glib-2.0); SAN=; DS=; NAME=sim; LIB=libdaemon.so
if [ "$2" = asan ]; then SAN=-fsanitize=address; DS=-DSIM_ASAN; NAME=sim_asan; LIB=libdaemon_asan.so; fi
mkdir -p "$OUT/$NAME.o"
pids=()
for f in arena vfs seams alloc plan world model oracle gen main; do
  o=$OUT/$NAME.o/$f.o
  if [ ! -f $o ] || [ -n "$(find $V/sim -newer $o -name "$f.cpp" -o -newer $o -name '*.h')" ]; then g++ -std=c++17 -O1 -g -fno-omit-frame-pointer -Wall -Wno-misleading-indentation -Wno-class-memaccess $SAN $DS $GL -c $V/sim/$f.cpp -o $o & pids+=($!); fi
done
for p in "${pids[@]}"; do wait $p; done
cp $REPO/bin/preload.conf "$OUT/shipped.conf" 2>/dev/null || rm -f -- "$OUT/shipped.conf"
rm -rf -- "$OUT/$LIB.d"
make -s -j8 -C $REPO/preload-src -f Makefile -f $V/sim/daemon.mk SIMOUT=$OUT/$LIB.d SIMLIB=$OUT/$LIB SIMFLAGS=$SAN $OUT/$LIB
g++ $SAN -rdynamic -o $OUT/$NAME $OUT/$NAME.o/*.o -ldl $GLL -lpthread

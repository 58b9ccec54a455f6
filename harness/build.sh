#!/bin/bash
# build.sh REPO OUTDIR : builds OUTDIR/harness from REPO's current library sources
set -e
R=$1; O=$2; H=$(cd "$(dirname "$0")" && pwd); mkdir -p "$O"
if [ -f "$R/config.h" ]; then CF="-DHAVE_GETTID -DHAVE_CONFIG_H -I$R -I$R/lib"; else CF="-DHAVE_GETTID -DVERSION=\"x\" -I$R -I$R/lib"; fi


CXX=clang++-18; command -v $CXX >/dev/null || CXX=clang++
pids=()
for s in "$R"/lib/*.cc; do b=$(basename "$s" .cc); [ "$b" = fullockversion ] && continue
 $CXX $CF -std=gnu++17 -w -O1 -g1 -fsanitize=thread -c "$s" -o "$O/l_$b.o" & pids+=($!); done
for s in "$H"/*.cc; do b=$(basename "$s" .cc); $CXX $CF -std=gnu++17 -w -O1 -g1 -c "$s" -o "$O/h_$b.o" & pids+=($!); done
echo 'char fullock_commit_hash[] = "verif";' > "$O/ver.cc"; $CXX -c "$O/ver.cc" -o "$O/h_ver.o"
for p in "${pids[@]}"; do wait $p; done
W=""; for f in getpid gettid pthread_getspecific pthread_setspecific clock_gettime sched_yield nanosleep stat lstat access kill fstat $(cat "$H/wraps" 2>/dev/null); do W="$W -Wl,--wrap=$f"; done
$CXX "$O"/l_*.o "$O"/h_*.o $W -o "$O/harness" -lpthread -lrt

#!/bin/bash
# build_bench.sh REPO OUT TYPE CC: the bundled programs, built by the project's own CMake files, and harnesses around their tasks
set -e
R=$1; O=$2; T=$3; CC=$4; B=$(cd "$(dirname "$0")/.." && pwd)
C=gcc X=g++; [ "$CC" = clang ] && C=clang X=clang++
EX=; [ "$CC" = asan ] && C=clang X=clang++ EX="-fsanitize=address"
( cmake -S "$R" -B "$O/cm" -G Ninja -DCMAKE_BUILD_TYPE=$T -DCMAKE_C_COMPILER=$C -DCMAKE_CXX_COMPILER=$X -DCMAKE_C_FLAGS="$EX" -DCMAKE_CXX_FLAGS="$EX" -DLACE_BUILD_TESTS=OFF -DCMAKE_POLICY_VERSION_MINIMUM=3.5 >"$O/cm.log" 2>&1 && ninja -C "$O/cm" >>"$O/cm.log" 2>&1 ) || { tail -20 "$O/cm.log"; exit 1; }
ps=
for b in cilksort matmul strassen knapsack queens dfs; do
  L=lace; case $b in matmul|strassen) L=lace14;; esac
  I=; [ $b = dfs ] && I=-finstrument-functions
  $C $EX -std=gnu11 -O2 -w $I -DB_$b -DBENCHSRC="\"$R/benchmarks/$b/$b-lace.c\"" -I"$O/cm" -I"$R/src" -I"$R/benchmarks" "$B/src/bench_h.c" "$O/cm/lib/lib$L.a" -o "$O/h-$b" -lpthread -lm & ps="$ps $!"
done
for p in $ps; do wait $p; done
printf '#!/bin/sh\nexport ASAN_OPTIONS=detect_leaks=0; exec python3 "%s/lib/bench.py" "%s" "$@"\n' "$B" "$O" >"$O/prog"; chmod +x "$O/prog"

#!/bin/bash
# build_gadget.sh REPO OUTDIR SOURCE VARIANT: a hand-written scenario (src/g_SOURCE.c) on the simulated engine
set -e
R=$1; O=$2; G=$3; V=$4
S=$(cd "$(dirname "$0")/../src" && pwd)
mkdir -p "$O/inc"
python3 "$S/../lib/mkconfig.py" "$R/src/lace_config.h.in" "$O/inc/lace_config.h" $LACECFG
INST="-O1 -g -std=gnu11 -fsanitize=thread -femulated-tls -mllvm -tsan-instrument-func-entry-exit=0 -include $S/simatomic.h -I$O/inc -I$R/src -I$S -w"
H=lace; D=; [ "$V" = 14 ] && { H=lace14; D=-DLACE14; }
clang $INST -c "$R/src/$H.c" -o "$O/lace.o" & p1=$!
clang $INST $D -c "$S/g_$G.c" -o "$O/g.o" & p2=$!
PL="-O2 -g -std=gnu11 -w -I$S"
clang $PL -c "$S/sim.c" -o "$O/sim.o" & p3=$!
clang $PL -c "$S/g_main.c" -o "$O/g_main.o" & p4=$!
wait $p1; wait $p2; wait $p3; wait $p4
for f in $(cat "$S/redirect.txt"); do echo "$f sim_$f"; done > "$O/redef"
for o in lace g; do objcopy --redefine-syms="$O/redef" "$O/$o.o"; done
objcopy --rename-section .bss=lace_bss --rename-section .data=lace_data "$O/lace.o"
clang -no-pie -o "$O/prog" "$O"/{lace,g,sim,g_main}.o -lm -lpthread

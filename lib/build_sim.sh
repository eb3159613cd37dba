#!/bin/bash
# build_sim.sh REPO OUTDIR [variant: 6|14] [extra defs...]: builds the simulated engine from the given source tree
set -e
R=$1; O=$2; V=${3:-6}; shift 3 || shift $#
S=$(cd "$(dirname "$0")/../src" && pwd)
mkdir -p "$O/inc"
python3 "$S/../lib/mkconfig.py" "$R/src/lace_config.h.in" "$O/inc/lace_config.h" $LACECFG
INST="-O1 -g -std=gnu11 -fsanitize=thread -femulated-tls -mllvm -tsan-instrument-func-entry-exit=0 -include $S/simatomic.h -I$O/inc -I$R/src -I$S -w $*"
H=lace; D=; [ "$V" = 14 ] && { H=lace14; D=-DLACE14; }
clang $INST -c "$R/src/$H.c" -o "$O/lace.o" &
clang $INST $D -c "$S/h.c" -o "$O/h.o" &
PL="-O2 -g -std=gnu11 -w -I$S"
clang $PL -c "$S/sim.c" -o "$O/sim.o" &
clang $PL -c "$S/mon.c" -o "$O/mon.o" &
clang $PL -c "$S/profiles.c" -o "$O/profiles.o" &
clang $PL -c "$S/sim_main.c" -o "$O/sim_main.o" &
for p in $(jobs -p); do wait $p; done
for f in $(cat "$S/redirect.txt"); do echo "$f sim_$f"; done > "$O/redef"
for o in lace h; do objcopy --redefine-syms="$O/redef" "$O/$o.o"; done
objcopy --rename-section .bss=lace_bss --rename-section .data=lace_data "$O/lace.o"
clang -no-pie -o "$O/sim" "$O/lace.o" "$O/h.o" "$O/sim.o" "$O/mon.o" "$O/profiles.o" "$O/sim_main.o" -lm -lpthread

#!/bin/bash
# build_native.sh REPO OUT VARIANT CC "FLAGS" "CONFIG": the harness on real threads
set -e
R=$1; O=$2; V=$3; CC=$4; FL=$5; CFG=$6; LIBS=$7
S=$(cd "$(dirname "$0")/../src" && pwd); mkdir -p "$O/inc"
python3 "$S/../lib/mkconfig.py" "$R/src/lace_config.h.in" "$O/inc/lace_config.h" $CFG
H=lace; D=; [ "$V" = 14 ] && { H=lace14; D=-DLACE14; }
P="-w -g -I$O/inc -I$R/src -I$S"
$CC -std=gnu11 $FL $P -c "$R/src/$H.c" -o "$O/lace.o" & p1=$!
if [[ "$CC" == *++* || "$HCXX" == 1 ]]; then echo unsupported; exit 9; fi
$CC -std=gnu11 $FL $P $D -c "$S/h.c" -o "$O/h.o" & p2=$!
$CC -std=gnu11 -O2 $P -c "$S/mon.c" -o "$O/mon.o" & p3=$!
$CC -std=gnu11 -O2 $P -c "$S/profiles.c" -o "$O/profiles.o" & p4=$!
$CC -std=gnu11 -O2 $P -c "$S/native.c" -o "$O/native.o" & p5=$!
wait $p1; wait $p2; wait $p3; wait $p4; wait $p5
$CC $FL -o "$O/native" "$O"/{lace,h,mon,profiles,native}.o -lpthread -lm $LIBS

#!/bin/bash
# build_unit.sh REPO OUT SRC VARIANT CC "CONFIG": a native test program (src/u_SRC.c, or generated by lib/gen_SRC.py) and the real lace
set -e
R=$1; O=$2; U=$3; V=$4; CC=$5; CFG=$6
B=$(cd "$(dirname "$0")/.." && pwd); S=$B/src
mkdir -p "$O/inc"
python3 "$B/lib/mkconfig.py" "$R/src/lace_config.h.in" "$O/inc/lace_config.h" $CFG
H=lace; D=; [ "$V" = 14 ] && { H=lace14; D=-DLACE14; }
SAN="-fsanitize=address,undefined -fno-sanitize=function -fno-sanitize-recover=all -fno-omit-frame-pointer"
CXXM=0
case $CC in
 gcc)     C=gcc;   X=g++;     F="-O2";;
 gccO3)   C=gcc;   X=g++;     F="-O3 -DNDEBUG -march=native";;
 gccd)    C=gcc;   X=g++;     F="-O0";;
 clang)   C=clang; X=clang++; F="-O2";;
 asan)    C=clang; X=clang++; F="-O1 $SAN";;
 msan)    C=clang; X=clang++; F="-O1 -fsanitize=memory -fno-sanitize-recover=all -fno-omit-frame-pointer";;
 g++)     C=gcc;   X=g++;     F="-O2"; CXXM=1;;
 clang++) C=clang; X=clang++; F="-O2"; CXXM=1;;
 asan++)  C=clang; X=clang++; F="-O1 $SAN"; CXXM=1;;
esac
P="-g -w -I$O/inc -I$R/src -I$S -I$O $D"
L="-lpthread -lm"; [[ "$CFG" == *USE_HWLOC=1* ]] && L="$L -lhwloc"
WR=; 
$C -std=gnu11 $F $P -c "$R/src/$H.c" -o "$O/lace.o" & p1=$!
if [ -f "$B/lib/gen_$U.py" ]; then
  python3 "$B/lib/gen_$U.py" "$O" $V $CXXM
  ps=; OBJ="$O/lace.o $O/impl.o"
  $C -std=gnu11 $F $P -c "$O/impl.c" -o "$O/impl.o" & ps="$ps $!"
  for f in "$O"/main.c "$O"/part*.c; do
    o=${f%.c}.o; OBJ="$OBJ $o"
    if [ $CXXM = 1 ]; then cp "$f" "${f%.c}.cpp"; $X -std=gnu++11 $F $P -c "${f%.c}.cpp" -o "$o" & ps="$ps $!"
    else $C -std=gnu11 $F $P -c "$f" -o "$o" & ps="$ps $!"; fi
  done
  for p in $p1 $ps; do wait $p; done
else
  head -1 "$S/u_$U.c" | grep -q WRAP: && WR=$(head -1 "$S/u_$U.c" | sed 's/.*WRAP: *//; s/ *\*\/.*//' | tr ' ' '\n' | sed 's/^/-Wl,--wrap=/' | tr '\n' ' ')
  $C -std=gnu11 $F $P -c "$S/u_$U.c" -o "$O/u.o" & p2=$!
  wait $p1; wait $p2
  OBJ="$O/lace.o $O/u.o"
fi
LD=$C; [ $CXXM = 1 ] && LD=$X
$LD $F $WR -o "$O/prog" $OBJ $L

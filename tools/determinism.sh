#!/bin/bash
# determinism.sh <scenario> <seed0> <count> [-p k=v]: the same seeds in one batch, in a batch with another stride, and alone
cd "$(dirname "$0")/.."; S=$1 S0=$2 N=$3; shift 3; P=("$@")
read -r SIM LIB _ < <(python3 -m vlib.build)
T=$(mktemp -d)
ext() { grep -o '"seed":[0-9]*\|"hash":"[^"]*"' | paste - - | sort; }
$SIM batch --libdir $LIB $S $S0 --count $N "${P[@]}" --cpu 0 | ext > $T/a &
$SIM batch --libdir $LIB $S $S0 --count $N "${P[@]}" --cpu 1 | ext > $T/b &
( for k in 0 1 2; do $SIM batch --libdir $LIB $S $((S0+k)) --count $(((N+2-k)/3)) --stride 3 "${P[@]}"; done ) | ext > $T/c &
( for ((i=0;i<N;i++)); do $SIM one --libdir $LIB $S $((S0+i)) "${P[@]}"; done ) | ext > $T/d &
( for ((i=0;i<N;i++)); do $SIM one --libdir $LIB $S $((S0+i)) "${P[@]}" --trace /dev/null --choices > $T/o$i; $SIM one --libdir $LIB --replay $T/o$i; done ) | ext > $T/e &
wait
wc -l < $T/a
for x in b c d e; do diff -q $T/a $T/$x >/dev/null && echo same || { echo "DIFFERENT $x"; diff $T/a $T/$x | head -6; }; done
rm -rf "$T"

#!/bin/bash
# determinism.sh [RUNS]: the same seeds in other processes, on other processors, first or later in the process
B=${VSIM_TARGET:-/verif/target}/sim/harness; N=${1:-600}; T=$(mktemp -d /tmp/vdet.XXXX); bad=0
for p in ${PROPS:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C20 C21}; do
 HARNESS_TRACE=1 HARNESS_CPU=1 $B campaign $p 1 1 1000 $N $T/p1 | grep ^T > $T/a &
 HARNESS_TRACE=1 HARNESS_CPU=5 $B campaign $p $((N/2+1)) 1 1000 $((N/2)) $T/p2 | grep ^T > $T/b &
 HARNESS_TRACE=1 $B campaign $p 1 1 1000 $N $T/p3 | grep ^T > $T/c &
 # each of them alone in its process
 for i in $(seq 1 $((N/10))); do HARNESS_TRACE=1 $B campaign $p $((i*7)) 1 100 1 $T/p4 | grep ^T; done > $T/d
 wait
 D=$(join -t$'\t' -j 2 -o 1.3,1.4,1.5,2.3,2.4,2.5 <(sort -k2,2 $T/a) <(sort -k2,2 $T/d) | awk -F'\t' '$1!=$4||$2!=$5||$3!=$6' | wc -l)
 X="$(wc -l <$T/a) $(diff $T/a $T/c | wc -l) $(diff <(tail -$((N/2)) $T/a) $T/b | wc -l) $D"
 echo "$p runs=$(wc -l <$T/a) other-process=$(diff $T/a $T/c | wc -l) later-start=$(diff <(tail -$((N/2)) $T/a) $T/b | wc -l) alone=$D"
 case "$X" in *" 0 0 0") ;; *) bad=1;; esac
done
/bin/rm -rf "$T"; exit $bad

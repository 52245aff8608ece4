#!/bin/bash
# find.sh PROP SECONDS OUT [REGEX]: look for a violation (matching REGEX), minimise it to OUT
B=${VSIM_TARGET:-/verif/target}/sim/harness; P=$1; S=$2; O=$3; R=${4:-.}
T=$(mktemp -d /tmp/vfind.XXXX)
for i in 0 1 2 3 4 5 6 7; do (HARNESS_KEEP_GOING=1 HARNESS_CPU=$i timeout $((S+30)) $B campaign $P $((SEED0+i)) 8 $S 100000000 $T/p$i > $T/o$i 2>$T/e$i) & done; wait
grep -h ^V $T/o* | cut -f5 | sed 's/[-0-9]\+/#/g' | sort | uniq -c | sort -rn | cut -c1-260
grep -h ^S $T/o0 | cut -c1-120; cat $T/e* | sort | uniq -c | head -5
L=$(grep -hE "^V" $T/o* | grep -E "$R" | awk '{print length($0) "\t" $0}' | sort -n | head -1 | cut -f2-)
if [ -n "$L" -a "$O" != - ]; then
 IFS=$'\t' read -r _ p seed case msg devs hash <<<"$(echo "$L" | sed 's/\t\t/\t \t/g')"
 printf 'vsim-replay 1\nengine harness\nproperty %s\nsimseed %s\ncase %s\nchoices %s\nhash %s\nviolation %s\n' "$p" "$seed" "$case" "$devs" "$hash" "$msg" > $T/in
 $B minimise $T/in $O 40; cat $O
fi
/bin/rm -rf "$T"

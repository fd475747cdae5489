#!/bin/bash
# batch.sh ID...: confirm several planted bugs on two workers
D="$(dirname "$0")"; i=0; A=(); B=()
for x in "$@"; do if [ $((i%2)) = 0 ]; then A+=($x); else B+=($x); fi; i=$((i+1)); done
( for x in "${A[@]}"; do "$D/confirm.sh" 1 $x; done > /tmp/w/out1 2>&1 ) &
( for x in "${B[@]}"; do "$D/confirm.sh" 2 $x; done > /tmp/w/out2 2>&1 ) &
wait; cat /tmp/w/out1 /tmp/w/out2 | cut -c1-260

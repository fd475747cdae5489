#!/bin/bash
# confirm.sh N ID [checks...]: confirm planted bug ID in worker N; default check: the bug's property
N=$1; ID=$2; shift 2; B=/tmp/w/$N; V="$(cd "$(dirname "$0")/../.." && pwd)"; S="$V/seeded/$ID"
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
CH=("$@"); [ ${#CH[@]} = 0 ] && CH=($P)
export DEMO_TARGET=$B/demo_target
cd "$B/repo" || exit 1
git checkout -q -- . ; cp /repo/Cargo.lock Cargo.lock
out="$ID [$P]"
bash "$S/demo.sh" >"$B/demo0.log" 2>&1; out+=" demo-clean=$?"
git apply "$S/patch.diff" || { echo "$ID: patch does not apply"; exit 1; }
bash "$S/demo.sh" >"$B/demo1.log" 2>&1; out+=" demo-bug=$?"
if [ -z "$NOTEST" ]; then
  ( . <(sed "s#cd /repo#cd $B/repo#" /opt/vp/env.sh); cargo test $SCOPE --no-fail-fast -- --test-threads 8 ) >"$B/test.log" 2>&1
  out+=" tests=$? pass=$(grep -c '^test .* ok$' "$B/test.log") fail=$(grep -c '^test .* FAILED$' "$B/test.log")"
fi
for c in "${CH[@]}"; do
  t0=$(date +%s); VERIF_SEED=${SEED:-1} VERIF_TIER=quick "$B/verif/run.sh" $c --tier quick >"$B/check-$c.log" 2>&1; r=$?
  v=$(grep -c "^VIOLATION property=$c" "$B/check-$c.log")
  out+=" $c:rc=$r,v=$v,$(( $(date +%s)-t0 ))s"
done
git checkout -q -- .
echo "$out"
head -2 "$B/demo1.log" | cut -c1-220
head -1 "$B/demo0.log" | cut -c1-220
for c in "${CH[@]}"; do grep -h -B3 -m1 "VIOLATION" "$B/check-$c.log" | cut -c1-250 | head -4; done

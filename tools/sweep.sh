#!/bin/bash
# tools/sweep.sh SECONDS "variants" "profiles" [seed]: violations by class per variant and profile (development aid)
cd "$(dirname "$0")/.." || exit 1
declare -A E; while read -r n e; do E[$n]=$e; done < <(python3 tools/build.py $2)
for v in $2; do for p in $3; do echo "$v $p ${E[$v]}"; done; done | xargs -P ${SWEEP_P:-8} -L 1 bash -c 'o=$($2 explore --prop $1 --seed '${4:-1}' --time '$1' --twice 3 --keep-going 2>/tmp/sw.$$ ); echo "== $0 $1 $(echo "$o" | python3 -c "import json,sys; d=json.load(sys.stdin); print({k:d[k] for k in (\"runs\",\"violations\",\"errors\",\"first_error\",\"nondeterministic\",\"expected_exits\",\"max_steps\",\"runs_reaching_fair_phase\")})" 2>&1)
$(grep -v "^violation" /tmp/sw.$$ | head -12)"; rm -f /tmp/sw.$$'

#!/bin/bash
# seedrun.sh [id ...]: apply each planted bug to /repo, run its property's quick check, undo. Prints CAUGHT/MISSED.
cd "$(dirname "$0")/.." || exit 2
ids=${*:-$(ls seeded)}
for id in $ids; do
	p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
	git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id APPLY FAILED"; continue; }
	for c in ${CHECK:-$p}; do
		s=$(date +%s); o=$(tools/check.sh $c quick 2>&1); r=$?
		v=$(echo "$o" | grep -m1 VIOLATION)
		if [ $r = 1 ] && [ -n "$v" ]; then echo "$id $c CAUGHT $(( $(date +%s) - s ))s $v"; else echo "$id $c MISSED rc=$r $(echo "$o" | tail -1)"; fi
	done
	git -C /repo checkout -q -- .
done

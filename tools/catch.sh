#!/bin/bash
# catch.sh [ID...]: runs, for every planted bug, the check of the property it breaks (or $PROPS), and prints what it says.
cd "$(dirname "$0")/.." || exit 2
for b in ${*:-$(ls seeded)}; do
	p=${PROPS:-$(python3 -c "import json,sys; print(json.load(open(sys.argv[1]))['property'])" seeded/$b/meta.json)}
	for q in $p; do
		o=$(tools/with.sh "$PWD/seeded/$b/patch.diff" timeout 900 ./run.sh $q 2>&1)
		c=$?
		case $c in 1) r=caught ;; 0) r=MISSED ;; *) r="error $c" ;; esac
		echo "$b $q $r $(echo "$o" | grep -A1 -m1 VIOLATION | tail -1 | cut -c1-150)"
	done
done

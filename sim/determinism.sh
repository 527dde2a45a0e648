#!/bin/bash
# Executes the same seeds in differently divided processes and compares the hash of every event log.
V=${VERIF_DIR:-/verif}
B=$V/build/bin/frostsim
N=${N:-200}
for p in ${*:-$($B list)}; do
	B=$V/build/bin/frostsim; case $p in C12 | C17) B=$B-race ;; esac
	$B worker -prop $p -seed ${SEED:-77} -to $N -cap 10m -hashes | grep ^H | sort >/tmp/det1.$$
	for i in 0 1 2 3 4; do GOMAXPROCS=$((i + 1)) $B worker -prop $p -seed ${SEED:-77} -from $i -stride 5 -to $N -cap 10m -hashes | grep ^H; done | sort >/tmp/det2.$$
	if cmp -s /tmp/det1.$$ /tmp/det2.$$ && [ -s /tmp/det1.$$ ]; then echo "$p deterministic over $(wc -l </tmp/det1.$$) runs"; else echo "$p NOT deterministic"; diff /tmp/det1.$$ /tmp/det2.$$ | head -4; fi
done
rm -f /tmp/det1.$$ /tmp/det2.$$

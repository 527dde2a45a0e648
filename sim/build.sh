#!/bin/bash
# Builds the simulator against /repo's working tree: build.sh [race|plain|cmds]...
set -e
V=${VERIF_DIR:-/verif}
export VERIF_DIR=$V GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off CGO_ENABLED=${CGO_ENABLED-}
export GOCACHE=${FROSTSIM_GOCACHE:-$V/build/gocache}
unset CGO_ENABLED
mkdir -p "$V/build/ov" "$V/build/bin" "$GOCACHE"
cd "$V/sim"
[ "$#" -gt 0 ] || set -- plain
(cd overlaygen && CGO_ENABLED=0 go build -o "$V/build/bin/overlaygen" .)
"$V/build/bin/overlaygen" -out "$V/build/ov"
for what; do
	case $what in
	plain) CGO_ENABLED=0 go build -overlay "$V/build/ov/sim.json" -o "$V/build/bin/frostsim" ./frostsim ;;
	race) CGO_ENABLED=1 go build -race -overlay "$V/build/ov/sim.json" -o "$V/build/bin/frostsim-race" ./frostsim ;;
	cmds) (cd /repo && for c in keygen signer; do CGO_ENABLED=0 go build -overlay "$V/build/ov/cmd.json" -o "$V/build/bin/cmd-$c" "./cmd/$c"; done) ;;
	esac
done

#!/bin/bash
# run.sh PROPERTY: rebuilds the simulator from /repo's working tree and runs the check of one property.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR=$PWD
p=$1
shift
what=plain
bin=frostsim
case $p in
C12 | C17) what=race bin=frostsim-race ;;
C23 | C24) what="plain cmds" ;;
esac
mkdir -p build
(flock 9 && sim/build.sh $what) 9>build/.lock || { echo "build failed" >&2; exit 2; }
exec "build/bin/$bin" check -prop "$p" -tier "${VERIF_TIER:-quick}" -seed "${VERIF_SEED:-1}" "$@"

#!/bin/bash
# with.sh [-R] PATCH CMD...: applies PATCH to /repo (-R: reversed), runs CMD, and restores /repo.
r=
[ "$1" = -R ] && r=-R && shift
p=$1
shift
git -C /repo diff --quiet || { echo "/repo is not clean" >&2; exit 9; }
git -C /repo apply $r "$p" || exit 9
"$@"
c=$?
git -C /repo checkout -q -- .
exit $c

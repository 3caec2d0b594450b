#!/bin/bash
# quiet.sh [SECONDS]: applies each correct rewrite of tools/quiet to /repo and
# runs every check on it. All must stay quiet.
cd "$(dirname "$0")/.." || exit 2
for d in tools/quiet/*.diff; do
	git -C /repo apply "$PWD/$d" || { echo "$d: does not apply"; continue; }
	for p in $(seq -f C%02g 1 20); do
		VERIF_SECONDS=${1:-6} ./check $p quick >/tmp/quiet.log 2>&1; rc=$?
		[ $rc = 0 ] || { echo "$d $p rc=$rc"; cp /tmp/quiet.log "/tmp/quiet.$(basename "$d").$p.log"; }
	done
	git -C /repo checkout -- .
done

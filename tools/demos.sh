#!/bin/bash
# demos.sh [ID...]: confirms that the demonstrations of planted bugs pass on
# /repo's HEAD, and fail with the patch applied, in scratch copies.
cd "$(dirname "$0")/../seeded" || exit 2
export SEEDED=$PWD
[ $# = 0 ] && set -- *
printf '%s\n' "$@" | xargs -P 8 -I{} bash -c '
	id={}; t=$(mktemp -d) || exit
	git clone -q /repo "$t/repo" 2>/dev/null; cd "$t/repo" || exit
	c=0; timeout 300 "$SEEDED/$id/demo.sh" >"$t/clean" 2>&1 || c=$?
	if ! git apply "$SEEDED/$id/patch.diff" 2>/dev/null; then echo "$id: does not apply";
	elif ! go build ./... 2>/dev/null; then echo "$id: does not build"
	else
		b=0; timeout 300 "$SEEDED/$id/demo.sh" >"$t/bug" 2>&1 || b=$?
		r=0; go test -count=1 ./... >"$t/test" 2>&1 || r=$?
		echo "$id: clean $c, with the bug $b, tests $r"
	fi
	cd /; rm -r "$t"
'

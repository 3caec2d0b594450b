#!/bin/bash
# trybugs.sh ID...: applies each planted bug to /repo, runs the check of its
# property, and undoes it. Prints which were caught.
cd "$(dirname "$0")/.." || exit 2
for id in "$@"; do
	d=seeded/$id
	prop=${PROP:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
	git -C /repo apply "$PWD/$d/patch.diff" || { echo "$id: does not apply"; continue; }
	s=$(date +%s)
	./check "$prop" quick >"/tmp/try.$id.log" 2>&1; rc=$?
	git -C /repo checkout -- .
	e=$(date +%s)
	echo "$id $prop rc=$rc $((e-s))s $(grep -m1 VIOLATION "/tmp/try.$id.log" | cut -c1-200)"
done

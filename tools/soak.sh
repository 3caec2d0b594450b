#!/bin/bash
# soak.sh BUILD SECONDS FIRST [PROPS...]: runs one worker per property and tier
# without the driver and prints the violations found. A development aid.
build=$1 secs=$2 first=$3
shift 3
props=${*:-$(seq -f C%02g 1 20)}
cd "$(dirname "$0")/.." || exit 2
for p in $props; do
	for t in -quiet -thorough; do
		echo "$p $t"
	done
done | xargs -P "${JOBS:-6}" -L1 bash -c 'p=$1 t=$2
	o=$(timeout $(('"$secs"' * 3 + 60)) build/'"$build"'/simcheck worker -prop $p -first '"$first"' -stride 1 -seconds '"$secs"' -quiet $t 2>&1)
	echo "$o" | python3 -c "
import sys,json
p,t=\"$p\",\"$t\"
r=None;v=None;rest=[]
for l in sys.stdin:
    l=l.rstrip(chr(10))
    if l.startswith(chr(1)+\"simcheck R \"): r=json.loads(l[12:])
    elif l.startswith(chr(1)+\"simcheck V \"): v=json.loads(l[12:])
    else: rest.append(l)
print(p,t,\"plans\",r and r[\"plans\"],\"skipped\",r and r[\"skipped\"],\"nontrivial\",r and r[\"nontrivial\"])
if v: print(\"  VIOLATION seed\",v[\"seed\"],v[\"report\"][\"class\"],v[\"report\"][\"violation\"][:1500])
if r is None: print(\"  NO RESULT\",chr(10).join(rest[-30:])[:3000])
"' x

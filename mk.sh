#!/bin/bash
# mk.sh NAME: instruments a copy of /repo's sources and builds the simulator
# into build/NAME; with the race detector too for the properties that need it.
cd "$(dirname "$0")" || exit 2
VERIF_DIR=${VERIF_DIR:-$PWD}
. ./env.sh
name=$1
out=$VERIF_DIR/build/$name
mkdir -p "$out" || exit 2
cd sim || exit 2
go build -o "$out/instr" ./cmd/instr || exit 2
"$out/instr" /repo github.com/go-restruct/restruct "$out/gen" || exit 2
race=
case $name in
C01|C02|C14|C18|all) race=1 ;;
esac
if [ -n "$race" ]; then
	go build -race -overlay "$out/gen/overlay.json" -o "$out/simcheck-race.new" ./cmd/simcheck &
	rp=$!
fi
go build -overlay "$out/gen/overlay.json" -o "$out/simcheck" ./cmd/simcheck || exit 2
if [ -n "$race" ]; then
	wait $rp || exit 2
	mv "$out/simcheck-race.new" "$out/simcheck-race"
fi

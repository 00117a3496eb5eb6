#!/bin/bash
# instrument.sh DIR [race]: write an instrumented copy of the library's sources to DIR/inst and build the
# checker against it as DIR/mc (and, with the race detector, DIR/mc.race).
cd "$(dirname "$0")/.." || exit 2
. tools/env.sh
D=$1
mkdir -p "$D/inst" || exit 2
cd mc || exit 2
go run ./cmd/instrument /repo "$D/inst" >"$D/inst/log" || exit 2
cat "$D/inst/log"
go build -overlay "$D/inst/overlay.json" -o "$D/mc" . || exit 2
if [ "$2" = race ]; then
	go build -race -overlay "$D/inst/overlay.json" -o "$D/mc.race" . || exit 2
fi

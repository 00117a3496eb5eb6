#!/bin/bash
# Warm the build cache, with and without the race detector.
cd "$(dirname "$0")/.." || exit 2
. tools/env.sh
mkdir -p .build out evidence
D=$(mktemp -d "$PWD/.build/warm-XXXXXX") || exit 2
trap '/bin/rm -rf "$D"' EXIT
(cd mc && go build -o "$D/plain" . && go build -tags held -o "$D/plain" .) || exit 1
tools/instrument.sh "$D" race || true

#!/bin/bash
# check.sh PROPERTY TIER [extra flags]: build the checker against /repo's working tree, run one check.
cd "$(dirname "$0")/.." || exit 2
V=$PWD
. tools/env.sh
mkdir -p .build out evidence
D=$(mktemp -d "$V/.build/run-XXXXXX") || exit 2
trap '/bin/rm -rf "$D"' EXIT
P=$1 T=$2
TAGS=; [ "$P" = C16 ] && TAGS="-tags held" # the only check that reads the fields of the decoded structures
shift 2
case $P in
C11|C12)
	R=; [ "$P" = C11 ] && R=race
	if tools/instrument.sh "$D" $R >"$D/log" 2>&1; then :; else cat "$D/log" >&2; echo "check.sh: build failed" >&2; exit 2; fi
	grep -q 'uncontrolled=0$' "$D/inst/log" || export MC_UNCONTROLLED=1
	[ -n "$R" ] && set -- -racebin "$D/mc.race" "$@" ;;
*)
	if (cd mc && go build $TAGS -o "$D/mc" .) >"$D/log" 2>&1; then :; else cat "$D/log" >&2; echo "check.sh: build failed" >&2; exit 2; fi ;;
esac
"$D/mc" -prop "$P" -tier "$T" -verif "$V" "$@"
exit $?

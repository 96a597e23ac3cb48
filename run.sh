#!/bin/bash
# run.sh PROPERTY quick|thorough: decides one property on /repo's current source.
V="$(cd "$(dirname "$0")" && pwd)"
ID="$1"
TIER="${2:-quick}"
if [ ! -x "$V/bin/ogdlcheck" ] || [ -n "$(find "$V/checker" -newer "$V/bin/ogdlcheck" -name '*.go' -print -quit)" ]; then
	if ! bash "$V/setup.sh"; then
		echo "the checker cannot be built"
		exit 2
	fi
fi
"$V/bin/ogdlcheck" -prop "$ID" -tier "$TIER" -repo "${OGDL_REPO:-/repo}" -verif "$V"
rc=$?
if [ $rc -ne 0 ] && [ $rc -ne 1 ]; then
	# the analysis itself broke down on this source: undecided is not a pass
	mkdir -p "$V/evidence"
	echo "the checker ended with status $rc" >"$V/evidence/$ID.violations.txt"
	echo "VIOLATION property=$ID replay=$V/evidence/$ID.violations.txt"
	exit 1
fi
exit $rc

#!/bin/bash
# run.sh PROPERTY TIER: builds the harness against /repo's working tree, runs the monitored workload.
cd "$(dirname "$0")" || exit 2
. /opt/vp/env.sh
ID=$1
TIER=${2:-${VERIF_TIER:-quick}}
SEED=${VERIF_SEED:-1}
case "$SEED" in ''|*[!0-9]*) SEED=1;; esac
BIN=$(mktemp -d /tmp/verif-bin-XXXXXX) || exit 2
trap 'rm -rf "$BIN"' EXIT
RACE=
[ "$ID" = C11 ] && RACE=-race
export GOFLAGS="-mod=mod -buildvcs=false"
if ! (cd harness && go build $RACE -o "$BIN/harness" .) 2>"$BIN/build.log"; then
	cat "$BIN/build.log" >&2
	echo "INCONCLUSIVE property=$ID the harness does not build against /repo" >&2
	exit 2
fi
if [ "$ID" = C23 ]; then
	if ! (cd /repo && go build -o "$BIN/readability" ./cmd/readability) 2>"$BIN/build.log"; then
		cat "$BIN/build.log" >&2
		exit 2
	fi
	export VERIF_CMD="$BIN/readability"
fi
"$BIN/harness" run -property "$ID" -tier "$TIER" -seed "$SEED" -out evidence -known known-findings.json

#!/bin/bash
# Warms the build cache; the checks build again from /repo's tree.
cd "$(dirname "$0")" || exit 1
. /opt/vp/env.sh
set -e
export GOFLAGS="-mod=mod -buildvcs=false"
T=$(mktemp -d /tmp/verif-setup-XXXXXX)
trap 'rm -rf "$T"' EXIT
cd harness
go build -o "$T/h" .
go build -race -o "$T/hr" .
(cd /repo && go build -o "$T/readability" ./cmd/readability)
"$T/h" list

#!/bin/bash
# Builds everything once, so that compilation errors are seen before the checks.
cd "$(dirname "$0")" || exit 1
. /opt/vp/env.sh
t=$(mktemp -d /tmp/verif-setup.XXXXXX) || exit 1
trap 'rm -rf "$t"' EXIT
cd harness && go build -buildvcs=false -o "$t/" ./cmd/vrun && go build -buildvcs=false -race -o "$t/" ./cmd/vrun

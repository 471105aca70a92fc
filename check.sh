#!/bin/bash
# ./check.sh ID [--case N]   decides property ID on the tree in /repo (or in $VERIF_REPO).
# Environment: VERIF_SEED (default 1), VERIF_TIER (quick|thorough).
id=${1:?usage: check.sh ID [--case N]}
shift
verif=$(cd "$(dirname "$0")" && pwd)
repo=${VERIF_REPO:-/repo}
. /opt/vp/env.sh
t=$(mktemp -d /tmp/verif-$id.XXXXXX) || exit 2
trap 'rm -rf "$t"' EXIT
export VRUN_TMP=$t/tmp VRUN_BIN=$t/bin VRUN_VERIF=$verif VRUN_REPO=$repo
mkdir -p "$t/tmp" "$t/bin"
cd "$verif/harness" || exit 2
sed "s#=> /repo#=> $repo#" go.mod >"$t/go.mod"
cp go.sum "$t/go.sum"
build() { go build -buildvcs=false -modfile="$t/go.mod" "$@" || { echo "BUILD FAILED: $*"; exit 2; }; }
race=
case $id in C05) race=-race ;; esac
# without the files of the other properties, if a function that only they call has another signature now
go build -buildvcs=false -modfile="$t/go.mod" $race -o "$t/vrun" ./cmd/vrun 2>/dev/null ||
    build $race -tags "only,$id" -o "$t/vrun" ./cmd/vrun
case $id in
C01 | C02 | C05 | C06 | C08 | C09 | C10 | C11 | C12 | C14 | C19 | C20 | C21 | C22 | C27 | C28)
    build $race -o "$t/bin/" github.com/l1va/goosli/cmd/goosli github.com/l1va/goosli/cmd/goosli_cutter \
        github.com/l1va/goosli/cmd/goosli_simplifier github.com/l1va/goosli/cmd/goosli_colorizer \
        github.com/l1va/goosli/cmd/goosli_analyzer
    ;;
esac
[ -n "$race" ] && export GORACE="halt_on_error=1 exitcode=66"
"$t/vrun" check "$id" "$@"

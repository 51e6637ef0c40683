#!/bin/bash
# check.sh <property> [arguments of the harness]: rebuilds the harness together
# with the current tree of /repo and runs one property's check.
# VERIF_SEED and VERIF_TIER choose the seed and the tier.
id=${1:?usage: check.sh <property> [args]}
shift
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d /tmp/verif-build-XXXXXXXX) || exit 2
trap 'rm -rf "${tmp:?}"' EXIT
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off GOSUMDB=off
race=
[ "$id" = C12 ] && race=-race
cd "$here/harness" || exit 2
repo=${VERIF_REPO:-/repo}
sed "s#=> /repo#=> $repo#" go.mod >"$tmp/go.mod" && cp go.sum "$tmp/go.sum" || exit 2
go build -modfile "$tmp/go.mod" $race -o "$tmp/harness" . || { echo "cannot build the harness with $repo"; exit 2; }
"$tmp/harness" -check "$id" -seed "${VERIF_SEED:-1}" -tier "${VERIF_TIER:-quick}" -verif "$here" "$@"

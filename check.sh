#!/bin/bash
# check.sh ID: verify the obligations that decide property ID against /repo.
export HOME=/root
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
cd "$(dirname "$0")" || exit 2
here=$(pwd)
mkdir -p .bin evidence || exit 2
(cd vc && go build -o "$here/.bin/rpcverify.$$" . && mv "$here/.bin/rpcverify.$$" "$here/.bin/rpcverify") || exit 2
[ "$1" = build ] && exit 0
exec ./.bin/rpcverify -check "$1" -verif "$here" -repo /repo -tier "${VERIF_TIER:-quick}" -seed "${VERIF_SEED:-1}"

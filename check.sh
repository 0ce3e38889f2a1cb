#!/bin/bash
# check.sh <property> [tier]   decide one property against /repo's current tree
# check.sh build               build the verifier
# check.sh replay <property> <file>   run a recorded failing input against the real code
cd "$(dirname "$0")" || exit 2
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off CGO_ENABLED=0
export GOPATH=${GOPATH:-/root/go} GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
V=$(pwd)
build() { mkdir -p .build && (cd gv && go build -o "$V/.build/gv" .); }
if [ ! -x .build/gv ] || [ -n "$(find gv -newer .build/gv -name '*.go' | head -1)" ]; then
  build || { echo "cannot build the verifier"; exit 2; }
fi
case "$1" in
build) exit 0 ;;
replay) exec .build/gv replay -repo /repo -verif "$V" -prop "$2" -tape "$3" ;;
*) exec .build/gv check -repo /repo -verif "$V" -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}" ;;
esac

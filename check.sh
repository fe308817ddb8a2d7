#!/bin/bash
# check.sh ID [quick|thorough]: decide one property on /repo's working tree.
cd "$(dirname "$0")" || exit 1
export VERIF_DIR="$PWD"
[ -d /opt/veriftools/go1.26.10/bin ] && export PATH=/opt/veriftools/go1.26.10/bin:$PATH
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off
export GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
mkdir -p bin evidence replays
if [ "$1" = setup ]; then
  (cd govc && go build -o ../bin/govc .) || exit 1
  (cd falsify && go build -o ../bin/falsify .) || exit 1
  exit 0
fi
(cd falsify && exec go build -o ../bin/falsify . >../bin/falsify.log 2>&1) &
FB=$!
(cd govc && go build -o ../bin/govc .) || { echo "govc does not build"; exit 1; }
if wait $FB; then export FALSIFY_BIN="$PWD/bin/falsify"; else cat bin/falsify.log; fi
exec bin/govc check "$1" "${2:-${VERIF_TIER:-quick}}"

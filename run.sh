#!/bin/bash
# run.sh ID TIER: decide one property with govc (see DESIGN.md).
export HOME="${HOME:-/root}"
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOTELEMETRY=off CGO_ENABLED=1
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod
unset GOVC_DUMP GOVC_DEBUG GOVC_PANIC
D="$(cd "$(dirname "$0")" && pwd)"
cd "$D" || exit 1
if [ "$1" = setup ]; then
  mkdir -p bin out evidence
  cd govc && exec go build -o ../bin/govc .
fi
if [ ! -x bin/govc ]; then
  mkdir -p bin
  (cd govc && go build -o ../bin/govc .) || exit 1
fi
exec bin/govc check "$1" -tier "${2:-quick}" -root "$D" -repo "${REPO:-/repo}"

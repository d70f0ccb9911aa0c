#!/bin/bash
# bash check.sh PROPERTY [quick|thorough]: decides one property for the code in /repo.
export HOME=${HOME:-/root}
export PATH=/usr/local/go/bin:$PATH
export GOPROXY=off GOTOOLCHAIN=local
here=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$here/bin"
bin=$here/bin/check
(cd "$here/engine" && GOFLAGS=-mod=mod go build -o "$bin" ./cmd/check) || exit 2
exec "$bin" -verif "$here" -p "$1" -tier "${2:-${VERIF_TIER:-quick}}"

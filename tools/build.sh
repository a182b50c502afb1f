#!/bin/bash
# Builds the analyser from the committed, vendored sources; offline.
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/go/bin:/usr/local/bin:$PATH HOME="${HOME:-/root}"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=vendor GOWORK=off CGO_ENABLED=0
here="$(cd "$(dirname "$0")/.." && pwd)"
mkdir -p "$here/bin"
cd "$here/h2mcheck" && go build -o "$here/bin/h2mcheck" .

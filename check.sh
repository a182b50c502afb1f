#!/bin/bash
# check.sh <property> [more flags]: decides one property on the current source of /repo.
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/go/bin:/usr/local/bin:$PATH HOME="${HOME:-/root}"
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off
here="$(cd "$(dirname "$0")" && pwd)"
id="$1"; shift
if [ ! -x "$here/bin/h2mcheck" ]; then bash "$here/tools/build.sh" || { echo "cannot build the analyser"; exit 2; }; fi
H2M_VERIF="${H2M_VERIF:-$here}" exec "$here/bin/h2mcheck" -prop "$id" "$@"

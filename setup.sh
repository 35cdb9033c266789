#!/bin/bash
# Warms the build caches; every check builds what it needs by itself.
export HOME=${HOME:-/root} PATH=/usr/local/go/bin:/usr/local/bin:/usr/bin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS="-mod=mod -buildvcs=false" GOWORK=off CGO_ENABLED=0
cd "$(dirname "$0")" || exit 1
if [ -d goverif ]; then (cd goverif && go build -o /dev/null .) || exit 1; fi
python3 -c 'import json; json.load(open("MANIFEST.json")); json.load(open("checks.json"))'

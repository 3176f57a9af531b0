#!/bin/bash
# builds the analyser from the committed sources (offline)
set -eu
here="$(cd "$(dirname "$0")" && pwd)"
bin="$here/bin/analyzer"
if [ -x "$bin" ] && [ -z "$(find "$here/analyzer" -newer "$bin" -type f | head -1)" ]; then exit 0; fi
mkdir -p "$here/bin"
cd "$here/analyzer"
export HOME="${HOME:-/root}"
GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off go build -o "$bin.tmp.$$" .
mv "$bin.tmp.$$" "$bin"

#!/bin/bash
# Builds the harness once (warms the Go build cache) and parses the specifications.
set -e
cd "$(dirname "$0")"
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
cp -r harness "$T/src"
(cd "$T/src" && go build -o "$T/h" . && go build -race -o "$T/hr" .)
for f in spec/*.tla; do
  (cd spec && java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$(basename $f)" >"$T/sany" 2>&1) || { cat "$T/sany"; exit 1; }
  if grep -q "\*\*\* Errors\|rror:" "$T/sany"; then cat "$T/sany"; exit 1; fi
done
echo setup ok

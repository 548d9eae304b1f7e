#!/bin/bash
# Builds everything once, so that the checks' own builds find a warm cache.
. "$(dirname "$0")/env.sh"
d=$(mktemp -d /tmp/verif-setup-XXXXXX)
trap 'rm -rf "$d"' EXIT
build_harness "$d/mon" || exit 1
build_harness "$d/mon-race" -race || exit 1
(cd /repo && go build -o "$d/cli" ./cmd/cli && GOOS=js GOARCH=wasm go build -o "$d/wasm" ./cmd/wasm) || exit 1
echo "setup ok"

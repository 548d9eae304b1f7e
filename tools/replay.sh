#!/bin/bash
# replay.sh FILE: runs one recorded workload again, on /repo's working tree. (Data race reports: run the check again.)
. "$(dirname "$0")/../env.sh"
VERIF_DIR=$(cd "$(dirname "$0")/.." && pwd)
d=$(mktemp -d /tmp/verif-replay-XXXXXX) || exit 2
trap 'rm -rf "$d"' EXIT
build_harness "$d/mon" -race || exit 2
(cd /repo && go build -o "$d/cli" ./cmd/cli && GOOS=js GOARCH=wasm go build -o "$d/topolith.wasm" ./cmd/wasm) || exit 2
export VERIF_WASM="$d/topolith.wasm" VERIF_WASM_EXEC="$(go env GOROOT)/lib/wasm" VERIF_CLI="$d/cli"
"$d/mon" -replay "$1"

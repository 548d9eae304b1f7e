#!/bin/bash
# check.sh PROPERTY [quick|thorough]: builds what the check needs from /repo's working tree and runs it.
. "$(dirname "$0")/env.sh"
prop=$1
tier=${2:-${VERIF_TIER:-quick}}
seed=${VERIF_SEED:-1}
d=$(mktemp -d "/tmp/verif-$prop-XXXXXX") || exit 2
chmod 755 "$d" # the workers run as another user
trap 'rm -rf "$d"' EXIT
flags=()
case $prop in
  C18|C20) flags=(-race) ;;
esac
build_harness "$d/mon" "${flags[@]}" || { echo "error: the harness does not build"; exit 2; }
args=(-prop "$prop" -seed "$seed" -verif "$VERIF_DIR")
[ "$tier" = thorough ] && args+=(-thorough)
case $prop in
  C23) (cd /repo && GOOS=js GOARCH=wasm go build -o "$d/topolith.wasm" ./cmd/wasm) || { echo "error: cmd/wasm does not build"; exit 2; }
       export VERIF_WASM="$d/topolith.wasm" VERIF_WASM_EXEC="$(go env GOROOT)/lib/wasm" ;;
  C30) (cd /repo && GOOS=js GOARCH=wasm go build -o "$d/topolith.wasm" ./cmd/wasm) || { echo "error: cmd/wasm does not build"; exit 2; }
       node "$VERIF_DIR/harness/web/bundle.js" /repo/web/src/main.tsx "$d/page.bundle.js" || { echo "error: web does not build"; exit 2; }
       export VERIF_WEB="$d/page.bundle.js" VERIF_WASM="$d/topolith.wasm" VERIF_WASM_EXEC="$(go env GOROOT)/lib/wasm" ;;
  C24) (cd /repo && go build -o "$d/cli" ./cmd/cli) || { echo "error: cmd/cli does not build"; exit 2; }
       export VERIF_CLI="$d/cli" ;;
esac
"$d/mon" "${args[@]}"

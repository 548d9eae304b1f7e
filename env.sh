# Sourced by setup.sh and check.sh: an offline Go environment.
export HOME=/root GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOWORK=off CGO_ENABLED=${CGO_ENABLED:-1}
unset GOOS GOARCH
VERIF_DIR=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)

# build OUT [go build flags...]: the harness, from /repo's working tree. With the undo/redo hooks if they
# compile, without them otherwise.
build_harness() {
  local out=$1; shift
  (cd "$VERIF_DIR/harness" && { go build -tags verif "$@" -o "$out" . 2>"$out.log" || go build "$@" -o "$out" . 2>>"$out.log"; }) ||
    { cat "$out.log" >&2; return 1; }
}

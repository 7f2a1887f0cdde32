#!/bin/bash
# check.sh PROPERTY [quick|thorough] [extra simcheck flags]   decide one property
# check.sh replay FILE [-v]                                   run a replay file again
# check.sh selftest [flags]                                   determinism self-test
# check.sh build DIR                                          only build, into DIR
#
# Everything is rebuilt from $REPO (default /repo)'s current working tree.
set -u
HERE=$PWD
VERIF=$(cd "$(dirname "$0")" && pwd)
REPO=${REPO:-/repo}
export GOPROXY=off GOFLAGS=-mod=mod GOTOOLCHAIN=local GONOSUMDB=* GONOSUMCHECK=1 GOFLAGS=-mod=mod GOWORK=off
mkdir -p "$VERIF/.build" || exit 2
find "$VERIF/.build" -maxdepth 1 -name 'b.*' -mmin +180 -exec rm -rf {} + 2>/dev/null
cmd=${1:-}
[ -n "$cmd" ] || { echo "usage: check.sh PROPERTY [quick|thorough]" >&2; exit 2; }
shift
if [ "$cmd" = build ]; then B=$1; mkdir -p "$B"; B=$(cd "$B" && pwd); KEEP=1; else B=$(mktemp -d "$VERIF/.build/b.XXXXXX") || exit 2; KEEP=; fi
cleanup() { [ -n "$KEEP" ] || rm -rf "$B"; }
trap cleanup EXIT
trap 'exit 2' INT TERM

build() { # $1: extra instrument flags
  local pool
  rm -rf "$B/src"; mkdir -p "$B/src";   cp -r "$VERIF/sim/." "$B/src/" || return 1
  pool=$(cd "$REPO" && GOFLAGS=-mod=readonly go list -m -f '{{.Dir}}' github.com/chronos-tachyon/bufferpool 2>/dev/null)
  if [ -n "$pool" ]; then
    rm -rf "$B/pool"; mkdir -p "$B/pool" && cp "$pool"/*.go "$B/pool/" && cp "$pool/go.mod" "$B/pool/" || return 1
    chmod -R u+w "$B/pool"; rm -f "$B/pool"/*_test.go
  fi
  {
    echo "module verifsim"; echo; echo "go 1.24"; echo
    echo "replace github.com/chronos-tachyon/morehttp => $REPO"
    [ -z "$pool" ] || echo "replace github.com/chronos-tachyon/bufferpool => $B/pool"
    echo "require github.com/chronos-tachyon/morehttp v0.0.0-00010101000000-000000000000"
    sed -n '/^require (/,/^)/p;/^replace /p' "$REPO/go.mod"
  } > "$B/src/go.mod"
  cp "$REPO/go.sum" "$B/src/go.sum" || return 1
  cd "$B/src" || return 1
  go build -o "$B/instr" ./instrument || return 1
  tags=$("$B/instr" -repo "$REPO" -out "$B" -goroot "$(go env GOROOT)" -bufferpool "${pool:+$B/pool}" -bridge "$VERIF/sim/bridge/bridge.go" $1) || return 1
  go build $RACE -gcflags=github.com/chronos-tachyon/morehttp/...=-lang=go1.21 -overlay "$B/overlay.json" -tags "$tags" -o "$B/simcheck" ./cmd/simcheck || return 1
}
mkdir -p "$B/src" "$B/tmp"
# C24 moves megabytes and is not about data races: without the detector it explores ten times as much.
RACE=${RACE--race}
case "$cmd" in
  C24) RACE= ;;
  replay) if grep -q '"property": "C24"' "$(cd "$HERE" && realpath "$1")" 2>/dev/null; then RACE=; fi ;;
esac
if ! build "" > "$B/build.log" 2>&1; then
  if ! build "-nogo" > "$B/build2.log" 2>&1; then
    cat "$B/build.log" >&2
    echo "check.sh: cannot build the simulator from $REPO" >&2
    exit 2
  fi
fi
cd "$VERIF" || exit 2
case "$cmd" in
  build) exit 0 ;;
  replay) F=$(cd "$HERE" && realpath "$1"); shift
    GORACE="suppress_equal_stacks=0 suppress_equal_addresses=0 exitcode=0 history_size=3 log_path=$B/tmp/race" GOMAXPROCS=1 "$B/simcheck" -verif "$VERIF" -replay "$F" "$@" ;;
  selftest)
    GORACE="suppress_equal_stacks=0 exitcode=0 log_path=$B/tmp/race" "$B/simcheck" -verif "$VERIF" -selftest "$@" ;;
  *)
    tier=${1:-${VERIF_TIER:-quick}}; [ $# -gt 0 ] && shift
    "$B/simcheck" -check "$cmd" -tier "$tier" -seed "${VERIF_SEED:-1}" -verif "$VERIF" -tmp "$B/tmp" -instrument "$B/instrument.json" "$@" ;;
esac
exit $?

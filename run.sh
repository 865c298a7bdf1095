#!/bin/bash
# run.sh check PROPERTY TIER | run.sh replay FILE | run.sh gen PROPERTY | run.sh mc ARGS...
# Builds the explorer together with /repo's current working tree in a scratch
# directory and runs it.
set -u
export HOME=/root
VERIF=$(cd "$(dirname "$0")" && pwd)
if [ -f /opt/vp/goenv.sh ]; then . /opt/vp/goenv.sh; fi
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=mod CGO_ENABLED=0
TMP=$(mktemp -d /tmp/verif-mc.XXXXXX) || exit 2
trap 'rm -rf "$TMP"' EXIT
mkdir -p "${GOCACHE:-/root/.cache/go-build}" 2>/dev/null && [ -w "${GOCACHE:-/root/.cache/go-build}" ] || export GOCACHE="$TMP/gocache"
cd "$VERIF/mc" || exit 2
GOROOT=$(go env GOROOT)
cp "$VERIF/mc/go.mod" "$TMP/go.mod" && cp "$VERIF/mc/go.sum" "$TMP/go.sum" || exit 2
# C24 needs the race detector
race=
case "$1 ${2:-}" in
  "check C24"|"gen C24"|"buildrace "*) race=1 ;;
  "replay "*) grep -q '"property": "C24"' "${2:-/dev/null}" && race=1 ;;
esac
built=
if [ -n "$race" ] && python3 "$VERIF/tools/overlay.py" "$GOROOT" "$TMP/ov" 2>"$TMP/ov.err"; then
  CGO_ENABLED=1 go build -race -modfile "$TMP/go.mod" -overlay "$TMP/ov/overlay.json" -tags maporder -o "$TMP/mc" . 2>"$TMP/build.err" && built=1
fi
if [ -n "$race" ] && [ -z "$built" ]; then
  CGO_ENABLED=1 go build -race -modfile "$TMP/go.mod" -o "$TMP/mc" . 2>"$TMP/build.err" && built=1
fi
if [ -n "$built" ]; then :; elif python3 "$VERIF/tools/overlay.py" "$GOROOT" "$TMP/ov" 2>"$TMP/ov.err"; then
  if go build -modfile "$TMP/go.mod" -overlay "$TMP/ov/overlay.json" -tags maporder -o "$TMP/mc" . 2>"$TMP/build.err"; then built=1; fi
fi
if [ -z "$built" ]; then
  go build -modfile "$TMP/go.mod" -o "$TMP/mc" . 2>"$TMP/build.err" || { cat "$TMP/build.err" >&2; echo "run.sh: the explorer does not build against /repo" >&2; exit 2; }
  echo "note: built without control of map iteration order"
fi
cmd=$1; shift
rc=0
case "$cmd" in
  check) "$TMP/mc" -verif "$VERIF" -prop "$1" -tier "$2" -seed "${VERIF_SEED:-1}" || rc=$? ;;
  gen) "$TMP/mc" -verif "$VERIF" -prop "$1" -tier thorough -gen -v -budget 3000s "${@:2}" || rc=$? ;;
  genq) "$TMP/mc" -verif "$VERIF" -prop "$1" -tier quick -gen -v -budget 3000s "${@:2}" || rc=$? ;;
  replay) "$TMP/mc" -verif "$VERIF" -replay "$1" || rc=$? ;;
  mc) "$TMP/mc" -verif "$VERIF" "$@" || rc=$? ;;
  setup) "$TMP/mc" -selftest || rc=$? ;;
  build|buildrace) cp "$TMP/mc" "$1" || rc=2 ;;
  *) echo "usage" >&2; rc=2 ;;
esac
exit $rc

#!/bin/bash
# bash check.sh PROPERTY TIER [SUB]: builds the harness against /repo's working
# tree and runs the generated checks of one property.
# bash check.sh replay FILE: runs one saved case.
root=$(cd "$(dirname "$0")" && pwd) || exit 3
export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off GOSUMDB=off CGO_ENABLED=0
export PATH="$PATH:/usr/local/bin:/usr/local/go/bin"
export VERIF_ROOT="$root"
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
# The checks with goroutines run under the race detector where it can be built.
export GORACE="halt_on_error=1 exitcode=66"
race() { (cd "$root/harness" && CGO_ENABLED=1 go build -race -o "$tmp/harness" .) >/dev/null 2>&1 && "$tmp/harness" list >/dev/null 2>&1; }
what=$1
[ "$1" = replay ] && grep -q '"property": *"C30"' "$2" && what=C30
if [ "$what" = C30 ] && race; then
  :
elif ! (cd "$root/harness" && go build -o "$tmp/harness" .) >"$tmp/build.log" 2>&1; then
  echo "check.sh: the harness does not build:" >&2
  cat "$tmp/build.log" >&2
  exit 3
fi
if [ "$1" = replay ]; then
  "$tmp/harness" replay "$2"
  rc=$?
  if [ $rc = 66 ]; then
    echo "VIOLATION property=C30 replay=$2"
    rc=1
  fi
  exit $rc
else
  "$tmp/harness" check "$1" "${2:-quick}" $3
fi
rc=$?
exit $rc

#!/bin/bash
# evalpatch.sh PATCH TIER PROP...: runs checks against a scratch copy of /repo
# with PATCH applied (development aid; the registered checks use /repo itself).
patch=$1; tier=$2; shift 2
export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off CGO_ENABLED=0
export PATH="$PATH:/usr/local/bin:/usr/local/go/bin"
w=$(mktemp -d /tmp/ev.XXXXXX); trap 'rm -rf "$w"' EXIT
cp -a /repo "$w/repo"; (cd "$w/repo" && git apply "$patch") || { echo "PATCH FAILS"; exit 3; }
cp -a /verif/harness "$w/harness"; sed -i "s#=> /repo#=> $w/repo#" "$w/harness/go.mod"
export GORACE="halt_on_error=1 exitcode=66"
case " $* " in
*" C30 "*) (cd "$w/harness" && CGO_ENABLED=1 go build -race -o "$w/h" .) || exit 3;;
*) (cd "$w/harness" && go build -o "$w/h" .) || exit 3;;
esac
mkdir -p "$w/root"; cp /verif/known_findings.json "$w/root/"
for p in "$@"; do
  out=$(VERIF_ROOT=$w/root VERIF_SEED=${VERIF_SEED:-1} timeout 900 "$w/h" check "$p" "$tier" 2>&1); rc=$?
  echo "$p rc=$rc $(echo "$out" | grep -m1 VIOLATION)"
done

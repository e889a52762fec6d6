#!/bin/bash
# usage: check.sh <property id> [vmon flags]
# Builds the monitors together with /repo's working tree in a private directory
# and runs those of one property. VERIF_SEED and VERIF_TIER are honoured.
set -u
ID=${1:?usage: check.sh <property id>}; shift
VERIF=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root}
export PATH=/usr/local/bin:$PATH
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off
export GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
unset GODEBUG GOTRACEBACK GOMAXPROCS
D=$(mktemp -d "${TMPDIR:-/tmp}/vmon.XXXXXXXX") || exit 2
trap 'rm -rf "$D"' EXIT
cp "$VERIF/harness/go.mod" "$D/go.mod" && cp "$VERIF/harness/go.sum" "$D/go.sum" || exit 2
export VMON_MODFILE="$D/go.mod" VMON_HARNESS="$VERIF/harness"
if ! (cd "$VERIF/harness" && go build -modfile "$VMON_MODFILE" -tags verif -o "$D/vmon" ./cmd/vmon) > "$D/build.log" 2>&1; then
  echo "CHECK-ERROR: building the monitors with /repo failed"; head -40 "$D/build.log"; exit 2
fi
T=""; [ "${VERIF_TIER:-quick}" = thorough ] && T=-thorough
"$D/vmon" -prop "$ID" -dir "$D" -verif "$VERIF" -seed "${VERIF_SEED:-1}" $T "$@"
exit $?

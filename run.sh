#!/bin/bash
# run.sh <property> [quick|thorough] [--only GEN] | run.sh replay FILE
# Builds the harness against /repo's current working tree in a scratch directory
# and runs the monitored workloads of one property.
set -u
HERE="$(cd "$(dirname "$0")" && pwd)"
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOROOT=/opt/veriftools/go1.27.3 GOTOOLCHAIN=local GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod
export GOCACHE="${GOCACHE:-/root/.cache/go-build}" GOFLAGS=-mod=mod GOPROXY=off GOWORK=off CGO_ENABLED=1 GOSUMDB=off
PROP="${1:?property}"; shift
TIER="${1:-${VERIF_TIER:-quick}}"; [ $# -gt 0 ] && shift
SEED="${VERIF_SEED:-1}"
WORK="$(mktemp -d /tmp/verif-run.XXXXXX)" || exit 2
trap 'rm -rf "$WORK"' EXIT
cp -r "$HERE/harness" "$WORK/h" || exit 2
cd "$WORK/h" || exit 2
# VERIF_REPO (development only): a scratch copy of /repo to run against.
REPO="${VERIF_REPO:-/repo}"
[ "$REPO" = /repo ] || sed -i "s#=> /repo\$#=> $REPO#" go.mod

RACE=""
[ "$PROP" = C25 ] && RACE="-race"
[ -n "${VERIF_RACE:-}" ] && RACE="-race"
# An accessor for the unexported commitment decoder goes in through an overlay.
cat > "$WORK/overlay.json" <<EOF
{"Replace": {"$REPO/poly/zz_verif_access.go": "$WORK/h/access/poly_access.go.txt"}}
EOF
if ! go build $RACE -tags verif_access -overlay "$WORK/overlay.json" -o "$WORK/harness" . >"$WORK/build.log" 2>&1; then
  if ! go build $RACE -o "$WORK/harness" . >"$WORK/build2.log" 2>&1; then
    cat "$WORK/build.log" "$WORK/build2.log"
    echo "ERROR: the harness does not build against /repo"
    exit 2
  fi
fi
if [ "$PROP" = setup ]; then # warm the build cache, race and non-race
  go build -race -o "$WORK/harness" . || exit 2
  exit 0
fi
# A crash of the whole process inside the library (stack overflow, concurrent map
# access, a panic in a goroutine of the library) is a violation with the crash
# report as its replay file; any other unexpected end is inconclusive.
watch() {
  "$@" 2>"$WORK/err"
  local rc=$?
  cat "$WORK/err" >&2
  if [ $rc -ne 0 ] && [ $rc -ne 1 ] && grep -qE '^(fatal error|panic|unexpected fault address|SIGSEGV)' "$WORK/err" && grep -qF "$REPO/" "$WORK/err"; then
    mkdir -p "$HERE/replays"
    head -c 60000 "$WORK/err" > "$HERE/replays/$PROP-crash.txt"
    grep -m1 -E '^(fatal error|panic|unexpected fault address|SIGSEGV)' "$WORK/err"
    echo "VIOLATION property=$PROP replay=$HERE/replays/$PROP-crash.txt"
    rc=1
  fi
  return $rc
}
if [ "$PROP" = replay ]; then
  if grep -q '"C25"' "$TIER" 2>/dev/null && [ -z "$RACE" ]; then
    VERIF_RACE=1 exec "$0" replay "$TIER"
  fi
  [ -n "$RACE" ] && export GORACE="halt_on_error=0 exitcode=0 log_path=$WORK/race" VERIF_RACE_LOG="$WORK/race"
  "$WORK/harness" -replay "$TIER" -verif "$HERE"
  exit $?
fi
if [ -n "$RACE" ]; then
  export GORACE="halt_on_error=0 exitcode=0 log_path=$WORK/race" VERIF_RACE_LOG="$WORK/race"
fi
watch "$WORK/harness" -prop "$PROP" -tier "$TIER" -seed "$SEED" -verif "$HERE" "$@"
exit $?

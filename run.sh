#!/bin/bash
# Usage: run.sh check <property>   run the property's check on /repo's working tree
#        run.sh replay <file>      replay a violation
#        run.sh setup              build everything once and try it out
#        run.sh build <dir>        only build the simulator into <dir>
# Environment: VERIF_SEED, VERIF_TIER (quick|thorough), VERIF_BUDGET (search time, e.g. 30s),
# VERIF_WORKERS, VERIF_REPO (default /repo)
set -u
HERE="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
REPO="${VERIF_REPO:-/repo}"
export GOFLAGS=-mod=mod GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off CGO_ENABLED=0 GOWORK=off GO111MODULE=on GONOSUMDB=* GOFLAGS
unset GOEXPERIMENT GODEBUG GOARCH GOOS

die() { echo "ERROR: $*" >&2; exit 3; }

CMD="${1:-}"; ARG="${2:-}"
[ "$CMD" = setup ] && ARG=-
[ -n "$CMD" ] && [ -n "$ARG" ] || die "usage: run.sh check|replay|build ARG"
command -v go >/dev/null || die "go not found"

if [ "$CMD" = build ]; then
  WORK="$ARG"; mkdir -p "$WORK" || die "cannot create $WORK"
else
  mkdir -p "$HERE/.work" || die "cannot create $HERE/.work"
  WORK="$(mktemp -d "$HERE/.work/$CMD-XXXXXX")" || die "no scratch directory"
  trap 'rm -rf -- "$WORK"' EXIT
fi

# module versions already in the module cache only
GOV="$(go env GOVERSION | sed -E 's/^go([0-9]+\.[0-9]+).*/\1/')"

(cd "$HERE/instr" && go build -trimpath -o "$WORK/instr" .) || die "the instrumenter does not build"

build() { # level std
  rm -rf -- "$WORK/m"
  mkdir -p "$WORK/m" || return 1
  cp -r "$HERE/rt/sim" "$HERE/rt/harness" "$WORK/m/" || return 1
  printf 'module zz.test\n\ngo %s\n' "$GOV" > "$WORK/m/go.mod"
  "$WORK/instr" -repo "$REPO" -out "$WORK/m" -level "$1" -std="$2" > "$WORK/instr.log" 2>&1 || return 1
  (cd "$WORK/m" && go build -trimpath -o "$WORK/simbin" ./harness) > "$WORK/build.log" 2>&1 || return 1
  return 0
}

LEVEL=2
if build 2 true; then :
elif cp "$WORK/instr.log" "$WORK/instr1.log" 2>/dev/null; cp "$WORK/build.log" "$WORK/build1.log" 2>/dev/null; build 2 false; then
  echo "note: std helpers not instrumented" >&2
elif build 1 false; then
  LEVEL=1; echo "note: reduced instrumentation (synchronisation only)" >&2
else
  cat "$WORK"/instr*.log "$WORK"/build*.log 2>/dev/null | tail -40 >&2
  die "the simulator does not build against $REPO"
fi

case "$CMD" in
build) exit 0 ;;
setup) # the framework builds against /repo; every property's machinery runs
  for P in C01 C08 C12 C14; do
    "$WORK/simbin" -mode check -prop "$P" -maxruns 400 -budget 10s -workers 2 -scratch "$WORK" -verif "$WORK" >"$WORK/setup.log" 2>&1
    [ $? -le 1 ] || { cat "$WORK/setup.log" >&2; die "setup: $P"; }
  done
  echo "setup: ok"; exit 0 ;;
replay) "$WORK/simbin" -mode replay -file "$ARG" ${VERIF_V:+-v}; exit $? ;;
check)
  if [ "$LEVEL" -lt 2 ]; then case "$ARG" in C05|C15)
    cat "$WORK"/instr*.log "$WORK"/build*.log 2>/dev/null | tail -40 >&2
    die "$ARG needs full instrumentation, which failed" ;; esac; fi
  TIER="${VERIF_TIER:-quick}"; [ "$TIER" = thorough ] || TIER=quick
  SEED="${VERIF_SEED:-1}"
  B="${VERIF_BUDGET:-}"
  [ -n "$B" ] || { if [ "$TIER" = thorough ]; then B=420s; else B=40s; fi; }
  W="${VERIF_WORKERS:-}"
  [ -n "$W" ] || { W="$(nproc 2>/dev/null || echo 4)"; [ "$W" -gt 8 ] && W=8; }
  "$WORK/simbin" -mode check -prop "$ARG" -tier "$TIER" -seed "$SEED" -budget "$B" -workers "$W" -scratch "$WORK" -verif "$HERE" -level "$LEVEL"
  exit $? ;;
*) die "unknown command $CMD" ;;
esac

#!/bin/bash
# run.sh check ID [quick|thorough] | replay FILE | selftest [N] | setup
# Exit 0: held; 1: VIOLATION; anything else: the check itself failed.
set -u
VERIF="$(cd "$(dirname "$0")" && pwd)"
cd "$VERIF" || exit 3
export PATH="$PATH:/usr/local/go/bin" HOME="${HOME:-/root}"
W="$(mktemp -d "${TMPDIR:-/tmp}/vsim.XXXXXX")" || exit 3
trap 'rm -rf "$W"' EXIT
trap 'exit 3' INT TERM HUP
needrace() { case "$1" in C11|C25|C27) echo race;; esac; }
build() { ./build.sh "$W/b" "$W/h" "${1:-}" || { echo "check error: build failed" >&2; exit 3; }; rm -rf "$W/b/src"; }
case "${1:-}" in
setup)
  build; ./build.sh "$W/r" "$W/hr" race || exit 3
  "$W/h" selftest -count 3 || exit 3 ;;
check)
  ID="$2"; TIER="${3:-${VERIF_TIER:-quick}}"
  build "$(needrace "$ID")"
  mkdir -p "$W/k" evidence
  "$W/h" check -prop "$ID" -tier "$TIER" -seed "${VERIF_SEED:-1}" -verif "$VERIF" -work "$W/k" -procs "${VERIF_PROCS:-8}" \
    ${VERIF_SECS:+-secs "$VERIF_SECS"} -level "$(cat "$W/h.level")"
  rc=$?
  [ $rc -eq 0 ] || [ $rc -eq 1 ] || rc=3
  exit $rc ;;
replay)
  F="$(realpath "$2")" || exit 3
  ID="$(sed -n 's/^ "Property": "\([^"]*\)".*/\1/p' "$F" | head -1)"
  [ -n "$ID" ] || exit 3
  build "$(needrace "$ID")"
  GORACE="log_path=$W/race exitcode=0" "$W/h" replay "$F" ;;
selftest) # every property: two executions, a replay, and two process layouts must agree
  N="${2:-50}"
  build
  for r in "" race; do
    [ -z "$r" ] || build race
    export GORACE="log_path=$W/race exitcode=0"
    "$W/h" selftest -count "$N" || exit 1
    "$W/h" selftest -count "$N" -print > "$W/a" || exit 1
    "$W/h" list | while read -r id race; do
      { [ "$race" = true ] && [ -z "$r" ]; } || { [ "$race" = false ] && [ -n "$r" ]; } && continue
      GOMAXPROCS=8 GOGC=20 "$W/h" selftest -prop "$id" -count "$N" -print
    done > "$W/c"
    cmp "$W/a" "$W/c" || exit 1
  done
  echo "deterministic across processes" ;;
*) echo "usage: run.sh check ID [quick|thorough] | replay FILE | selftest [N] | setup" >&2; exit 3 ;;
esac

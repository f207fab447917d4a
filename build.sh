#!/bin/bash
# build.sh WORK OUT [race]  - instruments a copy of the current /repo tree in WORK and builds
# the harness binary OUT from it. /repo itself is only read.
set -u
VERIF="$(cd "$(dirname "$0")" && pwd)"
REPO="${VERIF_REPO:-/repo}"
WORK="$1"; OUT="$2"; RACE="${3:-}"
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GO111MODULE=on GOWORK=off
fail() { echo "build: $*" >&2; exit 3; }
mkdir -p "$WORK" || fail "no scratch directory"
(cd "$VERIF/tool" && go build -o "$WORK/vtool" .) || fail "tool"
ANTS="$(cd "$REPO" && go list -m -f '{{.Dir}}' github.com/panjf2000/ants/v2 2>/dev/null)"
[ -d "$ANTS" ] || ANTS="$(go env GOMODCACHE)/github.com/panjf2000/ants/v2@v2.4.3"
[ -d "$ANTS" ] || fail "ants module not found"

prepare() { # LEVEL
  local L="$1"
  rm -rf "$WORK/src"
  mkdir -p "$WORK/src/repo" "$WORK/src/ants" || return 1
  (cd "$REPO" && tar cf - --exclude=.git --exclude='*_test.go' . | tar xf - -C "$WORK/src/repo") || return 1
  (cd "$ANTS" && tar cf - --exclude='*_test.go' --exclude=examples . | tar xf - -C "$WORK/src/ants") || return 1
  cp -r "$VERIF/sim" "$WORK/src/sim" || return 1
  chmod -R u+w "$WORK/src"
  (cd "$WORK/src/ants" && go mod edit -go=1.21 -require=verifsim@v0.0.0 -replace=verifsim=../sim/verifsim \
      -droprequire=github.com/stretchr/testify) || return 1
  (cd "$WORK/src/sim/pcgr" && go mod edit -require=verifsim@v0.0.0 -replace=verifsim=../verifsim) || return 1
  local V; V="$(cd "$WORK/src/repo" && go mod edit -json | sed -n 's/^\t"Go": "1\.\([0-9]*\).*/\1/p')"
  [ -n "$V" ] && [ "$V" -ge 21 ] || V=21
  (cd "$WORK/src/repo" && go mod edit -go=1.$V -require=verifsim@v0.0.0 -replace=verifsim=../sim/verifsim \
      -replace=github.com/panjf2000/ants/v2=../ants -replace=github.com/dgryski/go-pcgr=../sim/pcgr) || return 1
  mkdir -p "$WORK/src/repo/vsim_deps" && printf 'package vsim_deps\n\nimport (\n\t_ "github.com/dgryski/go-pcgr"\n\t_ "github.com/panjf2000/ants/v2"\n)\n' \
      > "$WORK/src/repo/vsim_deps/deps.go" || return 1
  "$WORK/vtool" instrument "$L" "$WORK/src/repo" "$WORK/src/ants" || return 1
  mkdir -p "$WORK/src/repo/vsim_harness" && cp "$VERIF"/harness/*.go "$WORK/src/repo/vsim_harness/" || return 1
  (cd "$WORK/src/repo" && go build ${RACE:+-race} -o "$OUT" ./vsim_harness) || return 1
  echo "$L" > "$OUT.level"
}
for L in 2 1 0; do
  prepare "$L" && exit 0
  echo "build: level $L failed" >&2
done
fail "the instrumented program does not build"

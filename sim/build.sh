#!/bin/bash
# build.sh REPO OUTBIN : rewrite REPO's packages for simulation and build the
# harness against them. Prints nothing on success.
set -u
REPO=$1; OUTBIN=$2
SIM=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root}
for d in /opt/veriftools/go1.24.13/bin /opt/veriftools/go*/bin /usr/local/go/bin; do [ -x "$d/go" ] && { export PATH="$d:$PATH"; break; }; done
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GONOSUMDB=* GONOSUMCHECK=1 GOFLAGS="-mod=mod" CGO_ENABLED=0 GOWORK=off
[ -d /root/go/pkg/mod ] && export GOMODCACHE=/root/go/pkg/mod
W=$(mktemp -d "${TMPDIR:-/tmp}/vsasim.XXXXXX") || exit 3
trap 'chmod -R u+w "$W" 2>/dev/null; /bin/rm -r -f "$W"' EXIT
mkdir -p "$W/src" "$W/out/zsim" "$W/instr"
# 1. a copy of the sources (no tests, benchmarks, tools)
(cd "$REPO" && find . -name '*.go' ! -name '*_test.go' ! -path './benchmarks/*' ! -path './tools/*' ! -path './.git/*' ! -path './e2e/*' ! -path './test/*' -print0 | xargs -0 tar cf - go.mod go.sum) | tar xf - -C "$W/src" || { echo "copy failed" >&2; exit 3; }
# 2. the rewriter
cp "$SIM"/instr/*.go "$SIM"/instr/go.mod "$W/instr/"
(cd "$W/instr" && GOFLAGS= go build -o "$W/instrbin" .) || { echo "building the rewriter failed" >&2; exit 3; }
# 3. rewrite
(cd "$W/src" && "$W/instrbin" "$W/src" "$W/out" ./...) || { echo "rewriting failed" >&2; exit 3; }
# 4. runtime, fakes, harness
for d in "$SIM"/*/; do n=$(basename "$d"); [ "$n" = instr ] || cp -r "$d" "$W/out/zsim/$n"; done
cp "$REPO/go.mod" "$REPO/go.sum" "$W/out/"
(cd "$W/out" && go mod edit -replace github.com/redis/go-redis/v9=./zsim/goredis) || exit 3
# FlushKey has no caller in the package: reach it from within, if it still looks the same
cp "$SIM/access/tfd.txt" "$W/out/plugin/tfd/zsim_access.go"
(cd "$W/out" && go build ./plugin/tfd >/dev/null 2>&1) || cp "$SIM/access/tfd_none.txt" "$W/out/plugin/tfd/zsim_access.go"
(cd "$W/out" && go build -trimpath -o "$OUTBIN.tmp$$" ./zsim/harness && mv "$OUTBIN.tmp$$" "$OUTBIN") || { echo "building the harness failed" >&2; [ -n "${KEEP:-}" ] && cp -r "$W" "$KEEP"; exit 3; }
[ -n "${KEEP:-}" ] && cp -r "$W/out" "$KEEP"
exit 0

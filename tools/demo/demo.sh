#!/bin/bash
# Runs demo_test.go (beside this file) in a package that only exists in an overlay.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
export HOME=/root GOROOT=/opt/veriftools/go1.25.14 GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod
export PATH=$GOROOT/bin:$PATH
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
export GOCACHE=${DEMO_GOCACHE:-/root/.cache/go-build}
cat > "$tmp/o.json" <<X
{"Replace": {"$repo/internal/zzdemo/fed_test.go": "$here/fed_test.go", "$repo/internal/zzdemo/demo_test.go": "$here/demo_test.go"}}
X
cp "$repo/go.mod" "$tmp/demo.mod"; cp "$repo/go.sum" "$tmp/demo.sum"
flags=$(cat "$here/flags" 2>/dev/null)
go test $flags -c -o "$tmp/demo.test" -overlay "$tmp/o.json" -modfile "$tmp/demo.mod" -vet=off ./internal/zzdemo > "$tmp/out" 2>&1 || { cat "$tmp/out"; exit 3; }
(cd "$tmp" && ./demo.test -test.timeout 200s -test.run TestDemo > "$tmp/out" 2>&1)
rc=$?
tail -30 "$tmp/out"
exit $rc

#!/bin/bash
# Warms the build cache; the checks build what they need themselves.
cd "$(dirname "$0")/harness" || exit 1
export PATH=/opt/veriftools/go1.27.3/bin:$PATH HOME=/root GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOCACHE=/root/.cache/go-build GOMODCACHE=/root/go/pkg/mod
d=$(mktemp -d /tmp/boo-verif-setup-XXXXXX)
cp go.mod go.sum "$d"
go build -modfile "$d/go.mod" -tags verif -o "$d/vh" . && go build -race -modfile "$d/go.mod" -tags verif -o "$d/vhr" .
rc=$?
rm -rf "$d"
exit $rc

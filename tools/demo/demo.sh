#!/bin/bash
# Runs the test beside this script against the tree in the current directory.
export HOME=/root PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
cp go.mod "$tmp/d.mod"; cp go.sum "$tmp/d.sum"
printf '{"Replace":{"%s/zz_verif_lib_test.go":"%s/lib_test.go","%s/zz_verif_demo_test.go":"%s/demo_test.go"}}' "$PWD" "$here" "$PWD" "$here" > "$tmp/o.json"
go test -modfile "$tmp/d.mod" -vet=off -overlay "$tmp/o.json" -run '^TestZZDemo$' -count=1 -timeout 120s .

#!/bin/bash
# Demonstrates the recorded defects: fails on the base tree, passes on the repaired one.
d=$(cd "$(dirname "$0")" && pwd); repo=${1:-/repo}
o=$(mktemp); trap 'rm -f "$o"' EXIT
printf '{"Replace":{"%s/zz_defects_test.go":"%s/defects_test.go","%s/html/zz_more_test.go":"%s/more_test.go"}}' "$repo" "$d" "$repo" "$d" > "$o"
cd "$repo" && GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local go test -vet=off -count=1 -overlay "$o" -run TestDefect . ./html

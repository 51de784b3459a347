#!/bin/bash
# Runs demo_test.go inside package hotswap (external test package) with a stand-in for dlopen. cwd: the repository.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
. /opt/vp/env.sh
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
cat > "$tmp/ov.json" <<J
{"Replace": {
 "$GOROOT/src/plugin/plugin_dlopen.go": "$here/dlopen.go.txt",
 "$repo/zz_kit_test.go": "$here/kit_test.go",
 "$repo/zz_demo_test.go": "$here/demo_test.go"}}
J
export TMPDIR=$tmp
timeout -k 5 200 go test -overlay "$tmp/ov.json" -vet=off -count=1 -timeout 120s -run '^TestDemo' . 

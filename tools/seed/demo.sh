#!/bin/bash
# Runs the program beside this against the tree in the current directory.
# exit 0: what the property says was observed.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
[ -d /opt/veriftools/go1.27.3/bin ] && PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off GOWORK=off HOME="${HOME:-/root}"
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
mkdir "$t/demo" "$t/downscale"
cp "$here"/*.go "$t/demo/"
cp "$here/go.sum.txt" "$t/demo/go.sum"
cp "$here/downscale.txt" "$t/downscale/downscale.go"
printf 'module github.com/oov/downscale\n\ngo 1.27.3\n' > "$t/downscale/go.mod"
if [ ! -f "$repo/go.mod" ]; then
  cp -a "$repo" "$t/repo"; repo=$t/repo
  printf 'module github.com/oov/psd\n\ngo 1.27.3\n' > "$repo/go.mod"
fi
cat > "$t/demo/go.mod" <<EOF
module demo

go 1.27.3

require (
	github.com/oov/downscale v0.0.0
	github.com/oov/psd v0.0.0
	golang.org/x/image v0.47.0
	golang.org/x/text v0.43.0
)

require github.com/pkg/errors v0.9.1 // indirect

replace github.com/oov/psd => $repo

replace github.com/oov/downscale => $t/downscale
EOF
cd "$t/demo" || exit 2
go build RACE -o "$t/prog" . || exit 2
mkdir "$t/work" && cd "$t/work" || exit 2
timeout 200 "$t/prog"

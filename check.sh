#!/bin/bash
# check.sh ID            run the check of the property
# check.sh replay ID F   execute the case of a violation again
# check.sh build         build everything
cd "$(dirname "$0")" || exit 2
export VERIF_ROOT="$PWD"
[ -d /opt/veriftools/go1.27.3/bin ] && PATH=/opt/veriftools/go1.27.3/bin:$PATH
export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOSUMDB=off GOWORK=off
export GOPATH="${GOPATH:-/root/go}"
export GOCACHE="${VERIF_GOCACHE:-${GOCACHE:-$HOME/.cache/go-build}}"
export VERIF_PSD_INC=/repo/compress.inc.js
export VERIF_WASM_EXEC="$(go env GOROOT)/lib/wasm/wasm_exec_node.js"
mkdir -p out/bin evidence
# The project has no tracked go.mod. If there is none, one is supplied without writing to /repo.
OVERLAY=()
rm -f "$VERIF_ROOT/out/overlay.json"
if [ ! -f /repo/go.mod ]; then
  printf '{"Replace":{"/repo/go.mod":"%s/harness/repo.mod"}}\n' "$PWD" > out/overlay.json
  OVERLAY=(-overlay "$PWD/out/overlay.json")
fi
build() { # build target [race | 386 | wasm | gopherjs | generated]
  local o="$PWD/out/bin/$1"
  if [ "$2" = race ]; then
    (cd harness && go build -race "${OVERLAY[@]}" -o "$o.race" "./cmd/$1") >out/build-$1.log 2>&1
  elif [ "$2" = 386 ]; then
    (cd harness && GOARCH=386 go build "${OVERLAY[@]}" -o "$o.386" "./cmd/$1") >out/build-$1.log 2>&1
  elif [ "$2" = gopherjs ]; then
    # GopherJS itself is not available: its files are built by the ordinary compiler.
    build "$1"
    "$o" jsoverlay /repo "$PWD/out/overlay.json" "$PWD/out/overlay-js.json" "$PWD/out" &&
    (cd harness && GOARCH=386 go build -overlay "$VERIF_ROOT/out/overlay-js.json" -ldflags "-X verif/vk.archName=gopherjs" -o "$o.gopherjs" "./cmd/$1") >out/build-$1.log 2>&1
  elif [ "$2" = generated ]; then
    # What the generators write now is built instead of the committed files.
    build "$1"
    if ! { "$o" genoverlay /repo/blend "$PWD/out/overlay.json" "$PWD/out/overlay-gen.json" "$PWD/out/gen" &&
      (cd harness && go build -overlay "$VERIF_ROOT/out/overlay-gen.json" -ldflags "-X verif/vk.archName=generated" -o "$o.generated" "./cmd/$1"); } >out/build-generated.log 2>&1; then
      cat out/build-generated.log >&2
      echo "the generators fail, or what they write can not be built, while the committed files can"
      echo "VIOLATION property=X06 replay=$VERIF_ROOT/out/build-generated.log"
      exit 1
    fi
  elif [ "$2" = wasm ]; then
    (cd harness && GOOS=js GOARCH=wasm go build "${OVERLAY[@]}" -o "$o.wasm" "./cmd/$1") >out/build-$1.log 2>&1
  else
    (cd harness && go build "${OVERLAY[@]}" -o "$o" "./cmd/$1") >out/build-$1.log 2>&1
  fi
  local rc=$?
  if [ $rc -ne 0 ]; then
    echo "BUILD FAILED: $1 $2" >&2
    cat out/build-$1.log >&2
    exit 2
  fi
}
exporter() {
  (cd harness && go build "${OVERLAY[@]}" -o "$VERIF_ROOT/out/bin/psdexporter" github.com/oov/psd/psdexporter) >out/build-exporter.log 2>&1 || {
    echo "BUILD FAILED: psdexporter" >&2; cat out/build-exporter.log >&2; exit 2; }
}
target() {
  case "$1" in
    M*|X02|X04) echo vcomp;;
    *) echo vmain;;
  esac
}
case "$1" in
  build)
    for t in vmain vcomp; do for v in "" race 386 wasm; do build $t $v; done; done
    build vmain gopherjs
    (build vmain generated) || true
    exporter
    exit 0;;
  replay)
    t=$(target "$2"); build $t
    [ "$2" = E01 ] && exporter
    if out/bin/$t israce "$2"; then build $t race; exec out/bin/$t.race replay "$3"; fi
    a=$(out/bin/$t arch "$2")
    case "$a" in
      wasm) build $t wasm; exec node --stack-size=8192 "$VERIF_WASM_EXEC" out/bin/$t.wasm replay "$3";;
      ?*) build $t $a; exec out/bin/$t.$a replay "$3";;
    esac
    exec out/bin/$t replay "$3";;
esac
t=$(target "$1"); build $t
[ "$1" = E01 ] && exporter
if out/bin/$t israce "$1"; then build $t race; fi
a=$(out/bin/$t arch "$1")
if [ -n "$a" ]; then build $t $a; fi
exec out/bin/$t run "$1"

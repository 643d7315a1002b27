#!/bin/bash
# build.sh PROPERTY WORKDIR OUTPUT
# Instruments /repo's packages into WORKDIR and links them with the harness
# that decides PROPERTY.
set -eu
prop=$1 work=$2 out=$3
here=$(cd "$(dirname "$0")/.." && pwd)
repo=${VERIF_REPO:-/repo}
export GOFLAGS= GOWORK=off GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local CGO_ENABLED=0 GO111MODULE=on
export HOME=${HOME:-/root}
mkdir -p "$work"
race=
group=a
pkgs="chunk control handshake spec"
case $prop in
C26) race=-race group=b;;
C21|C22|C23|C24|C25) group=b;;
esac
plain=
if [ $group = b ]; then
	pkgs="chunk control handshake spec client server cmd/conn cmd/data cmd/stream cmd"
	pkgs=$(cd "$repo" && for p in $pkgs; do ls $p/*.go >/dev/null 2>&1 && echo $p; done)
	plain="-plain github.com/WatchBeam/amf0=$here/stubs/amf0"
fi
(cd "$here/instr" && go build -trimpath -o "$work/instr" .)
"$work/instr" -mod github.com/WatchBeam/rtmp -src "$repo" -out "$work/rtmp" $race $plain $pkgs
[ -f "$work/rtmp/go.mod" ] || printf 'module github.com/WatchBeam/rtmp\n\ngo 1.27\n' >"$work/rtmp/go.mod"
mkdir -p "$work/build"
cat >"$work/build/go.mod" <<M
module build

go 1.27

require (
	github.com/WatchBeam/amf0 v0.0.0
	github.com/WatchBeam/rtmp v0.0.0
	verif/harness v0.0.0
	verif/sim v0.0.0
)

replace (
	github.com/WatchBeam/amf0 => $here/stubs/amf0
	github.com/WatchBeam/rtmp => $work/rtmp
	verif/harness => $here/harness
	verif/sim => $here/sim
)
M
cd "$work/build"
[ $group = b ] && tags=cmd || tags=
go build -trimpath -tags "$tags" -o "$out" verif/harness/a

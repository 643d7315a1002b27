#!/bin/bash
# Offline, once in a fresh sandbox: checks that the instrumenter and the
# simulator build and pass their own tests. Checks build what they need.
set -eu
here=$(cd "$(dirname "$0")/.." && pwd)
export GOFLAGS= GOWORK=off GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local CGO_ENABLED=0 GO111MODULE=on
(cd "$here/sim" && go vet . && go test . )
(cd "$here/instr" && go build -o /dev/null .)

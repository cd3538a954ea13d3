#!/bin/bash
# run.sh <property>: build the checker if needed and run it on /repo's working tree.
cd "$(dirname "$0")" || exit 2
export HOME=${HOME:-/root} PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOSUMDB=off GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod
export GOCACHE=${GOCACHE:-/root/.cache/go-build} GOFLAGS=-mod=mod
mkdir -p bin evidence
(cd checker && go build -o ../bin/chk .) || { echo "checker does not build"; exit 2; }
[ "$1" = build ] && exit 0
exec ./bin/chk -prop "$1" -repo "${REPO:-/repo}" -verif "$PWD"

#!/bin/bash
# Builds the verifier and the replay program from the committed sources (offline).
export HOME=/root GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build GOTOOLCHAIN=local GOFLAGS=-mod=mod GOWORK=off GOPROXY=off
set -e
cd "$(dirname "$0")"
mkdir -p bin out evidence
(cd govc && go build -o ../bin/govc .)
(cd replay && go build -o ../bin/replay .) || echo "replay program not built (it is rebuilt by the checks)"

#!/bin/bash
# Builds the symbolic engine from the committed sources, offline.
cd "$(dirname "$0")/engine" || exit 1
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOWORK=off CGO_ENABLED=0 HOME=/root
unset GOROOT GOEXPERIMENT GOOS GOARCH
if [ -x ../bin/vsymgo ] && [ -z "$(find . -newer ../bin/vsymgo -name '*.go' -o -newer ../bin/vsymgo -name 'go.*')" ]; then exit 0; fi
mkdir -p ../bin && go build -o ../bin/vsymgo . 

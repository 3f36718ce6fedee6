#!/bin/bash
# Builds the engine (idempotent; the go command's cache decides what is stale).
set -e
cd "$(dirname "$0")"
mkdir -p bin work replays evidence
exec 9>work/.lock; flock 9
cd engine
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=0
go build -o ../bin/gosym.new .
if ! cmp -s ../bin/gosym.new ../bin/gosym; then mv -f ../bin/gosym.new ../bin/gosym; else unlink ../bin/gosym.new; fi

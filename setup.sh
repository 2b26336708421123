#!/bin/bash
# Builds the symbolic executor from engine/.
cd "$(dirname "$0")/engine" || exit 3
mkdir -p ../bin
GOPROXY=off GOFLAGS=-mod=mod GOWORK=off go build -o ../bin/gosx .

#!/bin/bash
# Builds the verifier from the committed sources, offline.
set -e
cd "$(dirname "$0")/govc"
mkdir -p ../bin ../evidence ../replays
GOFLAGS=-mod=mod go build -o ../bin/govc .

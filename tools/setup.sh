#!/bin/sh
# builds the verifier from its committed source, offline
set -e
cd "$(dirname "$0")/../govc"
GOFLAGS=-mod=mod GOPROXY=off go build -o ../bin/govc .

#!/bin/bash
# builds the verifier into $1
cd "$(dirname "$0")" && GOFLAGS=-mod=mod GOPROXY=off GONOSUMDB='*' GONOSUMCHECK=1 GOSUMDB=off go build -o "$1" .

#!/bin/bash
# builds the engine
cd "$(dirname "$0")/engine" && GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off go build -o ../bin/engine .

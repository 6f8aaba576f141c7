#!/bin/bash
# builds the verification condition generator from the committed sources
cd "$(dirname "$0")" || exit 1
mkdir -p .bin
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
cd engine && go build -o ../.bin/gocv.tmp . && mv ../.bin/gocv.tmp ../.bin/gocv

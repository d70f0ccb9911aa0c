#!/bin/bash
export PATH=/usr/local/go/bin:$PATH GOPROXY=off GOTOOLCHAIN=local
cd "$(dirname "$0")" && mkdir -p bin && cd engine && GOFLAGS=-mod=mod go build -o ../bin/check ./cmd/check

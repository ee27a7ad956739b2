#!/bin/bash
# Builds the analyser from the committed files, offline.
cd "$(dirname "$0")/tool" || exit 2
export GOFLAGS=-mod=vendor GOPROXY=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=0
mkdir -p ../bin && go build -o ../bin/vtool.$$ . && mv -f ../bin/vtool.$$ ../bin/vtool

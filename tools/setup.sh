#!/bin/bash
# Checks that everything the checks need is there; builds the harness once.
set -e
cd "$(dirname "$0")/.."
mkdir -p .work evidence
cd harness
GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off go build -o ../.work/hx-setup ./cmd/hx
rm -f ../.work/hx-setup
java -version >/dev/null 2>&1
test -f /opt/veriftools/tla/tla2tools.jar
echo setup ok

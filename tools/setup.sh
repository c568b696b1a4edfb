#!/bin/bash
# Warms the Go build cache and checks that the tools are there. Every check builds what it needs itself.
set -e
cd "$(dirname "$0")/.."
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
command -v go java python3 >/dev/null
test -f /opt/veriftools/tla/tla2tools.jar
(cd /repo && go build ./riblt ./lt ./iblt ./ldpc ./des ./newsim ./simulator ./node) || true
rm -rf .work
mkdir -p .work evidence

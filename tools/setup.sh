#!/bin/bash
# Setup: checks that the framework builds from the committed files (every
# check builds what it needs itself; nothing has to be left behind).
cd "$(dirname "$0")/.." || exit 1
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
mkdir -p evidence replays
T=$(mktemp -d /tmp/log4g-setup.XXXXXX) || exit 1
(cd mc/instr && go build -buildvcs=false -o "$T/instr" .)
rc=$?
rm -rf "$T"
exit $rc

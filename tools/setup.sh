#!/bin/bash
# Checks that the tools are there; the checks build everything else themselves.
set -e
java -version >/dev/null 2>&1
test -r /opt/veriftools/tla/tla2tools.jar
gcc --version >/dev/null
go version >/dev/null
mkdir -p "$(dirname "$0")/../evidence"
echo ok

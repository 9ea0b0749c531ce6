#!/bin/bash
# Nothing to install: the checks build the harness from /repo themselves. Only looks whether the tools are there.
set -e
for t in java python3 node protoc g++ ninja; do command -v $t > /dev/null || { echo "missing: $t"; exit 1; }; done
test -x /opt/vp/cmake322/bin/cmake
test -f /opt/veriftools/tla/tla2tools.jar

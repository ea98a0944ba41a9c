#!/bin/bash
# Nothing needs to be installed: every check builds its driver from /repo's working tree.  This only
# verifies that the tools are there.
set -e
cd "$(dirname "$0")"
for t in java g++ ninja python3; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
test -f /opt/veriftools/tla/tla2tools.jar
mkdir -p evidence

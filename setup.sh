#!/bin/bash
# Nothing needs to be built ahead: every check compiles what it needs from
# /repo's working tree.  Only make sure that the tools are there.
set -e
cd "$(dirname "$0")"
mkdir -p build out evidence
java -version >/dev/null 2>&1
test -f /opt/veriftools/tla/tla2tools.jar
python3 -c "import json"
g++ --version >/dev/null
echo ready

#!/bin/bash
# Nothing has to be built ahead: every check compiles its harness from /repo's
# current tree.  Fails early when a tool is missing.
set -e
cd "$(dirname "$0")/.."
mkdir -p evidence
for t in java clang++-18 g++ python3 python3-vt; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
test -f /opt/veriftools/tla/tla2tools.jar
test -f /opt/veriftools/tla/CommunityModules-deps.jar
echo "setup ok"

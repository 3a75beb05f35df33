#!/bin/bash
# Verifies that the tools are there; everything else is built by the checks themselves from /repo's current tree.
set -e
cd "$(dirname "$0")/.."
java -version 2>/dev/null; g++ --version >/dev/null; clang++ --version >/dev/null
test -f /opt/veriftools/tla/tla2tools.jar
mkdir -p evidence replays

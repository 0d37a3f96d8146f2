#!/bin/bash
# Nothing is prebuilt: every check compiles its driver from /repo's working tree.  This only verifies the toolchain.
set -e
cd "$(dirname "$0")/.."
java -cp /opt/veriftools/tla/tla2tools.jar tlc2.TLC -h >/dev/null 2>&1 || true
g++ --version >/dev/null
python3 -c 'import sys; sys.path.insert(0,"bin"); import registry'
mkdir -p evidence out

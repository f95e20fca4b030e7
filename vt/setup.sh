#!/bin/bash
# Confirms the tools and builds the path-wise engine ahead; every check compiles /repo's current sources itself.
set -e
cd "$(dirname "$0")/.."
for t in goto-cc goto-instrument cbmc gcc g++ objcopy python3 clang llvm-link-18 opt-18 llvm-config-18 llvm-extract-18 llvm-nm-18; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
mkdir -p evidence build replays
cbmc --version
python3 vt/run.py --build-engine

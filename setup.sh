#!/bin/sh
# nothing is prebuilt: every check extracts, verifies and compiles from /repo's working tree
set -e
cd "$(dirname "$0")"
mkdir -p build evidence replays
verus --version >/dev/null
clang++ --version >/dev/null

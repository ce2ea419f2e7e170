#!/bin/bash
# Nothing to pre-build: every check builds from /repo's working tree. Verify that the tools it needs are present.
set -e
cd "$(dirname "$0")/.."
mkdir -p .build evidence
g++ --version | head -1
clang++ --version | head -1
python3 --version

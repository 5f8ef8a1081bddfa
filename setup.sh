#!/bin/bash
# Nothing to fetch: check that the tools the checks need are there.
set -e
cd "$(dirname "$0")"
mkdir -p evidence replay .work
python3-vt -c 'import z3, numpy; print("z3", z3.get_version_string())'
/usr/lib/llvm-18/bin/clang++ --version | head -1
g++ --version | head -1
